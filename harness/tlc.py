"""Running TLC from a check: compile the Rat override once per process into a
scratch directory, run a model, return its output and state counts."""

import atexit
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"

_work = None


class TLCError(Exception):
    pass


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="verif-tlc-")
        atexit.register(shutil.rmtree, _work, True)
        os.mkdir(os.path.join(_work, "cls"))
        subprocess.run(
            ["javac", "-nowarn", "-d", os.path.join(_work, "cls"), "-cp", f"{JAR}:{CM}",
             *sorted(glob.glob(os.path.join(SPEC, "java", "*.java")))], check=True, capture_output=True)
    return _work


_n = 0


def run(module, env=None, cfg=None, workers=8, args=(), timeout=800, heap="8g"):
    """Run spec/<module>.tla; returns (stdout, dict(states, distinct, ok))."""
    global _n
    w = workdir()
    _n += 1
    meta = os.path.join(w, f"meta{_n}")
    tmp = os.path.join(w, f"tmp{_n}")
    os.mkdir(tmp)
    e = dict(os.environ)
    files = {}
    for k, v in (env or {}).items():
        if not isinstance(v, str):
            p = os.path.join(w, f"{k}{_n}.json")
            with open(p, "w") as fh:
                json.dump(v, fh)
            v = p
            files[k] = p
        e[k] = v
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-Djava.io.tmpdir={tmp}",
           "-cp", f"{w}/cls:{JAR}:{CM}", "tlc2.TLC", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args,
           os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=w)
    finally:
        shutil.rmtree(meta, True)
        shutil.rmtree(tmp, True)
    for f in files.values():
        os.unlink(f)
    out = p.stdout
    if "-simulate" in args:
        m = re.search(r"The number of states generated: (\d+)", out)
        if not m or "Error:" in out:
            raise TLCError(f"TLC {module} exit {p.returncode}:\n" + out[-6000:] + p.stderr[-2000:])
        return out, dict(states=int(m.group(1)), distinct=int(m.group(1)))
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if "No error has been found" not in out or not m:
        raise TLCError(f"TLC {module} exit {p.returncode}:\n" + out[-6000:] + p.stderr[-2000:])
    return out, dict(states=int(m.group(1)), distinct=int(m.group(2)))


def lines(out, tag):
    """JSON payloads of PrintT(tag \\o ToJson(..)) lines"""
    r = []
    for ln in out.splitlines():
        if ln.startswith('"' + tag + " "):
            r.append(json.loads(json.loads(ln)[len(tag) + 1:]))
    return r
