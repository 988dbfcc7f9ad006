"""Keep one planted change: check it and store it as seeded/<id>/.

usage: plant.py FILE.py     (FILE defines ID, PROP, NEEDS, BREAKS, EDITS, DEMO)

EDITS is a list of (file under /repo, old text, new text).  The change is made
in /repo, checked (builds, existing tests, demonstration, the check of its
property) and taken back again.
"""

import json
import os
import runpy
import stat
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PYTHON = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(
        cmd, shell=True, text=True, capture_output=True, **kw
    )


def restore():
    sh("git -C /repo checkout -- .")


def main(path, checks=True):
    d = runpy.run_path(path)
    out = os.path.join(HERE, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "demo.py"), "w") as f:
        f.write(d["DEMO"].lstrip())
    with open(os.path.join(out, "demo.sh"), "w") as f:
        f.write(
            "#!/bin/bash\n"
            "# exit 0: as it should be; nonzero: broken\n"
            "export HOME=${HOME:-/root} LANG=C.UTF-8 MPLBACKEND=Agg\n"
            "export PYTHONDONTWRITEBYTECODE=1\n"
            'export PATH="/opt/venv/bin:$PATH"\n'
            'work=$(mktemp -d) || exit 3\n'
            'trap \'rm -rf "$work"\' EXIT\n'
            'here=$(cd "$(dirname "$0")" && pwd)\n'
            'cd "$work" || exit 3\n'
            '/opt/venv/bin/python "$here/demo.py"\n'
        )
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "meta.json"), "w") as f:
        json.dump(
            {
                "property": d["PROP"],
                "needs": d["NEEDS"],
                "what_it_breaks": d["BREAKS"],
            },
            f,
            indent=1,
        )
        f.write("\n")
    if sh("git -C /repo status --porcelain").stdout.strip():
        print("repo is not clean")
        return 2
    ok = True
    r = sh(f"bash {out}/demo.sh", cwd=REPO, timeout=300)
    print("demo clean:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
    ok &= r.returncode == 0
    try:
        for name, old, new in d["EDITS"]:
            p = os.path.join(REPO, name)
            text = open(p).read()
            if text.count(old) != 1:
                print("edit matches", text.count(old), "times:", old[:60])
                return 2
            open(p, "w").write(text.replace(old, new))
        patch = sh("git -C /repo diff").stdout
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        r = sh("bash /opt/vp/build.sh", cwd=REPO)
        if r.returncode:
            print("does not build", r.stdout[-500:], r.stderr[-500:])
            return 2
        r = sh(f"bash {out}/demo.sh", cwd=REPO, timeout=300)
        print("demo bug:", r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok &= r.returncode != 0
        with tempfile.TemporaryDirectory() as tmp:
            sh(f"bash /opt/vp/test.sh {tmp}/o.json", cwd=REPO)
            res = json.load(open(f"{tmp}/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        bad = sorted(set(stable) - set(res["passed"]))
        print("tests broken:", len(bad), bad[:5])
        ok &= not bad
        caught = None
        if ok and checks:
            r = sh(f"{HERE}/check {d['PROP']} quick", cwd=HERE, timeout=900)
            lines = [
                s for s in r.stdout.splitlines() if s.startswith("VIOLATION")
            ]
            caught = r.returncode == 1 and any(
                f"property={d['PROP']} " in s for s in lines
            )
            print("check:", r.returncode, r.stdout[-600:])
            if r.returncode not in (0, 1):
                print(r.stderr[-1500:])
    finally:
        restore()
        sh("bash /opt/vp/build.sh", cwd=REPO)
    print(d["ID"], "VALID" if ok else "INVALID", "CAUGHT" if caught else "-")
    if not ok:
        sh(f"rm -rf /verif/seeded/{d['ID']}")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], "--no-check" not in sys.argv))
