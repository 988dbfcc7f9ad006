"""C23, C24: what is done with systems and models over time.
Specification: spec/Lifecycle.tla."""

import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from fractions import Fraction as Fr

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


# ------------------------------------------------------------------ worlds
def worlds(seed, tier):
    """systems of the energy system specification, each with a component that may be added later"""
    import check
    import systems

    rng = random.Random(f"worlds:{seed}")
    out = []
    for fams in check.FAMILIES.values():
        for name in fams:
            got = [j.s for j in getattr(systems, name)(random.Random(f"{seed}"), "quick")]
            rng.shuffle(got)
            out += [(name, s) for s in got[:5 if tier == "quick" else 40]]
    import tsam

    for fn in (tsam.operation, tsam.weights, tsam.segments, tsam.investments, tsam.anything):
        got = [j.s for j in fn(rng, "quick")]
        rng.shuffle(got)
        out += [("tsam", s) for s in got[:3 if tier == "quick" else 12]]
    res = []
    for name, s in out:
        s.family = name
        s.labels = rng.choice((None, None, "named", "tuple"))
        comps = [n["label"] for n in s.nodes if n["kind"] != "bus"]
        if len(comps) >= 2:
            res.append((s, rng.choice(comps)))
            if rng.random() < 0.5:
                t = twin(s)
                res.append((t, res[-1][1]))
                s.twin = t.twin = s.name
    for multi in (False, True):
        for n in (2, 3, 4):
            s = sized(n, multi)
            s.family, s.labels, s.twin = "sized", None, f"sized{int(multi)}"
            res.append((s, "d"))
    return res


def sized(n, multi):
    """a system of constants, for any number of steps (or of periods): alike
    in everything but its length"""
    from config import NC, Fl, Inv, System

    H = Fr(1, 2)
    life = dict(life=3) if multi else {}
    fc = dict(life=3, fc=3) if multi else {}
    if multi:
        s = System(f"sized.periods.{n}", T=n, periods=[(2020 + k, 1, 1) for k in range(n)])
    else:
        s = System(f"sized.{n}", T=n)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(nom=8, vc=3, min=H, max=1, **fc))
    s.source("h", b=Fl(inv=Inv(max=8, ep=3, min=1, **life, **({"fc": 3} if multi else {})), vc=3))
    s.source("on", c=Fl(nom=4, min=H, vc=3, nc=NC(ca=3, ci=1, cs=3, cd=3, gp=H, gn=H)))
    s.conv("v", {"a": Fl(nom=4, vc=1)}, {"b": Fl(vc=1), "c": Fl()}, cf={"a": 1, "b": H, "c": H})
    s.storage("st", {"b": Fl(nom=4, vc=H)}, {"b": Fl(nom=4, vc=H)}, nom=4, init=H, bal=True, sc=3, loss=Fr(1, 8), ein=H, eout=H,
              flr=Fr(1, 8), lmin=Fr(1, 8), lmax=1, **({"fc": 3} if multi else {"fla": Fr(1, 8)}))
    s.storage("si", {"c": Fl(nom=4)}, {"c": Fl(nom=4)}, inv=Inv(max=8, ep=3, min=1, **life), bal=True, sc=3, loss=Fr(1, 8), ein=H, eout=H)
    s.sink("x", a=Fl(vc=1), b=Fl(vc=1), c=Fl(vc=1))
    s.sink("d", b=Fl(nom=2, fix=1), c=Fl(nom=2, min=H, vc=-9))
    return s


def twin(s):
    """the same system with other numbers"""
    c = copy.deepcopy(s)
    c.name += ".twin"

    def change(d, fn, *keys):
        for k in keys:
            v = d.get(k)
            if v is not None and not isinstance(v, (bool, str)):
                d[k] = [None if x is None else fn(Fr(x)) for x in v] if isinstance(v, (list, tuple)) else fn(Fr(v))

    double, half = (lambda x: 2 * x), (lambda x: x / 2)
    for _, _, fl in c.flows:
        change(fl, double, "nom", "vc", "fc")
        for d in (fl.get("nc"), fl.get("inv")):
            if d:
                change(d, double, "cs", "cd", "ca", "ci", "max", "ep", "off", "omax")
    for n in c.nodes:
        change(n, double, "nom", "sc")
        change(n, half, "loss", "ein", "eout")
        if n["kind"] in ("converter", "link"):
            change(n["cf"], half, *n["cf"])
        if n["kind"] == "extraction":
            change(n["cf"], half, *n["cf"])
            change(n["full"], half, *n["full"])
        if n["kind"] == "chp":
            change(n["par"], double, "pmin", "pmax")
        if n.get("inv"):
            change(n["inv"], double, "max", "ep", "off", "omax")
    return c


def parts_of(s, ext):
    bus = [n["label"] for n in s.nodes if n["kind"] == "bus"]
    comp = [n["label"] for n in s.nodes if n["kind"] != "bus" and n["label"] != ext]
    return {1: bus, 2: comp, 3: [ext]}


# ------------------------------------------------------------- observation
def canon(x, depth=0):
    """parameters as plain data; nodes are named, not followed"""
    import numpy as np
    import pandas as pd
    from oemof.network.network.entity import Entity
    from oemof.network.network.nodes import Node

    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float, np.number)):
        return float("%.9g" % float(x))
    if isinstance(x, Node):
        return "node " + called(x)
    if type(x).__name__ == "_FakeSequence":
        return ["every", canon(x.value)]
    if isinstance(x, np.ndarray):
        return [canon(v) for v in x.tolist()]
    if isinstance(x, (pd.Index, pd.Series)):
        return [str(v) if not isinstance(v, (int, float)) else canon(v) for v in x.tolist()]
    if isinstance(x, pd.Timestamp):
        return str(x)
    if isinstance(x, (list, tuple)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((canon(v, depth + 1) for v in x), key=str)
    if hasattr(x, "items"):
        return sorted(([canon(k), canon(v, depth + 1)] for k, v in x.items()), key=str)
    if callable(x):
        return "callable"
    if isinstance(x, Entity) or type(x).__module__.startswith("oemof."):
        if depth > 8:
            return type(x).__name__
        return [type(x).__name__, public(x, depth + 1)]
    return type(x).__name__


def public(x, depth=0):
    return {k: canon(v, depth) for k, v in sorted(vars(x).items()) if not k.startswith("_")}


def called(x):
    """what a node is called here"""
    x = getattr(x, "label", x)
    return x[1] if isinstance(x, tuple) else str(x)


def snapshot(es):
    """the system as a user sees it"""
    out = dict(type=type(es).__name__)
    out["system"] = {k: canon(v) for k, v in sorted(vars(es).items()) if not k.startswith("_") and k != "results"}
    nodes = {}
    for n in es.nodes:
        nodes[called(n)] = dict(
            type=type(n).__name__, own=public(n),
            ins=sorted([called(i), canon(n.inputs[i])] for i in n.inputs),
            outs=sorted([called(o), canon(n.outputs[o])] for o in n.outputs))
    out["nodes"] = nodes
    return json.loads(json.dumps(out, default=str))


def known_results(res):
    """what processing.results returned, by label"""
    import numpy as np

    out = {}
    for pair, d in res.items():
        key = "|".join("" if a is None else called(a) for a in pair)
        out[key] = {k: [[str(i) for i in d[k].index], [[float("%.6g" % float(v)) if v is not None and not np.isnan(float(v))
                                                        else None for v in np.atleast_1d(r)]
                                                       for r in d[k].values]] for k in sorted(d)}
    return out


def strangers(es, res):
    return [n for pair in res for n in pair if hasattr(n, "label") and es.node.get(n.label) is not n]


def differ(a, b, path=""):
    """where two snapshots differ; attributes that were added do not count"""
    if type(a) is not type(b):
        return path or "."
    if isinstance(a, dict):
        more = set(a) ^ set(b) if not path.endswith(("/own", "/system")) else set(a) - set(b)
        if more:
            return f"{path}: {sorted(more)[:4]}"
        for k in a:
            d = differ(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return path
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} / {b!r}"[:200]


def model_of(s, es, full):
    import build

    made = {called(n): n for n in es.nodes}
    return build.model(s, es=es, made=made, limits=full).m


# ------------------------------------------------------- stage 1: reference
def reference(world):
    import build
    import fingerprint as fp

    s, ext = world
    parts = parts_of(s, ext)
    out = {}
    for key, ps in (("12", (1, 2)), ("123", (1, 2, 3))):
        full = key == "123"
        try:
            es = build.empty(s)
            bus = build.buses(s)
            made = dict(bus)
            for n in s.nodes:
                if n["kind"] != "bus" and (full or n["label"] != ext):
                    made[n["label"]] = build.make(s, n, bus)
            es.add(*[made[x] for p in ps for x in parts[p]])
            before = snapshot(es)
            m = model_of(s, es, full)
            x = fp.matrix(m)
            obj = fp.optimum(fp.highs(x))
            out[key] = dict(snap=before, digest=fp.digest(x), support=fp.support(x), obj=obj)
        except Exception as e:
            out[key] = dict(error=f"{type(e).__name__}: {e}"[:300])
    return out


# --------------------------------------------------------- stage 2: histories
class Mismatch(Exception):
    pass


class Player:
    def __init__(self, pair, refs, rng, scratch):
        import build

        self.build = build
        self.w, self.refs, self.rng, self.scratch = pair, refs, rng, scratch
        self.es, self.bus = {}, {}
        for e in (1, 2):
            s, _ = pair[e - 1]
            self.es[e] = build.empty(s)
            self.bus[e] = None
        self.home = {1: 1, 2: 2}  # which description's objects a slot holds
        self.mods = []
        self.res = {}
        self.file = os.path.join(scratch, "system.dump")
        self.filebus = None
        self.asked = 0

    def ref(self, d, parts):
        return self.refs[d - 1]["123" if 3 in parts else "12"]

    def add(self, e, q, d):
        s, ext = self.w[d - 1]
        parts = parts_of(s, ext)
        if self.bus[e] is None:
            self.bus[e] = self.build.buses(s)
        by = {n["label"]: n for n in s.nodes}
        names = []
        for p in q:
            part = list(parts[p])
            self.rng.shuffle(part)
            names += part
        if self.rng.random() < 0.5:
            self.rng.shuffle(names)
        made = {}
        create = [x for x in names if by[x]["kind"] != "bus"]
        self.rng.shuffle(create)
        for x in create:
            made[x] = self.build.make(s, by[x], self.bus[e])
        objs = [self.bus[e][x] if by[x]["kind"] == "bus" else made[x] for x in names]
        if self.rng.random() < 0.5:
            self.es[e].add(*objs)
        else:
            for o in objs:
                self.es[e].add(o)

    def do(self, h, k):
        import fingerprint as fp
        from oemof import solph

        a = h["act"]
        n = a["name"]
        if n == "add":
            self.add(a["e"], a["q"], h["es"][a["e"] - 1]["d"])
        elif n == "build":
            e = a["e"]
            x = h["mods"][-1]
            s, _ = self.w[x["d"] - 1]
            self.mods.append(dict(m=model_of(s, self.es[e], 3 in x["parts"]), e=e, sol=None))
        elif n == "solve":
            mo = self.mods[a["m"] - 1]
            x = h["mods"][a["m"] - 1]
            mo["m"].solve(solver="cbc", cmdline_options={"preprocess": "off"})
            mo["sol"] = self.values(mo["m"])
            want, got = self.ref(x["d"], x["parts"])["obj"], self.build.solph.Results(mo["m"])["objective"]
            if abs(want - got) > 1e-4 * (1 + abs(want)):
                raise Mismatch(f"solve: {got} instead of {want}")
        elif n == "keep":
            res = solph.processing.results(self.mods[a["m"] - 1]["m"])
            if self.rng.random() < 0.5:
                self.es[a["e"]].results = {"main": res}
            else:
                self.es[a["e"]].results["main"] = res
            self.res[a["m"]] = known_results(res)
        elif n == "dump":
            es = self.es[a["e"]]
            if self.rng.random() < 0.5:
                es.dump(dpath=self.scratch, filename="system.dump")
            else:
                es.dump(filename=self.file, consider_dpath=False)
        elif n == "restore":
            e = a["e"]
            if not a["fresh"] and self.rng.random() < 0.5:
                self.es[e].restore(dpath=self.scratch, filename="system.dump")
            elif not a["fresh"]:
                self.es[e].restore(filename=self.file, consider_dpath=False)
            else:
                self.es[e] = solph.EnergySystem.from_file(self.file)
            self.after_restore(e, h["es"][e - 1])
        self.compare(h)

    def after_restore(self, e, x):
        """the objects that later parts connect to"""
        s, _ = self.w[x["d"] - 1]
        have = {called(n): n for n in self.es[e].nodes}
        bus = {b: have[b] for b in parts_of(*self.w[x["d"] - 1])[1] if b in have}
        # buses that are not part of the system but connected to it
        for n in self.es[e].nodes:
            for o in list(n.inputs) + list(n.outputs):
                bus.setdefault(called(o), o)
        fresh = self.build.buses(s)
        if not bus:
            self.bus[e] = None
            return
        for b in fresh:
            bus.setdefault(b, fresh[b])
        self.bus[e] = bus

    def values(self, m):
        import pyomo.environ as po

        return {v.name: v.value for v in m.component_data_objects(po.Var)}

    def compare(self, h):
        self.asked += 1
        for e in (1, 2):
            x = h["es"][e - 1]
            s, ext = self.w[x["d"] - 1]
            es = self.es[e]
            parts = parts_of(s, ext)
            want = sorted(l for p in x["parts"] for l in parts[p])
            got = sorted(called(n) for n in es.nodes)
            if got != want:
                raise Mismatch(f"nodes: {got} instead of {want}")
            if any(es.node[self.build.label(s, l)] is not [n for n in es.nodes if called(n) == l][0] for l in want):
                raise Mismatch("nodes: not found by their label")
            if {1, 2} <= set(x["parts"]):
                d = differ(self.ref(x["d"], x["parts"])["snap"], snapshot(es))
                if d:
                    raise Mismatch(f"parameters: {d}")
            if x["res"]:
                res = es.results["main"]
                d = differ(self.res[x["res"]], known_results(res))
                if d:
                    raise Mismatch(f"results: {d}")
                if strangers(es, res):
                    raise Mismatch("results: of nodes that are not in the system")
        for i, x in enumerate(h["mods"]):
            mo = self.mods[i]
            if mo["sol"] is not None and self.values(mo["m"]) != mo["sol"]:
                raise Mismatch("solution: changed afterwards")
        self.check_models(h, [len(h["mods"]) - 1] if h["act"]["name"] == "build" else [])

    def check_models(self, h, which):
        import fingerprint as fp

        for i in which:
            x = h["mods"][i]
            r = self.ref(x["d"], x["parts"])
            mat = fp.matrix(self.mods[i]["m"])
            if fp.digest(mat) != r["digest"] and not fp.same_support(fp.support(mat), r["support"]):
                raise Mismatch("model: other operations or other costs")


def play(job, worlds_, refs):
    rng = random.Random(job["seed"])
    pair = [worlds_[i] for i in job["pair"]]
    rf = [refs[i] for i in job["pair"]]
    scratch = job["scratch"]
    os.makedirs(scratch, exist_ok=True)
    try:
        p = Player(pair, rf, rng, scratch)
        k = -1
        for k, h in enumerate(job["hist"]):
            p.do(h, k)
        p.check_models(job["hist"][-1], range(len(p.mods)))
    except Mismatch as e:
        return dict(ok=False, what=str(e).split(":")[0], text=str(e), at=k, world=pair[0][0].name + " / " + pair[1][0].name)
    except Exception as e:
        return dict(ok=False, what="error", text=f"{type(e).__name__}: {e}"[:400], at=k,
                    world=pair[0][0].name + " / " + pair[1][0].name)
    out = dict(ok=True, builds=len(p.mods), compared=p.asked)
    d = None
    for h in job["hist"]:
        if h["act"]["name"] == "dump":
            x = h["es"][h["act"]["e"] - 1]
            d = dict(d=x["d"], parts=x["parts"], res=p.res.get(x["res"]))
    out["dumped"] = d
    return out


def reload_(job, worlds_, refs):
    """stage 3: a dump is restored in another process"""
    import fingerprint as fp
    import build

    x = job["dumped"]
    s, ext = worlds_[job["pair"][x["d"] - 1]]
    ref = refs[job["pair"][x["d"] - 1]]
    try:
        es = build.solph.EnergySystem()
        if job["seed"].endswith("0"):
            es = build.solph.EnergySystem.from_file(os.path.join(job["scratch"], "system.dump"))
        else:
            es.add(build.solph.Bus(label="something else"))
            es.restore(dpath=job["scratch"], filename="system.dump")
        parts = parts_of(s, ext)
        want = sorted(l for p in x["parts"] for l in parts[p])
        got = sorted(called(n) for n in es.nodes)
        if want != got:
            raise Mismatch(f"nodes: {got} instead of {want}")
        if {1, 2} <= set(x["parts"]):
            r = ref["123" if 3 in x["parts"] else "12"]
            d = differ(r["snap"], snapshot(es))
            if d:
                raise Mismatch(f"parameters: {d}")
            mat = fp.matrix(model_of(s, es, 3 in x["parts"]))
            if fp.digest(mat) != r["digest"] and not fp.same_support(fp.support(mat), r["support"]):
                raise Mismatch("model: other operations or other costs")
        if x["res"] is not None:
            d = differ(x["res"], known_results(es.results['main']))
            if d:
                raise Mismatch(f"results: {d}")
            if strangers(es, es.results["main"]):
                raise Mismatch("results: of nodes that are not in the system")
        return dict(ok=True)
    except Mismatch as e:
        return dict(ok=False, what=str(e).split(":")[0], text=str(e), at="reload", world=s.name)
    except Exception as e:
        return dict(ok=False, what="error", text=f"{type(e).__name__}: {e}"[:400], at="reload", world=s.name)


# ----------------------------------------------------------------- workers
def worker(path):
    """python lifecycle.py PATH: {stage, worlds, tasks} -> PATH.out"""
    import dill

    with open(path, "rb") as fh:
        w = dill.load(fh)
    out = []
    for t in w["tasks"]:
        if w["stage"] == "reference":
            out.append(reference(t))
        elif w["stage"] == "play":
            out.append(play(t, w["worlds"], w["refs"]))
        else:
            out.append(reload_(t, w["worlds"], w["refs"]))
    with open(path + ".out", "w") as fh:
        json.dump(out, fh)


def spread(stage, tasks, extra, work, salt, procs=8):
    """run the tasks in processes that hash differently"""
    import dill

    ps = []
    for i in range(procs):
        path = os.path.join(work, f"{stage}{i}")
        with open(path, "wb") as fh:
            dill.dump(dict(stage=stage, tasks=tasks[i::procs], **extra), fh, recurse=False)
        env = dict(os.environ, PYTHONHASHSEED=str(salt + i), OMP_NUM_THREADS="1")
        ps.append((path, subprocess.Popen([sys.executable, os.path.abspath(__file__), path], env=env,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    out = [None] * len(tasks)
    for i, (path, p) in enumerate(ps):
        err = p.communicate()[1]
        if p.returncode:
            raise RuntimeError(err.decode()[-3000:])
        with open(path + ".out") as fh:
            out[i::procs] = json.load(fh)
    return out


def histories(files, seed, tier):
    import tlc

    full, st = tlc.run("MCLifecycle", dict(VERIF_LEN="3" if tier == "quick" else "4", VERIF_FILES=files, VERIF_MODELS="3"))
    short = tlc.lines(full, "HIST")
    num = 1500 if tier == "quick" else 20000
    long_ = []
    states = st["states"]
    for n, length in ((num, 9), (num // 4, 14)):
        out, s2 = tlc.run("MCLifecycle", dict(VERIF_LEN=str(length), VERIF_FILES=files, VERIF_MODELS="4"), workers=1,
                          args=("-simulate", f"num={n}", "-depth", str(length + 1), "-seed", str(seed)))
        states += s2["states"]
        # the last action of a walk is tried in all ways: keep one of them each
        byhead = {}
        for h in tlc.lines(out, "HIST"):
            byhead.setdefault(json.dumps([x["act"] for x in h[:-1]]), []).append(h)
        rng = random.Random(f"{seed}")
        long_ += [rng.choice(v) for _, v in sorted(byhead.items())]
    return short, long_, st, states


def weight(h):
    """histories in which much happens to several models and files"""
    acts = [x["act"]["name"] for x in h]
    return acts.count("build") + 2 * acts.count("solve") + 3 * acts.count("keep") + (2 if "restore" in acts else 0) \
        + (4 if "keep" in acts and "dump" in acts[acts.index("keep"):] else 0)


def run(files, seed, tier, log):
    rng = random.Random(f"{files}:{seed}")
    work = tempfile.mkdtemp(prefix="verif-life-")
    try:
        short, long_, st, states = histories(files, seed, tier)
        log(f"histories: {len(short)} short, {len(long_)} long")
        ws = worlds(seed, tier)
        refs = spread("reference", ws, {}, work, 0)
        good = [i for i, r in enumerate(refs) if all("error" not in r[k] and r[k]["obj"] is not None for k in r)]
        violations = [dict(system=ws[i][0].name, verdict="build", clauses=[r["123"]["error"]])
                      for i, r in enumerate(refs) if "error" in r["123"]]
        log(f"worlds: {len(ws)}, of which {len(good)} solvable with and without their last part")
        n = (160, 340) if tier == "quick" else (2500, 6000)
        rng.shuffle(short)
        long_ = [h for h in long_ if any(x["act"]["name"] == "build" for x in h)]
        if files == "1":
            long_ = [h for h in long_ if any(x["act"]["name"] == "restore" for x in h)]
            short.sort(key=lambda h: not any(x["act"]["name"] == "restore" for x in h))
        long_.sort(key=weight, reverse=True)
        top = long_[:n[1] // 2]
        rest = long_[n[1] // 2:]
        rng.shuffle(rest)
        chosen = short[:n[0]] + top + rest[:n[1] - len(top)]
        order = good[:]
        rng.shuffle(order)
        jobs = []
        sizes = [i for i in good if ws[i][0].family == "sized"]
        log(f"alike but for their length: {len(sizes)}")
        for k, h in enumerate(chosen):
            a = order[k % len(order)]
            # systems that look alike: nodes of the same kinds and labels with other parameters
            like = [i for i in good if i != a and getattr(ws[i][0], "twin", i) == getattr(ws[a][0], "twin", a)] if k % 3 else []
            if k % 3 == 2 or k % 3 == 1 and not like:
                like = [i for i in good if i != a and ws[i][0].family == ws[a][0].family]
            b = rng.choice(like or [i for i in good if i != a] or good)
            if k % 8 == 5 and sizes:  # alike but for their length
                a = rng.choice(sizes)
                b = rng.choice([i for i in sizes if i != a and ws[i][0].twin == ws[a][0].twin] or [b])
            jobs.append(dict(hist=h, pair=[a, b], seed=f"{seed}:{k}", scratch=os.path.join(work, f"s{k}")))
        res = spread("play", jobs, dict(worlds=ws, refs=refs), work, 11)
        log("played")
        again = [dict(j, dumped=r["dumped"]) for j, r in zip(jobs, res) if r["ok"] and r.get("dumped")]
        res2 = spread("reload", again, dict(worlds=ws, refs=refs), work, 31) if again else []
        log(f"restored elsewhere: {len(again)}")
        for j, r in list(zip(jobs, res)) + list(zip(again, res2)):
            if not r["ok"]:
                violations.append(dict(system="history", verdict=r["what"], clauses=[], world=r["world"], text=r["text"], at=r["at"],
                                       history=[x["act"] for x in j["hist"]]))
        cov = dict(states=st["distinct"], transitions=states, traces_validated_against_impl=len(jobs) + len(again),
                   worlds=len(good), histories=len(jobs), models_compared=sum(r.get("builds", 0) for r in res),
                   states_compared=sum(r.get("compared", 0) for r in res), restored_in_other_process=len(again),
                   samples=[[x["act"] for x in j["hist"]] for j in jobs[-3:]])
        return dict(violations=violations, coverage=cov)
    finally:
        shutil.rmtree(work, True)


def purity(seed, tier, log):
    return run("0", seed, tier, log)


def dumps(seed, tier, log):
    return run("1", seed, tier, log)


if __name__ == "__main__":
    worker(sys.argv[1])
