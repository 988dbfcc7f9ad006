"""C27: a system is the same however it is put together.

Specification: spec/Assembly.tla (the histories), spec/EnergySystem.tla (what
the system does).
"""

import logging
import os
import random
import sys
import warnings
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import tlc  # noqa: E402

LOOSE = ("source", "sink")


def order(s):
    """the nodes as the specification counts them"""
    bus = [n for n in s.nodes if n["kind"] == "bus"]
    tied = [n for n in s.nodes if n["kind"] != "bus" and n["kind"] not in LOOSE]
    return bus + tied + [n for n in s.nodes if n["kind"] in LOOSE]


def shape(s):
    kinds = [n["kind"] for n in s.nodes]
    return kinds.count("bus"), len(kinds), sum(map(kinds.count, LOOSE))


class Different(Exception):
    pass


def assemble(s, hist):
    """(system, {name: node}) put together as the history says"""
    import build
    import oemof.solph as solph

    es, made, kept = build.empty(s), {}, {}
    names = {i + 1: n for i, n in enumerate(order(s))}
    open_ = []  # flows whose other end does not exist yet: (from, to, flow number)

    def put(n, p, label, side):
        lab, parent = n["label"], made.get(names[p]["label"]) if p else None
        own = {"seen": lab, "n": [1, 2]}
        kept[lab] = own

        def new(cls, **kw):
            kw["custom_properties"] = dict(own)
            if label == "local":
                return parent.subnode(cls, ("inner", lab), **kw)
            if parent is not None:
                kw["parent_node"] = parent
            return cls(label=lab if label == "text" else ("verif", lab, 7), **kw)

        if n["kind"] == "bus":
            now = [x for x in open_ if lab in x[:2] and ({x[0], x[1]} - {lab}) <= set(made)]
            now += [(b, lab, f) for b, f in n["ins"] if b in made and b != lab]
            made[lab] = new(solph.Bus, balanced=n["balanced"],
                            inputs={made[a]: build.flow(s.flows[f][2]) for a, b, f in now if b == lab},
                            outputs={made[b]: build.flow(s.flows[f][2]) for a, b, f in now if a == lab})
            open_[:] = [x for x in open_ if x not in now]
            open_.extend((b, lab, f) for b, f in n["ins"] if b not in made)
        elif side == "bus":
            made[lab] = (new(solph.components.Source, outputs={}) if n["kind"] == "source"
                         else new(solph.components.Sink, inputs={}))
            for b, f in n["ins"]:
                if b in made:
                    made[b].outputs[made[lab]] = build.flow(s.flows[f][2])
                else:
                    open_.append((b, lab, f))
            for b, f in n["outs"]:
                if b in made:
                    made[b].inputs[made[lab]] = build.flow(s.flows[f][2])
                else:
                    open_.append((lab, b, f))
        else:
            made[lab] = build.make(s, n, made, new)

    for k, e in enumerate(hist):
        a = e["act"]
        node = lambda i: made[names[i]["label"]]
        if a["name"] == "make":
            put(names[a["n"]], a["p"], a["label"], a["side"])
        elif a["name"] == "adopt":
            node(a["p"]).add(node(a["n"]))
        else:
            es.add(*[node(i) for i in a["q"]])
        want = {id(node(i)) for i in e["within"]}
        have = [id(n) for n in es.nodes]
        if set(have) != want or len(have) != len(want):
            raise Different(f"nodes of the system after {a['name']}")
    assert not open_
    for lab, n in made.items():
        if n.custom_properties != kept[lab]:
            raise Different("properties of the node " + type(n).__name__)
        if es.node.get(n.label) is not n:
            raise Different("the node under its label")
    return es, made


_S = None


def work(args):
    import build
    import fingerprint as fp

    k, hists = args
    s = _S[k]
    warnings.simplefilter("ignore")
    logging.disable(logging.ERROR)
    es, made = build.energysystem(s)
    x = fp.matrix(build.model(s, es, made).m, made)
    digest, support = fp.digest(x), None
    bad, same = [], 0
    for h in hists:
        try:
            es, made = assemble(s, h)
            y = fp.matrix(build.model(s, es, made).m, made)
        except Different as e:
            what = str(e)
        except Exception as e:
            what = f"not built: {type(e).__name__}: {e}"[:200]
        else:
            if fp.digest(y) == digest:
                same += 1
                continue
            if support is None:
                support = fp.support(x, 20)
            if fp.same_support(support, fp.support(y, 20)):
                continue
            what = "another model"
        bad.append(dict(system=s.name, verdict=what.split(":")[0], key="|".join(["assembly", what.split(":")[0], s.name]),
                        clauses=["assembly"], text=what, history=h))
    return dict(bad=bad, same=same, asked=len(hists))


def run(seed, tier, log):
    global _S
    import notation

    rng = random.Random(f"assembly:{seed}")
    every = notation.subjects(seed, tier)
    by = {}
    for s in every:
        b, n, _ = shape(s)
        if n <= 12:
            by.setdefault(shape(s), []).append(s)
    shapes = sorted(by, key=lambda x: (-len(by[x]), x))[:14 if tier == "quick" else 40]
    kinds = {n["kind"] for s in every for n in s.nodes}
    for k in sorted(kinds):  # every kind of node
        have = [x for x in by if any(n["kind"] == k for s in by[x] for n in s.nodes)]
        if have and not set(have) & set(shapes):
            shapes.append(have[0])
    states = 0

    def histories(x):
        env = dict(VERIF_BUSES=str(x[0]), VERIF_NODES=str(x[1]), VERIF_LOOSE=str(x[2]))
        if x[1] <= 3:
            out, st = tlc.run("MCAssembly", env=env, workers=2)
        else:
            out, st = tlc.run("MCAssembly", env=env, workers=1, heap="2g", args=(
                "-simulate", f"num={30 if tier == 'quick' else 300}", "-depth", str(3 * x[1] + 4), "-seed", str(seed)))
        return tlc.lines(out, "HIST"), st

    from concurrent.futures import ThreadPoolExecutor

    tlc.workdir()
    with ThreadPoolExecutor(8) as ex:
        got = dict(zip(shapes, ex.map(histories, shapes)))
    tasks, _S = [], []
    for x in shapes:
        hists, st = got[x]
        states += st["states"]
        rng.shuffle(hists)
        total = 100 if tier == "quick" else 2000
        if x[1] <= 3:
            total *= 5
        # every kind of node, and as many systems as possible
        ss = by[x][:]
        rng.shuffle(ss)
        ss = ss[:12 if tier == "quick" else 100]
        for i, s in enumerate(ss):
            part = hists[i * max(1, total // len(ss)):(i + 1) * max(1, total // len(ss))] or hists[:3]
            tasks.append((len(_S), part))
            _S.append(s)
    log(f"{len(shapes)} shapes, {len(_S)} systems, {sum(len(h) for _, h in tasks)} histories")
    with Pool(8) as pool:
        res = pool.map(work, tasks, chunksize=1)
    bad = [b for r in res for b in r["bad"]]
    return dict(violations=bad, coverage=dict(
        states=states, transitions=states, traces_validated_against_impl=sum(r["asked"] for r in res),
        systems_assembled=sum(r["asked"] for r in res), kinds_of_nodes=len({n["kind"] for s in _S for n in s.nodes}),
        identical_models=sum(r["same"] for r in res)))
