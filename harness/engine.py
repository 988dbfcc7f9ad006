"""The conformance engine shared by the dispatch / investment checks.

explore   TLC enumerates every behaviour of the specification for the systems
          (spec/Explore.tla) and checks the specification's invariants.
replay    every behaviour (or a seeded sample) is put to the model that solph
          builds: it has to be feasible there, at the same cost.
probe     the real model is asked about plans the specification did not
          produce: random move sequences, perturbed behaviours and vertices of
          the real feasible region (random objectives).  The recorded answers
          are validated by TLC against spec/Replay.tla.
"""

import json
import os
import random
import time
import traceback
from fractions import Fraction as Fr
from multiprocessing import Pool
from random import Random

import tlc
from config import rat

QUICK = dict(behaviours=250, randoms=150, perturbed=120, vertices=40)
THOROUGH = dict(behaviours=4000, randoms=2500, perturbed=1500, vertices=500)


def moves_from_grid(s, spec, grid, extra=()):
    """All combinations of the grid values that satisfy bus balances and
    component relations at some time step: a search space for TLC, which
    decides what is allowed.  grid: {(src, dst) or flow index: values}."""
    n = len(s.flows)
    vals = []
    for f in range(n):
        key = (s.flows[f][0], s.flows[f][1])
        vals.append([Fr(x) for x in grid.get(key, grid.get(f, (0, 1, 2)))])
    checks = [[] for _ in range(n)]  # checks[f]: predicates decidable once flows 0..f are set

    def add(fs, fn):
        if fs:
            checks[max(fs)].append(fn)

    q = lambda x: Fr(x)
    T = s.T
    for b in spec["buses"]:
        if b["balanced"]:
            add([f - 1 for f in b["ins"] + b["outs"]], lambda v, b=b: sum(v[f - 1] for f in b["ins"])
                == sum(v[f - 1] for f in b["outs"]))
    for c in spec["convs"]:
        for i in c["ins"]:
            for o in c["outs"]:
                add([i["f"] - 1, o["f"] - 1], lambda v, i=i, o=o: any(
                    v[i["f"] - 1] * q(o["cf"][t]) == v[o["f"] - 1] * q(i["cf"][t]) for t in range(T)))
    for c in spec["links"]:
        for j in c["conns"]:
            add([j["fi"] - 1, j["fo"] - 1], lambda v, j=j: any(
                v[j["fo"] - 1] == q(j["cf"][t]) * v[j["fi"] - 1] for t in range(T)))
    for c in spec["extracts"]:
        add([c["fin"] - 1, c["main"] - 1, c["tap"] - 1], lambda v, c=c: any(
            v[c["fin"] - 1] * q(c["full"][t]) == v[c["main"] - 1] + v[c["tap"] - 1]
            * (q(c["full"][t]) - q(c["cmain"][t])) / q(c["ctap"][t]) for t in range(T)))
    out = []

    def rec(f, v):
        if f == n:
            out.append(list(v))
            return
        for x in vals[f]:
            v.append(x)
            if all(c(v) for c in checks[f]):
                rec(f + 1, v)
            v.pop()

    rec(0, [])
    out += [list(map(Fr, e)) for e in extra]
    ncs = [f for f in range(n) if s.flows[f][2].get("nc") is not None]
    res = []
    for v in out:
        sts = [[]]
        for f in range(n):
            sts = [x + [y] for x in sts for y in ((0, 1) if f in ncs else (0,))]
        for st in sts:
            if all(offset_ok(c, v, st, s, spec) for c in spec["offs"]):
                res.append((v, st))
    return res


def offset_ok(c, v, st, s, spec):
    f = c["ref"] - 1
    nom = spec["flows"][f]["nom"]
    if nom == "":
        return True
    nom, d = Fr(nom), spec["flows"][f]

    def holds(o, t):
        x, y = v[f], v[o["f"] - 1]
        if not o["etaMax"]:
            return y == x * Fr(o["cf"][t]) + st[f] * nom * Fr(o["off"][t])
        lo, hi, a, b = Fr(d["min"][t]), Fr(d["max"][t]), Fr(o["etaMin"][t]), Fr(o["etaMax"][t])
        ylo, yhi = (lo * a, hi * b) if c["atInput"] else (lo / a, hi / b)
        return (y - st[f] * nom * ylo) * (hi - lo) == (x - st[f] * nom * lo) * (yhi - ylo)

    return all(any(holds(o, t) for t in range(s.T)) for o in c["others"])


def thin(moves, cap, rng):
    """at most cap moves, keeping every value of every flow"""
    if len(moves) <= cap:
        return moves
    moves = list(moves)
    rng.shuffle(moves)
    need = {(f, x) for v, _ in moves for f, x in enumerate(v)}
    keep, rest = [], []
    for m in moves:
        new = {(f, x) for f, x in enumerate(m[0])} & need
        (keep if new else rest).append(m)
        need -= new
    keep = (keep + rest)[:max(cap, len(keep))]
    return sorted(keep)


class Job:
    """a system, its moves and plans"""

    def __init__(self, s, grid, plans=None, extra=(), cap=120, sync=False, order=None, raw=None, status=None,
                 random=False):
        self.s = s
        self.spec = s.spec()
        self.order = order
        self.random = random
        self.moves = moves_from_grid(s, self.spec, grid, extra) if grid else []
        if raw:  # flow values as they are
            self.moves = [([Fr(x) for x in v], status[i] if status else [0] * len(v)) for i, v in enumerate(raw)]
        if sync:  # on exactly when the flow is not zero
            ncs = [f for f in range(len(s.flows)) if s.flows[f][2].get("nc") is not None]
            self.moves = [(v, st) for v, st in self.moves if all((v[f] != 0) == bool(st[f]) for f in ncs)]
        self.moves = thin(self.moves, cap, Random(s.name))
        nu, P = len(self.spec["units"]), s.P
        if plans is None:
            plans = [dict()]
        full = []
        for p in plans:
            d = dict(inv=p.get("inv", [[0] * P for _ in range(nu)]),
                     ist=p.get("ist", [[0] * P for _ in range(nu)]),
                     lv=p.get("lv", [Fr(x["init"] or 0) * Fr(x["nom"] or 0) for x in self.spec["stores"]]))
            full.append(d)
        self.plans = full
        self.spec["moves"] = [dict(v=[rat(x) for x in v], st=st) for v, st in self.moves]
        self.spec["plans"] = [dict(inv=[[rat(x) for x in r] for r in p["inv"]], ist=p["ist"],
                                   lv=[rat(x) for x in p["lv"]]) for p in full]

    def plan(self, h):
        p = self.plans[h[0] - 1]
        return dict(inv=p["inv"], ist=p["ist"], lv0=p["lv"],
                    steps=[self.moves[i - 1] for i in h[1:]])


def explore(jobs, timeout=800):
    some = [k for k, j in enumerate(jobs) if not j.random]
    beh = [dict() for _ in jobs]
    st = dict(states=0, distinct=0, behaviours=0)
    if not some:
        return beh, st
    configs = [jobs[k].spec for k in some]
    out, st = tlc.run("MCTsamExplore" if jobs[0].s.N else "MCExplore", {"VERIF_CONFIGS": configs}, timeout=timeout)
    for b in tlc.lines(out, "BEH"):
        beh[some[b["c"] - 1]][tuple(b["h"])] = (b["cost"], b["late"])
    st["behaviours"] = sum(map(len, beh))
    return beh, st


def case(c, plan, ans):
    steps = []
    for t, (v, st) in enumerate(plan["steps"]):
        lv = [] if "lv" not in ans else [rat(Fr(float(x)).limit_denominator(10 ** 7)) for x in ans["lv"][t + 1]]
        steps.append(dict(v=[rat(x) for x in v], st=list(st), lv=lv))
    return dict(c=c, ok=ans["ok"],
                obj=rat(Fr(ans["obj"]).limit_denominator(10 ** 7)) if ans["ok"] else "",
                rec=[[rat(Fr(float(x)).limit_denominator(10 ** 7)) for x in r] for r in ans.get("rec", [])],
                inv=[[rat(x) for x in r] for r in plan["inv"]], ist=plan["ist"],
                lv0=[rat(x) for x in plan["lv0"]], steps=steps)


def _close(a, b):
    return abs(a - b) <= 1e-5 * (1 + abs(a))


_JOBS = None


def _work(args):
    k, beh, seed, lim = args
    job = _JOBS[k]
    try:
        return _probe_job(k, job, beh, seed, lim)
    except Exception:
        return dict(k=k, error=traceback.format_exc())


def _probe_job(k, job, beh, seed, lim):
    import build
    from probe import Probe

    s = job.s
    rng = random.Random(f"{seed}:{s.name}")
    try:
        b = build.model(s, order=job.order)
        pr = Probe(b)
    except Exception as e:  # the real code does not build this system
        return dict(k=k, bad=[dict(verdict="build", clauses=[type(e).__name__ + ": " + str(e)[:300]],
                                   plan=None)], cases=[], plans=[], asked=0, replayed=0,
                    unstable=0, accepted=0)
    bad, cases, plans = [], [], []
    keys = sorted(beh)
    if len(keys) > lim["behaviours"]:
        keys = rng.sample(keys, lim["behaviours"])
    replayed = 0
    for h in keys:
        cost, late = beh[h]
        plan = job.plan(h)
        a = pr.ask(plan)
        replayed += 1
        if not a["ok"]:
            if not late:
                bad.append(dict(verdict="rejected", clauses=[], plan=show(job, plan), spec=cost))
        elif not _close(float(Fr(cost)), a["obj"]):
            bad.append(dict(verdict="cost", clauses=[], plan=show(job, plan), spec=cost, code=a["obj"]))
    seen, close = set(), []

    def put(plan):
        key = json.dumps(show(job, plan), sort_keys=True)
        if key in seen:
            return
        seen.add(key)
        a = pr.ask(plan)
        if not a["ok"] and pr.almost(plan):  # closer to a limit than comparisons can tell
            close.append(1)
            return
        c = case(k + 1, plan, a)
        if s.N:  # what is reported on the original time axis
            c["rep"] = []
            if a["ok"] and sum(len(x["rep"]) for x in cases) < lim.get("reports", 8):
                c["rep"] = [s.report(b, pr, rng)]
        cases.append(c)
        plans.append(show(job, plan))
        return a

    # vertices of the real feasible region
    unstable = 0
    found = []
    for _ in range(lim["vertices"]):
        cost = {}
        for key in pr.plan_vars:
            if rng.random() < 0.7:
                cost[key] = rng.randint(-5, 5)
        r = pr.optimum(cost)
        if r is None:
            continue
        a = put(r[0])
        if a is not None and not a["ok"]:
            unstable += 1
            cases.pop()
            plans.pop()
        elif a is not None:
            found.append(r[0])
    # random sequences of moves under random plans
    if job.moves:
        for _ in range(lim["randoms"]):
            p = rng.choice(job.plans)
            if beh and rng.random() < 0.5:
                h = list(rng.choice(keys))
                j = rng.randrange(1, len(h))
                h[j] = rng.randrange(len(job.moves)) + 1
                put(job.plan(h))
            else:
                put(dict(inv=p["inv"], ist=p["ist"], lv0=p["lv"],
                         steps=[rng.choice(job.moves) for _ in range(s.T)]))
    # points between two vertices
    if job.random and len(found) > 1:
        for _ in range(lim["vertices"]):
            put(between(*rng.sample(found, 2)))
    # single-value perturbations of behaviours and plans
    if beh or found:
        for _ in range(lim["perturbed"] if beh else lim["vertices"]):
            plan = job.plan(rng.choice(keys)) if beh else rng.choice(found)
            steps = [(list(v), list(st)) for v, st in plan["steps"]]
            kind = rng.random()
            inv = [list(r) for r in plan["inv"]]
            ist = [list(r) for r in plan["ist"]]
            lv0 = list(plan["lv0"])
            if kind < 0.15 and inv:
                u = rng.randrange(len(inv))
                p = rng.randrange(s.P)
                inv[u][p] = Fr(inv[u][p]) + rng.choice([-2, -1, Fr(1, 2), 1, 2])
            elif kind < 0.2 and ist:
                u = rng.randrange(len(ist))
                if s.units[u]["nc"]:
                    p = rng.randrange(s.P)
                    ist[u][p] = 1 - ist[u][p]
            elif kind < 0.3 and lv0:
                i = rng.randrange(len(lv0))
                lv0[i] = Fr(lv0[i]) + rng.choice([-1, Fr(1, 2), 1])
            else:
                t = rng.randrange(s.T)
                f = rng.randrange(len(s.flows))
                if s.flows[f][2].get("nc") is not None and rng.random() < 0.4:
                    steps[t][1][f] = 1 - steps[t][1][f]
                else:
                    steps[t][0][f] = steps[t][0][f] + rng.choice([-2, -1, Fr(-1, 2), Fr(1, 2), 1, 2])
            put(dict(inv=inv, ist=ist, lv0=lv0, steps=steps))
    return dict(k=k, bad=bad, cases=cases, plans=plans, asked=pr.queries, replayed=replayed,
                unstable=unstable + len(close), accepted=sum(c["ok"] for c in cases))


def between(a, b):
    """half of each, with the states of the first"""
    half = lambda x, y: (Fr(x) + Fr(y)) / 2
    row = lambda x, y: [half(u, v) for u, v in zip(x, y)]
    return dict(inv=[row(x, y) for x, y in zip(a["inv"], b["inv"])], ist=a["ist"], lv0=row(a["lv0"], b["lv0"]),
                steps=[(row(v, w), list(st)) for (v, st), (w, _) in zip(a["steps"], b["steps"])])


def show(job, plan):
    f = lambda x: str(Fr(x))
    return dict(inv=[[f(x) for x in r] for r in plan["inv"]], ist=plan["ist"],
                lv0=[f(x) for x in plan["lv0"]],
                steps=[dict(v=[f(x) for x in v], st=list(st)) for v, st in plan["steps"]])


def conformance(jobs, seed=1, tier="quick", limits=None, procs=8, log=lambda *_: None):
    """returns dict(violations=[...], coverage={...})"""
    global _JOBS
    lim = dict(QUICK if tier == "quick" else THOROUGH)
    lim.update(limits or {})
    t0 = time.time()
    for j in jobs:  # what the nodes are called does not matter
        j.s.labels = random.Random(f"{seed}:{j.s.name}:labels").choice((None, None, "named", "tuple", "number"))
    beh, st = explore(jobs)
    log(f"explore: {st} {time.time() - t0:.1f}s")
    _JOBS = jobs
    with Pool(procs) as pool:
        res = pool.map(_work, [(k, beh[k], seed, lim) for k in range(len(jobs))], chunksize=1)
    for r in res:
        if "error" in r:
            raise RuntimeError(r["error"])
    log(f"probe: {time.time() - t0:.1f}s")
    violations = []
    cases, where = [], []
    for r in res:
        for b in r["bad"]:
            violations.append(dict(system=jobs[r["k"]].s.name, **b))
        for c, p in zip(r["cases"], r["plans"]):
            cases.append(c)
            where.append((r["k"], p))
    st2 = dict(states=0, distinct=0)
    if cases:
        configs = [dict(j.spec, moves=[], plans=[]) for j in jobs]
        out, st2 = tlc.run("MCTsamReplay" if jobs[0].s.N else "MCReplay", {"VERIF_CONFIGS": configs, "VERIF_CASES": cases})
        expect = sum(jobs[k].s.T + 3 + (jobs[k].s.N + 1 if jobs[k].s.N else 0) for k, _ in where)
        if st2["distinct"] != expect:
            raise RuntimeError(f"replay visited {st2['distinct']} states, expected {expect}")
        for x in tlc.lines(out, "BAD"):
            k, p = where[x["k"] - 1]
            violations.append(dict(system=jobs[k].s.name, verdict=x["verdict"], clauses=sorted(x["clauses"]),
                                   plan=p, spec=x["spec"], code=x["code"]))
    log(f"replay: {st2} {time.time() - t0:.1f}s")
    asked = sum(r["asked"] for r in res)
    rep = sum(r["replayed"] for r in res)
    cov = dict(
        states=st["distinct"] + st2["distinct"], transitions=st["states"] + st2["states"],
        traces_validated_against_impl=rep + len(cases),
        systems=len(jobs), behaviours_of_spec=st["behaviours"], behaviours_replayed=rep,
        probes_validated=len(cases), probes_accepted_by_code=sum(r["accepted"] for r in res),
        solver_queries=asked, dropped_unstable_vertices=sum(r["unstable"] for r in res),
        samples=[dict(system=jobs[k].s.name, plan=p, code="feasible" if c["ok"] else "infeasible",
                      objective=c["obj"]) for (k, p), c in list(zip(where, cases))[:3]])
    return dict(violations=violations, coverage=cov)
