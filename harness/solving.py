"""C26: what solving reports.  Specifications: spec/Solving.tla, spec/SolverStatus.tla,
and spec/EnergySystem.tla for the operation that is reported."""

import os
import random
import sys
import warnings
from fractions import Fraction as Fr
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import tlc  # noqa: E402
from config import rat  # noqa: E402

OPTIONS = {"preprocess": "off"}  # the preprocessing of this cbc loses solutions


def num(x):
    return rat(Fr(float(x)).limit_denominator(10 ** 7))


# ------------------------------------------------- histories of one small model
class World:
    def __init__(self, d):
        import build  # noqa: F401 (sets the import path)
        from oemof import solph

        self.solph = solph
        F = solph.Flow
        bus = solph.Bus(label="bus")
        sold = solph.Bus(label="sold", balanced=False)
        em = {"emission_factor": 1}
        a = solph.components.Source(label="a", outputs={bus: F(nominal_capacity=4, variable_costs=2.25, custom_attributes=em)})
        b = solph.components.Source(label="b", outputs={bus: F(
            nominal_capacity=4, minimum=0.5, variable_costs=1, nonconvex=solph.NonConvex(activity_costs=3), custom_attributes=em)})
        g = solph.components.Source(label="g", outputs={bus: F(variable_costs=5, custom_attributes=em)})
        e = solph.components.Converter(label="e", inputs={bus: F(nominal_capacity=1, variable_costs=-6)}, outputs={sold: F()})
        load = solph.components.Sink(label="l", inputs={bus: F(nominal_capacity=1, fix=list(d))})
        self.n = dict(a=a, b=b, g=g, e=e, l=load, bus=bus)
        self.es = solph.EnergySystem(timeindex=solph.create_time_index(2020, number=2), infer_last_interval=False)
        self.es.add(bus, sold, a, b, g, e, load)
        self.m = solph.Model(self.es)
        self.limit = None
        self.kept = []

    def pair(self, k):
        return (self.n["bus"], self.n[k]) if k in "el" else (self.n[k], self.n["bus"])

    def act(self, x):
        import pyomo.environ as po

        m = self.m
        if x["name"] == "demand":
            m.flow[(*self.pair("l"), x["i"] - 1)].fix(x["v"])
        elif x["name"] == "open":
            for t in m.TIMESTEPS:
                m.flow[(*self.pair("e"), t)].setub(None if x["v"] else 1)
        elif x["name"] == "limit":
            if self.limit is None:
                old = set(m.component_map(po.Constraint))
                self.solph.constraints.emission_limit(m, limit=11)
                self.limit = [c for n, c in m.component_map(po.Constraint).items() if n not in old]
            else:
                for c in self.limit:
                    (c.activate if x["v"] else c.deactivate)()
        elif x["name"] == "relax":
            m.relax_problem()
        elif x["name"] == "duals":
            m.receive_duals()
        else:
            raise ValueError(x)

    def read(self, r):
        flow, status = r["flow"], r["status"]
        plan = [{k: num(flow[self.pair(k)].iloc[t]) for k in "abgel"} for t in (0, 1)]
        for t in (0, 1):
            plan[t]["y"] = num(status[self.pair("b")].iloc[t])
        return dict(objective=num(r["objective"]), plan=plan)

    def solve(self, allow):
        from oemof.solph import processing as P

        m, r, o = self.m, None, dict(warned=False, kept=[])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = m.solve(allow_nonoptimal=allow, cmdline_options=OPTIONS)
            except RuntimeError as ex:
                if "optimal" not in str(ex):
                    raise
                o["kind"] = "error"
            o["warned"] = any(x.category is UserWarning and "optimal" in str(x.message) for x in w)
        if r is not None:
            o["kind"] = "results" if isinstance(r, self.solph.Results) else "raw" if r is m.solver_results else type(r).__name__
        o["term"] = str(m.es.results.Solver.Termination_condition)
        o["last"] = m.es.results is m.solver_results
        if o["kind"] == "results":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o.update(self.read(r))
                meta = P.meta_results(m)
                o["meta"] = num(meta["objective"])
                undef = P.meta_results(m, undefined=True)
                for part in ("problem", "solver"):
                    # what the solver leaves undefined is listed on request only
                    assert not [k for k, v in meta[part].items() if str(v) == "<undefined>"], "undefined entries"
                    left = {k for k, v in m.es.results[part][0].items() if str(v) == "<undefined>"}
                    assert left <= set(undef[part]) and set(meta[part]) <= set(undef[part]) - left, "undefined entries"
                o["last"] = o["last"] and str(meta["solver"]["Termination condition"]) == o["term"]
                res = P.results(m)
                seq = {k: res[self.pair(k)]["sequences"] for k in "abgel"}
                o["processed"] = [dict({k: num(seq[k]["flow"].iloc[t]) for k in seq}, y=num(seq["b"]["status"].iloc[t]))
                                  for t in (0, 1)]
                bal = res.get((self.n["bus"], None), {}).get("sequences")
                o["duals"] = [] if bal is None or "duals" not in bal else [num(x) for x in bal["duals"].iloc[:2]]
        o["kept"] = [self.read(x) for x in self.kept]
        if o["kind"] == "results":
            self.kept.append(r)
        return o


HISTORIES = []


def _history(i):
    h = HISTORIES[i]
    w = World(h[0]["act"]["d"])
    out = []
    for x in h:
        if x["act"]["name"] == "build":
            continue
        if x["act"]["name"] == "solve":
            try:
                out.append(dict(x, obs=w.solve(x["act"]["allow"])))
            except Exception as e:
                return out, f"{type(e).__name__}: {e}"[:120]
        else:
            w.act(x["act"])
            out.append(x)
    return out, None


def describe(h):
    return " ".join(x["act"]["name"] + "".join(f":{v}" for k, v in x["act"].items() if k != "name") for x in h)


def histories(seed, tier, log):
    quick = tier == "quick"
    rng = random.Random(f"solving:{seed}")
    out, st = tlc.run("MCSolving", {"VERIF_LEN": "4" if quick else "5"})
    short = sorted(tlc.lines(out, "HIST"), key=str)
    states, trans = st["distinct"], st["states"]
    hs = rng.sample(short, 150 if quick else 4000)
    for n, length in ((12, 8), (12, 14)) if quick else ((60, 8), (60, 14), (60, 25)):
        out, s2 = tlc.run("MCSolving", {"VERIF_LEN": str(length)},
                          args=("-simulate", f"num={n}", "-depth", str(length + 2), "-seed", str(seed)))
        got = sorted(tlc.lines(out, "HIST"), key=str)
        hs += rng.sample(got, min(len(got), 60 if quick else 1500))
        states += s2["distinct"]
        trans += s2["states"]
    HISTORIES[:] = hs
    with Pool(8) as pool:
        res = pool.map(_history, range(len(hs)), chunksize=4)
    violations = [dict(key=f"histories|failed|{e}", system="histories", verdict="failed", clauses=[e], history=describe(h))
                  for h, (_, e) in zip(hs, res) if e]
    good = [(h, r) for h, (r, e) in zip(hs, res) if not e]
    n = sum(x["act"]["name"] == "solve" for _, r in good for x in r)
    log(f"{len(hs)} histories, {n} times solved")
    out, s3 = tlc.run("SolvingReplay", {"VERIF_CASES": [dict(steps=r) for _, r in good]})
    if s3["distinct"] != sum(1 + len(r) for _, r in good):
        raise RuntimeError("not every history was judged")
    for b in tlc.lines(out, "BAD"):
        r = good[b["k"] - 1][1]
        violations.append(dict(key="histories|" + ",".join(sorted(b["clauses"])), system="histories", verdict="report",
                               clauses=sorted(b["clauses"]), history=describe(r[:b["j"]]), now=r[b["j"] - 1]["now"],
                               spec=r[b["j"] - 1]["report"], code=r[b["j"] - 1]["obs"]))
    cov = dict(histories=len(hs), solved=n, samples=[describe(h) for h in hs[-3:]])
    return violations, cov, states + s3["distinct"], trans + s3["states"], len(good)


# ------------------------------------------ whatever a solver answers (Attempts.tla)
def fake_solver():
    """a solver that says what it is told to say"""
    from pyomo.opt import SolverFactory, SolverResults, SolverStatus, TerminationCondition

    @SolverFactory.register("verif_told", doc="answers as told")
    class Told:
        tell = None
        heard = None

        def __init__(self, **kw):
            self.options = {}
            Told.io = kw.get("solver_io")

        def available(self, exception_flag=True):
            return True

        def solve(self, model, **kw):
            x = Told.tell
            Told.heard = tuple(sorted(f"{k}={v}" for k, v in d.items()) for d in (self.options, kw))
            for (i, o, t), var in model.flow.items():
                if not var.fixed:
                    var.set_value(x["v"], skip_validation=True)
            r = SolverResults()
            r.solver.status = SolverStatus(x["s"])
            r.solver.termination_condition = TerminationCondition(x["c"])
            return r

    return Told


def given(pairs):
    """{name: value} of "name=value" """
    value = dict(zip(("True", "False"), (True, False)))
    return {k: value[v] if v in value else int(v) for k, v in (p.split("=") for p in pairs)}


def _attempts(h):
    import build  # noqa: F401
    from oemof import solph

    told = fake_solver()
    bus = solph.Bus(label="bus")
    es = solph.EnergySystem(timeindex=solph.create_time_index(2020, number=1), infer_last_interval=False)
    es.add(bus, solph.components.Source(label="s", outputs={bus: solph.Flow(variable_costs=5)}),
           solph.components.Sink(label="d", inputs={bus: solph.Flow()}))
    m = solph.Model(es)
    kept, out = [], []

    def read(r):
        v = {float(x) for x in r["flow"].values.ravel()}
        return dict(v=int(v.pop()) if len(v) == 1 else 0, objective=int(r["objective"]))

    for x in h:
        told.tell = x
        o, r = dict(kind="error", v=0, objective=0), None
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                r = m.solve(solver="verif_told", allow_nonoptimal=x["allow"], solve_kwargs=given(x["kwargs"]),
                            cmdline_options=given(x["options"]))
            except RuntimeError:
                pass
            o["warned"] = any(y.category is UserWarning and "optimal" in str(y.message) for y in w)
        if r is not None:
            o["kind"] = "results" if isinstance(r, solph.Results) else "raw" if r is m.solver_results else type(r).__name__
        o["last"] = (m.es.results is m.solver_results and str(m.solver_results.solver.status) == x["s"]
                     and str(m.solver_results.solver.termination_condition) == x["c"])
        o["options"], o["kwargs"] = told.heard
        o["kept"] = [read(y) for y in kept]
        if o["kind"] == "results":
            o.update(read(r))
            kept.append(r)
        out.append(dict(x, obs=o))
    return out


def attempts(seed, tier, log):
    quick = tier == "quick"
    rng = random.Random(f"attempts:{seed}")
    hs, states, trans = [], 0, 0
    out, st = tlc.run("MCAttempts", {"VERIF_LEN": "1"})
    hs += sorted(tlc.lines(out, "HIST"), key=str)
    states += st["distinct"]
    trans += st["states"]
    out, st = tlc.run("MCAttempts", {"VERIF_LEN": "2"})
    hs += rng.sample(sorted(tlc.lines(out, "HIST"), key=str), 600 if quick else 20000)
    states += st["distinct"]
    trans += st["states"]
    out, st = tlc.run("MCAttempts", {"VERIF_LEN": "5"}, workers=1,
                      args=("-simulate", f"num={10 if quick else 100}", "-depth", "7", "-seed", str(seed)))
    got = sorted(tlc.lines(out, "HIST"), key=str)
    hs += rng.sample(got, min(len(got), 300 if quick else 5000))
    states += st["distinct"]
    trans += st["states"]
    with Pool(8) as pool:
        res = pool.map(_attempts, hs, chunksize=16)
    n = sum(map(len, res))
    log(f"{len(hs)} sequences of {n} attempts")
    out, st = tlc.run("AttemptsReplay", {"VERIF_CASES": res})
    if st["distinct"] != sum(1 + len(r) for r in res):
        raise RuntimeError("not every attempt was judged")
    violations = []
    for b in tlc.lines(out, "BAD"):
        r = res[b["k"] - 1][:b["j"]]
        violations.append(dict(key="attempts|" + ",".join(sorted(b["clauses"])), system="attempts", verdict="report",
                               clauses=sorted(b["clauses"]), attempts=r))
    return violations, dict(attempts=n), states + st["distinct"], trans + st["states"], len(hs)


# ----------------------------------------------- the operation that is reported
JOBS = []


def plan_of(b):
    """the plan the variables hold"""
    import build

    s = b.s
    R = lambda v: Fr(float(v.value or 0)).limit_denominator(10 ** 6)
    nc = lambda f: s.flows[f][2].get("nc") is not None
    units = sorted(s.unit_of.items(), key=lambda x: x[1])
    return dict(
        inv=[[R(build.var_invest(b, k, p)) for p in range(s.P)] for k, _ in units],
        ist=[[int(round(R(build.var_invest_status(b, k, p)))) if s.units[u - 1]["nc"] else 0 for p in range(s.P)] for k, u in units],
        lv0=[R(build.var_level(b, lab, 0)) for lab in sorted(s.store_of, key=s.store_of.get)],
        steps=[([R(build.var_flow(b, f, t)) for f in range(len(s.flows))],
                [int(round(R(build.var_status(b, f, t)))) if nc(f) else 0 for f in range(len(s.flows))])
               for t in range(s.T)])


def levels_of(b):
    import build

    s = b.s
    return [[float(build.var_level(b, lab, tp).value or 0) for lab in sorted(s.store_of, key=s.store_of.get)]
            for tp in range(s.T + 1)]


def _operation(i):
    import build
    from probe import Probe

    from oemof import solph
    from pyomo.common.errors import ApplicationError

    j = JOBS[i]
    out = dict(i=i, bad=[], cases=[], plans=[])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = build.model(j.s)
        try:
            r = b.m.solve(allow_nonoptimal=True, cmdline_options=OPTIONS)
        except ApplicationError:  # the solver itself crashed
            out["failed"] = "crash of the solver"
            return out
        except (ValueError, RuntimeError) as ex:
            out["failed"] = str(ex)[:80]
            out["bad"].append(dict(verdict="failed", clauses=[out["failed"]]))
            return out
        pr = Probe(build.model(j.s))
        best = pr.optimum(None, box=None)
        if not isinstance(r, solph.Results):
            out["none"] = str(r.Solver.Termination_condition)
            if best is not None:
                out["bad"].append(dict(verdict="nothing", clauses=[out["none"]], objective=best[1]))
            return out
        obj = float(r["objective"])
        plan = plan_of(b)
        whole = all(v.value is None or not (v.is_integer() or v.is_binary()) or abs(v.value - round(v.value)) < 1e-6
                    for v in b.m.component_data_objects(build_var()))
        if not whole:
            out["bad"].append(dict(verdict="fractional", clauses=[], objective=obj))
        out["cases"].append((plan, dict(ok=True, obj=obj) if j.s.N else dict(ok=True, obj=obj, lv=levels_of(b))))
        if best is None:
            out["bad"].append(dict(verdict="unknown", clauses=[], objective=obj))
            return out
        a = pr.ask(best[0])
        if a["ok"]:
            out["cases"].append((best[0], a))
            out["best"] = a["obj"]
        out["objective"] = obj
        # without integrality everything that was possible is still possible, at the same cost
        b2 = build.model(j.s)
        b2.m.relax_problem()
        rel = Probe(b2)
        rel.h.setOptionValue("primal_feasibility_tolerance", 1e-5)  # of mixed integer programs it is wider
        if any(rel.integ):
            out["bad"].append(dict(verdict="unrelaxed", clauses=[]))
        if not j.s.N:
            out["certificate"] = certificate(build.model(j.s))
        for p, x in out["cases"]:
            if not pr.ask(p)["ok"]:  # (a reported operation may be off by the solver's tolerance)
                continue
            y = rel.ask(p)
            if not y["ok"] or y["obj"] > x["obj"] + 1e-5 * (1 + abs(x["obj"])):
                out["bad"].append(dict(verdict="narrowed", clauses=[], objective=x["obj"], relaxed=y.get("obj")))
    return out


def certificate(b):
    """the linear program, its solution and dual values; None if it has integers"""
    import pyomo.environ as po
    from pyomo.common.errors import ApplicationError
    from pyomo.repn.plugins.standard_form import LinearStandardFormCompiler

    m = b.m
    if any(not v.fixed and (v.is_integer() or v.is_binary()) for v in m.component_data_objects(po.Var)):
        return None
    if any(m.component_data_objects(po.SOSConstraint)):
        return None
    m.receive_duals()
    try:
        r = m.solve(allow_nonoptimal=True, cmdline_options=OPTIONS)
    except ApplicationError:
        return None
    if r is m.solver_results:
        return None
    sf = LinearStandardFormCompiler().write(m, mixed_form=True)
    A = sf.A.tocsr()
    c = sf.c.toarray().reshape(-1)
    B = lambda x: "" if x is None else rat(Fr(x))
    rows, at = [], [[] for _ in sf.columns]
    for i, (con, bt) in enumerate(sf.rows):
        s = -1 if bt < 0 else 1
        a = []
        for n in range(A.indptr[i], A.indptr[i + 1]):
            v = rat(Fr(s * float(A.data[n])))
            a.append(dict(j=int(A.indices[n]) + 1, v=v))
            at[A.indices[n]].append(dict(i=i + 1, v=v))
        rows.append(dict(name=con.name, eq=bt == 0, rhs=rat(Fr(s * float(sf.rhs[i]))), a=a, y=num(s * m.dual.get(con, 0))))
    cols = [dict(name=v.name, lo=B(v.lb), hi=B(v.ub), c=rat(Fr(float(c[n]))), x=num(v.value)) for n, v in enumerate(sf.columns)]
    return dict(rows=rows, cols=cols, at=at)


def build_var():
    import pyomo.environ as po

    return po.Var


def operations(seed, tier, log):
    import check
    import engine
    import systems
    import tsam

    rng = random.Random(f"operations:{seed}")
    JOBS[:] = []
    for prop, fams in check.FAMILIES.items():
        for fam in fams:
            jobs = getattr(systems, fam)(random.Random(f"{seed}"), "quick")
            JOBS.extend(rng.sample(jobs, min(len(jobs), 6 if tier == "quick" else 100)))
        JOBS.extend(systems.random_systems(f"{seed}:{prop}:C26", tier, prop)[:4 if tier == "quick" else 40])
    for fn in (tsam.operation, tsam.segments, tsam.weights, tsam.investments, tsam.anything):
        jobs = fn(random.Random(f"{seed}"), "quick")
        JOBS.extend(rng.sample(jobs, min(len(jobs), 4 if tier == "quick" else 40)))
    with Pool(8) as pool:
        res = pool.map(_operation, range(len(JOBS)), chunksize=1)
    violations, cases, where = [], [], []
    wrong, states, trans, judged = {}, 0, 0, 0
    for r in res:
        for v in r["bad"]:
            violations.append(dict(system=JOBS[r["i"]].s.name, key=f"operation|{v['verdict']}", **v))
    for spec in ("MCReplay", "MCTsamReplay"):  # every time axis by the specification it belongs to
        ks = [i for i, j in enumerate(JOBS) if bool(j.s.N) == (spec == "MCTsamReplay")]
        number = {i: n + 1 for n, i in enumerate(ks)}
        cases, where = [], []
        for r in res:
            for what, (p, a) in zip(("reported", "cheapest"), r["cases"]):
                if r["i"] in number:
                    cases.append(dict(engine.case(number[r["i"]], p, a), rep=[]))
                    where.append((r, what, p))
        configs = [dict(JOBS[i].spec, moves=[], plans=[]) for i in ks]
        out, st = tlc.run(spec, {"VERIF_CONFIGS": configs, "VERIF_CASES": cases})
        ss = [JOBS[r["i"]].s for r, _, _ in where]
        if st["distinct"] != sum(s.T + 3 + (s.N + 1 if s.N else 0) for s in ss):
            raise RuntimeError("not every operation was judged")
        states, trans, judged = states + st["distinct"], trans + st["states"], judged + len(cases)
        for x in tlc.lines(out, "BAD"):
            r, what, p = where[x["k"] - 1]
            wrong[r["i"], what] = x
            if what == "reported":
                violations.append(dict(key=f"operation|{x['verdict']}|{','.join(sorted(x['clauses']))}", system=JOBS[r["i"]].s.name,
                                       verdict=x["verdict"], clauses=sorted(x["clauses"]), plan=engine.show(JOBS[r["i"]], p),
                                       spec=x["spec"], code=x["code"]))
    better = 0
    for r in res:
        if "best" in r and (r["i"], "cheapest") not in wrong:
            better += 1
            if r["best"] < r["objective"] - 1e-5 * (1 + abs(r["objective"])):
                violations.append(dict(key="operation|cheaper", system=JOBS[r["i"]].s.name, verdict="cheaper", clauses=[],
                                       reported=r["objective"], possible=r["best"]))
    certs = [r for r in res if r.get("certificate")]
    out, st2 = tlc.run("Certificate", {"VERIF_CASES": [r["certificate"] for r in certs]})
    for x in tlc.lines(out, "BAD"):
        r = certs[x["k"] - 1]
        violations.append(dict(key="operation|duals", system=JOBS[r["i"]].s.name, verdict="duals", clauses=[],
                               rows=x["rows"][:5], cols=x["cols"][:5]))
    ends = {}
    for r in res:
        k = r.get("none") or r.get("failed") or "optimal"
        ends[k] = ends.get(k, 0) + 1
    log(f"{len(JOBS)} systems solved: {ends}, {better} compared with another optimum, {len(certs)} certified by dual values")
    return violations, dict(systems=len(JOBS), ends=ends, certified=len(certs)), states + st2["distinct"], trans + st2["states"], judged


def run(seed, tier, log):
    parts = [histories(seed, tier, log), attempts(seed, tier, log), operations(seed, tier, log)]
    cov = {}
    for p in parts:
        cov.update(p[1])
    return dict(violations=sum((p[0] for p in parts), []), coverage=dict(
        cov, states=sum(p[2] for p in parts), transitions=sum(p[3] for p in parts),
        traces_validated_against_impl=sum(p[4] for p in parts)))
