"""C21, C22: what is reported about a solved model.

Specification: spec/Results.tla.  The subject is the valuation of the model's
variables.  Here every variable gets a value of its own (as a solver would
write them), the valuation is read straight from the model, and what the
results object, the processing and the views return is judged by TLC.
"""

import random
import traceback
import warnings
from fractions import Fraction as Fr
from multiprocessing import Pool

import tlc

CLASSES = ("Bus", "Source", "Sink", "Converter", "GenericStorage")
NONE = "<none>"


def num(v):
    if v != v:
        return "nan"
    return str(Fr(float(v)).limit_denominator(10 ** 6))


def val(x):
    """a parameter"""
    return str(x) if isinstance(x, (str, bool)) or x is None or "bool" in type(x).__name__ else num(x)


class Subject:
    """a built model with a valuation"""

    def __init__(self, s, seed, order=None):
        import build
        from pyomo.environ import Var
        from pyomo.opt import SolverResults

        self.s = s
        self.b = b = build.model(s, order=order)
        self.m = m = b.m
        self.rng = rng = random.Random(seed)
        self.text = {k: str(build.label(s, k)) for k in b.nodes}  # what is said where nodes are named by strings
        self.said = {t: k for k, t in self.text.items()}
        self.label = {id(n): k for k, n in b.nodes.items()}
        vs = [v for v in m.component_data_objects(Var)]
        values = list(range(1, len(vs) + 1))
        rng.shuffle(values)
        for v, x in zip(vs, values):
            v.set_value(x, skip_validation=True)
        m.solver_results = m.es.results = SolverResults()
        self.multi = bool(s.periods)
        ti = m.es.timeindex
        self.points = [self.stamp(x) for x in ti]
        self.duals = []
        if rng.random() < 0.5:
            m.receive_duals()
            for i, k in enumerate(getattr(m.BusBlock, "balance", ())):
                m.dual[m.BusBlock.balance[k]] = 100000 + i
                self.duals.append(dict(bus=self.lab(k[0]), t=int(k[1]) + 1, v=num(100000 + i)))
        self.record()

    def stamp(self, x):
        return x.isoformat() if hasattr(x, "isoformat") else num(x)

    def lab(self, n):
        return self.label.get(id(n), "unknown node %s" % n)

    def record(self):
        from pyomo.environ import Var

        m, self.vars, self.skip = self.m, [], set()
        axes = dict(TIMESTEPS="steps", TIMEPOINTS="points", PERIODS="periods")
        for v in m.component_objects(Var):
            name = v.getname()
            axis = axes.get(tuple(v.index_set().subsets())[-1].name)
            cells = []
            for k in v:
                k = k if isinstance(k, tuple) else (k,)
                if axis is None or any(isinstance(x, (str, int, float)) for x in k[:-1]) or not 2 <= len(k) <= 3:
                    self.skip.add(name)
                    break
                cells.append(dict(k=[self.lab(n) for n in k[:-1]], t=int(k[-1]) + 1, v=num(v[k].value)))
            else:
                if cells:  # a variable without members does not exist for anyone
                    self.vars.append(dict(name=name, axis=axis, cells=cells))

    def model(self):
        import build  # noqa: F401
        from oemof import solph

        s, sp = self.s, self.s.spec()
        name = lambda f: list(s.flows[f][:2])
        vc = [dict(k=name(f), c=d["vc"]) for f, d in enumerate(sp["flows"])]
        units = []
        for key, u in s.unit_of.items():
            d = sp["units"][u - 1]
            units.append(dict(k=name(key[1]) if key[0] == "flow" else [key[1]], ep=d["ep"], off=d["off"], nc=d["nc"]))
        isa = {}
        for k, n in self.b.nodes.items():
            isa[k] = [c for c in CLASSES if isinstance(n, getattr(solph, c, None) or getattr(solph.components, c))]
        w = sp["w"]
        if s.N:  # what is rare counts less
            w = [str(Fr(a) * Fr(b)) for a, b in zip(w, sp["occ"])]
        y0 = s.periods[0][0] if s.periods else 0
        return dict(vars=self.vars, points=self.points, T=s.T, multi=self.multi, years=[str(y + y0) for y in s.years],
                    vc=vc, w=w, given=self.given(), units=units, duals=self.duals, isa=isa,
                    solverKeys=[str(k) for k in self.m.solver_results.keys()], objective=num(self.m.objective()))

    def given(self):
        """every value the description states, under its flow or node"""
        import build

        out = []

        def put(k, prefix, kw):
            for a, v in kw.items():
                if v is not None:
                    vs = v if isinstance(v, list) else [v]
                    out.append(dict(k=k, a=prefix + a, list=isinstance(v, list), v=[val(x) for x in vs]))

        for a, z, d in self.s.flows:
            put([a, z], "", build.flow_kw(d))
            if d.get("inv") is not None:
                put([a, z], "investment_", {k: x for k, x in build.investment_kw(d["inv"]).items() if k != "custom_properties"})
        for n in self.s.nodes:
            k = [n["label"], NONE]
            if n["kind"] == "storage":
                # (the capacity is kept under a name that differs)
                kw = build.storage_kw(n)
                if "nominal_capacity" in kw:
                    kw["nominal_storage_capacity"] = kw.pop("nominal_capacity")
                put(k, "", kw)
                if n.get("inv") is not None:
                    put(k, "investment_", {k: x for k, x in build.investment_kw(n["inv"]).items() if k != "custom_properties"})
            elif n["kind"] == "converter":
                put(k, "conversion_factors_", {self.text[b]: build.fl(v) for b, v in n["cf"].items()})
            elif n["kind"] == "bus":
                put(k, "", dict(balanced=n["balanced"]))
            put(k, "", dict(label=self.text[n["label"]]))
        return out

    # -- how tables are read ------------------------------------------------
    def key(self, c):
        return [self.lab(c)] if not isinstance(c, tuple) else [self.lab(x) for x in c]

    def ent(self, k):  # (an index of several levels holds None as NaN)
        return [NONE if x is None or x != x else self.lab(x) for x in k]

    def strent(self, k):
        return [NONE if x is None or x != x or x == "None" else self.said.get(x, x) for x in k]

    def table(self, df):
        return [self.key(c) + [self.stamp(r), num(v)] for c in df.columns for r, v in df[c].items()]

    def processed(self, res, ent=None):
        ent = ent or self.ent
        out = []
        for k, d in res.items():
            e = ent(k)
            for what, x in d.items():
                out += self.part(what, x, lambda c, e=e: (e, c), ent)
        return out

    def part(self, what, x, split, ent):
        out = []
        if what == "sequences":
            for c in x.columns:
                e, n = split(c)
                out += [["seq", *e, n, self.stamp(r), num(v)] for r, v in x[c].items() if n not in self.skip]
        elif what == "scalars":
            for c, v in x.items():
                e, n = split(c)
                if n not in self.skip:
                    out.append(["scalar", *e, n, num(v)])
        elif not x.empty:  # one column per variable, rows are periods
            for n in x.columns:
                for r, v in x[n].items():
                    e, y = split(r)
                    if n not in self.skip and v == v:
                        out.append(["period", *e, n, str(y), num(v)])
        return out

    def view(self, d, multiindex, ent):
        split = (lambda c: (ent(c[:2]), c[2])) if multiindex else (lambda c: (ent(c[0]), c[1]))
        out = []
        for what, x in d.items():
            out += self.part(what, x, split, ent)
        return [r for r in out if r[-1] != "nan"]

    def wide(self, df, split):
        if df is None:
            return []
        return [["seq", *split(c)[0], split(c)[1], self.stamp(r), num(v)] for c in df.columns for r, v in df[c].items()
                if split(c)[1] not in self.skip and v == v]


def ask(obs, q, fn):
    try:
        a = fn()
        a = [[str(x) for x in r] for r in a]
    except Exception as e:
        a = [["raised", type(e).__name__, str(e)[:100], traceback.extract_tb(e.__traceback__)[-1].name]]
    obs.append(dict(q=q, a=a))


def tables(u, obs):
    """C21"""
    from oemof.solph import Results

    r = Results(u.m)
    ask(obs, dict(op="keys"), lambda: [[k] for k in r.keys() if k not in u.skip])
    ask(obs, dict(op="objective"), lambda: [[num(r["objective"])]])
    for v in sorted({v["name"] for v in u.vars} - u.skip):
        ask(obs, dict(op="table", name=v), lambda: u.table(r[v]))
        ask(obs, dict(op="table", name=v), lambda: u.table(r.get(v)))
        ask(obs, dict(op="table", name=v), lambda: u.table(r.to_df(v)))
        ask(obs, dict(op="member", name=v), lambda: [["yes" if v in r else "no"]])
    for n in ("flow_", "nothing", "invest", "storage_content", "status", "objective", "variable_costs",
              "investment_costs", "Solver"):
        ask(obs, dict(op="member", name=n), lambda: [["yes" if n in r else "no"]])
    for n in ("flow_", "storage_content", "invest", "total", "status"):
        def absent(how):
            try:
                x = how(n)
            except KeyError:
                return [["absent"]]
            return u.table(x)
        if n not in u.skip:
            ask(obs, dict(op="table", name=n), lambda: absent(lambda k: r[k]))
            ask(obs, dict(op="table", name=n), lambda: absent(r.to_df))

        def default(k):
            x = r.get(k, 17)
            if isinstance(x, int) and x == 17 and r.get(k) is None:
                raise KeyError
            return x
        if n not in u.skip:
            ask(obs, dict(op="table", name=n), lambda: absent(default))
    ask(obs, dict(op="variable_costs"), lambda: u.table(r["variable_costs"]))
    ask(obs, dict(op="variable_costs"), lambda: u.table(r.get("variable_costs")))
    if u.s.unit_of and "invest" not in u.skip:
        ask(obs, dict(op="investment_costs"), lambda: u.table(r["investment_costs"]))
    if plain(u.s):
        ask(obs, dict(op="breakdown"), lambda: [[num(r["objective"])]])


def plain(s):
    """no costs other than those the breakdown names"""
    sp = s.spec()
    return (not s.periods and not any(f["nc"] for f in sp["flows"])
            and all(c == "0" for st in sp["stores"] for c in st["sc"] + st["fc"])
            and not any(n["kind"] == "pwl" for n in s.nodes))


def processing(u, obs):
    """C22"""
    from oemof.solph import processing as P
    from oemof.solph import views as V
    from oemof import solph

    full = {}
    for last in (False, True):
        def go():
            # (a count of active flows belongs to no node, its entry has its name)
            full[last] = {k: v for k, v in P.results(u.m, remove_last_time_point=not last).items()
                          if not any(isinstance(x, str) for x in k)}
            return u.processed(full[last])
        ask(obs, dict(op="results", last=last), go)
    if True not in full:
        return
    res = full[True]
    ask(obs, dict(op="entries"), lambda: [u.ent(k) for k in res])
    for keep in (False, True):
        box = {}

        def go():
            box["x"] = P.convert_keys_to_strings(res, keep_none_type=keep)
            return [[NONE if y is None else u.said.get(y, y) for y in k] for k in box["x"]]
        ask(obs, dict(op="strings", keep=keep), go)
        ask(obs, dict(op="results", last=True), lambda: u.processed(box["x"], u.strent))
    stated = {(*g["k"], g["a"]) for g in u.given()}
    for exclude in (True, False):
        for what in (u.b.es, u.m):
            def params():
                out = []
                for k, d in P.parameter_as_dict(what, exclude_none=exclude).items():
                    e = u.ent(k)
                    out += [["one", *e, a, val(v)] for a, v in d["scalars"].items() if (*e, a) in stated]
                    out += [["many", *e, a, r, val(v)] for a in d["sequences"] for r, v in d["sequences"][a].items()
                            if (*e, a) in stated and v == v]
                return out
            ask(obs, dict(op="parameters"), params)
    named = list(u.b.nodes)
    rng = u.rng
    for n in rng.sample(named, min(4, len(named))):
        for mi in (False, True):
            keep = rng.random() < 0.5
            ask(obs, dict(op="node", node=n), lambda: u.view(V.node(res, u.b.nodes[n], multiindex=mi), mi, u.ent))
            ask(obs, dict(op="node", node=n),
                lambda: u.view(V.node(res, u.text[n], multiindex=mi, keep_none_type=keep), mi, u.strent))
    for opt in V.NodeOption:
        for nobus in (False, True):
            ask(obs, dict(op="filter", opt=opt.value, nobus=nobus),
                lambda: [[u.lab(x)] for x in V.filter_nodes(res, option=opt, exclude_busses=nobus)])
    ns = rng.sample(named, min(3, len(named))) + ["nobody"]
    rng.shuffle(ns)
    lab = lambda x: NONE if x is None else u.lab(x)
    say = lambda n: u.text.get(n, n)
    ask(obs, dict(op="byname", names=ns), lambda: [[i + 1, lab(x)] for i, x in enumerate(V.get_node_by_name(res, *map(say, ns)))])
    for n in ns:
        ask(obs, dict(op="byname", names=[n]), lambda: [[1, lab(V.get_node_by_name(res, say(n)))]])
    three = lambda c: (u.ent(c[:2]), c[2])
    two = lambda c: ([u.lab(c[0]), NONE], c[1])
    for cls in CLASSES:
        t = getattr(solph, cls, None) or getattr(solph.components, cls)
        ask(obs, dict(op="inputs", cls=cls), lambda: u.wide(V.node_input_by_type(res, t), three))
        ask(obs, dict(op="outputs", cls=cls), lambda: u.wide(V.node_output_by_type(res, t), three))
        ask(obs, dict(op="weights", cls=cls), lambda: u.wide(V.node_weight_by_type(res, t), two))
    steps = set(u.points[:u.s.T])

    def net():
        x = V.net_storage_flow(res, solph.components.GenericStorage)
        if x is None:
            return []
        return [[u.lab(c[0]), u.stamp(r), num(v)] for c in x.columns for r, v in x[c].items() if u.stamp(r) in steps]
    ask(obs, dict(op="net", cls="GenericStorage"), net)


def subjects(seed, tier, which):
    import check
    import randsys
    import systems

    rng = random.Random(f"{seed}:{which}")
    out = []
    for prop, fams in check.FAMILIES.items():
        for fam in fams:
            if fam == "chps" and tier == "quick":
                pass
            jobs = getattr(systems, fam)(random.Random(f"{seed}"), "quick")
            for j in rng.sample(jobs, min(len(jobs), 3 if tier == "quick" else 25)):
                out.append(j.s)
    for s in out:
        s.labels = rng.choice((None, "named", "tuple", "number"))
    for i in range(60 if tier == "quick" else 800):
        out.append(randsys.generate(rng, f"random.{seed}.{i}", rng.random() < 0.4, rng.choice((None, None, 1, 2)),
                                    rng.choice((None, "C05", "C07", "C12", "C15"))))
    if which == "C21":  # the typical steps of aggregated systems (C19 is about the original ones)
        import tsam

        for fn in (tsam.investments, tsam.weights, tsam.segments, tsam.anything):
            new = [j.s for j in fn(rng, "quick")]
            out += rng.sample(new, min(len(new), 6)) if tier == "quick" else new
    return out


SHARED = []  # the systems; worker processes are forked from this one


def _work(args):
    seed, which, chunk = args
    out = []
    for i in chunk:
        s = SHARED[i]
        try:
            u = Subject(s, f"{seed}:{s.name}")
        except Exception as e:
            out.append(dict(name=s.name, error=f"{type(e).__name__}: {e}"))
            continue
        obs = []
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (tables if which == "C21" else processing)(u, obs)
        out.append(dict(name=s.name, m=u.model(), obs=obs))
    return out


def _run(which, seed, tier, log):
    ss = subjects(seed, tier, which)
    SHARED[:] = ss
    with Pool(8) as pool:
        res = pool.map(_work, [(seed, which, range(i, len(ss), 32)) for i in range(32)], chunksize=1)
    res = sum(res, [])
    violations = [dict(system=r["name"], verdict="unbuildable", clauses=[r["error"][:60]]) for r in res if "error" in r]
    cases = [r for r in res if "error" not in r]
    log(f"{len(cases)} valuations, {sum(len(c['obs']) for c in cases)} answers")
    _, st = tlc.run("MCResults")
    log(f"laws of the projections: {st['distinct']} small valuations")
    states, trans = st["distinct"], st["states"]
    for i in range(0, len(cases), 400):
        part = cases[i:i + 400]
        out, st = tlc.run("ResultsReplay", {"VERIF_CASES": [dict(m=c["m"], obs=c["obs"]) for c in part]})
        if st["distinct"] != sum(1 + len(c["obs"]) for c in part):
            raise RuntimeError("not every answer was judged")
        states += st["distinct"]
        trans += st["states"]
        for b in tlc.lines(out, "BAD"):
            c = part[b["k"] - 1]
            o = c["obs"][b["j"] - 1]
            kind = c["name"].split(".")[0]
            violations.append(dict(key=f"{kind}|{o['q']['op']}|" + ("raised" if ["raised"] == [x[0] for x in o["a"]] else "differs"),
                                   system=c["name"], verdict="answer", clauses=[o["q"]["op"]], query=o["q"],
                                   missing=b["b"]["missing"][:8], extra=b["b"]["extra"][:8]))
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=sum(len(c["obs"]) for c in cases),
               valuations=len(cases), values=sum(len(v["cells"]) for c in cases for v in c["m"]["vars"]),
               samples=[dict(system=c["name"], query=c["obs"][-1]["q"], answer=c["obs"][-1]["a"][:4]) for c in cases[:3]])
    return dict(violations=violations, coverage=cov)


def reported(seed, tier, log):
    return _run("C21", seed, tier, log)


def processed(seed, tier, log):
    return _run("C22", seed, tier, log)
