"""C25: which descriptions are accepted.  Specification: spec/Validation.tla."""

import random
import warnings
from multiprocessing import Pool

import tlc

INF = 1000000
# parameters that may be given at once: quick, thorough
DEPTH = dict(invest=(4, 9), flow=(3, 5), nonconvex=(3, 6), storage=(3, 5), offset=(4, 8), converter=(4, 6), piecewise=(4, 4),
             chp=(3, 3), limit=(6, 6), names=(3, 3), table=(1, 1))


def num(x):
    return float("inf") if x == INF else x / 100


def par(p, f=num):
    """what a user would type"""
    if p["sh"] == "none":
        return None
    v = [f(x) for x in p["v"]]
    return v[0] if p["sh"] == "scalar" else v


def plain(x):
    return float("inf") if x == INF else x


def given(**kw):
    return {k: v for k, v in kw.items() if v is not None}


class World:
    """the smallest system around a draft"""

    def __init__(self, multi=False):
        import build

        self.pd, self.solph = build.pd, build.solph
        pd, solph = self.pd, self.solph
        if multi:
            a = pd.date_range("2020-01-01", periods=2, freq="h")
            b = pd.date_range("2021-01-01", periods=2, freq="h")
            self.es = solph.EnergySystem(timeindex=a.append(b), timeincrement=[1] * 4, periods=[a, b],
                                         infer_last_interval=False)
        else:
            self.es = solph.EnergySystem(timeindex=pd.date_range("2020-01-01", periods=4, freq="h"),
                                         infer_last_interval=False)
        self.a, self.b = solph.Bus(label="a"), solph.Bus(label="b")
        self.c, self.d = solph.Bus(label="c", balanced=False), solph.Bus(label="d", balanced=False)
        self.es.add(self.a, self.b, self.c, self.d)
        self.put(solph.components.Source(label="from", outputs={self.a: solph.Flow()}))
        self.put(solph.components.Sink(label="to", inputs={self.b: solph.Flow()}))

    def put(self, *nodes):
        self.es.add(*nodes)

    def model(self):
        return self.solph.Model(self.es)


def flow_draft(w, d):
    s = w.solph
    kw = {}
    cap = dict(none=None, num=4, inf=float("inf"), text="4").get(d["cap"])
    if d["cap"].startswith("invest"):
        cap = s.Investment(ep_costs=1, **(dict(maximum=10) if d["cap"] == "investLimited" else {}))
    if cap is not None:
        kw["nominal_capacity"] = cap
        if d["old"]:
            kw["nominal_value"] = 4
    kw.update(given(minimum=par(d["min"]), maximum=par(d["max"]), fix=par(d["fix"]),
                    positive_gradient_limit=par(d["gp"]), negative_gradient_limit=par(d["gn"]),
                    variable_costs=par(d["vc"], plain)))
    if d["oldmin"]:
        kw["min"] = kw["minimum"]
    if d["oldmax"]:
        kw["max"] = kw["maximum"]
    if d["flmax"]:
        kw["full_load_time_max"] = 2
    if d["flmin"]:
        kw["full_load_time_min"] = 1
    if d["nc"] != "none":
        kw["nonconvex"] = s.NonConvex(**(dict(positive_gradient_limit=0.5) if d["nc"] == "gradient" else {}))
    w.put(s.components.Converter(label="x", inputs={w.a: s.Flow()}, outputs={w.b: s.Flow(**kw)}))


def invest_draft(w, d):
    s = w.solph
    inv = s.Investment(**given(
        maximum=par(d["max"], plain), offset=par(d["off"], plain), ep_costs=par(d["ep"], plain), existing=d["ex"] / 2,
        nonconvex=dict(convex=False, nonconvex=True, text="yes")[d["kind"]], lifetime=d["life"] or None, age=d["age"]))
    if d["use"] == "storage":
        w.put(s.components.GenericStorage(label="x", inputs={w.a: s.Flow()}, outputs={w.b: s.Flow()},
                                          nominal_capacity=inv))
    else:
        nc = dict(nonconvex=s.NonConvex()) if d["use"] == "nonconvexFlow" else {}
        w.put(s.components.Converter(label="x", inputs={w.a: s.Flow()},
                                     outputs={w.b: s.Flow(nominal_capacity=inv, **nc)}))


def nonconvex_draft(w, d):
    s = w.solph
    nc = s.NonConvex(initial_status=d["init"], **given(
        minimum_uptime=par(d["up"], plain), minimum_downtime=par(d["dn"], plain), startup_costs=par(d["cs"], plain),
        shutdown_costs=par(d["cd"], plain), activity_costs=par(d["ca"], plain), inactivity_costs=par(d["ci"], plain)))
    cap = s.Investment(maximum=10, ep_costs=1) if d["invest"] else 4
    w.put(s.components.Converter(label="x", inputs={w.a: s.Flow()},
                                 outputs={w.b: s.Flow(nominal_capacity=cap, minimum=0.2, nonconvex=nc)}))


def storage_draft(w, d):
    s = w.solph
    L = 20 if d["multi"] else None
    inv = lambda: s.Investment(ep_costs=1, lifetime=L)
    side = lambda n, buses, i: {b: (s.Flow(nominal_capacity=inv()) if i else s.Flow(nominal_capacity=2, variable_costs=1))
                                for b in buses[:n]}
    cap = dict(none=None, num=8, text="8").get(d["cap"])
    if d["cap"] == "invest":
        cap = s.Investment(ep_costs=1, existing=d["ex"] / 2, minimum=d["imin"] / 2, lifetime=d["life"] or None)
    kw = given(nominal_capacity=cap, initial_storage_level=par(d["init"]), min_storage_level=par(d["lmin"]),
               max_storage_level=par(d["lmax"]), fixed_losses_absolute=par(d["fla"]),
               invest_relation_input_output=1 if "io" in d["rel"] else None,
               invest_relation_input_capacity=0.5 if "ic" in d["rel"] else None,
               invest_relation_output_capacity=0.5 if "oc" in d["rel"] else None,
               constant_soc_until=0.8 if d["soc"] != "none" else None,
               fraction_saturation_charging=0.5 if d["soc"] == "both" else None)
    if d["old"]:
        kw["nominal_storage_capacity"] = 8
    short = dict(lmin=("min_storage_level", [0.1, 0.1]), loss=("loss_rate", [0.1, 0.1]), sc=("storage_costs", [1, 1]),
                 eff=("outflow_conversion_factor", [0.5, 0.5]), flr=("fixed_losses_relative", [0.1, 0.1]))
    if d["short"] != "none":
        k, v = short[d["short"]]
        kw[k] = v
    w.put(s.components.GenericStorage(label="x", inputs=side(d["nin"], [w.a, w.c], d["inInv"]),
                                      outputs=side(d["nout"], [w.b, w.d], d["outInv"]), **kw))


def offset_draft(w, d):
    s = w.solph

    def f(nc, inv):
        kw = {}
        if nc:
            kw.update(nonconvex=s.NonConvex(), minimum=0.2)
        kw["nominal_capacity"] = s.Investment(maximum=10, ep_costs=1) if inv else 4
        return s.Flow(**kw) if nc or inv else s.Flow()

    value = [0.5, 0.5] if d["short"] == "cf" else 0.5
    shift = [0.1, 0.1] if d["short"] == "off" else 0.1
    cf = {b: value for b, on in ((w.a, d["cfIn"]), (w.b, d["cfOut"])) if on}
    off = {b: shift for b, on in ((w.a, d["offIn"]), (w.b, d["offOut"])) if on}
    kw = {}
    if cf:
        kw["conversion_factors"] = cf
    if off:
        kw["normed_offsets"] = off
    if d["coef"]:
        kw["coefficients"] = (0.1, 0.5)
    w.put(s.components.OffsetConverter(label="x", inputs={w.a: f(d["ncIn"], d["invIn"])},
                                       outputs={w.b: f(d["ncOut"], d["invOut"])}, **kw))


def converter_draft(w, d):
    s = w.solph
    n = 4 if d["multi"] else 3
    get = lambda x: dict(scalar=0.5, series=[0.5] * n, short=[0.5] * (n - 1)).get(x)
    x, y = get(d["cf"]), get(d["other"])
    F = lambda: s.Flow(nominal_capacity=4)
    if d["kind"] == "converter":
        cf = {w.c: y}
        if x is not None:
            cf[w.b] = x
        w.put(s.components.Converter(label="x", inputs={w.a: F()}, outputs={w.b: F(), w.c: F()}, conversion_factors=cf))
    elif d["kind"] == "link":
        cf = {(w.a, w.b): x, (w.d, w.c): y}
        if d["unknown"]:
            cf[w.a, s.Bus(label="unknown")] = 0.5
        w.put(s.components.Link(label="x", inputs={w.a: F(), w.d: F()}, outputs={w.b: F(), w.c: F()}, conversion_factors=cf))
    else:
        w.put(s.components.ExtractionTurbineCHP(
            label="x", inputs={w.a: F()}, outputs={w.b: F(), w.c: F()}, conversion_factors={w.b: 0.3, w.c: x},
            conversion_factor_full_condensation={w.b: y}))


def piecewise_draft(w, d):
    s = w.solph
    kw = dict(nominal_capacity=d["cap"]) if d["cap"] else {}
    side = lambda n, b: {x: s.Flow(**(kw if b[0] is w.a else {})) for x in b[:n]}
    w.put(s.components.experimental.PiecewiseLinearConverter(
        label="x", inputs=side(d["nin"], [w.a, w.d]), outputs=side(d["nout"], [w.b, w.c]), in_breakpoints=[0, 1, 4],
        conversion_function=lambda x: x * x / 4, pw_repn="CC"))


def chp_draft(w, d):
    s = w.solph
    n = 3
    size = lambda k: n + (1 if k in d["long"] else 0) - (1 if "power" in d["short"] else 0)
    el = dict(P_max_woDH=[6] * size("pmax"), P_min_woDH=[2] * size("pmin"), Eta_el_max_woDH=[0.5] * size("emax"),
              Eta_el_min_woDH=[0.4] * size("emin"))
    fuel = dict(H_L_FG_share_max=[0.2] * (n - ("smax" in d["short"])))
    heat = dict(Q_CW_min=[0.5] * (n - ("qcw" in d["short"])))
    if d["missing"] != "none":
        {"pmin": el, "smax": fuel, "qcw": heat}[d["missing"]].pop(
            dict(pmin="P_min_woDH", smax="H_L_FG_share_max", qcw="Q_CW_min")[d["missing"]])
    w.put(s.components.GenericCHP(
        label="x", fuel_input={w.a: s.Flow(custom_properties=fuel)}, electrical_output={w.b: s.Flow(custom_properties=el)},
        heat_output={w.c: s.Flow(custom_properties=heat)}, beta=[0.2] * (n - ("beta" in d["short"])), back_pressure=False))


def limit_draft(w, d):
    s = w.solph
    c = s.constraints
    n = 4 if d["multi"] else 3
    factor = dict(scalar=2, series=[1] * n, short=[1] * (n - 1))[d["factor"]]
    L = 20 if d["multi"] else None
    w.put(s.components.Converter(label="x", inputs={w.a: s.Flow(custom_properties=dict(mass=factor))},
                                 outputs={w.b: s.Flow(nominal_capacity=s.Investment(ep_costs=1, lifetime=L))}))
    m = w.model()
    x = [n for n in w.es.nodes if n.label == "x"][0]
    hi = par(d["hi"], plain)
    flows = None
    if d["flows"] == "chosen":
        flows = {(w.a, x): m.flows[w.a, x]}
    elif d["flows"] == "wrong":
        flows = {(w.a, x): m.flows[w.a, x], (x, w.b): m.flows[x, w.b]}
    if d["kind"] == "integral":
        c.generic_integral_limit(m, "mass", flows=flows, **given(upper_limit=hi, lower_limit=par(d["lo"], plain)))
    elif d["kind"] == "periodical":
        c.generic_periodical_integral_limit(m, "mass", flows=flows, limit=hi)
    else:
        c.investment_limit_per_period(m, limit=hi)
    return m


def names_draft(w, d):
    s = w.solph
    kw = {}
    if d["old"]:
        kw["custom_attributes"] = dict(mass=1)
    if d["new"]:
        kw["custom_properties"] = dict(mass=1)
    f = dict(flowProperties=lambda: s.Flow(**kw), nonconvexProperties=lambda: s.Flow(nominal_capacity=4, nonconvex=s.NonConvex(**kw)),
             investmentProperties=lambda: s.Flow(nominal_capacity=s.Investment(ep_costs=1, **kw)))[d["kind"]]()
    w.put(s.components.Converter(label="x", inputs={w.a: s.Flow()}, outputs={w.b: f}))


def table_draft(w, d):
    s = w.solph
    t = [[0.5], [0.5], [0.5]]
    k = d["where"]
    fkw = {}
    if k.startswith("flow."):
        fkw = dict(nominal_capacity=4)
        fkw[k[5:]] = t
    cf = {w.b: t} if k == "converter" else {}
    w.put(s.components.Converter(label="x", inputs={w.a: s.Flow()}, outputs={w.b: s.Flow(**fkw)}, conversion_factors=cf))
    w.put(s.components.GenericStorage(label="s", inputs={w.a: s.Flow(variable_costs=1)}, outputs={w.b: s.Flow()}, nominal_capacity=8,
                                      **(dict(loss_rate=t) if k == "storage.loss" else {})))


MAKE = dict(flow=flow_draft, invest=invest_draft, nonconvex=nonconvex_draft, storage=storage_draft, offset=offset_draft,
            converter=converter_draft, piecewise=piecewise_draft, chp=chp_draft, limit=limit_draft, names=names_draft,
            table=table_draft)


def attempt(d):
    """(accepted, what was raised)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(d["multi"])
        try:
            m = MAKE[d["what"]](w, d)
            if m is None:
                w.model()
            return True, None
        except Exception as e:
            return False, type(e).__name__ + ": " + str(e)[:300]


def _replay(chunk):
    import build  # noqa: F401

    out = []
    for c in chunk:
        ok, why = attempt(c["d"])
        if ok != (not c["faults"]):
            out.append((c, ok, why))
    return out


def name(d):
    return "draft." + d["what"] + ("." + d["use"] if "use" in d else "")


def pick(drafts, limit, rng):
    """a sample that has something of every combination of faults"""
    groups = {}
    for d in drafts:
        groups.setdefault(tuple(sorted(d["faults"])), []).append(d)
    out = []
    for g in groups.values():
        rng.shuffle(g)
    share = max(1, limit // max(1, len(groups)))
    for k, g in groups.items():
        n = share * (6 if not k else 2 if len(k) == 1 else 1)
        out += g[:n]
    return out


def run(seed, tier, log):
    rng = random.Random(seed)
    chosen, total, states, trans = [], 0, 0, 0
    for kind, (q, t) in DEPTH.items():
        out, st = tlc.run("MCValidation", dict(VERIF_KIND=kind, VERIF_GIVEN=str(q if tier == "quick" else t)))
        drafts = sorted(tlc.lines(out, "DRAFT"), key=str)
        total += len(drafts)
        states += st["distinct"]
        trans += st["states"]
        chosen += pick(drafts, 700 if tier == "quick" else 20000, rng)
    rng.shuffle(chosen)
    log(f"drafts: {total}, replayed: {len(chosen)}")
    with Pool(8) as pool:
        res = pool.map(_replay, [chosen[i::64] for i in range(64)], chunksize=1)
    violations = []
    for c, ok, why in sum(res, []):
        violations.append(dict(system=name(c["d"]), verdict="accepted" if ok else "refused",
                               clauses=sorted(c["faults"]), draft=c["d"], raised=why))
    log("replayed")
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=len(chosen), drafts=total,
               accepted=sum(not c["faults"] for c in chosen), samples=chosen[:3])
    return dict(violations=violations, coverage=cov)
