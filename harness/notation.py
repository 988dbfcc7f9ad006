"""C27: a parameter means the same however it is written.

Specification: spec/Notation.tla (which ways of writing there are and what
they mean), spec/EnergySystem.tla (what the system does).
"""

import copy
import logging
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction as Fr
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

import tlc  # noqa: E402

FLOW = dict(minimum="min", maximum="max", fix="fix", variable_costs="vc", positive_gradient_limit="gp",
            negative_gradient_limit="gn", full_load_time_max="fltmax", full_load_time_min="fltmin", fixed_costs="fc",
            lifetime="life", age="age", integer="int", nominal_capacity="nom", custom_properties="props")
INVEST = dict(minimum="min", maximum="max", ep_costs="ep", existing="ex", offset="off", overall_maximum="omax",
              overall_minimum="omin", lifetime="life", age="age", fixed_costs="fc", custom_properties="props")
NONCONVEX = dict(initial_status="init", minimum_uptime="up", minimum_downtime="dn", maximum_startups="maxup",
                 maximum_shutdowns="maxdn", startup_costs="cs", shutdown_costs="cd", activity_costs="ca",
                 inactivity_costs="ci", positive_gradient_limit="gp", negative_gradient_limit="gn")
STORE = dict(nominal_capacity="nom", initial_storage_level="init", balanced="bal", loss_rate="loss",
             fixed_losses_relative="flr", fixed_losses_absolute="fla", inflow_conversion_factor="ein",
             outflow_conversion_factor="eout", min_storage_level="lmin", max_storage_level="lmax", storage_costs="sc",
             fixed_costs="fc", constant_soc_until="csu", fraction_saturation_charging="fsc",
             invest_relation_input_output="rel_io", invest_relation_input_capacity="rel_ic",
             invest_relation_output_capacity="rel_oc")
CHP = dict(smax="H_L_FG_share_max", smin="H_L_FG_share_min", pmax="P_max_woDH", pmin="P_min_woDH",
           emax="Eta_el_max_woDH", emin="Eta_el_min_woDH", qcw="Q_CW_min", beta="beta")
LIMITS = dict(equateFlows=("EquateFlows", dict(factor1="factor")), count=("FlowCount", dict(lower_limit="lo", upper_limit="hi")),
              shared=("SharedLimit", dict(lower_limit="lo", upper_limit="hi")),
              investAttr=("InvestmentFlowLimit", dict(limit="hi")))
TABLES = dict(Flow=FLOW, Investment=INVEST, NonConvex=NONCONVEX, GenericStorage=STORE, **{c: t for c, t in LIMITS.values()},
              IntegralLimit=dict(upper_limit="hi", lower_limit="lo"), EmissionLimit=dict(limit="hi"),
              Model=dict(discount_rate="discount"), PeriodicalLimit=dict(limit="hi"), Budget=dict(limit="hi"), PeriodicalBudget=dict(limit="hi"))


def limit_class(x):
    k = x["kind"]
    if k in LIMITS:
        return LIMITS[k][0]
    if k == "integral":
        if x.get("per"):
            return "PeriodicalLimit"
        named = x["keyword"] == "emission_factor" and x.get("lo") is None and not x.get("generic")
        return "EmissionLimit" if named else "IntegralLimit"
    if k == "investCost":
        return "PeriodicalBudget" if x.get("per") else "Budget"


FACTORS = dict(converter="Converter", link="Link", offset="OffsetConverter", extraction="ExtractionTurbineCHP")


def number(x):
    if x in ("none", "required"):
        return None
    return float("inf") if x == "inf" else Fr(x)


def places(s):
    """[(how to find it, class, parameter, key or None, shape)] of a system"""
    out = []

    def walk(path, cls, d, table, skip=()):
        for name, key in table.items():
            if name in skip:
                continue
            v = d.get(key)
            if v is None or (name == "integer" and not v):
                out.append((path, cls, name, None, "default"))
            elif name == "custom_properties":
                if v:
                    out.append((path, cls, name, None, "value"))
            else:
                out.append((path, cls, name, None, "series" if isinstance(v, list) else "value"))

    for f, (_, _, d) in enumerate(s.flows):
        skip = []
        if d.get("inv") is not None:
            skip.append("nominal_capacity")
            walk(("inv", f), "Investment", d["inv"], INVEST, skip_invest(s, d["inv"], d))
        if d.get("fix") is not None:  # then there are none
            skip += ["minimum", "maximum"]
        if not s.periods:
            skip += ["lifetime", "age", "fixed_costs"]
        if d.get("life") is None:
            skip += ["age"]
        if d.get("nc") is not None:
            skip += ["integer"]
            walk(("nc", f), "NonConvex", d["nc"], NONCONVEX)
        walk(("flow", f), "Flow", d, FLOW, skip)
        if d.get("min") == -1 and "minimum" not in skip:
            out.append((("flow", f), "Flow", "bidirectional", None, "value"))
    for i, n in enumerate(s.nodes):
        if n["kind"] == "storage":
            skip = []
            if n.get("inv") is not None:
                skip.append("nominal_capacity")
                walk(("sinv", i), "Investment", n["inv"], INVEST, skip_invest(s, n["inv"], None))
            if not s.periods:
                skip += ["fixed_costs"]
            walk(("node", i), "GenericStorage", n, STORE, skip)
        elif n["kind"] == "chp":
            for a, name in CHP.items():
                if a in n["par"]:
                    out.append((("node", i), "GenericCHP", name, None, "value"))
        elif n["kind"] in FACTORS and not n.get("coef") and not n.get("eff"):
            cls = FACTORS[n["kind"]]
            both = [b for b, f in n["ins"] + n["outs"]
                    if n["kind"] != "offset" or s.flows[f][2].get("nc") is None]
            for name, key in (("conversion_factors", "cf"), ("normed_offsets", "off"),
                              ("conversion_factor_full_condensation", "full")):
                if key not in n:
                    continue
                keys = list(n[key]) if n["kind"] == "link" or key == "full" else both
                if n["kind"] == "extraction" and key == "cf":
                    keys = [b for b, _ in n["outs"]]
                for b in keys:
                    v = n[key].get(b)
                    out.append((("node", i), cls, name, b,
                                "default" if v is None else "series" if isinstance(v, list) else "value"))
    for i, x in enumerate(s.limits):
        cls = limit_class(x)
        if cls is None:
            continue
        both = [k for k in ("lo", "hi") if x.get(k) is None]
        walk(("limit", i), cls, x, TABLES[cls], ("lower_limit", "upper_limit") if cls == "IntegralLimit" and len(both) > 1 else ())
        if x["kind"] == "integral":
            for f in x["flows"]:
                f = s.fi(*f)
                v = s.flows[f][2]["props"][x["keyword"]]
                out.append((("flow", f), "Weight", "value", x["keyword"], "series" if isinstance(v, list) else "value"))
    if s.N:  # aggregated
        return out
    out.append((("model", 0), "Model", "objective_weighting", None, "default" if s.w is None else "series"))
    out.append((("model", 0), "Model", "made", None, "value"))
    if s.periods:
        out.append((("model", 0), "Model", "discount_rate", None, "default" if s.discount is None else "value"))
    else:
        out.append((("model", 0), "Model", "timeincrement", None, "series"))
    return out


def skip_invest(s, inv, fl):
    skip = []
    if inv.get("life") is None:
        skip += ["lifetime", "age"]
    if not s.periods:
        skip += ["lifetime", "age", "fixed_costs", "overall_maximum", "overall_minimum"]
    return skip


def length(s, per):
    return dict(step=s.T, count=s.T, point=(s.N or s.T) + 1, period=s.P, year=s.end_year).get(per, 1)


def annotate(s, place, draft):
    """write one place of a copy of s as the draft says"""
    path, cls, name, key, _ = place
    d = target(s, path)
    k = (cls, name) if key is None else (cls, name, key)
    v = number(draft["default"]) if draft["form"] != "turn" and draft["default"] != "increments" else None
    v = None if v is None else float(v) if v == float("inf") or v.denominator != 1 else int(v)
    d.setdefault("_as", {})[k] = (draft["form"], draft["as"], length(s, draft["per"]), v)


def target(s, path):
    what, i = path
    if what == "model":
        s.said["discount"] = s.discount
        return s.said
    if what == "flow":
        return s.flows[i][2]
    if what in ("inv", "nc"):
        return s.flows[i][2][what]
    if what == "limit":
        return s.limits[i]
    return s.nodes[i] if what == "node" else s.nodes[i]["inv"]


def clone(s):
    c = copy.copy(s)
    c.flows = [(a, b, copy.deepcopy(d)) for a, b, d in s.flows]
    c.nodes = [{k: (copy.deepcopy(v) if k in ("inv", "_as") else v) for k, v in n.items()} for n in s.nodes]
    c.limits = [dict(x) for x in s.limits]
    c.said = {}
    return c


def fits(draft, s, place):
    """is this way of writing possible for the value at hand?"""
    path, cls, name, key, shape = place
    if draft["form"] in ("int", "numpy.int") and shape == "value":
        d = target(s, path)
        v = value(d, cls, name, key)
        if Fr(v) % 1 != 0:
            return False
    if draft["form"] in ("int", "numpy.int") and shape == "default" and (draft["default"] == "inf" or number(draft["default"]) % 1):
        return False
    return True


def value(d, cls, name, key):
    if cls == "Weight":
        return d["props"][key]
    if key is not None:
        return d[dict(conversion_factors="cf", normed_offsets="off", conversion_factor_full_condensation="full")[name]][key]
    return d[TABLES[cls][name]]


def worth(s, place):
    """zero, one or something else"""
    path, cls, name, key, shape = place
    if shape != "value" or name in ("custom_properties", "bidirectional", "integer", "made"):
        return shape
    d = target(s, path)
    v = d["par"][next(a for a, n in CHP.items() if n == name)] if cls == "GenericCHP" else value(d, cls, name, key)
    return str(v) if v in (0, 1) else "other"


def subjects(seed, tier):
    import randsys
    import systems
    import tsam

    rng = random.Random(f"notation:{seed}")
    out = []
    for fn in ("bus limits ramps fullload onoff minimum_times storage_balance storage_levels converters partload "
               "investment periods_capacity operating_cost investment_cost chps integral coupling budgets compressed_air").split():
        out += [j.s for j in getattr(systems, fn)(random.Random(f"{seed}"), "quick")]
    for k in range(20 if tier == "quick" else 200):
        out.append(randsys.generate(random.Random(f"notation:{seed}:{k}"), f"random.{k}"))
    out = [s for s in out if not any(n["kind"] == "pwl" for n in s.nodes) or s.name.startswith("piecewise.square")]
    for fn in (tsam.operation, tsam.segments, tsam.weights, tsam.investments, tsam.anything):
        new = [j.s for j in fn(random.Random(f"{seed}"), "quick")]
        out += rng.sample(new, min(len(new), 5)) if tier == "quick" else new
    rng.shuffle(out)
    return out + special(rng)


def special(rng):
    """what the other systems do not say, or never leave out"""
    from config import NC, Fl, Inv, System

    H, Q = Fr(1, 2), Fr(1, 4)
    out = []
    s = System("written.turn", T=3)
    s.bus("a", "b")
    s.source("g", a=Fl(vc=2), b=Fl(nom=1, min=-1, max=H))
    s.conv("c", {"a": Fl(nom=2, min=-1, vc=1)}, {"b": Fl(nom=9, min=-1)}, cf={"a": 2})
    s.sink("d", a=Fl(nom=2, fix=[1, H, 0]), b=Fl(nom=4, vc=-1))
    out.append(s)
    s = System("written.plain", T=3, dt=[1, 2, 1])
    s.bus("a", "b", "c")
    s.source("g", a=Fl(nom=4, vc=2, age=None))
    s.sink("d", c=Fl(nom=2, fix=[1, H, 1]), b=Fl(nom=4, vc=-1))
    s.storage("st", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=H, sc=2)
    s.storage("open", {"a": Fl(nom=2)}, {"c": Fl(nom=2)}, nom=4, init=H, bal=False)
    s.extraction("ex", {"a": Fl(nom=8)}, {"b": Fl(), "c": Fl()}, cf={"b": 1, "c": 1}, full={"b": 2})
    s.extraction("same", {"a": Fl(nom=8)}, {"b": Fl(), "c": Fl()}, cf={"c": H}, full={"b": 2})
    s.link("lk", {"a": Fl(nom=1), "b": Fl(nom=1)}, {"a": Fl(nom=1), "b": Fl(nom=1)}, cf={("a", "b"): 1, ("b", "a"): 2})
    out.append(s)
    s = System("written.charge", T=3)
    s.bus("a", "b")
    s.source("g", a=Fl(vc=1))
    s.storage("st", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=H, sc=[1, 2, 3], csu=H, fsc=H, bal=False)
    s.sink("d", b=Fl(vc=-2))
    out.append(s)
    s = System("written.offset", T=3)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(vc=1))
    s.offset("one", {"a": Fl(nom=4, min=H, nc=NC(gp=1, gn=1))}, {"b": Fl(), "c": Fl()}, cf={"b": H})
    s.offset("two", {"a": Fl()}, {"b": Fl(nom=4, min=H, nc=NC(init=0))}, off={"a": 1})
    s.offset("all", {"a": Fl(nom=4, min=H, nc=NC(init=1, cs=1, cd=2))}, {"c": Fl()}, cf={"c": H}, off={"c": Q})
    s.sink("d", b=Fl(vc=-2), c=Fl(vc=-1))
    out.append(s)
    for multi in (False, True):
        life = dict(life=3) if multi else {}
        s = System(f"written.invest{int(multi)}", T=3, periods=[(2020, 1, 1), (2021, 1, 1), (2023, 1, 1)] if multi else None)
        s.bus("a", "b", "c")
        s.source("g", a=Fl(inv=Inv(max=4, props={"space": 2}, **life), props={"x": 1}))
        s.source("h", a=Fl(inv=Inv(max=9, ep=2, ex=1, min=1, **life)), c=Fl(nom=2, life=3, age=1, fc=3))
        s.source("k", a=Fl(nom=2, **(dict(life=3, fc=[1, 2, 3, 4]) if multi else {})))
        ser = lambda *x: list(x) if multi else x[0]
        s.storage("io", {"a": Fl(inv=Inv(ep=1, **life))}, {"b": Fl(inv=Inv(ep=1, **life))}, inv=Inv(ep=1, **life),
                  bal=False, rel_ic=ser(1, 2, 1), rel_oc=ser(1, H, 1))
        s.storage("r", {"a": Fl(inv=Inv(ep=1, **life))}, {"b": Fl(inv=Inv(ep=1, **life))}, nom=4, bal=False, rel_io=ser(2, 1, 2),
                  fc=3 if multi else None)
        s.storage("v", {"a": Fl(inv=Inv(ep=1, **life))}, {"b": Fl(inv=Inv(ep=1, **life))}, inv=Inv(ep=1, **life), bal=False,
                  rel_ic=1, rel_oc=1, **(dict(fc=[1, 2, 1, 3]) if multi else {}))
        s.storage("w", {"a": Fl(inv=Inv(ep=1, **life))}, {"b": Fl(inv=Inv(ep=1, **life))}, inv=Inv(max=9, **life), bal=False,
                  rel_io=1, init=None if multi else 0)
        s.sink("d", b=Fl(vc=-2), c=Fl(), a=Fl())
        s.limit("investAttr", keyword="space", w={("flow", 0): 2}, hi=6)
        if multi:
            s.limit("investCost", hi=7, per=True)
        out.append(s)
    s = System("written.zero", T=3)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(nom=0, vc=1), b=Fl(nom=2, min=0, max=0, vc=0))
    s.source("h", a=Fl(nom=4, fix=0, gp=0, gn=0), b=Fl(nom=2, fltmax=0, fltmin=0, props={"q": 0}))
    s.source("n", a=Fl(nom=2, min=0, max=1, gp=0, gn=0, nc=NC(init=0, up=0, dn=0, maxup=0, maxdn=0, cs=0, cd=0, ca=0, ci=0)))
    s.source("m", b=Fl(nom=2, min=H, nc=NC(init=1, up=1, dn=1, maxup=1, maxdn=1, cs=1, cd=1, ca=1, ci=1, gp=0, gn=0)))
    s.source("i", a=Fl(inv=Inv(max=0, min=0, ep=0, ex=0, off=0)), c=Fl(inv=Inv(max=4, min=1, ep=1, off=1, nc=True)), b=Fl(inv=Inv(max=1, ex=1)))
    s.conv("v", {"a": Fl(nom=1), "b": Fl()}, {"c": Fl()}, cf={"a": 0, "b": 1, "c": 1})
    s.storage("st", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=0, loss=0, flr=0, fla=0, ein=1, eout=1, lmin=0, lmax=0, sc=0, bal=False)
    s.storage("si", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, inv=Inv(max=1, min=1, ep=0), init=1, loss=1, flr=1, fla=1, ein=1, eout=1, lmin=1, lmax=1, sc=1, bal=False)
    s.storage("no", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=0, init=None, bal=True)
    s.sink("d", b=Fl(nom=1, fix=1), c=Fl(nom=1, min=1, max=1, vc=1), a=Fl(nom=1))
    s.limit("integral", keyword="q", flows={("h", "b"): 0}, lo=0, hi=0)
    s.limit("count", flows=[("n", "a"), ("m", "b")], lo=0, hi=0)
    s.limit("shared", stores=["st", "no"], w=[1, 0], lo=0, hi=0)
    s.limit("equateFlows", a=[("g", "a")], b=[("h", "a")], factor=0)
    out.append(s)
    s = System("written.zero.periods", T=3, periods=[(2020, 1, 1), (2021, 1, 1), (2023, 1, 1)])
    s.bus("a", "b")
    s.source("g", a=Fl(nom=0, life=3, age=0, fc=0), b=Fl(nom=1, life=1, age=1, fc=1))
    s.source("i", a=Fl(inv=Inv(max=0, min=0, ep=0, ex=0, omax=0, omin=0, life=1, age=0, fc=0)))
    s.source("j", a=Fl(inv=Inv(max=4, min=1, ep=1, ex=1, omax=1, omin=1, life=3, age=1, fc=1)))
    s.storage("st", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, inv=Inv(max=1, ep=0, omax=0, omin=0, life=2, age=0, fc=0), bal=False, fc=0)
    s.storage("no", {"a": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=0, bal=False, fc=1)
    s.sink("d", b=Fl(vc=-2), a=Fl())
    s.limit("investCost", hi=0)
    out.append(s)
    s = System("written.equal", T=3)
    s.bus("a")
    s.source("g", a=Fl(vc=1, props={"emission_factor": [1, 2, 3]}))
    s.source("h", a=Fl(vc=2, props={"emission_factor": 2, "q": 1}))
    s.source("on", a=Fl(nom=2, min=H, nc=NC(), vc=1))
    s.sink("d", a=Fl(vc=-3))
    s.limit("equateFlows", a=[("g", "a")], b=[("h", "a")], factor=None)
    s.limit("integral", keyword="emission_factor", flows={("g", "a"): [1, 2, 3], ("h", "a"): 2}, hi=6)
    s.limit("integral", keyword="q", flows={("h", "a"): 1}, lo=2)
    s.limit("count", flows=[("on", "a")])
    s.limit("integral", keyword="emission_factor", flows={("g", "a"): [1, 2, 3], ("h", "a"): 2}, hi=9, generic=True)
    out.append(s)
    return out


_S = None


def facts(s):
    import build
    import fingerprint as fp

    x = fp.matrix(build.model(s, limits=True).m)
    return x


def work(args):
    """one system, written in several ways"""
    import fingerprint as fp

    k, tasks = args
    s = _S[k]
    warnings.simplefilter("ignore")
    logging.disable(logging.ERROR)
    bad, same = [], 0
    try:
        x = facts(s)
    except Exception as e:
        return dict(bad=[dict(system=s.name, verdict="not built", key="notation|not built|" + s.name, clauses=[],
                              text=f"{type(e).__name__}: {e}"[:200], places=[])], same=0, asked=1)
    digest, support = fp.digest(x), None
    for group in tasks:
        c = clone(s)
        for place, draft in group:
            annotate(c, place, draft)
        try:
            y = facts(c)
        except Exception as e:
            what = f"not built: {type(e).__name__}: {e}"[:200]
        else:
            if fp.digest(y) == digest:
                same += 1
                continue
            if support is None:
                support = fp.support(x, 20)
            if fp.same_support(support, fp.support(y, 20)):
                continue
            what = "another model"
        names = sorted({f"{d['class']}.{d['as']}:{d['form']}" for _, d in group})
        bad.append(dict(system=s.name, verdict=what.split(":")[0], key="|".join(["notation", what.split(":")[0], *names[:3]]),
                        clauses=names, text=what, places=[list(map(str, p[:4])) for p, _ in group]))
    return dict(bad=bad, same=same, asked=len(tasks))


def written(seed, tier, log):
    """every way of writing, and many at a time"""
    global _S
    out, st = tlc.run("Notation")
    drafts = tlc.lines(out, "DRAFT")
    rng = random.Random(f"notation:{seed}")
    _S = subjects(seed, tier)
    where = {}
    for k, s in enumerate(_S):
        for p in places(s):
            where.setdefault((p[1], p[2], p[4]), []).append((k, p))
    tasks = {k: [] for k in range(len(_S))}
    missing, n = [], 2 if tier == "quick" else 12
    by = {}
    for d in sorted(drafts, key=str):
        by.setdefault((d["class"], d["name"], d["shape"]), []).append(d)
        found = [(k, p) for k, p in where.get((d["class"], d["name"], d["shape"]), []) if fits(d, _S[k], p)]
        if not found:
            missing.append(f"{d['class']}.{d['as']}:{d['shape']}:{d['form']}")
            continue
        kinds = {}  # as many different kinds of values as there are
        for k, p in rng.sample(found, len(found)):
            kinds.setdefault(worth(_S[k], p), []).append((k, p))
        kinds = [x for x in kinds.values()]
        for j in range(max(n, len(kinds))):
            x = kinds[j % len(kinds)]
            if j // len(kinds) < len(x):
                k, p = x[j // len(kinds)]
                tasks[k].append([(p, d)])
    for k, s in enumerate(_S):  # several places at once
        ps = places(s)
        for _ in range(2 if tier == "quick" else 12):
            group = []
            for p in ps:
                if p[2] == "bidirectional" and any(q[0] == p[0] and q[2] == "minimum" for q, _ in group):
                    continue
                if rng.random() < 0.4:
                    ds = [d for d in by.get((p[1], p[2], p[4]), []) if fits(d, s, p)]
                    if ds:
                        group.append((p, rng.choice(ds)))
            if group:
                tasks[k].append(group)
    log(f"{len(drafts)} drafts, {sum(map(len, tasks.values()))} systems to write")
    with Pool(8) as pool:
        res = pool.map(work, [(k, t) for k, t in tasks.items() if t], chunksize=1)
    for r in res:
        if "error" in r:
            raise RuntimeError(r["error"])
    bad = [b for r in res for b in r["bad"]]
    cov = dict(states=st["distinct"], transitions=st["states"],
               traces_validated_against_impl=sum(r["asked"] for r in res), ways_of_writing=len(drafts),
               ways_without_subject=len(missing), written_systems=sum(r["asked"] for r in res),
               identical_models=sum(r["same"] for r in res))
    return dict(violations=bad, coverage=cov, missing=missing)


def run(seed, tier, log):
    return {k: v for k, v in written(seed, tier, log).items() if k != "missing"}
