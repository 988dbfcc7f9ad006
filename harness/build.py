"""From a :class:`config.System` to real oemof.solph objects and a Model.

Only public API is used.  Everything is imported from /repo/src.
"""

import copy
import logging
import os
import sys
import warnings
from collections import namedtuple
from fractions import Fraction as Fr

REPO = os.environ.get("VERIF_REPO", "/repo")
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
logging.getLogger().setLevel(logging.ERROR)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from pyomo.core.base import block as po  # noqa: E402
from oemof import solph  # noqa: E402

assert os.path.realpath(solph.__file__).startswith(os.path.realpath(REPO) + "/"), solph.__file__


def fl(x):
    """config number(s) -> what a user would type"""
    if x is None:
        return None
    if isinstance(x, (list, tuple)):
        return [fl(v) for v in x]
    x = Fr(x)
    return int(x) if x.denominator == 1 else float(x)


def write(v, form, n):
    """a number or series as somebody may write it"""
    lists = dict(list=list, tuple=tuple, array=np.array, series=pd.Series,
                 dated=lambda x: pd.Series(x, index=pd.date_range("2020-01-01", periods=len(x), freq="h")))
    if form in lists:
        return lists[form](list(v) if isinstance(v, (list, tuple, np.ndarray)) else [v] * n)
    cast = {"int": int, "float": float, "numpy.int": np.int64, "numpy.float": np.float64, "bool": bool}.get(form)
    if form == "none":
        return None
    if cast in (int, np.int64) and v != v // 1:
        cast = float if cast is int else np.float64
    return cast(v) if cast else v


def say(d, cls, kw):
    """with d["_as"]: {(class, parameter[, key]): (form, name, length, value)}
    the parameters are written in other ways, see spec/Notation.tla"""
    for (c, name, *key), (form, alias, n, v) in (d.get("_as") or {}).items():
        if c != cls or key:
            continue
        if form == "omitted":
            kw.pop(name, None)
        elif form == "turn":
            kw.pop("minimum")
            kw[alias] = True
        elif form == "given":
            kw[alias] = kw.pop(name)
        else:
            old = kw.pop(name, None)
            kw[alias] = write(v if old is None else old, form, n)
    return kw


def say_factors(d, cls, name, kw):
    """the same for a value per bus: kw is {key: value}"""
    for (c, nm, *key), (form, _, n, v) in (d.get("_as") or {}).items():
        if (c, nm) != (cls, name) or not key:
            continue
        (k,) = key
        if form == "omitted":
            kw.pop(k, None)
        else:
            kw[k] = write(kw.get(k, v), form, n)
    return kw


def investment(d):
    return solph.Investment(**say(d, "Investment", investment_kw(d)))


def investment_kw(d):
    kw = dict(minimum=fl(d.get("min", 0)), ep_costs=fl(d.get("ep", 0)), existing=fl(d.get("ex", 0)),
              nonconvex=bool(d.get("nc", False)), offset=fl(d.get("off", 0)),
              overall_maximum=fl(d.get("omax")), overall_minimum=fl(d.get("omin")),
              lifetime=d.get("life"), age=d.get("age") or 0, fixed_costs=fl(d.get("fc")))
    if d.get("max") is not None:
        kw["maximum"] = fl(d["max"])
    if d.get("props"):
        kw["custom_properties"] = {k: fl(v) for k, v in d["props"].items()}
    return kw


def nonconvex(d):
    m = dict(init="initial_status", up="minimum_uptime", dn="minimum_downtime",
             maxup="maximum_startups", maxdn="maximum_shutdowns", cs="startup_costs",
             cd="shutdown_costs", ca="activity_costs", ci="inactivity_costs",
             gp="positive_gradient_limit", gn="negative_gradient_limit")
    return solph.NonConvex(**say(d, "NonConvex", {m[k]: fl(v) for k, v in d.items() if k in m and v is not None}))


def flow(d):
    kw = flow_kw(d)
    if d.get("inv") is not None:
        kw["nominal_capacity"] = investment(d["inv"])
    if d.get("nc") is not None:
        kw["nonconvex"] = nonconvex(d["nc"])
    if d.get("props"):
        kw["custom_properties"] = say_factors(d, "Weight", "value", {k: fl(v) for k, v in d["props"].items()})
    return solph.Flow(**say(d, "Flow", kw))


def flow_kw(d):
    """the values that are given for a flow itself"""
    m = dict(min="minimum", max="maximum", fix="fix", vc="variable_costs",
             gp="positive_gradient_limit", gn="negative_gradient_limit",
             fltmax="full_load_time_max", fltmin="full_load_time_min", fc="fixed_costs",
             life="lifetime", age="age")
    kw = {m[k]: fl(v) for k, v in d.items() if k in m and v is not None}
    if d.get("int"):
        kw["integer"] = True
    if d.get("nom") is not None:
        kw["nominal_capacity"] = fl(d["nom"])
    return kw


class Built:
    """solph objects of a system, and the names of what the spec talks about"""


def timeindex(s):
    """(timeindex, kwargs of EnergySystem)"""
    if s.periods:
        idx, per = [], []
        for (y, n, dur) in s.periods:
            stamps = [pd.Timestamp(year=y + min(i, dur - 1), month=1, day=1) + pd.Timedelta(hours=i)
                      for i in range(n)]
            if dur > 1 and n > 1:
                stamps[-1] = pd.Timestamp(year=y + dur - 1, month=1, day=2)
            per.append(pd.DatetimeIndex(stamps))
            idx += stamps
        return pd.DatetimeIndex(idx), dict(
            timeincrement=[fl(d) for d in s.dt], periods=per, use_remaining_value=s.remaining)
    if s.index == "numeric":
        return np.array([float(x) for x in np.cumsum([0] + [float(d) for d in s.dt])]), {}
    stamps = [pd.Timestamp("2020-01-01")]
    for d in s.dt:
        stamps.append(stamps[-1] + pd.Timedelta(seconds=float(d * 3600)))
    return pd.DatetimeIndex(stamps), {}


def chp(s, n, bus, new):
    r, T = n["par"], s.T
    official = dict(smax="H_L_FG_share_max", smin="H_L_FG_share_min", pmax="P_max_woDH", pmin="P_min_woDH",
                    emax="Eta_el_max_woDH", emin="Eta_el_min_woDH", qcw="Q_CW_min", beta="beta")

    lst = lambda a: [float(x) for x in (r[a] if isinstance(r[a], list) else [r[a]] * T)]
    form = lambda a: (n.get("_as") or {}).get(("GenericCHP", official[a]))
    asked = lambda kw: {("Weight", "value", a): form(b) for a, b in kw.items() if form(b)}

    def put(k, **kw):
        d = s.flows[k[1]][2]
        return {bus[k[0]]: flow(dict(d, props={a: lst(b) for a, b in kw.items() if b in r},
                                     _as=(d.get("_as") or {}) | asked(kw)))}

    return new(
        solph.components.GenericCHP,
        fuel_input=put(n["ins"][0], H_L_FG_share_max="smax", H_L_FG_share_min="smin"),
        electrical_output=put(n["outs"][0], P_max_woDH="pmax", P_min_woDH="pmin", Eta_el_max_woDH="emax",
                              Eta_el_min_woDH="emin"),
        heat_output=put(n["outs"][1], Q_CW_min="qcw"),
        beta=write(lst("beta"), form("beta")[0], T) if form("beta") else lst("beta"),
        back_pressure=bool(r.get("bp")))


class Label(namedtuple("Label", "kind name")):
    """a label of several parts that says what it is called"""

    __slots__ = ()

    def __str__(self):
        return self.name


def label(s, text):
    """what a node is called in the system"""
    if s.labels == "named":
        return Label("verif", text)
    if s.labels == "tuple":
        return ("verif", text, None)
    if s.labels == "number":
        return [n["label"] for n in s.nodes].index(text) + 1
    return text


def plain(s, n):
    return lambda cls, **kw: cls(label=label(s, n["label"]), **kw)


def make(s, n, bus, new=None):
    """the object of one node other than a bus; bus: label -> Bus"""
    k, new = n["kind"], new or plain(s, n)
    if k == "chp":
        return chp(s, n, bus, new)
    ins = {bus[b]: flow(s.flows[f][2]) for b, f in n["ins"]}
    outs = {bus[b]: flow(s.flows[f][2]) for b, f in n["outs"]}
    names = dict(converter="Converter", link="Link", offset="OffsetConverter", extraction="ExtractionTurbineCHP")

    def factors(name, values):
        values = say_factors(n, names[k], name, {b: fl(v) for b, v in (values or {}).items()})
        return {tuple(bus[x] for x in b) if isinstance(b, tuple) else bus[b]: v for b, v in values.items()}

    C = solph.components
    if k == "source":
        return new(C.Source, outputs=outs)
    elif k == "sink":
        return new(C.Sink, inputs=ins)
    elif k == "converter":
        return new(C.Converter, inputs=ins, outputs=outs,
                           conversion_factors=factors("conversion_factors", n["cf"]))
    elif k == "link":
        return new(C.Link, inputs=ins, outputs=outs, conversion_factors=factors("conversion_factors", n["cf"]))
    elif k == "offset" and n["coef"]:
        return new(C.OffsetConverter, inputs=ins, outputs=outs, coefficients=tuple(map(fl, n["coef"])))
    elif k == "offset" and n["eff"]:
        cf, off = part_load(s, n)
        return new(C.OffsetConverter, inputs=ins, outputs=outs,
                                 conversion_factors={bus[b]: v for b, v in cf.items()},
                                 normed_offsets={bus[b]: v for b, v in off.items()})
    elif k == "offset":
        return new(C.OffsetConverter, inputs=ins, outputs=outs,
                                 conversion_factors=factors("conversion_factors", n["cf"]),
                                 normed_offsets=factors("normed_offsets", n["off"]))
    elif k == "extraction":
        return new(C.ExtractionTurbineCHP, inputs=ins, outputs=outs, conversion_factors=factors("conversion_factors", n["cf"]),
            conversion_factor_full_condensation=factors("conversion_factor_full_condensation", n["full"]))
    elif k == "pwl":
        return new(C.experimental.PiecewiseLinearConverter, inputs=ins, outputs=outs, in_breakpoints=fl(n["xs"]),
            conversion_function=lambda x, f=n["fn"]: float(f(x)), pw_repn=n["repn"])
    elif k == "caes":
        (a, f), (c, g) = n["ins"]
        return new(C.experimental.GenericCAES, electrical_input={bus[a]: flow(s.flows[f][2])},
                   fuel_input={bus[c]: flow(s.flows[g][2])}, electrical_output=outs, params={x: fl(v) for x, v in n["par"].items()})
    elif k == "storage":
        kw = storage_kw(n)
        if n.get("inv") is not None:
            kw["nominal_capacity"] = investment(n["inv"])
        return new(C.GenericStorage, inputs=ins, outputs=outs, **say(n, "GenericStorage", kw))
    else:
        raise ValueError(k)


def part_load(s, n):
    """slopes and offsets from efficiencies, by the functions made for it"""
    C = solph.components
    (ref,) = [f for _, f in n["ins"] + n["outs"] if s.flows[f][2].get("nc") is not None]
    help_ = (C.slope_offset_from_nonconvex_input if ref in [f for _, f in n["ins"]]
             else C.slope_offset_from_nonconvex_output)
    val = lambda x: np.array(fl(x), dtype=float) if isinstance(x, list) else fl(x)
    d = s.flows[ref][2]
    cf, off = {}, {}
    for b, (hi, lo) in n["eff"].items():
        cf[b], off[b] = help_(val(d.get("max", 1)), val(d.get("min", 0)), val(hi), val(lo))
    return cf, off


def storage_kw(n):
    """the values that are given for a storage itself"""
    m = dict(init="initial_storage_level", bal="balanced", loss="loss_rate",
             flr="fixed_losses_relative", fla="fixed_losses_absolute",
             ein="inflow_conversion_factor", eout="outflow_conversion_factor",
             lmin="min_storage_level", lmax="max_storage_level", sc="storage_costs",
             fc="fixed_costs", csu="constant_soc_until", fsc="fraction_saturation_charging",
             rel_io="invest_relation_input_output", rel_ic="invest_relation_input_capacity",
             rel_oc="invest_relation_output_capacity", nom="nominal_capacity")
    return {m[a]: (v if isinstance(v, bool) else fl(v)) for a, v in n.items() if a in m and v is not None}


def buses(s):
    bus = {n["label"]: solph.Bus(label=label(s, n["label"]), balanced=n["balanced"]) for n in s.nodes if n["kind"] == "bus"}
    for n in s.nodes:
        if n["kind"] == "bus":
            for b, f in n["ins"]:  # a flow directly from bus to bus
                bus[n["label"]].inputs[bus[b]] = flow(s.flows[f][2])
    return bus


def nodes(s):
    """the nodes of a system, by label"""
    bus = buses(s)
    made = dict(bus)
    for n in s.nodes:
        if n["kind"] != "bus":
            made[n["label"]] = make(s, n, bus)
    return made


def empty(s):
    """the system, without nodes"""
    if s.N:
        return solph.EnergySystem(**s.aggregated())
    if said(s, "timeincrement"):  # the system has other increments
        s = copy.copy(s)
        s.dt = [2 * x + 1 for x in s.dt]
    ti, kw = timeindex(s)
    return solph.EnergySystem(timeindex=ti, infer_last_interval=False, **kw)


def energysystem(s, order=None):
    es = empty(s)
    made = nodes(s)
    labels = order or list(made)
    es.add(*[made[x] for x in labels])
    return es, made


def said(s, name):
    return (s.said.get("_as") or {}).get(("Model", name), (None,))[0]


class Derived(solph.Model):
    """somebody's own class of models"""


class Nothing(po.ScalarBlock):
    """a group of conditions that is empty"""

    CONSTRAINT_GROUP = True

    def _create(self, group=None):
        assert group is None


def asked(way, es, kw):
    if way == "derived":
        return Derived(es, **kw)
    if way == "named":
        return solph.Model(es, name="model of my own", debug=True, **kw)
    if way == "extended":
        return solph.Model(es, constraint_groups=[Nothing], **kw)
    if way == "stepwise":
        m = solph.Model(es, auto_construct=False, **kw)
        for name in ("_add_parent_block_sets", "_add_parent_block_variables", "_add_child_blocks", "_add_objective"):
            if not hasattr(m, name):  # (how this is divided may change)
                return solph.Model(es, **kw)
        for name in ("_add_parent_block_sets", "_add_parent_block_variables", "_add_child_blocks", "_add_objective"):
            getattr(m, name)()
        return m
    return solph.Model(es, **kw)


def model(s, es=None, made=None, order=None, limits=True):
    b = Built()
    b.s = s
    if es is None:
        es, made = energysystem(s, order)
    b.es, b.nodes = es, made
    kw = {}
    if s.w is not None:
        kw["objective_weighting"] = [fl(x) for x in s.w]
    if s.periods and s.discount is not None:
        kw["discount_rate"] = float(s.discount)
    T = s.T
    for name, v in (("timeincrement", [float(x) for x in s.dt]), ("objective_weighting", kw.get("objective_weighting", [float(x) for x in s.dt])),
                    ("discount_rate", kw.get("discount_rate"))):
        form = said(s, name)
        if form == "omitted":
            kw.pop(name, None)
        elif form:
            kw[name] = write(s.said["_as"]["Model", name][3] if v is None else v, form, T)
    b.m = m = asked(said(s, "made"), es, kw)
    b.flow_keys = [(made.get(a), made.get(z)) for a, z, _ in s.flows]
    spec = s.spec()
    b.spec = spec
    b.records = []
    if limits:
        for x in s.limits:
            b.records.append(add_limit(b, x))
    return b


def var_flow(b, f, t):
    i, o = b.flow_keys[f]
    return b.m.flow[i, o, t]


def var_status(b, f, t):
    i, o = b.flow_keys[f]
    m = b.m
    if b.s.flows[f][2].get("inv") is not None:
        return m.InvestNonConvexFlowBlock.status[i, o, t]
    return m.NonConvexFlowBlock.status[i, o, t]


def var_level(b, label, tp):
    n = b.nodes[label]
    blk = b.m.GenericInvestmentStorageBlock if is_invest_storage(b, label) else b.m.GenericStorageBlock
    if b.s.N:
        return blk.inter_storage_content[n, tp]
    return blk.storage_content[n, tp]


def is_invest_storage(b, label):
    (d,) = [n for n in b.s.nodes if n["label"] == label]
    return d.get("inv") is not None or d.get("rel_ic") is not None or d.get("rel_oc") is not None


def unit_block(b, key):
    """(block, index tuple) of an investment unit key ("flow", f) / ("store", label)"""
    kind, x = key
    if kind == "store":
        return b.m.GenericInvestmentStorageBlock, (b.nodes[x],)
    i, o = b.flow_keys[x]
    if b.s.flows[x][2].get("nc") is not None:
        return b.m.InvestNonConvexFlowBlock, (i, o)
    return b.m.InvestmentFlowBlock, (i, o)


def var_invest(b, key, p):
    blk, idx = unit_block(b, key)
    return blk.invest[idx + (p,)]


def var_invest_status(b, key, p):
    blk, idx = unit_block(b, key)
    return blk.invest_status[idx + (p,)]


def add_limit(b, x):
    """returns where the model records the limited sum: [expression, ...]
    (one per step, or one for the horizon), or nothing"""
    c = solph.constraints
    s, m, k = b.s, b.m, x["kind"]
    fk = lambda key: (b.nodes[key[0]], b.nodes[key[1]])
    name = x.get("name") or "verif_%s%d" % (k, len(m.component_map()))
    def given(cls, **names):
        """the numbers that are given, as keywords of the function"""
        return say(x, cls, {n: fl(x[k]) for n, k in names.items() if x.get(k) is not None})

    if k == "equateFlows":
        kw = given("EquateFlows", **(dict(factor1="factor") if x["factor"] != 1 else {}))  # one is the default
        if x.get("keywords"):
            c.equate_flows_by_keyword(m, *x["keywords"], name=name, **kw)
        else:
            c.equate_flows(m, [fk(f) for f in x["a"]], [fk(f) for f in x["b"]], name=name, **kw)
    elif k == "count":
        kw = given("FlowCount", lower_limit="lo", upper_limit="hi")
        if x.get("keyword"):
            c.limit_active_flow_count_by_keyword(m, x["keyword"], **kw)
        else:
            c.limit_active_flow_count(m, name, [fk(f) for f in x["flows"]], **kw)
            return [m.component(name)[t] for t in m.TIMESTEPS]
    elif k == "shared":
        c.shared_limit(m, m.GenericStorageBlock.storage_content, name,
                       [b.nodes[n] for n in x["stores"]], [fl(v) for v in x["w"]],
                       **given("SharedLimit", lower_limit="lo", upper_limit="hi"))
        return [m.component(name)[t] for t in m.TIMESTEPS]
    elif k == "integral":
        # x["flows"]: weights of the flows that carry the keyword
        flows = None
        if x.get("explicit"):
            flows = {fk(f): m.flows[fk(f)] for f in x["flows"]}
        emission = x["keyword"] == "emission_factor" and x.get("lo") is None and not x.get("generic")
        if x.get("per"):
            kw = given("PeriodicalLimit", limit="hi")
            if emission:
                c.emission_limit_per_period(m, flows, **kw)
            else:
                c.generic_periodical_integral_limit(m, x["keyword"], flows, **kw)
        elif emission:
            c.emission_limit(m, flows, **given("EmissionLimit", limit="hi"))
        else:
            kw = given("IntegralLimit", upper_limit="hi", lower_limit="lo")
            if x.get("name"):
                kw["limit_name"] = x["name"]
            c.generic_integral_limit(m, x["keyword"], flows, **kw)
        if not x.get("per"):
            return [m.component(x.get("name") or "integral_limit_" + x["keyword"])]
    elif k == "equateInvest":
        a, z = x["units"]
        for p in x.get("periods", [0]):
            c.equate_variables(m, var_invest(b, a, p), var_invest(b, z, p), *([fl(x["factor"])] if x["factor"] != 1 else []))
    elif k == "investAttr":
        c.additional_investment_flow_limit(m, x["keyword"], **given("InvestmentFlowLimit", limit="hi"))
        return [m.component("invest_limit_" + x["keyword"])]
    elif k == "investCost":
        if x.get("per"):
            c.investment_limit_per_period(m, **given("PeriodicalBudget", limit="hi"))
        else:
            c.investment_limit(m, **given("Budget", limit="hi"))
    elif k == "levels":
        c.storage_level_constraint(
            model=m, name=name, storage_component=b.nodes[x["store"]], multiplexer_bus=b.nodes[x["bus"]],
            output_levels={b.nodes[o]: fl(v) for o, v in x.get("outs", {}).items()},
            input_levels={b.nodes[i]: fl(v) for i, v in x.get("ins", {}).items()})
    else:
        raise ValueError(k)
    return []
