"""System descriptions: one authoring form, two readings.

A :class:`System` is written once.  ``spec()`` renders it as the record that
spec/EnergySystem.tla reads; ``build.build()`` turns the same description into
oemof.solph objects.  Numbers are ints, Fractions or lists of those.
"""

from fractions import Fraction as Fr
from itertools import product


def rat(x):
    """numeral of x for Rat.tla"""
    if x is None:
        return ""
    x = Fr(x)
    return str(x.numerator) if x.denominator == 1 else f"{x.numerator}/{x.denominator}"


def seq(x, n):
    """expand scalar / list to n numerals"""
    if isinstance(x, (list, tuple)):
        assert len(x) >= n, (x, n)
        return [rat(v) for v in x[:n]]
    return [rat(x)] * n


def optseq(x, n):
    return [] if x is None else seq(x, n)


def at(x, i):
    return x[i] if isinstance(x, (list, tuple)) else x


class Inv(dict):
    """Investment: min, max, ex, ep, off, nc, omax, omin, life, age, fc, w (custom)"""


class NC(dict):
    """NonConvex: init, up, dn, maxup, maxdn, cs, cd, ca, ci, gp, gn"""


class Fl(dict):
    """Flow: nom, inv, min, max, fix, vc, gp, gn, fltmax, fltmin, int, nc,
    life, age, fc, props"""


class System:
    N = None  # with aggregated time series: steps of the original horizon

    def __init__(self, name, T, dt=1, w=None, periods=None, discount=None,
                 remaining=False, index="auto", tsa=None):
        self.name = name
        self.T = T
        self.dt = [Fr(d) for d in (dt if isinstance(dt, list) else [dt] * T)]
        self.w = w  # None: objective_weighting not given
        # periods: list of (year, number of steps, duration in years)
        self.periods = periods
        self.discount = Fr(discount) if discount is not None else None
        self.remaining = remaining
        self.index = index
        self.tsa = tsa
        self.said = {}  # how the model is asked for, see spec/Notation.tla
        self.labels = None  # None: text; "named", "tuple", "number"
        self.flows = []   # (src, dst, Fl)
        self.nodes = []   # dict(kind, label, ...)
        self.limits = []
        self.units = []
        self.grid = {}
        self.notes = {}

    # -- authoring ---------------------------------------------------------
    def _flow(self, src, dst, fl):
        fl = Fl(fl or {})
        self.flows.append((src, dst, fl))
        return len(self.flows) - 1

    def fi(self, src, dst):
        for k, (a, b, _) in enumerate(self.flows):
            if (a, b) == (src, dst):
                return k
        raise KeyError((src, dst))

    def node(self, kind, label, ins=None, outs=None, **kw):
        n = dict(kind=kind, label=label, ins=[], outs=[], **kw)
        for b, fl in (ins or {}).items():
            n["ins"].append((b, self._flow(b, label, fl)))
        for b, fl in (outs or {}).items():
            n["outs"].append((b, self._flow(label, b, fl)))
        self.nodes.append(n)
        return n

    def bus(self, *labels, balanced=True):
        for x in labels:
            self.nodes.append(dict(kind="bus", label=x, balanced=balanced, ins=[], outs=[]))

    def wire(self, src, dst, fl):
        """a flow directly between two buses"""
        (n,) = [n for n in self.nodes if n["label"] == dst]
        n["ins"].append((src, self._flow(src, dst, fl)))

    def source(self, label, **outs):
        return self.node("source", label, outs=outs)

    def sink(self, label, **ins):
        return self.node("sink", label, ins=ins)

    def conv(self, label, ins, outs, cf=None):
        return self.node("converter", label, ins, outs, cf=cf or {})

    def link(self, label, ins, outs, cf):
        return self.node("link", label, ins, outs, cf=cf)

    def offset(self, label, ins, outs, cf=None, off=None, eff=None, coef=None):
        """given by conversion factors and normed offsets, by the efficiencies
        (at maximum, at minimum load) of the other flows, or by the deprecated
        coefficients (offset, slope) of the output"""
        return self.node("offset", label, ins, outs, cf=cf or {}, off=off or {}, eff=eff or {}, coef=coef)

    def extraction(self, label, ins, outs, cf, full):
        return self.node("extraction", label, ins, outs, cf=cf, full=full)

    def chp(self, label, fuel, el, heat, **par):
        """generic CHP: fuel/el/heat bus labels; pmin pmax emin emax qcw smax smin beta bp"""
        return self.node("chp", label, {fuel: par.pop("ffl", None)},
                         {el: par.pop("efl", None), heat: par.pop("hfl", None)}, par=par)

    def pwl(self, label, ins, outs, xs, fn, repn):
        return self.node("pwl", label, ins, outs, xs=xs, fn=fn, repn=repn)

    def caes(self, label, el, fuel, out, par, efl=None, ffl=None, ofl=None):
        """compressed air plant: electricity, fuel, output bus labels; parameters as named in solph"""
        return self.node("caes", label, {el: efl, fuel: ffl}, {out: ofl}, par=par)

    def storage(self, label, ins, outs, **kw):
        return self.node("storage", label, ins, outs, **kw)

    def limit(self, kind, **kw):
        self.limits.append(dict(kind=kind, **kw))

    # -- rendering ---------------------------------------------------------
    @property
    def P(self):
        return len(self.periods) if self.periods else 1

    @property
    def period(self):
        if not self.periods:
            return [1] * self.T
        return [p + 1 for p, (_, n, _) in enumerate(self.periods) for _ in range(n)]

    @property
    def years(self):
        if not self.periods:
            return [0]
        return [y - self.periods[0][0] for (y, _, _) in self.periods]

    @property
    def end_year(self):
        if not self.periods:
            return 1
        # the last period lasts as many years as its time stamps span
        _, n, duration = self.periods[-1]
        return self.years[-1] + (duration if n > 1 else 1)

    def spec(self):
        T, P, Y = self.T, self.P, self.end_year
        units = []
        self.unit_of = {}

        def unit(name, kind, inv, ncflow=False):
            off = inv.get("off", 0)
            units.append(dict(
                name=name, kind=kind, nc=bool(inv.get("nc")),
                min=seq(inv.get("min", 0), P),
                max=[""] * P if inv.get("max") is None else seq(inv["max"], P),
                ex=rat(inv.get("ex", 0)), ep=seq(inv.get("ep", 0), P), off=seq(off, P),
                omax=rat(inv.get("omax")), omin=rat(inv.get("omin")),
                life=inv.get("life") or 0, age=inv.get("age") or 0,
                fc=optseq(inv.get("fc"), Y), ncflow=ncflow))
            return len(units)

        flows = []
        for src, dst, fl in self.flows:
            name = f"{src}->{dst}"
            nc = fl.get("nc")
            u = 0
            if fl.get("inv") is not None:
                u = unit(name, "flow", fl["inv"], nc is not None)
                self.unit_of[("flow", len(flows))] = u
            mn = fl.get("min", 0)
            uni = min([Fr(x) for x in (mn if isinstance(mn, list) else [mn])]) >= 0
            z = nc or {}
            up, dn = z.get("up", 0), z.get("dn", 0)
            ilist = lambda x: list(x[:T]) if isinstance(x, list) else [x] * T
            init = z.get("init", 0)
            flows.append(dict(
                name=name, nom=rat(fl.get("nom")), unit=u, uni=uni,
                min=seq(mn, T), max=seq(fl.get("max", 1), T), fix=optseq(fl.get("fix"), T),
                vc=seq(fl.get("vc", 0), T), gp=optseq(fl.get("gp", z.get("gp")), T),
                gn=optseq(fl.get("gn", z.get("gn")), T),
                fltmax=rat(fl.get("fltmax")), fltmin=rat(fl.get("fltmin")),
                int=bool(fl.get("int")), life=fl.get("life") or 0, age=fl.get("age") or 0,
                fc=optseq(fl.get("fc"), Y),
                nc=nc is not None, init=init, up=ilist(up), dn=ilist(dn),
                first=ilist(up)[0] if init else ilist(dn)[0],
                maxup=-1 if z.get("maxup") is None else z["maxup"],
                maxdn=-1 if z.get("maxdn") is None else z["maxdn"],
                cs=seq(z.get("cs") or 0, T), cd=seq(z.get("cd") or 0, T),
                ca=seq(z.get("ca") or 0, T), ci=seq(z.get("ci") or 0, T)))
        idx = lambda lst: [f + 1 for _, f in lst]
        buses, convs, links, offs, exts, stores, chps, pwls, caes = [], [], [], [], [], [], [], [], []
        self.store_of = {}
        for n in self.nodes:
            k = n["kind"]
            if k == "bus":
                b = n["label"]
                buses.append(dict(
                    name=b, balanced=n["balanced"],
                    ins=[i + 1 for i, (_, d, _) in enumerate(self.flows) if d == b],
                    outs=[i + 1 for i, (s, _, _) in enumerate(self.flows) if s == b]))
            elif k == "converter":
                g = lambda b: seq(n["cf"].get(b, 1), T)
                convs.append(dict(name=n["label"],
                                  ins=[dict(f=f + 1, cf=g(b)) for b, f in n["ins"]],
                                  outs=[dict(f=f + 1, cf=g(b)) for b, f in n["outs"]]))
            elif k == "link":
                links.append(dict(name=n["label"], conns=[
                    dict(fi=self.fi(a, n["label"]) + 1, fo=self.fi(n["label"], b) + 1, cf=seq(c, T))
                    for (a, b), c in n["cf"].items()]))
            elif k == "offset":
                both = n["ins"] + n["outs"]
                ref = [f for _, f in both if self.flows[f][2].get("nc") is not None]
                given = lambda b: dict(cf=seq(n["cf"].get(b, 1), T), off=seq(n["off"].get(b, 0), T))
                if n["coef"]:
                    c0, c1 = ([Fr(at(c, t)) for t in range(T)] for c in n["coef"])
                    given = lambda b: dict(cf=[rat(1 / y) for y in c1], off=[rat(-x / y) for x, y in zip(c0, c1)])
                offs.append(dict(
                    name=n["label"], ref=ref[0] + 1, atInput=ref[0] in [f for _, f in n["ins"]], others=[
                        dict(f=f + 1, **given(b), etaMax=optseq(n["eff"].get(b, (None, None))[0], T),
                             etaMin=optseq(n["eff"].get(b, (None, None))[1], T))
                        for b, f in both if f != ref[0]]))
            elif k == "extraction":
                (main,) = n["full"]
                (tap,) = [b for b, _ in n["outs"] if b != main]
                exts.append(dict(
                    name=n["label"], fin=n["ins"][0][1] + 1,
                    main=self.fi(n["label"], main) + 1, tap=self.fi(n["label"], tap) + 1,
                    cmain=seq(n["cf"].get(main, 1), T), ctap=seq(n["cf"].get(tap, 1), T),
                    full=seq(n["full"][main], T)))
            elif k == "chp":
                r = n["par"]
                chps.append(dict(name=n["label"], fuel=n["ins"][0][1] + 1, el=n["outs"][0][1] + 1,
                                 heat=n["outs"][1][1] + 1, bp=bool(r.get("bp")), smin=optseq(r.get("smin"), T),
                                 **{a: seq(r[a], T) for a in ("pmin", "pmax", "emin", "emax", "qcw", "smax", "beta")}))
            elif k == "pwl":
                xs = [Fr(x) for x in n["xs"]]
                pwls.append(dict(name=n["label"], fin=n["ins"][0][1] + 1, fout=n["outs"][0][1] + 1,
                                 xs=[rat(x) for x in xs], ys=[rat(n["fn"](x)) for x in xs]))
            elif k == "caes":
                r = n["par"]
                line = lambda a: dict(m=rat(r[a + "_m"]), b=rat(r[a + "_b"]))
                caes.append(dict(
                    name=n["label"], el=n["ins"][0][1] + 1, fuel=n["ins"][1][1] + 1, out=n["outs"][0][1] + 1,
                    cmp=dict(power=line("cmp_p_max"), min=rat(r["cmp_p_min"]), heat=line("cmp_q_out"),
                             share=rat(r["cmp_q_tes_share"]), air=line("cav_e_in")),
                    exp=dict(power=line("exp_p_max"), min=rat(r["exp_p_min"]), heat=line("exp_q_in"),
                             share=rat(r["exp_q_tes_share"]), air=line("cav_e_out")),
                    eta=rat(r["cav_eta_temp"]), cavMax=rat(r["cav_level_max"]), heatMax=rat(r["tes_level_max"])))
            elif k == "storage":
                u = 0
                if n.get("inv") is not None:
                    u = unit(n["label"], "store", n["inv"])
                    self.unit_of[("store", n["label"])] = u
                fi_, fo_ = n["ins"][0][1], n["outs"][0][1]
                infl = self.flows[fi_][2]
                soc = n.get("csu") is not None
                TP = self.N or T + 1
                stores.append(dict(
                    name=n["label"], fi=fi_ + 1, fo=fo_ + 1, unit=u, nom=rat(n.get("nom")),
                    init=rat(n.get("init")), bal=n.get("bal", True),
                    loss=seq(n.get("loss", 0), T), flr=seq(n.get("flr", 0), T),
                    fla=seq(n.get("fla", 0), T), ein=seq(n.get("ein", 1), T),
                    eout=seq(n.get("eout", 1), T),
                    lmin=seq(n.get("lmin", 0), TP) + ["0"],
                    lmax=seq(n.get("lmax", 1), TP) + ["1"],
                    sc=seq(n.get("sc") or 0, T), fc=optseq(n.get("fc"), Y),
                    soc=soc, csu=rat(n.get("csu")), fsc=rat(n.get("fsc")),
                    chcap=rat(infl.get("nom")), chmax=seq(infl.get("max", 1), T),
                    relInOut=optseq(n.get("rel_io"), P), relInCap=optseq(n.get("rel_ic"), P),
                    relOutCap=optseq(n.get("rel_oc"), P)))
                self.store_of[n["label"]] = len(stores)
        self.units = units
        limits = [self._limit(x, T, P) for x in self.limits]
        w = self.dt if self.w is None else self.w
        d = dict(
            name=self.name, T=T, P=P, multi=bool(self.periods), dt=seq(self.dt, T),
            w=seq(list(w), T), occ=["1"] * T, agg=False, period=self.period, years=self.years,
            endYear=self.end_year, discount=rat(self.discount if self.discount is not None
                                                 else Fr(1, 50) if self.periods else 0),
            flowInterest="1/20", remaining=bool(self.remaining),
            flows=flows, units=units, buses=buses, convs=convs, links=links, offs=offs,
            extracts=exts, chps=chps, pwls=pwls, caes=caes, stores=stores, limits=limits,
            plain=not any(f["nc"] for f in flows)
            and all(all(c == "0" for c in s["sc"]) and all(c == "0" for c in s["fc"]) for s in stores),
            plans=[], moves=[])
        return d

    def _flowidx(self, key):
        return self.fi(*key) + 1

    def _limit(self, x, T, P):
        k = x["kind"]
        if k == "equateFlows":
            return dict(kind=k, a=[self._flowidx(f) for f in x["a"]],
                        b=[self._flowidx(f) for f in x["b"]], factor=rat(x["factor"]))
        if k == "count":
            return dict(kind=k, flows=[self._flowidx(f) for f in x["flows"]],
                        hi=rat(x.get("hi")), lo=rat(x.get("lo")))
        if k == "shared":
            return dict(kind=k, stores=[self.store_of[s] for s in x["stores"]],
                        w=[rat(v) for v in x["w"]], hi=rat(x.get("hi")), lo=rat(x.get("lo")))
        if k == "integral":
            # flows: {(src,dst): weight scalar/list}; hi/lo: scalar, or list per period
            n = P if x.get("per") else 1
            lst = lambda v: [rat(None)] * n if v is None else (
                [rat(e) for e in v] if isinstance(v, list) else [rat(v)] * n)
            return dict(kind=k, flows=[self._flowidx(f) for f in x["flows"]],
                        w=[seq(c, T) for c in x["flows"].values()],
                        hi=lst(x.get("hi")), lo=lst(x.get("lo")))
        if k == "equateInvest":
            return dict(kind=k, units=[self.unit_of[u] for u in x["units"]], factor=rat(x["factor"]),
                        periods=[p + 1 for p in x.get("periods", [0])])
        if k == "investAttr":
            return dict(kind=k, units=[self.unit_of[u] for u in x["w"]],
                        w=[rat(v) for v in x["w"].values()], hi=rat(x["hi"]))
        if k == "investCost":
            return dict(kind=k, 
                        hi=[rat(v) for v in (x["hi"] if isinstance(x["hi"], list) else [x["hi"]])],
                        per=bool(x.get("per")))
        if k == "levels":
            g = lambda d, out: [dict(f=self._flowidx((x["bus"], b) if out else (b, x["bus"])), lv=rat(v))
                                for b, v in (d or {}).items()]
            return dict(kind=k, store=self.store_of[x["store"]], outs=g(x.get("outs"), True),
                        ins=g(x.get("ins"), False))
        raise ValueError(k)


def products(*lists):
    return [list(x) for x in product(*lists)]
