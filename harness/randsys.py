"""Random energy systems: every kind of component with random parameters.

The dispatch and investment properties use them next to the designed systems
(the real model's own vertices are judged by the specification), results and
purity checks use them as subjects.  Numbers stay small rationals.
"""

from fractions import Fraction as Fr

from config import NC, Fl, Inv, System

H, Q = Fr(1, 2), Fr(1, 4)


def mix(rng, n, *opts):
    """one value, or a series of n"""
    if rng.random() < 0.5:
        return rng.choice(opts)
    return [rng.choice(opts) for _ in range(n)]


# how often a feature shows up; a property turns up its own
RATES = dict(multi=0.25, nom=0.5, onoff=0.2, inv=0.25, ramp=0.2, full=0.12, minmax=0.4, fix=0.2, times=0.3, maxsw=0.2,
             cost=0.3, nc=0.25, storage=2, convert=3, part=2, life=0.3, caes=0.1, limits=())
FOCUS = dict(
    C02=dict(nom=0.8, onoff=0.05, inv=0.1, minmax=0.6, life=0.6), C03=dict(ramp=0.7, nom=0.8, onoff=0.05, inv=0.1, fix=0),
    C04=dict(full=0.6, nom=0.7, inv=0.1), C05=dict(onoff=0.5, nom=0.2, maxsw=0.5, cost=0.6, times=0.1),
    C06=dict(onoff=0.5, nom=0.2, times=0.8), C07=dict(storage=6), C08=dict(storage=6), C09=dict(convert=9),
    C10=dict(part=8), C12=dict(inv=0.6, nom=0.2, multi=0, storage=4), C13=dict(inv=0.6, nom=0.2, multi=1, storage=4),
    C14=dict(cost=0.7, onoff=0.3, nom=0.4), C15=dict(inv=0.6, nom=0.2, multi=0.6, nc=0.5, storage=4),
    C16=dict(limits=("integral",), multi=0.4), C17=dict(limits=("equateFlows", "count", "shared", "equateInvest"), onoff=0.4, storage=4),
    C18=dict(limits=("investAttr", "investCost"), inv=0.6, nom=0.2, multi=0.4), C28=dict(caes=1),
    # ramps and minimum times across typical periods are not promised
    C19=dict(ramp=0, times=0, maxsw=0, caes=0, storage=5, limits=("integral",)))


class Gen:
    def __init__(self, rng, name, multi=None, T=None, focus=None, frame=None):
        """frame: an empty system with a time axis"""
        self.rng = rng
        self.rate = q = dict(RATES, **FOCUS.get(focus, {}))
        if frame is not None:
            self.s, self.multi, self.P, self.T = frame, bool(frame.periods), frame.P, frame.T
            return
        multi = rng.random() < q["multi"] if multi is None else multi
        if multi:
            steps = [rng.choice((1, 1, 2)) for _ in range(rng.choice((2, 3)))]
            if T is not None:
                steps = [1] * (T - 1) + [1]
            y, per = 2020, []
            for n in steps:
                dur = rng.choice((1, 2, 3)) if n > 1 else 1
                per.append((y, n, dur))
                y += dur + (rng.random() < 0.3)
            self.s = System(name, T=sum(steps), periods=per, dt=rng.choice((1, [rng.choice((1, 2, H)) for _ in range(sum(steps))])),
                            discount=rng.choice((None, Fr(1, 20), Fr(1, 10))))
        else:
            T = T or rng.choice((1, 2, 3, 3, 4))
            self.s = System(name, T=T, dt=rng.choice((1, [rng.choice((1, 2, H, Fr(3, 2))) for _ in range(T)])),
                            w=rng.choice((None, None, None, [rng.choice((1, 2, 3)) for _ in range(T)])))
        self.multi = multi
        self.P = self.s.P
        self.T = self.s.T

    def inv(self, unit="flow", nc=False, onoff=False):
        r = self.rng
        d = Inv(max=r.choice((4, 6)), ep=mix(r, self.P, 1, 2, 3) if self.multi else r.choice((1, 2, 3)))
        if nc or r.random() < self.rate["nc"]:
            d.update(nc=True, off=r.choice((0, 1, 5)), min=r.choice((0, 1)))
        else:
            d.update(min=r.choice((0, 0, 1)), ex=r.choice((0, 0, 1, 2)))
        if self.multi:
            d["life"] = r.choice((1, 2, 3, 5))
            if r.random() < 0.3:
                d["age"] = r.choice([x for x in (0, 1, 2) if x < d["life"]])
            if r.random() < 0.3:
                d["fc"] = r.choice((1, 2))
            if r.random() < 0.2:
                d["omax"] = 7
        return d

    def fl(self, negative=False, free=0.25, onoff=True, invest=True, need=False):
        """need: the flow needs a finite capacity"""
        r, T = self.rng, self.T
        d = Fl(vc=mix(r, T, 0, 1, 2, 3, -1))
        k = r.random()
        if k < free and not need:
            return d
        q = self.rate
        k = r.random()
        if k < q["nom"]:  # given capacity
            d["nom"] = r.choice((2, 3, 4))
            x = r.random()
            if x < q["fix"]:
                d["fix"] = mix(r, T, 0, H, 1)
                return d
            if x < q["fix"] + q["minmax"]:
                d["max"] = mix(r, T, H, Fr(3, 4), 1)
                d["min"] = mix(r, T, 0, 0, Q)
            elif negative:
                d["min"] = mix(r, T, -1, -H, 0, H)
            if r.random() < q["ramp"]:
                d["gp"] = mix(r, T, Q, H, 1)
            if r.random() < q["ramp"]:
                d["gn"] = mix(r, T, Q, H, 1)
            if r.random() < q["full"]:
                d["fltmax"] = r.choice((1, 2)) * sum(self.s.dt) / 2
            if r.random() < q["full"]:
                d["fltmin"] = sum(self.s.dt) / 4
            if self.multi and r.random() < q["life"]:
                d["life"] = r.choice((1, 2, 4))
                d["age"] = r.choice((None, d["life"] - 1))
                if r.random() < 0.5:
                    d["fc"] = 2
            elif self.multi and r.random() < 0.3:
                d["fc"] = 1
        elif k < q["nom"] + q["onoff"] and onoff:
            d["nom"] = r.choice((2, 4))
            d["min"] = mix(r, T, 0, Q, H)
            d["max"] = mix(r, T, Fr(3, 4), 1)
            d["nc"] = self.nc()
            if r.random() < q["full"]:
                d["fltmax"] = r.choice((1, 2)) * sum(self.s.dt) / 2
        elif k < q["nom"] + q["onoff"] + q["inv"] and invest:
            d["inv"] = self.inv()
            if r.random() < 0.25:
                d["fix"] = mix(r, T, 0, H, 1)
            else:
                d["max"] = mix(r, T, H, 1)
                d["min"] = mix(r, T, 0, 0, Q)
        elif invest and onoff and not self.multi:
            d["inv"] = self.inv(onoff=True)
            d["nc"] = self.nc()
            if r.random() < 0.1:
                d["fix"] = mix(r, T, 0, H, 1)
                return d
            d["min"] = mix(r, T, 0, Q, H)
            d["max"] = mix(r, T, Fr(3, 4), 1)
            if r.random() < q["full"]:
                d["fltmax"] = r.choice((1, 2)) * sum(self.s.dt) / 2
            if r.random() < q["full"]:
                d["fltmin"] = sum(self.s.dt) / 4
        else:
            d["nom"] = 4
        return d

    def nc(self):
        r, T = self.rng, self.T
        z = NC(init=r.choice((0, 1)))
        for c in ("cs", "cd", "ca", "ci"):
            if r.random() < self.rate["cost"]:
                z[c] = mix(r, T, 1, 2, 5)
        if r.random() < self.rate["times"]:
            z["up"] = r.choice((1, 2))
        if r.random() < self.rate["times"]:
            z["dn"] = r.choice((1, 2))
        if r.random() < self.rate["maxsw"]:
            z["maxup"] = r.choice((0, 1, 2))
        if r.random() < self.rate["maxsw"]:
            z["maxdn"] = r.choice((0, 1, 2))
        if r.random() < self.rate["ramp"] / 2:
            z["gp"] = mix(r, T, Q, H, 1)
        if r.random() < self.rate["ramp"] / 2:
            z["gn"] = mix(r, T, Q, H, 1)
        return z

    def storage(self, label, a, b):
        r, T = self.rng, self.T
        kw = dict(bal=r.random() < 0.5, loss=mix(r, T, 0, 0, Q, H), ein=mix(r, T, 1, 1, H), eout=mix(r, T, 1, 1, H))
        if r.random() < 0.25:
            kw["flr"] = mix(r, T, 0, Fr(1, 16))
        if r.random() < 0.25 and not self.multi:
            kw["fla"] = mix(r, T, 0, Q)
        kw["init"] = r.choice((None, H, Q)) if not (self.multi) else None
        fi, fo = self.fl(need=True), self.fl(need=True)
        if r.random() < 0.55:
            kw["nom"] = r.choice((4, 8))
            if self.multi:
                kw["init"] = r.choice((None, H))
            elif r.random() < 0.3:
                kw["sc"] = mix(r, T, 0, 1, 2)
        else:
            kw["inv"] = self.inv("store")
            if kw["inv"].get("ex") and kw["inv"].get("nc"):
                kw["inv"]["ex"] = 0
            if kw.get("fla") and not kw["inv"].get("min"):
                kw["inv"]["min"] = 1
            if r.random() < 0.3 and not self.multi and all("inv" in f and "nc" not in f for f in (fi, fo)):
                kw["rel_io"] = r.choice((1, 2))
        n = self.s.N or T + 1
        if "nom" in kw and "nom" in fi and not self.s.N and r.random() < 0.15:
            kw.update(csu=r.choice((H, Q)), fsc=r.choice((H, Q)), lmax=r.choice((1, H)))
        elif r.random() < 0.4:
            kw["lmax"] = mix(r, n, Fr(3, 4), 1)
        if r.random() < 0.3:
            kw["lmin"] = mix(r, n, 0, 0, Q)
            if not self.multi:
                kw["init"] = r.choice((None, H))
        self.s.storage(label, {a: fi}, {b: fo}, **kw)

    def caes(self, label, el, gas, out):
        r = self.rng
        par = dict(cmp_p_max_m=r.choice((0, Q, -Q)), cmp_p_max_b=r.choice((2, 4)), cmp_p_min=r.choice((H, 1)),
                   cmp_q_out_m=r.choice((H, 1)), cmp_q_out_b=r.choice((0, -Q, H)), cmp_q_tes_share=r.choice((0, H, 1)),
                   exp_p_max_m=r.choice((0, H)), exp_p_max_b=r.choice((1, 2)), exp_p_min=r.choice((Q, H)),
                   exp_q_in_m=r.choice((1, 2)), exp_q_in_b=r.choice((0, Q, -Q)), exp_q_tes_share=r.choice((0, Q, 1)),
                   cav_e_in_m=r.choice((H, 1)), cav_e_in_b=r.choice((0, 0, Q)), cav_e_out_m=r.choice((H, 1)),
                   cav_e_out_b=r.choice((0, 0, Q)), cav_eta_temp=r.choice((1, 1, Fr(5, 4))), cav_level_max=r.choice((3, 6)),
                   tes_level_max=r.choice((0, 2, 5)), tes_eta_temp=1)
        self.s.caes(label, el, gas, out, par, efl=self.fl(), ffl=self.fl(), ofl=self.fl())

    def system(self):
        r, s, T, q = self.rng, self.s, self.T, self.rate
        labels = ["b0", "b1", "b2"][:r.choice((1, 2, 2, 3))]
        s.bus(*labels)
        for b in labels:  # something to feed and something to drain everywhere
            if r.random() < 0.7:
                s.source("src_" + b, **{b: self.fl()})
            if r.random() < 0.7:
                s.sink("snk_" + b, **{b: self.fl()})
        some = lambda: r.choice(labels)
        for k in range(r.choice((1, 2, 2, 3))):
            kind = r.choices(("converter", "storage", "link", "offset", "extraction", "source", "sink", "many", "wire"),
                             [q["convert"] * 2, q["storage"] * 3, q["convert"], q["part"], q["part"], 3, 3, q["convert"], 3])[0]
            two = r.sample(labels, 2) if len(labels) > 1 else labels * 2
            n = f"{kind}{k}"
            if kind == "converter":
                s.conv(n, {two[0]: self.fl()}, {two[1]: self.fl()}, cf={two[1]: mix(r, T, H, 1, 2, 0)}
                       if two[0] != two[1] else {})
            elif kind == "many" and len(labels) == 3:
                s.conv(n, {labels[0]: self.fl()}, {labels[1]: self.fl(), labels[2]: self.fl()},
                       cf={labels[0]: mix(r, T, 1, 2), labels[1]: mix(r, T, H, 1), labels[2]: mix(r, T, H, 1, Q)})
            elif kind == "storage":
                self.storage(n, *two)
            elif kind == "link" and len(labels) > 1:
                a, b = two
                s.link(n, {a: self.fl(onoff=False), b: self.fl(onoff=False)}, {a: self.fl(onoff=False), b: self.fl(onoff=False)},
                       cf={(a, b): mix(r, T, H, 1, 1, 0), (b, a): mix(r, T, H, 1, 1, 0)})
            elif kind == "offset" and len(labels) > 1:
                a, b = two
                f = Fl(nom=4, min=mix(r, T, Q, H), nc=self.nc())
                if r.random() < 0.4:  # by efficiencies
                    if r.random() < 0.5:
                        f["max"] = mix(r, T, Fr(3, 4), 1)
                    e = (mix(r, T, H, 1), mix(r, T, Q, H))
                    if r.random() < 0.5:
                        s.offset(n, {a: f}, {b: Fl()}, eff={b: e})
                    else:
                        s.offset(n, {a: Fl()}, {b: f}, eff={a: e})
                elif r.random() < 0.5:
                    s.offset(n, {a: f}, {b: Fl()}, cf={b: mix(r, T, H, 1)}, off={b: mix(r, T, 0, -Q, Q)})
                else:
                    s.offset(n, {a: Fl()}, {b: f}, cf={a: mix(r, T, 1, 2)}, off={a: mix(r, T, 0, H)})
            elif kind == "extraction" and len(labels) == 3:
                s.extraction(n, {labels[0]: self.fl()}, {labels[1]: Fl(), labels[2]: Fl()},
                             cf={labels[1]: mix(r, T, Q, H), labels[2]: H}, full={labels[1]: mix(r, T, Fr(3, 4), H)})
            elif kind == "source":
                s.source(n, **{b: self.fl(negative=True) for b in set(two)} if r.random() < 0.5 else {two[0]: self.fl(negative=True)})
            elif kind == "sink":
                s.sink(n, **{two[0]: self.fl(negative=True)})
            elif kind == "wire" and two[0] != two[1] and not any(f[:2] == tuple(two) for f in s.flows):
                s.wire(two[0], two[1], self.fl())
        if q["caes"] and len(labels) > 1 and r.random() < q["caes"]:
            self.caes("air", *r.sample(labels, 2), r.choice(labels))
        if not s.flows:
            s.source("src", **{labels[0]: self.fl()})
            s.sink("snk", **{labels[0]: self.fl()})
        if q["limits"]:
            s.spec()
            for k in range(r.choice((1, 1, 2))):
                self.limit(r.choice(q["limits"]), k)
        return s

    def limit(self, kind, k):
        """a limit over a random part of the system"""
        r, s, T, P = self.rng, self.s, self.T, self.P
        flows = [(a, b) for a, b, _ in s.flows]
        pick = lambda lst: r.sample(lst, r.randint(1, min(3, len(lst))))
        units = sorted(s.unit_of, key=str)
        if kind == "integral":
            key = r.choice(("emission_factor", "water")) + (str(k) if r.random() < 0.5 else "")
            if any(x.get("keyword") == key for x in s.limits):
                return
            w = {f: mix(r, T, 0, H, 1, 2, -1) for f in pick(flows)}
            if not any(any(x if isinstance(x, list) else [x]) for x in w.values()):
                return  # limits nothing
            for a, b, d in s.flows:
                if (a, b) in w:
                    d["props"] = dict(d.get("props") or {}, **{key: w[a, b]})
            per = s.periods and r.random() < 0.6
            lo = None if per or key == "emission_factor" or r.random() < 0.6 else r.choice((-2, 0, 1))
            hi = [r.choice((0, 1, 2, 4)) for _ in range(P)] if per else r.choice((2, 4, 8)) if lo is None or r.random() < 0.5 else None
            s.limit("integral", keyword=key, flows=w, hi=hi, lo=lo, per=bool(per), explicit=r.random() < 0.3)
        elif kind == "equateFlows" and len(flows) > 1:
            fs = r.sample(flows, min(len(flows), r.choice((2, 3, 4))))
            j = r.randint(1, len(fs) - 1)
            s.limit("equateFlows", a=fs[:j], b=fs[j:], factor=r.choice((1, 2, H)))
        elif kind == "count":
            on = [(a, b) for a, b, d in s.flows if d.get("nc") is not None and d.get("inv") is None]
            if on:
                s.limit("count", flows=pick(on), lo=r.choice((None, None, 1)), hi=r.choice((None, 0, 1, 2)))
        elif kind == "shared":
            st = [n["label"] for n in s.nodes if n["kind"] == "storage" and "inv" not in n and not n.get("rel_io")]
            if st:
                st = pick(st)
                s.limit("shared", stores=st, w=[r.choice((1, 2, H)) for _ in st], lo=r.choice((None, 0, 1)),
                        hi=r.choice((None, 4, 6)))
        elif kind == "equateInvest" and len(units) > 1:
            s.limit("equateInvest", units=r.sample(units, 2), factor=r.choice((1, 2, H)))
        elif kind == "investAttr":
            fl = [u for u in units if u[0] == "flow"]
            if fl and not any(x["kind"] == kind for x in s.limits):
                w = {u: r.choice((H, 1, 2)) for u in pick(fl)}
                for u, x in w.items():
                    s.flows[u[1]][2]["inv"]["props"] = {"space": x}
                s.limit("investAttr", keyword="space", w=w, hi=r.choice((2, 5)))
        elif kind == "investCost" and units and not any(x["kind"] == kind for x in s.limits):
            per = s.periods and r.random() < 0.5
            s.limit("investCost", hi=[r.choice((3, 8)) for _ in range(P)] if per else r.choice((4, 10)), per=bool(per))


def generate(rng, name, multi=None, T=None, focus=None, frame=None):
    return Gen(rng, name, multi, T, focus, frame).system()
