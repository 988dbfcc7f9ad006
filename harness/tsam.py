"""C19: aggregated time series.

Specification: spec/Tsam.tla (typical steps by EnergySystem, then the original
horizon).  A system is described over its typical steps; `order` names, per
investment period, the typical period of every original period.
"""

import random
from fractions import Fraction as Fr
from itertools import product

from config import NC, Fl, Inv, System, rat, seq
from engine import Job

H, Q = Fr(1, 2), Fr(1, 4)


class Aggregated(System):
    """orders: per period the list of typical periods; G: steps of a typical
    period; segs: per period, per typical period, the lengths of its segments
    (or None); freq: hours per original point"""

    def __init__(self, name, orders, G, segs=None, freq=1, years=None, shuffled=False, **kw):
        self.orders, self.segs, self.freq, self.shuffled = orders, segs, Fr(freq), shuffled
        self.G = G = G if isinstance(G, list) else [G] * len(orders)
        self.K = [max(o) + 1 for o in orders]
        T = sum(k * g for k, g in zip(self.K, G))
        if segs:
            dt = [x * Fr(freq) for p, k in enumerate(self.K) for c in range(k) for x in segs[p][c]]
        else:
            dt = [Fr(freq)] * T
        self.N = sum(len(o) * g for o, g in zip(orders, G))
        if years:
            kw["periods"] = [(y, k * g, 1) for y, k, g in zip(years, self.K, G)]
        super().__init__(name, T, dt=dt, **kw)

    def spec(self):
        d = super().spec()
        orig, oper, segl, fine, first = [], [], [], [], 0
        point = 1
        for p, o in enumerate(self.orders):
            for k in o:
                for g in range(self.G[p]):
                    orig.append(first + k * self.G[p] + g + 1)
                    oper.append(p + 1)
                    segl.append(self.segs[p][k][g] if self.segs else 1)
                    fine.append(point)
                    point += segl[-1]
            first += self.K[p] * self.G[p]
        stamps = [x[0] for x in self.stamps()]
        d.update(agg=True, orig=orig, oper=oper, seg=segl, fine=fine, freq=rat(self.freq),
                 pstart=[rat(Fr((x - stamps[0]).total_seconds()) / 3600) for x in stamps],
                 occ=[rat(orig.count(k + 1)) for k in range(self.T)])
        return d

    def stamps(self):
        import pandas as pd

        return [pd.date_range(f"{2020 if not self.periods else self.periods[p][0]}-01-01",
                              periods=k * self.G[p], freq=pd.Timedelta(hours=float(self.freq)))
                for p, k in enumerate(self.K)]

    def aggregated(self):
        """arguments of EnergySystem"""
        per = self.stamps()
        ti = per[0]
        for x in per[1:]:
            ti = ti.append(x)
        tsa = []
        for p, o in enumerate(self.orders):
            d = dict(order=list(o))
            if self.segs:
                keys = [(k, g) for k in range(self.K[p]) for g in range(self.G[p])]
                if self.shuffled:
                    random.Random(self.name).shuffle(keys)
                d["segments"] = {(k, g): self.segs[p][k][g] for k, g in keys}
                d["timesteps_per_period"] = sum(self.segs[p][0])
            else:
                d["timesteps_per_period"] = self.G[p]
            tsa.append(d)
        kw = dict(timeindex=ti, tsa_parameters=tsa if self.periods or len(self.name) % 2 else tsa[0])
        if self.periods:
            kw.update(periods=per, use_remaining_value=self.remaining, infer_last_interval=False)
            if not self.segs:
                kw["timeincrement"] = [float(x) for x in self.dt]
        else:
            kw["infer_last_interval"] = not self.segs
        return kw

    def report(self, b, pr, rng):
        """what processing.results says about the values of the last answer"""
        import pandas as pd
        from oemof import solph

        for v, x in zip(pr.columns, pr.x):
            v.set_value(float(x), skip_validation=True)
        sp = b.spec
        num = lambda x: "-987654321" if x != x else rat(Fr(float(x)).limit_denominator(10 ** 6))
        stores = sorted(self.store_of, key=self.store_of.get)
        try:
            r = solph.processing.results(b.m, remove_last_time_point=rng.random() < 0.5)
        except Exception as e:
            if __import__("os").environ.get("DBG"):
                import traceback; traceback.print_exc()
            return dict(axis=[], flows=[[]] * len(self.flows), status=[[]] * len(self.flows), soc=[[]] * len(stores),
                        error=f"{type(e).__name__}: {e}"[:200])
        seqs = lambda k: r[k]["sequences"] if k in r else pd.DataFrame()
        col = lambda df, c: [num(x) for x in df[c]] if c in df.columns else []
        keys = [(i, o) for i, o in b.flow_keys]
        axis = seqs(keys[0]).index
        t0 = self.stamps()[0][0]
        return dict(axis=[num((x - t0).total_seconds() / 3600) for x in axis],
                    flows=[col(seqs(k), "flow") for k in keys],
                    status=[col(seqs(k), "status") if sp["flows"][f]["nc"] else [] for f, k in enumerate(keys)],
                    soc=[col(seqs((b.nodes[n], None)), "soc") for n in stores], error="")


def orders(K, n):
    """every order of length n in which all K typical periods occur"""
    return [list(o) for o in product(range(K), repeat=n) if set(o) == set(range(K))]


def battery(s, fix, price, st, demand=Fl(nom=1), back=None):
    """a surplus, a priced supply, demand, excess and a storage on one bus"""
    s.bus("e")
    s.source("grid", e=Fl(nom=2, vc=price))
    s.source("pv", e=Fl(nom=1, fix=fix))
    s.sink("load", e=Fl(nom=1, vc=back if back is not None else 0))
    s.storage("st", {"e": Fl(nom=2)}, {"e": Fl(nom=2)}, **st)
    return s


def operation(rng, tier):
    """storages in all orders of typical periods"""
    jobs = []
    V = {("grid", "e"): [0, 1], ("pv", "e"): [0, 1, 2], ("e", "load"): [0, 1], ("e", "st"): [0, 1, 2], ("st", "e"): [0, 1]}
    for o in rng.sample(orders(2, 3), 3) + rng.sample(orders(2, 4), 2 if tier == "quick" else 6):
        n = "".join(map(str, o))
        N = 2 * len(o)
        price = [rng.choice([1, 2, 3, 5]) for _ in range(4)]
        s = Aggregated(f"tsam.plain.{n}", [o], 2)
        battery(s, [rng.choice([0, 1, 2]) for _ in range(4)], price, dict(nom=rng.choice([2, 3, 4]), init=rng.choice([None, H]), bal=True,
                sc=rng.choice([None, [1, 0, 2, 3]])), back=[-1, -2, -1, -3])
        jobs.append(Job(s, V, plans=[dict(lv=[x]) for x in (0, 1, 2)], cap=30))
        s = Aggregated(f"tsam.limits.{n}", [o], 2)
        lo = [rng.choice([0, 0, Q]) for _ in range(N)]
        hi = [rng.choice([1, H, Fr(3, 4)]) for _ in range(N)]
        battery(s, [0, 1, 1, 0], price, dict(nom=4, init=None, bal=False, lmin=lo, lmax=hi), back=[-1, -2, -1, -3])
        jobs.append(Job(s, V, plans=[dict(lv=[x]) for x in (0, 1, 2, 3)], cap=30))
        s = Aggregated(f"tsam.losses.{n}", [o], 2, freq=rng.choice([1, H, 2]))
        battery(s, [2, 0, 1, 0], price,
                dict(nom=4, init=H, bal=rng.random() < .3, loss=[H, 0, Q, H] if rng.random() < .7 else Q, flr=[0, Q, 0, Fr(1, 8)],
                     fla=[Q, 0, H, 0] if rng.random() < .5 else 0, ein=[1, H, 1, H], eout=[1, 1, H, H], sc=rng.choice([None, [1, 0, 2, 3]]),
                     lmin=Fr(1, 8) if rng.random() < .5 else 0), back=[-1, -2, -1, -3])
        jobs.append(Job(s, None, random=True))
    return jobs


def cut(rng, L, G):
    """L divided into G parts"""
    cuts = sorted(rng.sample(range(1, L), G - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [L])]


def segments(rng, tier):
    jobs = []
    for i, o in enumerate(rng.sample(orders(2, 3), 2) + rng.sample(orders(3, 4), 2)):
        K = max(o) + 1
        G = 2 if K == 3 else 3
        L = 5
        segs = []
        for _ in range(K):
            segs.append(cut(rng, L, G))
        T = K * G
        s = Aggregated("tsam.segments." + "".join(map(str, o)) + f".{G}", [o], G, segs=[segs], shuffled=i == 1)
        battery(s, [rng.choice([0, 1, 2]) for _ in range(T)], [rng.choice([1, 2, 3, 5]) for _ in range(T)],
                dict(nom=12, init=rng.choice([None, Q]), bal=rng.random() < .5, loss=[rng.choice([0, Q, H]) for _ in range(T)],
                     flr=[rng.choice([0, 0, Fr(1, 16)]) for _ in range(T)], lmin=rng.choice([0, Fr(1, 8)]),
                     fla=[rng.choice([0, Q, H]) for _ in range(T)] if i % 2 else 0, eout=[rng.choice([1, H]) for _ in range(T)],
                     lmax=[rng.choice([1, 1, Fr(3, 4)]) for _ in range(G * len(o))], ein=[rng.choice([1, H]) for _ in range(T)],
                     sc=rng.choice([None, [rng.choice([0, 1, 2]) for _ in range(T)]])),
                back=[-rng.choice([1, 2, 3]) for _ in range(T)])
        jobs.append(Job(s, None, random=True))
    return jobs


def weights(rng, tier):
    """costs, energy sums, operation states"""
    jobs = []
    for o in rng.sample(orders(2, 4), 2):
        n = "".join(map(str, o))
        s = Aggregated(f"tsam.energy.{n}", [o], 2, freq=rng.choice([1, 2, H]))
        s.bus("e")
        s.source("a", e=Fl(nom=2, vc=[1, 2, 3, 1], fltmax=5))
        s.source("b", e=Fl(nom=2, vc=[5, 1, 2, 3], fltmin=2, props=dict(emission_factor=[2, 1, 0, 3])))
        s.source("c", e=Fl(inv=Inv(max=4, ep=3, ex=1), vc=1, fltmax=4, fltmin=1))
        s.sink("load", e=Fl(nom=4, vc=[-2, -3, -1, -4]))
        s.limit("integral", keyword="emission_factor", flows={("b", "e"): [2, 1, 0, 3]}, hi=14)
        jobs.append(Job(s, None, random=True))
        s = Aggregated(f"tsam.states.{n}", [o], 2)
        s.bus("e")
        s.source("a", e=Fl(nom=2, min=H, vc=[1, 2, 3, 1], nc=NC(init=rng.choice([0, 1]), cs=[3, 4, 5, 6], cd=[2, 7, 1, 3], ca=[1, 0, 2, 4], ci=[0, 1, 3, 1])))
        s.source("b", e=Fl(inv=Inv(max=4, ep=3, ex=0), min=H, vc=1, nc=NC(init=0, cs=[1, 2, 3, 4], ca=2)))
        s.sink("load", e=Fl(nom=4, vc=[-2, -3, -1, -4]))
        jobs.append(Job(s, None, random=True))
    return jobs


def investments(rng, tier):
    """capacities that are bought, investment periods of different make-up"""
    jobs = []
    for o in rng.sample(orders(2, 3), 2):
        n = "".join(map(str, o))
        s = Aggregated(f"tsam.invest.{n}", [o], 2)
        s.bus("e")
        s.source("grid", e=Fl(nom=2, vc=[1, 2, 3, 5]))
        s.source("pv", e=Fl(nom=1, fix=[2, 1, 0, 1]))
        s.sink("load", e=Fl(nom=2, vc=[-1, -2, -1, -3]))
        inv = Inv(max=6, ep=2, ex=1) if rng.random() < .5 else Inv(max=6, ep=2, nc=True, off=1)
        s.storage("st", {"e": Fl(inv=Inv(max=4, ep=1, ex=0))}, {"e": Fl(nom=2)}, inv=inv,
                  init=rng.choice([None, H, H]), loss=[H, 0, Q, 0], flr=[Fr(1, 16), 0, 0, 0], lmax=[1, 1, Fr(3, 4), 1, H, 1],
                  lmin=rng.choice([0, Fr(1, 8)]), ein=[1, H, 1, H], eout=[1, 1, H, H],
                  fla=[0, Fr(1, 8), 0, 0] if inv.get("ex") else 0, rel_ic=rng.choice([None, H]), sc=rng.choice([None, [1, 2, 0, 1]]))
        jobs.append(Job(s, None, random=True))
    # steps that are not one hour long; segments of different lengths
    for what in ("hours", "segments"):
        o = rng.choice(orders(2, 3))
        f = rng.choice([2, 3, H]) if what == "hours" else 1
        sg = None if what == "hours" else [[cut(rng, 4, 2) for _ in range(2)]]
        s = Aggregated(f"tsam.invest.{what}", [o], 2, **(dict(freq=f) if sg is None else dict(segs=sg)))
        s.bus("e")
        s.source("grid", e=Fl(nom=2, vc=[1, 2, 3, 5]))
        s.sink("load", e=Fl(nom=1, vc=[-1, -2, -1, -3]))
        s.storage("st", {"e": Fl(inv=Inv(max=4, ep=1, ex=0))}, {"e": Fl(nom=2)}, inv=Inv(max=9, ep=2, ex=2),
                  init=rng.choice([None, H]), loss=[0, Q, 0, 0], flr=[Fr(1, 32), 0, 0, 0], eout=[1, 1, H, 1],
                  fla=[0, Fr(1, 16), Fr(1, 16), Fr(1, 8)])
        jobs.append(Job(s, None, random=True))
    # full at the end
    for o in ([0, 1, 0], [0, 0]):
        s = Aggregated("tsam.full.%d" % len(o), [o], 2, freq=rng.choice([1, 1, 2]))
        s.bus("e")
        s.source("grid", e=Fl(nom=4, vc=[2, 3, 1, 5][:2 * (max(o) + 1)]))
        s.sink("load", e=Fl(nom=2, vc=-6))
        s.storage("st", {"e": Fl(nom=4)}, {"e": Fl(nom=2)}, inv=Inv(max=4, ep=1, ex=1), init=rng.choice([0, H, 1]), bal=False,
                  loss=rng.choice([H, Q]))
        jobs.append(Job(s, None, random=True))
    # taps and inlets that depend on the content
    for k in range(4):
        if k < 3:
            o = rng.choice(orders(2, 3))
            sg = [[cut(rng, 4, 2) for _ in range(2)]]
            s = Aggregated(f"tsam.level.{k}", [o], 2, **(dict(segs=sg) if k == 2 else dict(freq=rng.choice([1, 2]))))
        else:
            s = Aggregated("tsam.level.periods", [rng.choice(orders(2, 3)), rng.choice(orders(1, 2) + orders(2, 2))], [1, 2], years=(2020, 2023), discount=None)
        s.bus("mx", "o1", "o2", "i1", "i2")
        s.source("g", i1=Fl(nom=2, vc=1), i2=Fl(nom=2, vc=2))
        for a, b in (("i1", "mx"), ("i2", "mx"), ("mx", "o1"), ("mx", "o2")):
            s.wire(a, b, Fl(nom=2))
        s.storage("st", {"mx": Fl(nom=4)}, {"mx": Fl(nom=4)}, nom=rng.choice([6, 8]), init=rng.choice([None, H, 1]) if k < 3 else None, bal=rng.random() < .3,
                  loss=rng.choice([0, Q, H]), eout=rng.choice([1, H]), fla=rng.choice([0, 0, Q]))
        s.sink("d", o1=Fl(vc=-3), o2=Fl(vc=-4))
        outs, ins = rng.choice((({"o1": Q, "o2": Fr(3, 4)}, {}), ({"o1": Fr(1, 8)}, {"i1": H, "i2": Q}), ({"o2": H}, {"i1": Fr(3, 4)})))
        s.limit("levels", store="st", bus="mx", outs=outs, ins=ins)
        jobs.append(Job(s, None, random=True))
    for years, ords in (((2020, 2023), [[0, 1, 0], [0, 0]]), ((2020, 2021, 2024), [[0, 1], [0, 1, 2, 1], [1, 0]])):
        G = rng.sample([1, 2, 3], 3) if len(ords) == 3 else [2] * 2
        T = sum(g * (max(o) + 1) for g, o in zip(G, ords))
        N = sum(g * len(o) for g, o in zip(G, ords))
        r = lambda *c: [rng.choice(c) for _ in range(T)]
        s = Aggregated("tsam.periods.%d" % len(years), ords, G, years=years, discount=Fr(1, 20))
        s.bus("e")
        s.source("grid", e=Fl(nom=2, vc=r(1, 2, 3, 5)))
        s.source("pv", e=Fl(inv=Inv(max=2, ep=10, life=2, ex=1, age=1), vc=1))
        s.sink("load", e=Fl(nom=2, vc=r(-1, -2, -4)))
        s.storage("st", {"e": Fl(nom=2)}, {"e": Fl(nom=2)}, nom=6, init=None, bal=rng.random() < .5, loss=r(0, Q, H),
                  flr=r(0, 0, Fr(1, 16)), fla=r(0, 0, Q), ein=r(1, H), lmax=[rng.choice([1, 1, Fr(3, 4), H]) for _ in range(N)], lmin=rng.choice([0, Fr(1, 8)]))
        s.storage("si", {"e": Fl(nom=2)}, {"e": Fl(nom=2)}, inv=Inv(max=3, ep=5, life=3), loss=r(0, Q, H),
                  flr=r(0, 0, Fr(1, 16)), ein=r(1, H), eout=r(1, H), lmax=[rng.choice([1, 1, Fr(3, 4)]) for _ in range(N)])
        jobs.append(Job(s, None, random=True))
        s = Aggregated("tsam.periodsegments.%d" % len(years), ords, G, years=years, discount=Fr(1, 20), segs=[
            [cut(rng, 4, g) for _ in range(max(o) + 1)] for o, g in zip(ords, G)])
        s.bus("e")
        em = r(0, 1, 2)
        s.source("grid", e=Fl(nom=2, vc=r(1, 2, 3, 5), fltmax=9, props=dict(emission_factor=em, water=1)))
        s.sink("load", e=Fl(nom=2, vc=r(-1, -2, -4), props=dict(water=2)))
        s.limit("integral", keyword="emission_factor", flows={("grid", "e"): em}, hi=[rng.choice([4, 8, 12]) for _ in ords], per=True)
        s.limit("integral", keyword="water", flows={("grid", "e"): 1, ("e", "load"): 2}, hi=40, lo=rng.choice([None, 5]))
        s.storage("st", {"e": Fl(nom=2)}, {"e": Fl(nom=2)}, nom=12, init=H, bal=rng.random() < .5, loss=r(0, Q, H), lmin=Fr(1, 16),
                  eout=r(1, H), fla=r(0, Q), flr=r(0, Fr(1, 16)))
        jobs.append(Job(s, None, random=True))
    return jobs


def anything(rng, tier):
    """random systems over random orders"""
    import randsys

    jobs = []
    for k in range(24 if tier == "quick" else 15):
        multi = rng.random() < 0.4
        ords, G = [], []
        for _ in range(rng.choice([2, 3]) if multi else 1):
            K = rng.choice([1, 2, 2, 3])
            ords.append(rng.choice(orders(K, rng.randint(K, 4))))
            G.append(rng.choice([1, 2, 2, 3]))
        kw = {}
        if rng.random() < 0.4:
            L = [rng.randint(g, 5) for g in G]
            kw["segs"] = [[cut(rng, n, g) for _ in range(max(o) + 1)] for n, o, g in zip(L, ords, G)]
        elif not multi:
            kw["freq"] = rng.choice([1, 1, 2, H])
        if multi:
            kw.update(years=rng.choice(((2020, 2023, 2024), (2020, 2021, 2025)))[:len(ords)], discount=rng.choice([None, Fr(1, 20)]))
        s = Aggregated(f"tsam.random.{k}" + ".x" * rng.randint(0, 1), ords, G, shuffled=rng.random() < 0.3, **kw)
        jobs.append(Job(randsys.generate(rng, s.name, focus="C19", frame=s), None, random=True))
    return jobs


def run(seed, tier, log):
    import engine

    jobs = []
    for rep in range(1 if tier == "quick" else 6):
        for fn in (operation, segments, weights, investments, anything):
            new = fn(random.Random(f"{seed}:{rep}:{fn.__name__}"), tier)
            for j in new:
                if rep:
                    j.s.name += f".{rep}"
            jobs += new
    lim = dict(vertices=25, reports=8) if tier == "quick" else dict(vertices=150, reports=40)
    return engine.conformance(jobs, seed=seed, tier=tier, limits=lim, log=log)
