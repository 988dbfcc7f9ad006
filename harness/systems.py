"""The systems that each dispatch / investment property is decided on.

Every function returns a list of jobs (system + grid of flow values that TLC
explores + plans).  ``rng`` varies parameters; the designed part is fixed.
"""

from fractions import Fraction as Fr
from itertools import product

from config import NC, Fl, Inv, System
from engine import Job

H, Q, Z = Fr(1, 2), Fr(1, 4), 0


def R(a, b, step=1):
    r, x = [], Fr(a)
    while x <= b:
        r.append(x)
        x += step
    return r


def series(rng, T, *opts):
    """a time series that is not constant"""
    while True:
        s = [rng.choice(opts) for _ in range(T)]
        if len(set(s)) > 1:
            return s


def prices(rng, n):
    """n distinct non-zero prices"""
    return rng.sample([-2, -1, 1, 2, 3, 4, 5, 7], n)


def rdt(rng, T):
    return series(rng, T, 1, 2, H, Fr(3, 2))


YEARS = [(2020, 1), (2021, 2), (2023, 3)]


def per3(steps=(1, 1, 1)):
    """three periods of unequal length (1, 2 and 3 years)"""
    return [(y, n, d) for (y, d), n in zip(YEARS, steps)]


# ------------------------------------------------------------------ C01
def bus(rng, tier):
    jobs = []
    # every kind of neighbour around two buses, an unbalanced bus, a wire
    s = System("bus.neighbours", T=2, dt=[1, 2])
    s.bus("a", "b", "c")
    s.bus("free", balanced=False)
    s.source("src", a=Fl(nom=4, vc=1))
    s.sink("load", b=Fl(nom=2, fix=[1, H]))
    s.conv("cv", {"a": Fl(nom=4)}, {"b": Fl(nom=4)}, cf={"b": H})
    s.wire("a", "c", Fl(nom=2, vc=2))
    s.sink("dump", c=Fl(nom=3), free=Fl(nom=2, vc=-1))
    s.source("any", free=Fl(nom=2, vc=3))
    jobs.append(Job(s, {("src", "a"): R(0, 5), ("a", "cv"): [0, 2, 4], ("cv", "b"): [0, 1, 2],
                        ("b", "load"): [1, 2], ("a", "c"): [0, 1, 2], ("c", "dump"): [0, 1, 2, 3],
                        ("free", "dump"): [0, 1], ("any", "free"): [0, 2]}))
    # bidirectional flow, storage and link on one bus
    s = System("bus.storage_link", T=3, dt=rdt(rng, 3))
    s.bus("e", "g")
    s.source("grid", e=Fl(nom=2, min=-1, max=1, vc=prices(rng, 1)[0]))
    s.storage("st", {"e": Fl(nom=1)}, {"e": Fl(nom=1)}, nom=8, init=H, bal=False)
    s.link("lk", {"e": Fl(nom=1), "g": Fl(nom=1)}, {"e": Fl(nom=1), "g": Fl(nom=1)},
           cf={("e", "g"): 1, ("g", "e"): 1})
    s.sink("d", e=Fl(nom=1, fix=[1, 0, 1]), g=Fl(nom=1))
    jobs.append(Job(s, {0: R(-2, 2), 1: [0, 1], 2: [0, 1], 3: [0, 1], 4: [0, 1], 5: [0, 1],
                        6: [0, 1], 7: [0, 1], 8: [0, 1]}, cap=40))
    # over several periods
    s = System("bus.periods", T=4, periods=per3((1, 2, 1)))
    s.bus("p", "q")
    s.source("s1", p=Fl(nom=2, vc=1))
    s.source("s2", p=Fl(nom=1, vc=2), q=Fl(nom=1, vc=[4, 3, 2, 1]))
    s.wire("p", "q", Fl(nom=2))
    s.sink("d", q=Fl(nom=2, fix=[1, H, 1, H]))
    s.sink("x", p=Fl(nom=1))
    jobs.append(Job(s, {("s1", "p"): [0, 1, 2], ("s2", "p"): [0, 1], ("s2", "q"): [0, 1],
                        ("p", "q"): [0, 1, 2], ("q", "d"): [1, 2], ("p", "x"): [0, 1]}, cap=24))
    # flows without any capacity
    s = System("bus.unlimited", T=2)
    s.bus("u", "v")
    s.source("s", u=Fl(vc=1))
    s.source("t", u=Fl(vc=2), v=Fl(vc=1))
    s.conv("c", {"u": Fl()}, {"v": Fl()})
    s.sink("k", u=Fl(), v=Fl(nom=2, min=H))
    jobs.append(Job(s, {0: [0, 1, 3], 1: [0, 2], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2], 5: [0, 1, 3], 6: [1, 2]},
                    cap=40))
    return jobs


# ------------------------------------------------------------------ C02
def limits(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 12
    for k in range(n):
        s = System(f"flow.series{k}", T=3, dt=rdt(rng, 3))
        s.bus("b")
        v = prices(rng, 4)
        s.source("lim", b=Fl(nom=4, min=series(rng, 3, 0, Q, H), max=series(rng, 3, H, Fr(3, 4), 1), vc=v[0]))
        s.source("both", b=Fl(nom=2, min=series(rng, 3, -1, -H, 0, H), max=series(rng, 3, 1, H), vc=v[1]))
        s.source("fix", b=Fl(nom=2, fix=series(rng, 3, 0, H, 1, Fr(3, 2)), vc=v[2]))
        s.sink("out", b=Fl(vc=v[3]))
        jobs.append(Job(s, {0: R(0, 5), 1: R(-3, 3), 2: R(0, 3), 3: R(-1, 10)}, cap=90))
    s = System("flow.integer", T=2)
    s.bus("b")
    s.source("i", b=Fl(nom=3, int=True, vc=2))
    s.source("free_int", b=Fl(int=True, vc=3))
    s.source("cont", b=Fl(nom=1, vc=1))
    s.sink("d", b=Fl(nom=5, min=[Q, Fr(1, 5)]))
    jobs.append(Job(s, {0: R(0, 4, H), 1: R(0, 2, H), 2: R(0, 1, H), 3: R(0, 5, H)}, cap=60))
    # negative fixed profile, maxima above one, equal minimum and maximum
    s = System("flow.odd", T=3)
    s.bus("b")
    s.source("over", b=Fl(nom=2, max=[Fr(3, 2), 1, 2], vc=1))
    s.source("pin", b=Fl(nom=2, min=[0, H, 1], max=[1, H, 1], vc=2))
    s.source("neg", b=Fl(nom=2, min=-1, max=0, vc=[1, -1, 1]))
    s.source("turn", b=Fl(nom=2, min=[-1, H, 0], vc=[1, 1, -1]))
    s.sink("o", b=Fl(vc=-1))
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 3), 2: R(-3, 1), 3: [-2, 0, 1, 2], 4: R(0, 6)}, cap=80))
    # multi-period: lifetimes of flows with given capacity
    for life, age in ((1, 0), (2, 1), (3, 0), (4, 1), (5, 0), (5, 2), (6, 5)):
        s = System(f"flow.life{life}.{age}", T=4, periods=per3((1, 2, 1)))
        s.bus("b")
        s.source("old", b=Fl(nom=2, life=life, vc=1, **(dict(age=age) if age or life == 3 else {})))
        s.source("new", b=Fl(nom=2, vc=2, min=series(rng, 4, 0, H)))
        s.sink("d", b=Fl(nom=4))
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4)}, cap=9))
    return jobs


# ------------------------------------------------------------------ C03
def ramps(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 14
    for k in range(n):
        s = System(f"ramp{k}", T=4, dt=rdt(rng, 4))
        s.bus("b")
        s.source("up", b=Fl(nom=4, gp=rng.choice([Q, H, series(rng, 4, 0, Q, H)]), vc=1))
        s.source("dn", b=Fl(nom=2, gn=rng.choice([Q, H, series(rng, 4, 0, H, 1)]), vc=2))
        s.sink("o", b=Fl(vc=3))
        jobs.append(Job(s, {0: R(0, 4, 2 if k % 2 else 1), 1: R(0, 2), 2: R(0, 6)}, cap=14))
    for k in range(n):
        s = System(f"ramp.both{k}", T=4)
        s.bus("b")
        s.source("x", b=Fl(nom=4, min=rng.choice([0, -1]), gp=series(rng, 4, Q, H, Fr(3, 4)),
                           gn=series(rng, 4, Q, H, 1), vc=series(rng, 4, 1, 2)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(-4, 4), 1: R(-4, 4)}))
    # limits given with the on/off operation, of a given and of an invested capacity
    for k in range(n):
        s = System(f"ramp.onoff{k}", T=4, dt=rdt(rng, 4))
        s.bus("b")
        lim = dict(gp=rng.choice([Q, H, series(rng, 4, 0, Q, H)])) if k % 3 != 1 else {}
        if k % 3 != 0:
            lim["gn"] = rng.choice([Q, H, series(rng, 4, 0, H, 1)])
        s.source("x", b=Fl(nom=4, min=rng.choice([0, Q]), vc=1, nc=NC(init=k % 2, cs=rng.choice([0, 1]), **lim)))
        s.source("y", b=Fl(nom=2, min=H, gp=rng.choice([H, 1]), gn=1, vc=1, nc=NC(init=0)))
        s.sink("o", b=Fl(vc=3))
        jobs.append(Job(s, {0: R(0, 4), 1: R(0, 2), 2: R(0, 6)}, sync=True, cap=14))
        s = System(f"ramp.invested{k}", T=3)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=1, ex=k % 3), min=Q, vc=1, nc=NC(init=0, **lim)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 6), 1: R(0, 6)}, sync=True, plans=[dict(inv=[[x]]) for x in (0, 2, 4)]))
    s = System("ramp.periods", T=5, periods=per3((2, 2, 1)))
    s.bus("b")
    s.source("x", b=Fl(nom=4, gp=Q, gn=[0, H, Q, H, Q], vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 4)}))
    s = System("ramp.storage", T=3)
    s.bus("b")
    s.source("g", b=Fl(nom=4, vc=1))
    s.storage("st", {"b": Fl(nom=2, gp=H, gn=1)}, {"b": Fl(nom=2, gn=H)}, nom=10, init=H, bal=False)
    s.sink("o", b=Fl(nom=4, gp=[1, H, Q]))
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 2), 2: R(0, 2), 3: R(0, 4)}, cap=40))
    return jobs


# ------------------------------------------------------------------ C04
def fullload(rng, tier):
    jobs = []
    n = 2 if tier == "quick" else 10
    for k in range(n):
        dt = rdt(rng, 3)
        s = System(f"flt{k}", T=3, dt=dt)
        s.bus("b")
        tot = sum(map(Fr, dt))
        s.source("mx", b=Fl(nom=4, fltmax=tot * rng.choice([Q, H]), vc=1))
        s.source("mn", b=Fl(nom=2, fltmin=tot * rng.choice([Q, H]), vc=2))
        s.source("bo", b=Fl(nom=2, min=rng.choice([0, -1]), fltmin=tot * Q, fltmax=tot * H, vc=-1))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 4, 2), 1: R(0, 2), 2: R(-2, 2), 3: R(-2, 8)}, cap=24))
    s = System("flt.weighted", T=3, w=[3, 1, 2])  # weights of the objective play no role here
    s.bus("b")
    s.source("x", b=Fl(nom=2, fltmax=Fr(3, 2), fltmin=H, vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 2, H), 1: R(0, 2, H)}))
    s = System("flt.periods", T=4, periods=per3((1, 2, 1)))
    s.bus("b")
    s.source("x", b=Fl(nom=2, fltmax=2, fltmin=1, vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 2, H), 1: R(0, 2, H)}))
    s = System("flt.invest", T=3, dt=[1, 2, H])
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(max=4, ep=3, ex=1), fltmax=2, fltmin=H, vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 4)}, plans=[dict(inv=[[x]]) for x in (0, 1, 3, 4)]))
    for ex in (0, 1):
        s = System(f"flt.invest.onoff{ex}", T=3, dt=[1, 2, H])
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=3, ex=ex), fltmax=2, fltmin=H, vc=1, min=Q, nc=NC(init=0, cs=1)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 5), 1: R(0, 5)}, sync=True, plans=[dict(inv=[[x]]) for x in (0, 1, 3, 4)]))
    s = System("flt.nonconvex", T=3, dt=[1, 2, 1])
    s.bus("b")
    s.source("x", b=Fl(nom=4, min=H, nc=NC(init=0, cs=2), fltmax=2, fltmin=H, vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: [0, 2, 3, 4], 1: [0, 2, 3, 4]}))
    return jobs


# ------------------------------------------------------------------ C05
def onoff(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 12
    cost = lambda T: dict(cs=series(rng, T, 1, 2, 5), cd=series(rng, T, 1, 3, 4), ca=series(rng, T, 0, 1, 2),
                          ci=series(rng, T, 0, 1, 3))
    for k in range(n):
        T = 4
        s = System(f"onoff{k}", T=T, dt=rdt(rng, T))
        s.bus("b")
        s.source("u", b=Fl(nom=4, min=series(rng, T, 0, Q, H), max=series(rng, T, Fr(3, 4), 1), vc=1,
                           nc=NC(init=k % 2, **cost(T))))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 1, 2, 3, 4], 1: R(0, 4)}))
    for init, mu, md in ((0, 1, None), (1, 1, None), (0, None, 1), (1, None, 1), (0, 2, 1), (1, 0, 2), (0, 0, 0)):
        s = System(f"onoff.max{init}.{mu}.{md}", T=5)
        s.bus("b")
        s.source("u", b=Fl(nom=2, min=H, nc=NC(init=init, maxup=mu, maxdn=md)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2]}))
    one = [("cs", 3), ("cd", 3), ("ca", 3), ("ci", 3)]
    for key, c in one:  # each cost term on its own
        for init in (0, 1):
            s = System(f"onoff.{key}{init}", T=3, dt=[1, 2, H])
            s.bus("b")
            s.source("u", b=Fl(nom=2, min=H, vc=1, nc=NC(init=init, **{key: c})))
            s.sink("o", b=Fl())
            jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2]}))
    # two units, input and output side, a bidirectional one
    s = System("onoff.two", T=3)
    s.bus("b", "h")
    s.source("u", b=Fl(nom=2, min=H, nc=NC(init=1, cs=2, maxdn=1)))
    s.conv("c", {"b": Fl(nom=2, min=H, nc=NC(init=0, cs=series(rng, 3, 1, 2), cd=1))}, {"h": Fl()})
    s.sink("o", b=Fl(), h=Fl())
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2], 4: [0, 1, 2]}))
    s = System("onoff.bidirectional", T=3)
    s.bus("b")
    s.source("u", b=Fl(nom=2, min=-H, max=1, nc=NC(init=0, cs=2, ca=1)))
    s.sink("o", b=Fl(nom=4, min=-1, vc=-1))
    jobs.append(Job(s, {0: [-2, -1, 0, 1, 2], 1: [-2, -1, 0, 1, 2]}))
    # invested capacity
    s = System("onoff.existing", T=3, dt=[1, 2, 1])
    s.bus("b")
    s.source("u", b=Fl(inv=Inv(max=4, ep=2, ex=2), min=series(rng, 3, H, Q), max=series(rng, 3, 1, Fr(3, 4)), vc=1,
                       nc=NC(init=1, cs=[1, 2, 3], cd=2, ca=[0, 1, 0], ci=1, maxdn=1)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 6), 1: R(0, 6)}, plans=[dict(inv=[[x]]) for x in (0, 2, 4)]))
    for opt in (False, True):
        s = System(f"onoff.invest{int(opt)}", T=3, dt=[1, 2, 1])
        s.bus("b")
        s.source("u", b=Fl(inv=Inv(max=4, min=1 if opt else 0, ep=2, nc=opt, off=3 if opt else 0),
                           min=series(rng, 3, H, Q), max=series(rng, 3, 1, Fr(3, 4)), vc=1,
                           nc=NC(init=0, cs=[1, 2, 3], cd=2, ca=[0, 1, 0], ci=1, maxup=1)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 1, 2, 3, 4], 1: [0, 1, 2, 3, 4]},
                        plans=[dict(inv=[[x]], ist=[[int(opt and x > 0)]]) for x in (0, 2, 4)]))
    return jobs


# ------------------------------------------------------------------ C06
def minimum_times(rng, tier):
    jobs = []
    combos = [(u, d, i) for u in (0, 1, 2, 3) for d in (0, 1, 2, 3) for i in (0, 1)]
    if tier == "quick":
        T = 6
    else:
        T = 7
        combos += [(4, 2, 0), (2, 4, 1), (5, 5, 0), (5, 5, 1)]
    for u, d, i in combos:
        s = System(f"times.u{u}d{d}i{i}", T=T)
        s.bus("b")
        s.source("x", b=Fl(nom=2, min=H, nc=NC(init=i, up=u, dn=d)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 2], 1: [0, 2]}, sync=True))
    for k in range(4 if tier == "quick" else 20):
        s = System(f"times.series{k}", T=T)
        s.bus("b")
        s.source("x", b=Fl(nom=2, min=H, nc=NC(init=k % 2, up=series(rng, T, 0, 1, 2, 3), dn=series(rng, T, 0, 1, 2, 3),
                                               cs=1, maxup=rng.choice([None, 2]))))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 2], 1: [0, 2]}, sync=True))
    for T2, u, d, i in ((1, 3, 0, 1), (2, 4, 4, 1), (2, 0, 3, 0), (1, 1, 2, 0), (3, 4, 2, 0)):
        # times that exceed the horizon
        s = System(f"times.beyond{T2}u{u}d{d}i{i}", T=T2)
        s.bus("b")
        s.source("x", b=Fl(nom=2, min=H, nc=NC(init=i, up=u, dn=d)))
        s.source("y", b=Fl(inv=Inv(max=4, ep=1), min=H, nc=NC(init=i, up=u, dn=d)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 2], 1: [0, 2], 2: [0, 2, 4]}, plans=[dict(inv=[[2]])], sync=True))
    for i in (0, 1):
        s = System(f"times.invest{i}", T=5)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=1), min=H, nc=NC(init=i, up=2, dn=3)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 2], 1: [0, 2]}, plans=[dict(inv=[[2]])], sync=True))
    s = System("times.two", T=5)
    s.bus("b")
    s.source("x", b=Fl(nom=2, min=H, nc=NC(init=0, up=2, dn=2)))
    s.source("y", b=Fl(nom=2, min=H, nc=NC(init=1, up=3)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: [0, 2], 1: [0, 2], 2: [0, 2, 4]}, sync=True))
    return jobs


# ------------------------------------------------------------------ C07
def storage_balance(rng, tier):
    jobs = []
    n = 4 if tier == "quick" else 16
    for k in range(n):
        T = 3
        s = System(f"store{k}", T=T, dt=rng.choice([1, rdt(rng, T), [1, 2, 1], [2, 1, 3]]))
        s.bus("b", "c")
        s.source("g", b=Fl(nom=4, vc=1))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, nom=12, init=H, bal=False,
                  loss=rng.choice([0, Q, series(rng, T, 0, Q, H)]) if k else Q,
                  flr=rng.choice([0, Fr(1, 12), series(rng, T, 0, Fr(1, 12))]),
                  fla=rng.choice([0, H, series(rng, T, 0, H, 1)]),
                  ein=rng.choice([1, H, series(rng, T, H, 1)]), eout=rng.choice([1, H, series(rng, T, H, 1)]))
        s.sink("o", c=Fl(vc=-1))
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2]}))
    for k in range(n):
        T = 3
        s = System(f"store.invest{k}", T=T, dt=rng.choice([1, rdt(rng, T), [1, 2, 1]]))
        s.bus("b", "c")
        s.source("g", b=Fl(nom=4, vc=1))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, inv=Inv(min=1, max=20, ep=1, ex=rng.choice([0, 2])),
                  init=rng.choice([None, H]), bal=False,
                  loss=rng.choice([0, Q, series(rng, T, 0, Q)]), flr=rng.choice([0, Fr(1, 12)]),
                  fla=rng.choice([0, H, series(rng, T, 0, H)]),
                  ein=rng.choice([1, H, series(rng, T, H, 1)]), eout=rng.choice([1, H, series(rng, T, H, 1)]))
        s.sink("o", c=Fl(vc=-1))
        spec = s.nodes[-2]
        plans = []
        for x in (8, 12):
            cap = x + spec["inv"]["ex"]
            for lv in ([Fr(cap) / 2] if spec["init"] is not None
                       else [Fr(spec["inv"]["ex"]), 0]):
                plans.append(dict(inv=[[x]], lv=[lv]))
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2]}, plans=plans,
                        cap=120))
    # several periods, fixed and invested
    s = System("store.periods", T=4, periods=per3((1, 2, 1)))
    s.bus("b")
    s.source("g", b=Fl(nom=4, vc=1))
    s.storage("st", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=8, init=H, bal=False, loss=[0, Q, 0, H],
              fla=[0, H, 1, 0], ein=H, eout=[1, H, 1, 1])
    s.storage("si", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, inv=Inv(max=20, ep=1, life=3, ex=4, age=1), bal=True,
              loss=[0, H, Q, 0], flr=[0, 0, Fr(1, 8), 0], ein=[1, H, 1, H], eout=H)
    s.sink("o", b=Fl(nom=4))
    jobs.append(Job(s, {0: [0, 2, 4], 1: [0, 2], 2: [0, 1], 3: [0, 2], 4: [0, 1], 5: R(0, 4)}, cap=16,
                    plans=[dict(inv=[x], lv=[4, 0]) for x in ([4, 0, 4], [4, 4, 8])]))
    return jobs


# ------------------------------------------------------------------ C08
def storage_levels(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 12
    for k in range(n):
        T = 3
        s = System(f"level{k}", T=T)
        s.bus("b", "c")
        s.source("g", b=Fl(nom=4, vc=1))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, nom=4,
                  init=rng.choice([None, H]), bal=[True, False, True][k % 3],
                  lmin=series(rng, T + 1, 0, Q, H), lmax=series(rng, T + 1, H, Fr(3, 4), 1))
        s.sink("o", c=Fl())
        init = s.nodes[-2]["init"]
        jobs.append(Job(s, {0: R(0, 2), 1: R(0, 2), 2: R(0, 2), 3: R(0, 2)},
                        plans=[dict(lv=[Fr(init) * 4])] if init is not None else [dict(lv=[x]) for x in R(0, 4)]))
    for bal, init in product((True, False), (None, 0, H, 1)):
        s = System(f"level.bal{int(bal)}.{init}", T=2, dt=[1, 2])
        s.bus("b", "c")
        s.source("g", b=Fl(nom=2))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, nom=4, init=init, bal=bal, lmin=0, lmax=1)
        s.sink("o", c=Fl())
        jobs.append(Job(s, {0: R(0, 2), 1: R(0, 2), 2: R(0, 2), 3: R(0, 2)},
                        plans=[dict(lv=[x]) for x in R(0, 4)]))
    for bal, init in product((True, False), (None, 0, H)):
        s = System(f"level.invest.bal{int(bal)}.{init}", T=2)
        s.bus("b", "c")
        s.source("g", b=Fl(nom=2))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, inv=Inv(max=4, min=1, ex=1, ep=1), init=init, bal=bal,
                  lmin=[0, Q, 0], lmax=[1, 1, H] if not bal and init is None else 1)
        s.sink("o", c=Fl())
        jobs.append(Job(s, {0: R(0, 2), 1: R(0, 2), 2: R(0, 2), 3: R(0, 2)},
                        plans=[dict(inv=[[x]], lv=[l]) for x in (1, 3) for l in (0, H, 1, 2, 3, 4)]))
    # capacity tied to power
    for k, (io, ic, oc) in enumerate([(None, H, None), (None, None, Q), (2, None, None), (None, H, H), (H, H, None)]):
        s = System(f"level.ratio{k}", T=2)
        s.bus("b", "c")
        s.source("g", b=Fl(nom=2))
        fin = Fl(inv=Inv(max=4, ep=1)) if io or ic else Fl(nom=2)
        fout = Fl(inv=Inv(max=4, ep=1)) if io or oc else Fl(nom=2)
        kw = dict(inv=Inv(max=8, ep=1, ex=1 if k == 0 else 0)) if (ic or oc) else dict(nom=4)
        if k == 0:
            fin = Fl(inv=Inv(max=4, ep=1, ex=1))
        s.storage("st", {"b": fin}, {"c": fout}, bal=False, init=0, rel_io=io, rel_ic=ic, rel_oc=oc, **kw)
        s.sink("o", c=Fl())
        spec = s.spec()
        nu = len(spec["units"])
        plans = [dict(inv=[[x] for x in xs], lv=[0]) for xs in product((0, 1, 2, 4), repeat=nu)]
        jobs.append(Job(s, {0: R(0, 2), 1: R(0, 2), 2: R(0, 2), 3: R(0, 2)}, plans=plans))
    s = System("level.ratio.periods", T=3, periods=per3())
    s.bus("b", "c")
    s.source("g", b=Fl(nom=2))
    s.storage("st", {"b": Fl(inv=Inv(max=8, ep=1, life=5))}, {"c": Fl(inv=Inv(max=4, ep=1, life=5))}, nom=4,
              bal=False, init=0, rel_io=[2, 3, H])
    s.sink("o", c=Fl())
    built = [(2, 0, 0), (2, 1, 0), (3, 0, 0), (4, 2, 0), (0, 3, 0), (0, 0, 1), (0, 2, 0)]
    jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: [0, 1]},
                    plans=[dict(inv=[list(a), list(b)], lv=[0]) for a in built for b in ((1, 0, 0), (0, 1, 0), (0, 0, 2), (0, 0, 0))]))
    # charging power above a threshold
    s = System("level.soc", T=2)
    s.bus("b", "c")
    s.source("g", b=Fl(nom=4))
    s.storage("st", {"b": Fl(nom=4)}, {"c": Fl(nom=4)}, nom=8, init=H, bal=False, csu=Fr(3, 4), fsc=H)
    s.sink("o", c=Fl())
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 4), 2: R(0, 2), 3: R(0, 2)}))
    s = System("level.soc.reduced", T=2, dt=[1, 2])  # below a reduced maximum level, with a limited charging power
    s.bus("b", "c")
    s.source("g", b=Fl(nom=6))
    s.storage("st", {"b": Fl(nom=8, max=[H, Fr(3, 4)])}, {"c": Fl(nom=4)}, nom=16, init=Q, bal=False, lmax=H, lmin=[Q, 0, 0],
              csu=Q, fsc=Q, ein=H)
    s.sink("o", c=Fl())
    jobs.append(Job(s, {0: R(0, 6), 1: R(0, 6), 2: R(0, 2), 3: R(0, 2)}))
    s = System("level.soc.periods", T=3, periods=per3((1, 1, 1)))
    s.bus("b", "c")
    s.source("g", b=Fl(nom=4))
    s.storage("st", {"b": Fl(nom=4)}, {"c": Fl(nom=4)}, nom=8, init=H, bal=False, csu=H, fsc=Q, loss=Q)
    s.sink("o", c=Fl())
    jobs.append(Job(s, {0: R(0, 4), 1: R(0, 4), 2: R(0, 2), 3: R(0, 2)}))
    # several periods
    s = System("level.periods", T=4, periods=per3((1, 2, 1)))
    s.bus("b", "c")
    s.source("g", b=Fl(nom=2))
    s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, nom=4, init=H, bal=True, lmin=[0, Q, 0, Q, 0],
              lmax=[1, 1, Fr(3, 4), 1, 1])
    s.sink("o", c=Fl())
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2]}))
    s = System("level.periods.invest", T=4, periods=per3((2, 1, 1)))
    s.bus("b", "c")
    s.source("g", b=Fl(nom=2))
    s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, inv=Inv(max=4, ep=1, life=2, ex=1), bal=False,
              lmin=0, lmax=[1, H, 1, 1, Fr(3, 4)])
    s.sink("o", c=Fl())
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1, 2], 3: [0, 1, 2]},
                    plans=[dict(inv=[x], lv=[0]) for x in ([1, 0, 1], [2, 2, 0], [3, 1, 0])]))
    return jobs


# ------------------------------------------------------------------ C09
def converters(rng, tier):
    jobs = []
    n = 2 if tier == "quick" else 8
    for k in range(n):
        s = System(f"conv.many{k}", T=2, dt=[1, 2])
        s.bus("i", "j", "x", "y", "z")
        s.source("si", i=Fl(vc=1))
        s.source("sj", j=Fl(vc=1))
        cf = {"i": rng.choice([1, 2, [1, 2]]), "j": rng.choice([H, [1, H]]), "x": rng.choice([2, H, [2, 1]]),
              "y": rng.choice([1, [H, 1]])}
        s.conv("c", {"i": Fl(nom=8), "j": Fl(nom=8)}, {"x": Fl(nom=8), "y": Fl(nom=8), "z": Fl()}, cf=cf)
        s.sink("o", x=Fl(), y=Fl(), z=Fl())
        lat = [0, H, 1, 2, 4]
        jobs.append(Job(s, {f: lat for f in range(10)}, cap=40))
    s = System("conv.simple", T=3)
    s.bus("a", "b")
    s.source("g", a=Fl(nom=4, vc=1))
    s.conv("c", {"a": Fl()}, {"b": Fl(nom=2)}, cf={"b": [H, Q, 1]})
    s.conv("d", {"a": Fl(nom=2)}, {"b": Fl()}, cf={"a": 2})
    s.conv("e", {"a": Fl(nom=2, min=-1)}, {"b": Fl(min=-1)})
    s.sink("o", b=Fl(), a=Fl())
    jobs.append(Job(s, {f: [0, 1, 2] for f in range(9)} | {5: [-1, 0, 1], 6: [-1, 0, 1], 0: [0, 2, 4]}, cap=30))
    s = System("conv.zero", T=2)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(vc=1))
    s.conv("k", {"a": Fl()}, {"b": Fl(nom=2), "c": Fl(nom=2)}, cf={"b": [0, 1], "c": [1, 0]})
    s.sink("o", b=Fl(), c=Fl())
    jobs.append(Job(s, {f: [0, 1, 2] for f in range(6)}, cap=40))
    s = System("conv.periods", T=4, periods=per3((1, 1, 2)))
    s.bus("a", "b", "h")
    s.source("g", a=Fl(vc=1))
    s.conv("k", {"a": Fl()}, {"b": Fl(nom=2), "h": Fl(nom=4)}, cf={"b": [H, 1, H, 1], "h": [1, H, H, 2]})
    s.sink("o", b=Fl(), h=Fl())
    jobs.append(Job(s, {f: [0, H, 1, 2, 4] for f in range(5)}, cap=24))
    s = System("link.two", T=2)
    s.bus("a", "b")
    s.source("g", a=Fl(nom=4, vc=1), b=Fl(nom=4, vc=2))
    s.link("l", {"a": Fl(nom=4), "b": Fl(nom=4)}, {"a": Fl(nom=4), "b": Fl(nom=4)},
           cf={("a", "b"): [H, 1], ("b", "a"): [1, H]})
    s.sink("o", a=Fl(), b=Fl())
    jobs.append(Job(s, {f: [0, 1, 2] for f in range(8)}, cap=60))
    s = System("link.three", T=2)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(vc=1))
    s.link("l", {"a": Fl(nom=4), "b": Fl(nom=4), "c": Fl(nom=2)}, {"b": Fl(nom=4), "c": Fl(nom=4), "a": Fl(nom=4)},
           cf={("a", "b"): H, ("b", "c"): [1, H], ("c", "a"): 2})
    s.sink("o", a=Fl(), b=Fl(), c=Fl())
    jobs.append(Job(s, {f: [0, 1, 2, 4] for f in range(10)}, cap=60))
    s = System("link.zero", T=2)  # one direction carries nothing
    s.bus("a", "b")
    s.source("g", a=Fl(nom=4, vc=1), b=Fl(nom=4, vc=2))
    s.link("l", {"a": Fl(nom=4), "b": Fl(nom=4)}, {"a": Fl(nom=4), "b": Fl(nom=4)},
           cf={("a", "b"): 0, ("b", "a"): [1, 0]})
    s.sink("o", a=Fl(), b=Fl())
    jobs.append(Job(s, {f: [0, 1, 2] for f in range(8)}, cap=40))
    s = System("conv.zero", T=2)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(nom=4, vc=1))
    s.conv("v", {"a": Fl(nom=4)}, {"b": Fl(nom=4), "c": Fl(nom=4)}, cf={"b": 0, "c": [0, H]})
    s.sink("o", b=Fl(), c=Fl(nom=4))
    jobs.append(Job(s, {f: [0, 1, 2] for f in range(5)}, cap=40))
    s = System("link.periods", T=3, periods=per3((1, 1, 1)))
    s.bus("a", "b")
    s.source("g", a=Fl(vc=1))
    s.link("l", {"a": Fl(nom=4), "b": Fl(nom=4)}, {"b": Fl(nom=4), "a": Fl(nom=4)},
           cf={("a", "b"): [H, 1, H], ("b", "a"): H})
    s.sink("o", b=Fl())
    jobs.append(Job(s, {f: [0, H, 1, 2] for f in range(6)}, cap=40))
    return jobs


# ------------------------------------------------------------------ C11
def chp_moves(s, c, ps, qs, t):
    """candidates (fuel, el, heat) of a generic CHP: exact, and around"""
    at = lambda a: Fr(c["par"][a][t] if isinstance(c["par"][a], list) else c["par"][a])
    hlo, hhi = at("pmin") / at("emin"), at("pmax") / at("emax")
    a1 = (hhi - hlo) / (at("pmax") - at("pmin"))
    a0 = hlo - a1 * at("pmin")
    return [(a0 + a1 * (Fr(p) + at("beta") * Fr(q)), Fr(p), Fr(q)) for p in ps for q in qs]


def chps(rng, tier):
    jobs = []
    full = tier != "quick"
    base = dict(pmin=2, pmax=6, emin=Fr(2, 5), emax=H, qcw=H, smax=Fr(1, 5), beta=Q)
    variants = [
        ("extraction", dict()), ("backpressure", dict(bp=True, qcw=0, beta=0)),
        ("backpressureLoss", dict(bp=True, qcw=0)), ("motoric", dict(smin=Fr(3, 10), beta=0, smax=Fr(1, 10), qcw=0)),
        ("motoricCooling", dict(smin=Fr(2, 5), qcw=1)), ("constantEfficiency", dict(emin=H)),
        ("zeroMin", dict(smin=Fr(0), smax=0)),
        ("varying", dict(pmin=[2, 1], pmax=[6, 5], emin=[Fr(2, 5), Q], emax=[H, Fr(2, 5)], qcw=[H, 0],
                         smax=[Fr(1, 5), Fr(1, 10)], beta=[Q, H])),
        ("varyingMotoric", dict(pmin=[2, 1], beta=[Q, 0], smin=[Fr(2, 5), Fr(3, 5)], smax=[Fr(1, 5), Fr(2, 5)])),
    ]
    for name, kw in variants:
        T = 2
        s = System(f"chp.{name}", T=T, dt=[1, 2])
        s.bus("gas", "el", "th", balanced=False)
        r = dict(base, **kw)
        bp = r.pop("bp", False)
        s.chp("chp", "gas", "el", "th", ffl=Fl(vc=1), bp=bp, **r)
        (c,) = [n for n in s.nodes if n["kind"] == "chp"]
        extra = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (5, 2, 0), (12, 6, 1)]
        step = H if full else 1
        grid = lambda a, b, d: [Fr(a) + d * i for i in range(int((b - a) / d) + 1)]
        for t in range(T):
            pts = chp_moves(s, c, grid(0, 7, step), grid(0, 6, step), t)
            if bp:  # on the line: P + Q + smax H = H
                at = lambda a: Fr(r[a][t] if isinstance(r[a], list) else r[a])
                hlo, hhi = at("pmin") / at("emin"), at("pmax") / at("emax")
                a1 = (hhi - hlo) / (at("pmax") - at("pmin"))
                a0 = hlo - a1 * at("pmin")
                for i in range(-1, 10):
                    h = hlo + (hhi - hlo) * i / 8
                    e, w = (h - a0) / a1, (1 - at("smax")) * h - at("qcw")
                    # p + beta q = e, p + q = w
                    q = (w - e) / (1 - at("beta"))
                    pts.append((h, w - q, q))
            extra += rng.sample(pts, min(len(pts), 60 if not full else 200))
        extra = sorted({tuple(map(Fr, e)) for e in extra})
        jobs.append(Job(s, None, raw=extra))
    s = System("chp.two", T=2)
    s.bus("gas", "el", "th")
    s.source("g", gas=Fl(vc=1))
    s.chp("a", "gas", "el", "th", **base)
    s.chp("b", "gas", "el", "th", **dict(base, bp=True, qcw=0, beta=0, pmax=4))
    s.sink("d", el=Fl(nom=20), th=Fl(nom=20))
    (ca, cb) = [n for n in s.nodes if n["kind"] == "chp"]
    pa = [(0, 0, 0)] + chp_moves(s, ca, [2, 3, 4], [0, 1, 2], 0)
    pb = [(0, 0, 0), (5, 2, 2), (8, 4, Fr(12, 5))] + chp_moves(s, cb, [2, 3], [2, Fr(11, 5)], 0)
    raw = []
    for x in pa:
        for y in pb:
            raw.append((x[0] + y[0], *x, *y, x[1] + y[1], x[2] + y[2]))
    jobs.append(Job(s, None, raw=rng.sample(raw, min(len(raw), 40))))
    # piecewise linear converters
    fns = [("square", lambda x: x * x / 4, [0, 1, 2, 3, 4]), ("hump", lambda x: x * (4 - x), [0, 1, 2, 3, 4]),
           ("falling", lambda x: 8 - 2 * x if x < 2 else 6 - x, [0, 1, 2, 3, 4]),
           ("offset", lambda x: x + 1, [1, 2, 3, 4, 5]), ("flat", lambda x: min(x, 2), [0, 1, 2, 3, 4]),
           ("uneven", lambda x: x * x / 4 + x / 2, [0, H, 2, 4, 8])]
    repns = ["CC", "DCC", "INC", "MC", "DLOG", "LOG", "BIGM_BIN"]
    for i, (name, fn, xs) in enumerate(fns):
        for repn in (repns if full else rng.sample(repns, 2)):
            s = System(f"piecewise.{name}.{repn}", T=2, dt=[1, 2])
            s.bus("a", "b", balanced=False)
            s.pwl("p", {"a": Fl(nom=xs[-1], vc=1)}, {"b": Fl(vc=-2)}, xs=xs, fn=lambda x, f=fn: f(Fr(x)), repn=repn)
            raw = []
            for x in [Fr(k, 2) for k in range(-1, 2 * xs[-1] + 3)]:
                j = [k for k in range(4) if xs[k] <= x <= xs[k + 1]]
                y = fn(x) if not j else fn(Fr(xs[j[0]])) + (x - xs[j[0]]) * (
                    fn(Fr(xs[j[0] + 1])) - fn(Fr(xs[j[0]]))) / (xs[j[0] + 1] - xs[j[0]])
                raw += [(x, y), (x, fn(x)), (x, y + 1)]
            jobs.append(Job(s, None, raw=sorted(set(raw))))
    s = System("piecewise.two", T=2)
    s.bus("a", "b", "c")
    s.source("g", a=Fl(vc=1))
    s.pwl("p", {"a": Fl(nom=4)}, {"b": Fl()}, xs=[0, 1, 4], fn=lambda x: Fr(x) * Fr(x) / 4, repn="MC")
    s.pwl("q", {"a": Fl(nom=2)}, {"c": Fl()}, xs=[0, 2, 3, 5, 6], fn=lambda x: 3 - Fr(x) / 2, repn="MC")
    s.sink("o", b=Fl(), c=Fl())
    raw = []
    for x, y in ((0, 0), (1, Q), (2, Fr(3, 2)), (4, 4), (2, 1)):
        for z in (0, 1, 2):
            raw.append((Fr(x) + z, x, y, z, 3 - Fr(z) / 2, y, 3 - Fr(z) / 2))
    jobs.append(Job(s, None, raw=raw))
    return jobs


# ------------------------------------------------------------------ C28
CAES = dict(cmp_p_max_m=Q, cmp_p_max_b=3, cmp_p_min=1, cmp_q_out_m=1, cmp_q_out_b=-H, cmp_q_tes_share=H,
            exp_p_max_m=H, exp_p_max_b=1, exp_p_min=H, exp_q_in_m=1, exp_q_in_b=Q, exp_q_tes_share=Q,
            cav_e_in_m=H, cav_e_in_b=0, cav_e_out_m=Fr(3, 4), cav_e_out_b=0, cav_eta_temp=1, cav_level_max=4,
            tes_level_max=3, tes_eta_temp=1)


def caes_moves(par, xs, ys):
    """(electricity, fuel, output): the fuel that is needed, and other amounts"""
    out = []
    for x in xs:
        for y in ys:
            y = Fr(y)
            need = Fr(par["exp_q_in_m"]) * y + Fr(par["exp_q_in_b"]) if y else Fr(0)
            fuel = caes_fuel(par, y)
            out += [(Fr(x), f, y) for f in (fuel, need, fuel + H)]
    return sorted(set(out))


def compressed_air(rng, tier):
    jobs = []
    variants = [
        ("base", dict(), None), ("steps", dict(), [1, 2, H]),
        ("heatless", dict(cmp_q_tes_share=0, exp_q_tes_share=0, tes_level_max=0), None),
        ("adiabatic", dict(cmp_q_tes_share=1, exp_q_tes_share=1, tes_level_max=6), [2, 1, 1]),
        ("fullHeat", dict(cmp_q_tes_share=Fr(3, 4), tes_level_max=2), [1, H, 2]),
        ("constants", dict(cav_e_in_b=Q, cav_e_out_b=H, cmp_q_out_b=H), [1, 2, 1]),
        ("negative", dict(cav_e_in_b=-H, cav_e_out_b=-Q, exp_q_in_b=-H, cmp_q_out_b=-2), None),
        ("warm", dict(cav_eta_temp=Fr(5, 4), cav_level_max=3), [1, 2, 1]),
        ("cold", dict(cav_eta_temp=Fr(4, 5)), [H, 1, 1]),
        ("pressure", dict(cmp_p_max_m=-H, cmp_p_max_b=4, exp_p_max_m=1, exp_p_max_b=0), None),
        ("narrow", dict(cav_level_max=Fr(3, 2), exp_p_max_b=2), [1, 1, 2]),
    ]
    full = tier != "quick"
    for name, kw, dt in variants:
        T = 4 if full and not dt else 3
        r = dict(CAES, **kw)
        s = System(f"caes.{name}", T=T, dt=dt or 1, w=None)
        s.bus("el", "gas", balanced=False)
        s.caes("p", "el", "gas", "el", r, efl=Fl(vc=1), ffl=Fl(vc=2), ofl=Fl(vc=-3))
        xs = [0, H, 1, 2, 3, 4] if full else [0, 1, 2, 3, 4]
        raw = caes_moves(r, xs, [0, Q, H, 1, 2])
        right = [m for m in raw if m[1] == caes_fuel(r, m[2])]
        wrong = [m for m in raw if m not in right]
        jobs.append(Job(s, None, raw=sorted(right + rng.sample(wrong, 6)), cap=60))
    # two plants and a load, with limits of the flows
    s = System("caes.two", T=3, dt=[1, 2, 1])
    s.bus("el", "gas", "out")
    s.source("wind", el=Fl(nom=6))
    s.source("well", gas=Fl(vc=2))
    one, two = dict(CAES), dict(CAES, cmp_q_tes_share=1, exp_q_tes_share=1, cav_e_in_b=Q, exp_p_max_b=2, cmp_p_max_m=0)
    s.caes("p", "el", "gas", "out", one, efl=Fl(nom=3, max=[1, H, 1]), ofl=Fl(nom=1, vc=-2))
    s.caes("q", "el", "gas", "out", two, ffl=Fl(nom=1), ofl=Fl(vc=-3))
    s.sink("o", out=Fl())
    s.sink("dump", el=Fl())
    pa = [m for m in caes_moves(one, [0, 1, 2, 3], [0, H, 1]) if m[1] == caes_fuel(one, m[2])]
    pb = [m for m in caes_moves(two, [0, 1, 2], [0, H, 1]) if m[1] == caes_fuel(two, m[2])]
    raw = []
    for x in pa:
        for y in pb:
            for w in (0, 1):
                raw.append((x[0] + y[0] + w, x[1] + y[1], *x, *y, x[2] + y[2], w))
    jobs.append(Job(s, None, raw=rng.sample(raw, 36)))
    return jobs


def caes_fuel(par, y):
    need = Fr(par["exp_q_in_m"]) * y + Fr(par["exp_q_in_b"]) if y else Fr(0)
    return (1 - Fr(par["exp_q_tes_share"])) * need


# ------------------------------------------------------------------ C10
def partload(rng, tier):
    jobs = []
    n = 2 if tier == "quick" else 8
    for k in range(n):
        for side in ("in", "out"):
            s = System(f"offset.{side}{k}", T=3)
            s.bus("f", "e", "h")
            s.source("g", f=Fl(vc=1))
            nc = Fl(nom=4, min=H, max=rng.choice([1, Fr(3, 4)]), nc=NC(init=0, cs=1))
            mix = lambda *o: rng.choice([rng.choice(o), series(rng, 3, *o)])
            if side == "in":
                s.offset("u", {"f": nc}, {"e": Fl(), "h": Fl()}, cf={"e": mix(H, 1), "h": mix(H, Q)},
                         off={"e": mix(-Q, 0), "h": mix(Q, 0)})
            else:
                s.offset("u", {"f": Fl()}, {"e": nc, "h": Fl()}, cf={"f": mix(2, 1), "h": mix(1, H)},
                         off={"f": mix(H, 0), "h": mix(-Q, 0)})
            s.sink("o", e=Fl(), h=Fl())
            lat = R(0, 4, H) if side == "in" else R(0, 4)
            big = R(0, 10, H)
            jobs.append(Job(s, {("g", "f"): big, ("f", "u"): [0, 2, 3, 4] if side == "in" else big,
                                ("u", "e"): R(0, 4, H) if side == "in" else [0, 2, 3, 4], ("u", "h"): R(-1, 4, Q),
                                ("e", "o"): R(0, 4, H), ("h", "o"): R(-1, 4, Q)}, cap=60))
    # given by the efficiencies at maximum and minimum load
    for k in range(n):
        for side in ("in", "out"):
            T = 3
            s = System(f"offset.eff.{side}{k}", T=T)
            s.bus("f", "e", "h")
            s.source("g", f=Fl(vc=1))
            some = lambda *o: series(rng, T, *o) if k % 2 else rng.choice(o)
            nc = Fl(nom=4, min=some(H, Q), max=some(Fr(3, 4), 1), nc=NC(init=0, cs=1))
            if side == "in":
                s.offset("u", {"f": nc}, {"e": Fl(), "h": Fl()},
                         eff={"e": (some(H, 1), some(Q, H)), "h": (some(1, H), some(H, Fr(3, 4)))})
            else:
                s.offset("u", {"f": Fl()}, {"e": nc, "h": Fl()},
                         eff={"f": (some(H, 1), some(Q, H)), "h": (some(1, 2), some(H, 4))})
            s.sink("o", e=Fl(), h=Fl())
            pts = {0: {(0, 0)}, 1: {(0, 0)}}
            spec = s.spec()
            c, d = spec["offs"][0], spec["flows"][s.spec()["offs"][0]["ref"] - 1]
            raws = [[Fr(0)] * len(s.flows)]
            sts = [[0] * len(s.flows)]
            for t in range(T):
                mn, mx = Fr(d["min"][t]), Fr(d["max"][t])
                for l in (mn, mx, (mn + mx) / 2, mn / 2):
                    v = {c["ref"] - 1: 4 * l}
                    for o in c["others"]:
                        a, b = Fr(o["etaMax"][t]), Fr(o["etaMin"][t])
                        ya, yb = (mx * a, mn * b) if side == "in" else (mx / a, mn / b)
                        v[o["f"] - 1] = 4 * (yb + (ya - yb) * (l - mn) / (mx - mn))
                    fi = s.fi
                    v[fi("g", "f")], v[fi("e", "o")], v[fi("h", "o")] = v[fi("f", "u")], v[fi("u", "e")], v[fi("u", "h")]
                    if [v[f] for f in range(len(s.flows))] not in raws:
                        raws.append([v[f] for f in range(len(s.flows))])
                        sts.append([int(f == c["ref"] - 1) for f in range(len(s.flows))])
            jobs.append(Job(s, None, raw=raws, status=sts))
    # the deprecated coefficients
    for k in range(n):
        s = System(f"offset.coefficients{k}", T=3)
        s.bus("f", "e")
        s.source("g", f=Fl(vc=1))
        mn, mx = ([series(rng, 3, H, Q), series(rng, 3, 1, Fr(3, 4))], [H, 1])[k % 2]
        s.offset("u", {"f": Fl()}, {"e": Fl(nom=4, min=mn, max=mx, nc=NC(init=0, ca=1))},
                 coef=([Fr(-1, 4), series(rng, 3, Fr(-1, 4), Fr(1, 8))][k % 2], series(rng, 3, H, 1)))
        s.sink("o", e=Fl())
        jobs.append(Job(s, {("g", "f"): R(0, 12, H), ("f", "u"): R(0, 12, H), ("u", "e"): R(0, 4, H), ("e", "o"): R(0, 4, H)},
                        cap=60))
    s = System("offset.invest", T=2)
    s.bus("f", "e")
    s.source("g", f=Fl(vc=1))
    s.offset("u", {"f": Fl(inv=Inv(max=8, ep=1), min=H, nc=NC(init=0))}, {"e": Fl()}, cf={"e": 1}, off={"e": -Q})
    s.sink("o", e=Fl())
    jobs.append(Job(s, {0: R(0, 8), 1: R(0, 8), 2: R(0, 8), 3: R(0, 8)}, plans=[dict(inv=[[x]]) for x in (0, 4, 8)]))
    for k in range(n):
        s = System(f"extraction{k}", T=2)
        s.bus("gas", "el", "th")
        s.source("g", gas=Fl(vc=1))
        mix = lambda *o: rng.choice([rng.choice(o), series(rng, 2, *o)])
        s.extraction("x", {"gas": Fl(nom=8)}, {"el": Fl(), "th": Fl()}, cf={"el": mix(Q, H), "th": H}, full={"el": mix(H, Fr(3, 4))})
        s.sink("o", el=Fl(), th=Fl())
        jobs.append(Job(s, {0: R(0, 8, 2), 1: R(0, 8, 2), 2: R(0, 6, H), 3: R(0, 4, H), 4: R(0, 6, H), 5: R(0, 4, H)}, cap=80))
    s = System("extraction.periods", T=3, periods=per3((1, 1, 1)))
    s.bus("gas", "el", "th")
    s.source("g", gas=Fl(vc=1))
    s.extraction("x", {"gas": Fl(nom=8)}, {"el": Fl(), "th": Fl()}, cf={"el": [Q, H, Q], "th": H}, full={"el": Fr(3, 4)})
    s.sink("o", el=Fl(), th=Fl())
    jobs.append(Job(s, {0: R(0, 8, 2), 1: R(0, 8, 2), 2: R(0, 6, H), 3: R(0, 4, H), 4: R(0, 6, H), 5: R(0, 4, H)}, cap=40))
    return jobs


# ------------------------------------------------------------------ C12
def investment(rng, tier):
    jobs = []
    n = 2 if tier == "quick" else 8
    amounts = lambda: [dict(inv=[[x]]) for x in (0, H, 1, 2, 3, 4, 5)]
    for k in range(n):
        s = System(f"invest.flow{k}", T=2, dt=[1, 2])
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(min=k % 2, max=rng.choice([None, 4]), ep=2, ex=rng.choice([0, 1, 2])),
                           min=series(rng, 2, 0, Q, H), max=series(rng, 2, H, 1), vc=1))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 6, H), 1: R(0, 6, H)}, plans=amounts(), cap=40))
        s = System(f"invest.fix{k}", T=2)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(min=0, max=4, ep=2, ex=rng.choice([0, 1])), fix=series(rng, 2, 0, H, 1), vc=1))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 6, H), 1: R(0, 6, H)}, plans=amounts(), cap=40))
    opt = [dict(inv=[[x]], ist=[[y]]) for x in (0, H, 1, 2, 4, 5) for y in (0, 1)]
    for mn in (0, 1):
        s = System(f"invest.optional{mn}", T=2)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(min=mn, max=4, ep=2, off=3, nc=True, ex=0), max=[1, H], vc=1))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 4, H), 1: R(0, 4, H)}, plans=opt))
    s = System("invest.negative", T=2)
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(max=4, ep=2, ex=1), min=[-1, -H], max=[1, H], vc=1))
    s.sink("o", b=Fl(nom=9, min=-1))
    jobs.append(Job(s, {0: R(-5, 5), 1: R(-5, 5)}, plans=amounts()))
    s = System("invest.onoff", T=2)
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(min=1, max=4, ep=2), min=[H, Q], max=[1, H], nc=NC(init=0, cs=1)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 5, H), 1: R(0, 5, H)}, plans=amounts(), cap=60))
    for ex in (1, 3):
        s = System(f"invest.onoff.existing{ex}", T=2)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(min=ex % 2, max=4, ep=2, ex=ex), min=[H, Q], max=[1, H], nc=NC(init=0, cs=1)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 7, H), 1: R(0, 7, H)}, plans=amounts(), cap=90))
        s = System(f"invest.onoff.fix{ex}", T=2)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=2, ex=ex), fix=series(rng, 2, 0, H, 1), nc=NC(init=0, cs=1)))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: R(0, 7, H), 1: R(0, 7, H)}, plans=amounts(), cap=90))
    s = System("invest.onoff.optional", T=2)
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(min=1, max=4, ep=2, off=3, nc=True), min=[H, Q], max=[1, H], nc=NC(init=0, cs=1)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 5, H), 1: R(0, 5, H)}, plans=opt, cap=60))
    for o in (False, True):
        s = System(f"invest.store{int(o)}", T=2)
        s.bus("b", "c")
        s.source("g", b=Fl(nom=4))
        s.storage("st", {"b": Fl(nom=2)}, {"c": Fl(inv=Inv(max=2, ep=1))},
                  inv=Inv(min=1, max=4, ep=2, ex=0 if o else 1, nc=o, off=1 if o else 0), bal=False, init=0,
                  lmin=[0, 0, Q], lmax=[1, 1, 1])
        s.sink("o", c=Fl())
        units = s.spec()["units"]
        st = [u["kind"] for u in units].index("store")
        plans = []
        for x, y, w in product((0, 1, 2, 4, 5), (0, 1) if o else (0,), (0, 1, 2)):
            inv = [[w], [w]]
            inv[st] = [x]
            ist = [[0], [0]]
            ist[st] = [y]
            plans.append(dict(inv=inv, ist=ist, lv=[0]))
        jobs.append(Job(s, {0: R(0, 2), 1: R(0, 2), 2: R(0, 2), 3: R(0, 2)}, plans=plans))
    return jobs


# ------------------------------------------------------------------ C13
def lifecycle_plans(rng, k, P=3, amounts=(0, 0, 1, 2, 3)):
    out = [[0] * P, [1] + [0] * (P - 1), [0] * (P - 1) + [2], [2] * P]
    while len(out) < k:
        x = [rng.choice(amounts) for _ in range(P)]
        if x not in out:
            out.append(x)
    return out


def periods_capacity(rng, tier):
    jobs = []
    lay = [per3((1, 1, 1)), [(2020, 1, 2), (2022, 1, 2), (2024, 1, 2)], [(2020, 1, 3), (2023, 1, 1), (2024, 1, 4)],
           [(2020, 1, 1), (2021, 1, 1), (2022, 1, 1), (2023, 1, 1)]]
    cases = []
    for l, per in enumerate(lay):
        for life in (1, 2, 3, 4, 5, 6):
            for age, ex in ((0, 0), (0, 2), (1, 2), (2, 1)):
                if age < life:
                    cases.append((l, per, life, age, ex))
    if tier == "quick":
        must = [c for c in cases if c[0] in (0, 2) and c[3] in (0, 1) and c[4] in (2,)]
        cases = must + rng.sample([c for c in cases if c not in must], 8)
    for l, per, life, age, ex in cases:
        P = len(per)
        s = System(f"cap.l{l}.life{life}.age{age}.ex{ex}", T=P, periods=per)
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=1, life=life, age=age, ex=ex), vc=1))
        s.sink("o", b=Fl())
        jobs.append(Job(s, {0: [0, 1, 2, 3, 4, 5, 6], 1: [0, 1, 2, 3, 4, 5, 6]},
                        plans=[dict(inv=[x]) for x in lifecycle_plans(rng, 4 if tier == "quick" else 8, P)]))
    # overall limits, bounds per period, optional purchases
    s = System("cap.overall", T=3, periods=per3())
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(min=[0, 1, 0], max=[2, 3, 4], ep=1, life=3, ex=1, age=1, omax=4, omin=2)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: [0, 1, 4], 1: [0, 1, 4]},
                    plans=[dict(inv=[list(x)]) for x in product((0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2))]))
    s = System("cap.optional", T=3, periods=per3())
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(min=1, max=3, ep=1, off=2, nc=True, life=2)))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: [0, 1, 3], 1: [0, 1, 3]},
                    plans=[dict(inv=[list(x)], ist=[list(y)]) for x in product((0, 1, 3), repeat=3)
                           for y in product((0, 1), repeat=3)][:216:5]))
    s = System("cap.minmax", T=4, periods=per3((1, 2, 1)))
    s.bus("b")
    s.source("x", b=Fl(inv=Inv(max=4, ep=1, life=3, ex=1), min=[0, H, Q, H], max=[1, H, 1, 1], vc=1))
    s.source("f", b=Fl(inv=Inv(max=4, ep=1, life=2, ex=1), fix=[1, 0, H, 1], vc=1))
    s.sink("o", b=Fl())
    jobs.append(Job(s, {0: R(0, 4, H), 1: R(0, 2, H), 2: R(0, 6, H)}, cap=30,
                    plans=[dict(inv=[a, b]) for a in ([0, 0, 0], [1, 0, 2], [2, 2, 0]) for b in ([0, 1, 0], [1, 1, 1])]))
    # storages
    for life, age, ex in ((1, 0, 2), (2, 1, 2), (3, 0, 2), (4, 1, 1), (6, 3, 2)):
        s = System(f"cap.store.life{life}.age{age}", T=4, periods=per3((1, 2, 1)))
        s.bus("b", "c")
        s.source("g", b=Fl(nom=4))
        s.storage("st", {"b": Fl(nom=4)}, {"c": Fl(nom=4)},
                  inv=Inv(max=4, ep=1, life=life, age=age, ex=ex, omax=5 if life == 3 else None,
                          omin=1 if life == 4 else None), bal=False)
        s.sink("o", c=Fl())
        jobs.append(Job(s, {0: [0, 1, 2, 3], 1: [0, 1, 2, 3], 2: [0, 1, 2, 3], 3: [0, 1, 2, 3]}, cap=10,
                        plans=[dict(inv=[x], lv=[0]) for x in lifecycle_plans(rng, 6)]))
    s = System("cap.store.ratio", T=3, periods=per3())
    s.bus("b", "c")
    s.source("g", b=Fl(nom=4))
    s.storage("st", {"b": Fl(inv=Inv(max=4, ep=1, life=2))}, {"c": Fl(inv=Inv(max=4, ep=1, life=3))},
              inv=Inv(max=8, ep=1, life=3), bal=False, rel_oc=H, rel_io=None)
    s.sink("o", c=Fl())
    plans = [dict(inv=[list(a), list(b), list(c)], lv=[0]) for a in ((1, 1, 1),) for b in ((1, 0, 0), (1, 1, 0), (0, 0, 1))
             for c in ((2, 0, 0), (2, 2, 0), (0, 0, 2), (1, 1, 0))]
    jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: [0, 1]}, plans=plans))
    return jobs


# ------------------------------------------------------------------ C14
def operating_cost(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 12
    for k in range(n):
        T = 3
        s = System(f"cost{k}", T=T, dt=rdt(rng, T), w=[None, series(rng, T, 0, 1, 2, 3)][k % 2])
        s.bus("b", "c")
        s.source("a", b=Fl(nom=2, vc=series(rng, T, 0, 1, -2, 3)))
        s.source("z", b=Fl(nom=2))
        s.conv("cv", {"b": Fl(vc=rng.choice([H, 2]))}, {"c": Fl(nom=2, vc=series(rng, T, 0, 1, H))})
        s.sink("o", b=Fl(nom=2, vc=series(rng, T, 0, -1, -3)), c=Fl(vc=rng.choice([0, 1])))
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 2], 2: [0, 1, 2], 3: [0, 1, 2], 4: [0, 1, 2], 5: [0, 1, 2]}, cap=24))
    for k, disc in enumerate((None, 0, Fr(1, 20), Fr(1, 4))):
        s = System(f"cost.periods{k}", T=4, periods=[per3((1, 2, 1)), [(2020, 1, 3), (2023, 2, 2), (2025, 1, 1)]][k % 2],
                   discount=disc)
        s.bus("b")
        Y = 6
        s.source("a", b=Fl(nom=2, vc=[1, 2, 3, 4], fc=[1, 2, 3, 4, 5, 6]))
        s.source("f", b=Fl(nom=1, vc=2, fc=2, life=3, age=1))
        s.source("z", b=Fl(vc=-1))
        s.storage("st", {"b": Fl(nom=1)}, {"b": Fl(nom=1, vc=1)}, nom=4, init=H, bal=False, sc=[1, 0, 2, 1],
                  fc=[0, 1, 0, 2, 1, 0])
        s.sink("o", b=Fl(nom=4, vc=[-1, 0, 1, -2]))
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1], 2: [0, 1], 3: [0, 1], 4: [0, 1], 5: [0, 1, 2, 4]}, cap=13))
    # more steps than years: yearly costs are given per year, not per step
    s = System("cost.years", T=7, periods=[(2020, 4, 1), (2021, 3, 1)])
    s.bus("b")
    s.source("f", b=Fl(nom=1, vc=2, fc=[5, 3], life=2))
    s.source("g", b=Fl(nom=2, vc=1, fc=[4, 7], life=3, age=2))
    s.source("h", b=Fl(nom=1, fc=[1, 2]))
    s.storage("st", {"b": Fl(nom=1)}, {"b": Fl(nom=1)}, nom=4, init=H, bal=False, fc=[2, 3])
    s.sink("o", b=Fl(vc=-1))
    jobs.append(Job(s, {0: [0, 1], 1: [0, 2], 2: [0], 3: [0], 4: [0], 5: [0, 1, 2, 3]}, cap=3))
    for k, bal in enumerate((True, False)):
        s = System(f"cost.store{k}", T=3, dt=[1, 2, 1])
        s.bus("b", "c")
        s.source("g", b=Fl(nom=2, vc=[1, 2, 3]))
        s.storage("st", {"b": Fl(nom=2, vc=1)}, {"c": Fl(nom=2, vc=[0, 1, 2])}, nom=8, init=H, bal=bal, sc=[0, 3, 2],
                  fc=2 if k else None)
        s.storage("s2", {"b": Fl(nom=2)}, {"c": Fl(nom=2)}, inv=Inv(max=9, ep=H), bal=bal, init=0, sc=[0, 2, 1])
        s.sink("o", c=Fl())
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1], 2: [0, 1], 3: [0, 1], 4: [0, 1], 5: [0, 1, 2]}, cap=24,
                        plans=[dict(inv=[[8]], lv=[4, 0])]))
    return jobs


# ------------------------------------------------------------------ C15
def investment_cost(rng, tier):
    jobs = []
    for k, nc in enumerate((False, True)):
        s = System(f"icost.single{k}", T=2)
        s.bus("b", "c")
        s.source("x", b=Fl(inv=Inv(min=0, max=4, ep=Fr(7, 2), nc=nc, off=5 if nc else 0, ex=0 if nc else 1)))
        s.source("y", b=Fl(inv=Inv(max=4, ep=2, nc=nc, off=1 if nc else 0), min=H, nc=NC(init=0, cs=1)))
        s.storage("st", {"b": Fl(inv=Inv(max=4, ep=1))}, {"c": Fl(nom=2)}, bal=False, init=0,
                  inv=Inv(max=4, ep=3, nc=nc, off=2 if nc else 0, ex=0))
        s.sink("o", b=Fl(), c=Fl())
        nu = 4
        names = [u["nc"] for u in s.spec()["units"]]
        plans = []
        for x in product((0, 2), repeat=nu):
            for on in ((0, 1) if nc else (0,)):
                plans.append(dict(inv=[[v] for v in x], ist=[[int(z and (v > 0 or on))] for v, z in zip(x, names)], lv=[0]))
        jobs.append(Job(s, {f: [0, 1] if f != 2 else [0, 1] for f in range(6)}, plans=plans, cap=4))
    n = 8 if tier == "quick" else 32
    for k in range(n):
        per = [per3(), [(2020, 1, 3), (2023, 1, 1), (2024, 1, 4)], [(2020, 1, 2), (2022, 1, 2), (2024, 1, 2)]][k % 3]
        end = per[-1][0] + per[-1][2] - 2020
        disc = rng.choice([None, Fr(1, 10), Fr(1, 25)])
        nc = k % 2 == 1
        s = System(f"icost.periods{k}", T=3, periods=per, discount=disc, remaining=k % 4 in (2, 3))
        s.bus("b", "c")
        rem = k % 4 in (2, 3)  # remaining values differ if costs change and something outlives the horizon
        L = lambda: rng.choice([8, 20] if rem else [2, 3, 5, 8, 20])
        ep = lambda: rng.sample(range(1, 10), 3)
        fc = lambda: rng.choice([None, 2, [rng.randint(0, 4) for _ in range(end)]])
        inv = lambda: Inv(max=4, ep=rng.choice([ep(), ep() if rem else 7]), life=L(), fc=fc(), nc=nc, off=ep() if nc else 0)
        a = inv()
        if not nc:
            a["ex"] = 2
            a["age"] = rng.choice([0, 1])
        s.source("x", b=Fl(inv=a))
        s.storage("st", {"b": Fl(nom=1)}, {"c": Fl(nom=1)}, bal=False, inv=inv())
        s.sink("o", b=Fl(), c=Fl())
        plans = []
        for x in lifecycle_plans(rng, 5):
            for y in lifecycle_plans(rng, 4):
                plans.append(dict(inv=[x, y], ist=[[int(nc and v > 0) for v in x], [int(nc and v > 0) for v in y]], lv=[0]))
        jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0], 3: [0, 1], 4: [0]}, plans=plans, cap=2))
    return jobs


# ------------------------------------------------------------------ C16
def integral(rng, tier):
    jobs = []
    n = 3 if tier == "quick" else 10
    for k in range(n):
        T = 3
        s = System(f"integral{k}", T=T, dt=rdt(rng, T), w=[None, [5, 1, 2]][k % 2])
        s.bus("b")
        key = ["emission_factor", "space", "emission_factor"][k % 3]
        wa, wb = rng.choice([1, series(rng, T, 0, 1, 2)]), rng.choice([2, series(rng, T, H, 1, -1)])
        s.source("a", b=Fl(nom=2, vc=1, props={key: wa}))
        s.source("c", b=Fl(nom=2, vc=2, props={key: wb, "other": 7}))
        s.source("n", b=Fl(nom=2, vc=3, props={"other": 1}))
        s.sink("o", b=Fl(nom=6))
        hi, lo = 5, None
        if k % 3 == 1:
            hi, lo = rng.choice([(None, 2), (6, 1)])
        s.limit("integral", keyword=key, flows={("a", "b"): wa, ("c", "b"): wb}, hi=hi, lo=lo)
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: [0, 1], 3: R(0, 6)}, cap=18))
    s = System("integral.explicit", T=3)
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"k": 1}))
    s.source("c", b=Fl(nom=2, props={"k": 2}))
    s.sink("o", b=Fl(nom=6, props={"k": 4}))
    s.limit("integral", keyword="k", flows={("a", "b"): 1, ("b", "o"): 4}, hi=26, lo=4, explicit=True)
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4)}))
    for k in range(4):
        s = System(f"integral.periods{k}", T=5, periods=per3((2, 1, 2)))
        s.bus("b")
        key = ["emission_factor", "water"][k % 2]
        s.source("a", b=Fl(nom=2, props={key: [1, 2, 1, 0, 1]}))
        s.source("c", b=Fl(nom=2, props={key: 1}))
        s.source("n", b=Fl(nom=1))
        s.sink("o", b=Fl())
        s.limit("integral", keyword=key, flows={("a", "b"): [1, 2, 1, 0, 1], ("c", "b"): 1}, hi=[[3, 2, 1], 2, [2, 0, 1], 0][k], per=True)
        jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: R(0, 5)}))
    s = System("integral.periods.two", T=5, periods=per3((2, 1, 2)))
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"emission_factor": [1, 2, 1, 0, 1], "water": 1}))
    s.source("c", b=Fl(nom=2, props={"emission_factor": 1}))
    s.source("n", b=Fl(nom=1, props={"water": 2}))
    s.sink("o", b=Fl())
    s.limit("integral", keyword="emission_factor", flows={("a", "b"): [1, 2, 1, 0, 1], ("c", "b"): 1}, hi=[3, 2, 1], per=True)
    s.limit("integral", keyword="water", flows={("a", "b"): 1, ("n", "b"): 2}, hi=[2, 3, 1], per=True)
    jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: R(0, 5)}, cap=10))
    s = System("integral.none", T=2)  # nothing is left of it
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"water": [1, -1]}))
    s.source("c", b=Fl(nom=2, props={"emission_factor": [0, 1]}))
    s.sink("o", b=Fl())
    s.limit("integral", keyword="water", flows={("a", "b"): [1, -1]}, hi=0, lo=0)
    s.limit("integral", keyword="emission_factor", flows={("c", "b"): [0, 1]}, hi=0)
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4)}))
    s = System("integral.multi", T=3, periods=per3())
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"emission_factor": 2}))
    s.sink("o", b=Fl())
    s.limit("integral", keyword="emission_factor", flows={("a", "b"): 2}, hi=6)
    jobs.append(Job(s, {0: [0, 1, 2], 1: R(0, 2)}))
    s = System("integral.named", T=2)  # several limits for one keyword
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"k": 1}))
    s.source("c", b=Fl(nom=2, props={"k": 2}))
    s.sink("o", b=Fl())
    s.limit("integral", keyword="k", flows={("a", "b"): 1, ("c", "b"): 2}, hi=8)
    s.limit("integral", keyword="k", flows={("a", "b"): 1}, lo=1, explicit=True, name="at_least")
    s.limit("integral", keyword="k", flows={("c", "b"): 2}, hi=6, lo=2, explicit=True, name="between")
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4)}))
    s = System("integral.two", T=2)
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"emission_factor": 1, "cost": 3}))
    s.source("c", b=Fl(nom=2, props={"cost": 1}))
    s.sink("o", b=Fl())
    s.limit("integral", keyword="emission_factor", flows={("a", "b"): 1}, hi=3)
    s.limit("integral", keyword="cost", flows={("a", "b"): 3, ("c", "b"): 1}, hi=9, lo=3)
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4)}))
    return jobs


# ------------------------------------------------------------------ C17
def coupling(rng, tier):
    jobs = []
    for k, (fac, kw) in enumerate(((1, None), (H, None), (2, ("ka", "kb")))):
        s = System(f"couple.equate{k}", T=3)
        s.bus("b")
        s.source("a", b=Fl(nom=2, props={"ka": 1}))
        s.source("c", b=Fl(nom=2, props={"ka": True}))
        s.source("d", b=Fl(nom=4, props={"kb": 1}))
        s.source("n", b=Fl(nom=1))
        s.sink("o", b=Fl())
        s.limit("equateFlows", a=[("a", "b"), ("c", "b")], b=[("d", "b")], factor=fac, keywords=kw)
        jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4), 3: [0, 1], 4: R(0, 9)}, cap=14))
    s = System("couple.equate.periods", T=3, periods=per3())
    s.bus("b")
    s.source("a", b=Fl(nom=2))
    s.source("d", b=Fl(nom=4))
    s.sink("o", b=Fl())
    s.limit("equateFlows", a=[("a", "b")], b=[("d", "b")], factor=2)
    jobs.append(Job(s, {0: [0, 1, 2], 1: R(0, 4), 2: R(0, 6)}))
    for k, (lo, hi, kw) in enumerate(((None, 1, None), (1, 2, None), (2, None, "cnt"), (None, 0, None), (1, 1, "cnt"))):
        s = System(f"couple.count{k}", T=2)
        s.bus("b")
        for u in "xyz":
            s.source(u, b=Fl(nom=2, min=H, nc=NC(init=0, cs=1), props={"cnt": 1} if u != "z" else {"zz": 1}))
        s.source("w", b=Fl(nom=2, min=H, nc=NC(init=0), props={"cnt": 1}))
        s.sink("o", b=Fl())
        s.limit("count", flows=[(u, "b") for u in "xyw"], lo=lo, hi=hi, keyword=kw)
        jobs.append(Job(s, {0: [0, 2], 1: [0, 2], 2: [0, 2], 3: [0, 2], 4: R(0, 8)}, sync=True))
    s = System("couple.equate.words", T=2)  # whatever the value of the keyword is
    s.bus("b")
    s.source("a", b=Fl(nom=2, props={"ka": 0}))
    s.source("c", b=Fl(nom=2, props={"ka": False}))
    s.source("d", b=Fl(nom=4, props={"kb": 0}))
    s.source("n", b=Fl(nom=1, props={"kc": 1}))
    s.sink("o", b=Fl())
    s.limit("equateFlows", a=[("a", "b"), ("c", "b")], b=[("d", "b")], factor=1, keywords=("ka", "kb"))
    jobs.append(Job(s, {0: [0, 1, 2], 1: [0, 1, 2], 2: R(0, 4), 3: [0, 1], 4: R(0, 9)}, cap=14))
    for k, (lo, hi) in enumerate(((None, 5), (2, 6), (1, None), (None, 0), (0, 3))):
        s = System(f"couple.shared{k}", T=3)
        s.bus("b")
        s.source("g", b=Fl(nom=4))
        s.storage("p", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=0 if hi == 0 else H, bal=False)
        s.storage("q", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=0 if hi == 0 else Q, bal=False)
        s.storage("r", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, nom=4, init=Q, bal=False)
        s.sink("o", b=Fl(nom=4))
        s.limit("shared", stores=["p", "q"], w=[1, 2 if k else H], lo=lo, hi=hi)
        jobs.append(Job(s, {0: [0, 2, 4], 1: [0, 2], 2: [0, 1], 3: [0, 2], 4: [0, 1], 5: [0, 1], 6: [0], 7: R(0, 4)}, cap=18))
    for fac in (2, 1):
        s = System(f"couple.invest{fac}", T=2)
        s.bus("b")
        s.source("a", b=Fl(inv=Inv(max=4, ep=1)))
        s.source("c", b=Fl(inv=Inv(max=8, ep=1)))
        s.sink("o", b=Fl())
        s.limit("equateInvest", units=[("flow", 0), ("flow", 1)], factor=fac)
        jobs.append(Job(s, {0: [0, 1], 1: [0, 1, 2], 2: [0, 1, 2, 3]},
                        plans=[dict(inv=[[a], [c]]) for a in (0, 1, 2) for c in (0, 1, 2, 4)]))
    s = System("couple.invest.periods", T=3, periods=per3())  # in some periods, a flow and a storage
    s.bus("b")
    s.source("a", b=Fl(inv=Inv(max=4, ep=1, life=9)))
    s.sink("o", b=Fl())
    s.storage("p", {"b": Fl(nom=2)}, {"b": Fl(nom=2)}, inv=Inv(max=4, ep=1, life=9), bal=False)
    s.limit("equateInvest", units=[("flow", 0), ("store", "p")], factor=2, periods=[0, 2])
    s.limit("equateInvest", units=[("flow", 0), ("store", "p")], factor=1, periods=[1])
    jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: [0]},
                    plans=[dict(inv=[[a, d, e], [c, f, g]]) for a, c in ((0, 0), (1, 2), (1, 1)) for d, f in ((1, 1), (1, 2))
                           for e, g in ((0, 0), (1, 2), (2, 1))]))
    for k, (outs, ins) in enumerate((({"o1": Q, "o2": Fr(3, 4)}, {}), ({"o1": 0}, {"i1": H, "i2": Q}), ({"o2": H}, {"i1": Fr(3, 4)}))):
        s = System(f"couple.level{k}", T=3)
        s.bus("mx")
        s.bus("o1", "o2", "i1", "i2")
        s.source("g", i1=Fl(nom=2, vc=1), i2=Fl(nom=2, vc=2))
        s.wire("i1", "mx", Fl(nom=2))
        s.wire("i2", "mx", Fl(nom=2))
        s.wire("mx", "o1", Fl(nom=2))
        s.wire("mx", "o2", Fl(nom=2))
        s.storage("st", {"mx": Fl(nom=4)}, {"mx": Fl(nom=4)}, nom=8, init=H, bal=False)
        s.sink("d", o1=Fl(), o2=Fl())
        s.limit("levels", store="st", bus="mx", outs=outs, ins=ins)
        jobs.append(Job(s, {("g", "i1"): [0, 2], ("g", "i2"): [0, 2], ("i1", "mx"): [0, 2], ("i2", "mx"): [0, 2],
                            ("mx", "o1"): [0, 2], ("mx", "o2"): [0, 2], ("mx", "st"): [0, 2, 4], ("st", "mx"): [0, 2, 4],
                            ("o1", "d"): [0, 2], ("o2", "d"): [0, 2]}, cap=24))
    return jobs


# ------------------------------------------------------------------ C18
def budgets(rng, tier):
    jobs = []
    for k, hi in enumerate((5, 9)):
        s = System(f"budget.cost{k}", T=2)
        s.bus("b", "c")
        s.source("x", b=Fl(inv=Inv(max=4, ep=2)))
        s.source("y", b=Fl(inv=Inv(max=4, ep=1, nc=True, off=2)))
        s.source("z", b=Fl(inv=Inv(max=4, ep=1), min=H, nc=NC(init=0, cs=100)))
        s.storage("st", {"b": Fl(nom=1)}, {"c": Fl(nom=1)}, inv=Inv(max=4, ep=1), bal=False, init=0, sc=50)
        s.sink("o", b=Fl(vc=20), c=Fl())
        s.limit("investCost", hi=hi)
        spec = s.spec()
        plans = []
        for x in product((0, 1, 3), (0, 1, 3), (0, 2), (0, 2)):
            ist = [[int(u["nc"] and v > 0)] for u, v in zip(spec["units"], x)]
            plans.append(dict(inv=[[v] for v in x], ist=ist, lv=[0]))
        jobs.append(Job(s, {0: [0, 1], 1: [0], 2: [0], 3: [0], 4: [0], 5: [0, 1], 6: [0]}, plans=plans))
    for per in (True, False):
        for rem in (False, True):
            s = System(f"budget.periods{int(per)}{int(rem)}", T=3, periods=per3(), discount=Fr(1, 10), remaining=rem)
            s.bus("b", "c")
            s.source("x", b=Fl(inv=Inv(max=4, ep=[4, 3, 2], life=4, fc=30)))
            s.source("y", b=Fl(inv=Inv(max=4, ep=2, life=10, nc=True, off=[2, 1, 1])))
            s.storage("st", {"b": Fl(nom=1)}, {"c": Fl(nom=1)}, inv=Inv(max=4, ep=3, life=3), bal=False)
            s.sink("o", b=Fl(), c=Fl())
            s.limit("investCost", hi=[4, 5, 2] if per else 9, per=per)
            spec = s.spec()
            plans = []
            for x in product(lifecycle_plans(rng, 5), lifecycle_plans(rng, 5), lifecycle_plans(rng, 5)):
                ist = [[int(u["nc"] and v > 0) for v in r] for u, r in zip(spec["units"], x)]
                plans.append(dict(inv=list(x), ist=ist, lv=[0]))
            jobs.append(Job(s, {0: [0], 1: [0], 2: [0], 3: [0], 4: [0], 5: [0]}, plans=plans))
    s = System("budget.store", T=2)
    s.bus("b", "c")
    s.source("x", b=Fl(nom=1))
    s.storage("st", {"b": Fl(nom=1)}, {"c": Fl(nom=1)}, inv=Inv(max=4, ep=2), bal=False, init=0)
    s.sink("o", c=Fl())
    s.limit("investCost", hi=3)
    jobs.append(Job(s, {0: [0, 1], 1: [0, 1], 2: [0, 1], 3: [0, 1]}, plans=[dict(inv=[[x]], lv=[0]) for x in (0, 1, 2)]))
    for multi in (False, True):
        s = System(f"budget.attr{int(multi)}", T=3, periods=per3() if multi else None)
        life = dict(life=2) if multi else {}
        s.bus("b")
        s.source("x", b=Fl(inv=Inv(max=4, ep=2, props={"space": 2, "o": 1}, **life)))
        s.source("y", b=Fl(inv=Inv(max=4, ep=1, props={"space": H}, **life)))
        s.source("n", b=Fl(inv=Inv(max=4, ep=1, props={"o": 3}, **life)))
        s.source("m", b=Fl(inv=Inv(max=4, ep=1, **life)))
        s.source("plain", b=Fl(nom=3))
        if not multi:
            s.source("onoff", b=Fl(inv=Inv(max=4, ep=1, props={"space": 1}), min=H, nc=NC(init=0)))
        s.sink("o", b=Fl())
        w = {("flow", 0): 2, ("flow", 1): H}
        if not multi:
            w["flow", 5] = 1
        s.limit("investAttr", keyword="space", w=w, hi=6)
        P = s.P
        xs = lifecycle_plans(rng, 5, P) if multi else [[0], [1], [3]]
        plans = [dict(inv=list(x)) for x in product(xs, xs, [[0] * P, [2] * P], [[0] * P],
                                                    *([] if multi else [[[0], [1]]]))]
        jobs.append(Job(s, {0: [0, 1], 1: [0], 2: [0], 3: [0], 4: [0], 5: [0, 1]}, plans=plans, cap=2))
    return jobs


# ------------------------------------------------------------------ random
def random_systems(seed, tier, prop):
    """systems of every kind of component, with more of what the property is about"""
    import random

    import randsys

    if prop == "C11":
        return []
    n = 40 if tier == "quick" else 400
    out = []
    for k in range(n):
        s = randsys.generate(random.Random(f"{seed}:{k}"), f"random.{seed}.{k}", focus=prop)
        out.append(Job(s, None, random=True))
    return out
