"""C20: the time axis.  Specification: spec/TimeAxis.tla."""

import datetime
import random
from multiprocessing import Pool
from zoneinfo import ZoneInfo

import tlc

BASE = datetime.datetime(2020, 1, 1)


def _mods():
    import build  # noqa: F401  (sets up the path to /repo)
    import pandas as pd
    from oemof import solph

    return pd, solph


def make_periods(pd, years):
    out = []
    for ys in years:
        seen = {}
        stamps = []
        for y in ys:
            n = seen[y] = seen.get(y, 0) + 1
            stamps.append(pd.Timestamp(y, 1, 1) + pd.Timedelta(hours=n))
        out.append(pd.DatetimeIndex(stamps))
    return out


def index_of(pd, d):
    if d["kind"] == "none":
        return None
    if d["kind"] == "numeric":
        return [p / 60 for p in d["points"]]
    idx = pd.DatetimeIndex([pd.Timestamp(BASE) + pd.Timedelta(minutes=p) for p in d["points"]])
    if d["freq"]:
        step = pd.Timedelta(minutes=d["next"] - d["points"][-1])
        idx = pd.date_range(idx[0], periods=len(idx), freq=pd.tseries.frequencies.to_offset(step))
    return idx


def observe(pd, solph, idx, d, minutes):
    """what the real code makes of it"""
    kw = {}
    if idx is not None:
        kw["timeindex"] = idx
    if d["given"]:
        kw["timeincrement"] = [x / 60 for x in d["incs"]]
    if d["years"]:
        kw["periods"] = make_periods(pd, d["years"])
    n = len(idx) if idx is not None else 0
    try:
        es = solph.EnergySystem(infer_last_interval=d["infer"], **kw)
        if es.timeincrement is not None and len(es.timeincrement) == 0:
            return dict(ok=False, why="no steps")
        if d["years"]:  # a model without any flow cannot be built for several periods
            b = solph.Bus(label="bus")
            es.add(b, solph.components.Source(label="in", outputs={b: solph.Flow()}),
                   solph.components.Sink(label="out", inputs={b: solph.Flow()}))
        m = solph.Model(es)
    except Exception as e:
        return dict(ok=False, why=type(e).__name__)
    try:
        if d["kind"] == "none":
            pts = [round(float(x) * 60) for x in es.timeindex]
        else:
            pts = [minutes(x) for x in es.timeindex]
        incs = [float(x) * 60 for x in m.timeincrement]
        if incs != [float(x) * 60 for x in es.timeincrement]:
            incs = []
        incs = [round(x) if abs(x - round(x)) < 1e-6 else -1 for x in incs]
        steps = [[t + 1 for p, t in m.TIMEINDEX if p == q] for q in m.PERIODS]
        if list(m.TIMESTEPS) != list(range(len(incs))) or list(m.TIMEPOINTS) != list(range(len(incs) + 1)):
            steps = [["TIMESTEPS/TIMEPOINTS"]]
        if steps != [[t + 1 for t in m.TIMESTEPS_IN_PERIOD[q]] for q in m.PERIODS]:
            steps = [["TIMESTEPS_IN_PERIOD"]]
        out = dict(ok=True, points=pts, incs=incs, steps=steps, end=int(es.end_year_of_optimization))
        if d["years"]:
            out.update(years=[int(x) for x in es.periods_years],
                       durations=[int(es.get_period_duration(k)) for k in range(len(d["years"]))],
                       matrix=[[int(x) for x in r] for r in es.periods_matrix])
        else:
            out.update(years=[], durations=[], matrix=[])
        return out
    except Exception as e:
        return dict(ok=False, why="after creation: " + type(e).__name__ + str(e)[:200])


def compare(ax, obs):
    if ax["ok"] != obs["ok"]:
        return ["refused" if ax["ok"] else "accepted"]
    if not ax["ok"]:
        return []
    bad = [n for n in ("points", "incs") if ax[n] != obs[n]]
    return bad + [n for n in ("years", "durations", "end", "matrix", "steps") if ax["per"][n] != obs[n]]


def _replay(chunk):
    pd, solph = _mods()
    mins = lambda x: (round(float(x) * 60) if not isinstance(x, pd.Timestamp)
                      else round((x - pd.Timestamp(BASE)).total_seconds() / 60))
    out = []
    for c in chunk:
        obs = observe(pd, solph, index_of(pd, c["d"]), c["d"], mins)
        bad = compare(c["axis"], obs)
        if bad:
            out.append((c, obs, bad))
    return out


def aggregated(pd, solph, d, single):
    """what the real code makes of aggregated time series"""
    tsa, per = [], []
    for p, q in enumerate(d["periods"]):
        K = len(set(q["order"]))
        x = dict(order=list(q["order"]), timesteps_per_period=q["steps"] or sum(q["segs"][0]))
        if q["segs"]:
            x["segments"] = {(k, g): n for k, s in enumerate(q["segs"]) for g, n in enumerate(s)}
        tsa.append(x)
        n = K * (len(q["segs"][0]) if q["segs"] else q["steps"])
        per.append(pd.date_range(f"{2020 + 5 * p}-01-01", periods=n, freq="h"))
    ti = per[0]
    for x in per[1:]:
        ti = ti.append(x)
    segmented = any(q["segs"] for q in d["periods"])
    kw = dict(infer_last_interval=not segmented and not d["multi"])
    if d["given"]:
        kw["timeincrement"] = [1] * len(ti)
    if d["multi"]:
        kw["periods"] = per
    try:
        es = solph.EnergySystem(timeindex=ti, tsa_parameters=tsa[0] if single and len(tsa) == 1 else tsa, **kw)
        b = solph.Bus(label="bus")
        es.add(b, solph.components.Source(label="in", outputs={b: solph.Flow()}),
               solph.components.Sink(label="out", inputs={b: solph.Flow()}))
        m = solph.Model(es)
    except Exception as e:
        return dict(ok=False, why=f"{type(e).__name__}: {e}"[:200])
    T = len(list(m.TIMESTEPS))
    incs = [float(x) * 60 for x in m.timeincrement]
    stands = {}
    for p, q in enumerate(d["periods"]):
        for i, k in enumerate(q["order"]):
            for g in range(len(q["segs"][0]) if q["segs"] else q["steps"]):
                t = m.get_original_timestep(p, i, g)
                if t in stands:
                    return dict(ok=True, incs=incs, steps=[], weights=[], represents=["twice", p, i, g])
                stands[t] = m.get_timestep_from_tsam_timestep(p, k, g) + 1
    return dict(ok=True, incs=[round(x) if abs(x - round(x)) < 1e-6 else -1 for x in incs] if list(m.TIMESTEPS) == list(range(T)) else [],
                steps=[[t + 1 for p, t in m.TIMEINDEX if p == q] for q in m.PERIODS],
                weights=list(m.tsam_weighting), represents=[stands[t] for t in sorted(stands)] if set(stands) == set(range(len(stands))) else [])


def _aggregate(chunk):
    pd, solph = _mods()
    out = []
    for n, c in chunk:
        obs = aggregated(pd, solph, c["d"], n % 2)
        ax = c["axis"]
        if ax["ok"] != obs["ok"]:
            bad = ["refused" if ax["ok"] else "accepted"]
        else:
            bad = [n for n in ax if ax[n] != obs[n]]
        if bad:
            out.append((c, obs, bad))
    return out


def calendar_next(kind, local):
    """the point of the calendar after a local time"""
    if kind in ("MS", "ME"):
        y, m = divmod(local.year * 12 + local.month, 12)
        nxt = local.replace(year=y, month=m + 1, day=1)
        if kind == "ME":
            y, m = divmod(nxt.year * 12 + nxt.month, 12)
            nxt = datetime.datetime(y, m + 1, 1, local.hour) - datetime.timedelta(days=1)
        return nxt
    if kind == "D":
        return local + datetime.timedelta(days=1)
    if kind == "YS":
        return local.replace(year=local.year + 1)
    raise KeyError(kind)


def recorded(seed, n):
    """real indexes: calendars, time zones, long and irregular ones"""
    pd, solph = _mods()
    rng = random.Random(seed)
    cases = []
    epoch = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)

    def put(idx, d, tz):
        def minutes(x):
            x = x.to_pydatetime()
            x = x.replace(tzinfo=datetime.timezone.utc) if x.tzinfo is None else x
            return round((x - epoch).total_seconds() / 60)

        if idx is not None:
            d["points"] = [minutes(x) for x in idx]
        obs = observe(pd, solph, idx, d, minutes)
        obs.pop("why", None)
        cases.append(dict(what="axis", d=d, **obs))

    blank = dict(kind="datetime", points=[], freq=False, next=0, infer=False, given=False, incs=[], years=[])
    utc = datetime.timezone.utc
    for i in range(n):
        tz = rng.choice([None, "Europe/Berlin", "America/New_York"])
        zone = ZoneInfo(tz) if tz else utc
        year, month, day = rng.choice([2019, 2020, 2023, 2024]), rng.choice([1, 2, 3, 10, 12]), rng.choice([1, 28, 29, 30])
        start = datetime.datetime(year, month, min(day, 28))
        kind = i % 6
        if kind < 2:  # calendar frequencies, last interval inferred or not
            f = rng.choice(["MS", "D", "YS", "ME"])
            k = rng.randint(1, 14)
            idx = pd.date_range(start, periods=k, freq=f, tz=tz)
            last = idx[-1].to_pydatetime().replace(tzinfo=None)
            nxt = calendar_next(f, last).replace(tzinfo=zone)
            put(idx, dict(blank, freq=True, infer=bool(kind == 0), next=round((nxt - epoch).total_seconds() / 60)), tz)
        elif kind == 2:  # fixed frequency, without frequency attribute
            f = rng.choice(["h", "15min", "30min", "3h"])
            k = rng.choice([3, 24, 300, 700])
            idx = pd.date_range(start, periods=k, freq=f, tz=tz)
            put(pd.DatetimeIndex(list(idx)), dict(blank, infer=rng.random() < 0.7), tz)
        elif kind == 3:  # irregular
            k = rng.randint(3, 400)
            p = [start]
            for _ in range(k):
                p.append(p[-1] + datetime.timedelta(minutes=rng.choice([5, 15, 60, 7 * 60, 24 * 60])))
            if rng.random() < 0.4:
                j = rng.randrange(1, len(p))
                p[j] = p[j - 1] if rng.random() < 0.5 else p[j - 1] - datetime.timedelta(minutes=5)
            put(pd.DatetimeIndex(p), dict(blank, infer=rng.random() < 0.2), None)
        elif kind == 4:  # increments only, also many
            k = rng.choice([1, 2, 300])
            incs = [rng.choice([15, 60, 90, 1440]) for _ in range(k)]
            if rng.random() < 0.3:
                incs[rng.randrange(k)] = rng.choice([0, -60])
            put(None, dict(blank, kind="none", given=True, incs=incs, infer=rng.random() < 0.3), None)
        else:  # periods
            y, years = year, []
            for _ in range(rng.randint(1, 5)):
                ys = []
                for _ in range(rng.randint(1, 3)):
                    ys += [y] * rng.randint(1, 40)
                    y += rng.choice([0, 1, 3])
                years.append(ys)
                y += rng.choice([1, 2])
            n = sum(map(len, years))
            if rng.random() < 0.5:
                put(None, dict(blank, kind="none", given=True, incs=[60] * n, years=years), None)
            else:
                put(pd.date_range(start, periods=n, freq="h"),
                    dict(blank, given=True, freq=True, incs=[60] * n, years=years), None)
    # the helper
    for i in range(max(40, n // 3)):
        h = dict(hasYear=True, hasStart=False, year=rng.choice([1900, 2000, 2019, 2020, 2023, 2024, 2100]),
                 interval=rng.choice([15, 30, 60, 120, 180, 1440, 7 * 60, 5]), number=rng.choice([-1, -1, 0, 1, 10, 300, 8760]))
        if i % 5 == 0:
            h["hasStart"] = True
            h["hasYear"] = rng.random() < 0.4
            if not h["hasYear"] and h["number"] < 0:
                h["number"] = rng.choice([0, 5, 100])
        kw = dict(interval=h["interval"] / 60)
        if h["interval"] % 60 == 0 and rng.random() < 0.7:
            kw["interval"] = h["interval"] // 60
        if h["number"] >= 0:
            kw["number"] = h["number"]
        start = datetime.datetime(2022, 2, 27, 5)
        if h["hasYear"]:
            kw["year"] = h["year"]
        if h["hasStart"]:
            kw["start"] = start
        try:
            x = solph.create_time_index(**kw)
            t0 = pd.Timestamp(h["year"], 1, 1) if h["hasYear"] else pd.Timestamp(start)
            gaps = [g.total_seconds() / 60 for g in (x[1:] - x[:-1])] or [0]
            obs = dict(ok=True, count=len(x), mingap=int(min(gaps)), maxgap=int(max(gaps)), atStart=bool(x[0] == t0),
                       atYearEnd=bool(h["hasYear"] and x[-1] == pd.Timestamp(h["year"] + 1, 1, 1)))
        except Exception:
            obs = dict(ok=False)
        cases.append(dict(what="year", d=h, **obs))
    return cases


def run(seed, tier, log):
    out, st = tlc.run("MCTimeAxis", {"VERIF_TIER": tier})
    axes = tlc.lines(out, "AXIS")
    log(f"time axes: {st} {len(axes)}")
    rng = random.Random(seed)
    limit = 8000 if tier == "quick" else 200000
    ok = [a for a in axes if a["axis"]["ok"]]
    no = [a for a in axes if not a["axis"]["ok"]]
    total = len(axes)
    ok = rng.sample(ok, min(len(ok), limit))
    no = rng.sample(no, min(len(no), limit))
    axes = ok + no
    rng.shuffle(axes)
    with Pool(8) as pool:
        res = pool.map(_replay, [axes[i::64] for i in range(64)], chunksize=1)
    violations = []
    for c, obs, bad in sum(res, []):
        violations.append(dict(system=f"axis.{c['d']['kind']}", verdict="axis", clauses=bad, description=c["d"],
                               spec=c["axis"], code=obs))
    log(f"replayed {len(axes)}")
    out, st3 = tlc.run("TsamAxis", {"VERIF_TIER": tier})
    aggs = tlc.lines(out, "TSAM")
    limit = 1500 if tier == "quick" else 20000
    good = [a for a in aggs if a["axis"]["ok"]]
    poor = [a for a in aggs if not a["axis"]["ok"]]
    aggs = list(enumerate(rng.sample(good, min(len(good), limit)) + rng.sample(poor, min(len(poor), limit))))
    with Pool(8) as pool:
        res = pool.map(_aggregate, [aggs[i::64] for i in range(64)], chunksize=1)
    for c, obs, bad in sum(res, []):
        violations.append(dict(system="aggregated." + ("periods" if c["d"]["multi"] else "once"), verdict="axis", clauses=bad,
                               description=c["d"], spec=c["axis"], code=obs))
    log(f"aggregated: {st3} {len(aggs)}")
    cases = recorded(seed, 200 if tier == "quick" else 3000)
    out, st2 = tlc.run("TimeAxisReplay", {"VERIF_CASES": cases})
    if st2["distinct"] < len(cases):
        raise RuntimeError("not every recorded axis was judged")
    for b in tlc.lines(out, "BAD"):
        c = cases[b["k"] - 1]
        violations.append(dict(system="recorded." + c["what"], verdict="axis", clauses=b["clauses"],
                               case={k: (v if len(str(v)) < 500 else str(v)[:500]) for k, v in c.items()}))
    cov = dict(states=sum(x["distinct"] for x in (st, st2, st3)), transitions=sum(x["states"] for x in (st, st2, st3)),
               traces_validated_against_impl=len(axes) + len(aggs) + len(cases), aggregated=len(aggs), descriptions=total,
               accepted_replayed=len(ok), rejected_replayed=len(no), recorded=len(cases),
               samples=[dict(d=a["d"], axis=a["axis"]) for a in axes[:2]] + [dict(recorded=cases[-1])])
    return dict(violations=violations, coverage=cov)
