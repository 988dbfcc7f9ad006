"""check.py PROPERTY [quick|thorough]: decide one property.

exit 0  held on everything explored (known findings are printed)
exit 1  with a line VIOLATION property=<id> replay=<path>
"""

import hashlib
import json
import os
import random
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

# property -> families of systems of the energy system specification
FAMILIES = dict(
    C01=["bus"], C02=["limits"], C03=["ramps"], C04=["fullload"], C05=["onoff"], C06=["minimum_times"],
    C07=["storage_balance"], C08=["storage_levels"], C09=["converters"], C10=["partload"], C11=["chps"],
    C12=["investment"], C13=["periods_capacity"], C14=["operating_cost"], C15=["investment_cost"],
    C16=["integral"], C17=["coupling"], C18=["budgets"], C28=["compressed_air"],
)
# property -> (module, function) with run(seed, tier, log)
MODULES = dict(
    C20=[("axis", "run")],
    C21=[("results", "reported")],
    C22=[("results", "processed")],
    C23=[("lifecycle", "purity")],
    C24=[("lifecycle", "dumps")],
    C25=[("validation", "run")],
    C19=[("tsam", "run")],
    C26=[("solving", "run")],
    C27=[("notation", "run"), ("assembly", "run")],
)


def known():
    """the committed findings: {(property, key): description}"""
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")) as fh:
        for ln in fh:
            if ln.startswith("finding: "):
                head, _, text = ln[9:].strip().partition(" -- ")
                prop, _, key = head.partition(" ")
                out[prop.split("=")[1], key.strip()] = text
    return out


def key_of(v):
    return v.get("key") or "|".join([v["system"], v["verdict"], ",".join(v.get("clauses", []))])


# property -> the clauses of the specification that state it (random systems
# contain everything, other properties' clauses are left to their own checks)
CLAUSES = dict(
    C01=["bus."], C02=["flow.direction", "flow.min", "flow.max", "flow.fix", "flow.integer", "flow.lifetime"],
    C03=["flow.gradient"], C04=["flow.fullLoad"],
    C05=["nonconvex.binary", "nonconvex.m", "limit.count"],
    C06=["nonconvex.initial", "nonconvex.minUptime", "nonconvex.minDowntime"],
    C07=["store.balance:"], C08=["store."], C09=["converter.", "link."], C10=["offset.", "extraction."],
    C16=["limit.integral", "limit.recorded"], C17=["limit."], C18=["limit."],
    C12=["invest.", "flow.min", "flow.max", "flow.fix", "store."], C13=["invest.", "flow.", "store."], C14=[], C15=[], C28=["caes."],
)


def families(prop, seed, tier, log):
    import engine
    import systems

    jobs = []
    for name in FAMILIES[prop]:
        jobs += getattr(systems, name)(random.Random(f"{seed}"), tier)
    jobs += systems.random_systems(f"{seed}:{prop}", tier, prop)
    out = engine.conformance(jobs, seed=seed, tier=tier, log=log)
    out["violations"] = [v for v in out["violations"] if not v["system"].startswith("random.") or ours(prop, v)]
    return out


def ours(prop, v):
    if v["verdict"] == "forbidden":
        return any(c.startswith(p) for c in v["clauses"] for p in CLAUSES[prop])
    if v["verdict"] == "cost":
        return prop in ("C14", "C15")
    return True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    log = lambda *a: print(f"[{time.time() - t0:6.1f}s]", *a, flush=True)
    parts = []
    if prop in FAMILIES:
        parts.append(families(prop, seed, tier, log))
    for mod, fn in MODULES.get(prop, []):
        parts.append(getattr(__import__(mod), fn)(seed, tier, log))
    violations = [v for p in parts for v in p["violations"]]
    cov = {}
    for p in parts:
        for k, x in p["coverage"].items():
            if isinstance(x, list):
                cov.setdefault(k, []).extend(x)
            elif isinstance(x, (int, float)):
                cov[k] = cov.get(k, 0) + x
            else:
                cov[k] = x
    found = known()
    groups = {}
    for v in violations:
        groups.setdefault(key_of(v), []).append(v)
    new = {k: l for k, l in groups.items() if (prop, k) not in found}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, "evidence", "replays", prop)
    shutil.rmtree(rdir, True)
    for k in sorted(groups):
        if k not in new:
            print(f"KNOWN-FINDING: property={prop} {k} -- {found[prop, k]}")
    for k in sorted(new)[:20]:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, hashlib.sha1(k.encode()).hexdigest()[:12] + ".json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, key=k, seed=seed, tier=tier, count=len(new[k]), examples=new[k][:3]), fh,
                      indent=1, default=str)
        print("  ", k, "x", len(new[k]))
        print(f"VIOLATION property={prop} replay={os.path.relpath(path, ROOT)}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    log(f"{prop} {tier}: {len(new)} new, {len(groups) - len(new)} known;",
        {k: v for k, v in cov.items() if isinstance(v, (int, float))})
    sys.exit(1 if new else 0)


if __name__ == "__main__":
    main()
