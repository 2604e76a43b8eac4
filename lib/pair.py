"""C12: Buffer and MiniBuffer in lockstep; C17: reset and new in lockstep."""
import json, os
from common import *
import contract

VERSIONS = {"C12": (1, 2, 3), "C17": (2, 3)}


def describe(v):
    t = v["trace"]["t"]
    who = "Buffer and MiniBuffer" if v["prop"] == "C12" else f"a reset and a new {t['kind']}"
    return (f"v{t['v']}: {who} differ ({', '.join(v['broken'])}) at {json.dumps(v['o'])} after {v['i'] - 1} equal calls: "
            f"a={json.dumps(v['observed']['a'])[:250]} b={json.dumps(v['observed']['b'])[:250]}")


def record(ctx, viols):
    out, seen = [], set()
    for v in viols:
        t = v["trace"]["t"]
        key = (t["v"], t["kind"], v["o"]["op"], v["o"].get("k"), tuple(v["broken"]))
        if key in seen or len(out) >= 8:
            continue
        seen.add(key)
        tr = dict(v["trace"])
        tr["ev"] = tr["ev"][:v["i"]]
        rec = {"kind": "pair", "prop": ctx.prop, "what": describe(v), "event": v["i"], "broken": v["broken"],
               "state": v["state"], "observed": v["observed"], "trace": tr}
        if len(out) < 4:
            try:
                rec["reproduced"] = bool(again(ctx, tr, f"confirm{len(out)}"))
            except CheckError as e:
                rec["reproduced"] = str(e)[:300]
        out.append(rec)
    return out


def again(ctx, tr, name):
    src, dst = ctx.path(name + ".in"), ctx.path(name + ".out")
    with open(src, "w") as fh:
        fh.write(json.dumps(tr) + "\n")
    drive(ctx, ctx.drivers[tr["t"]["v"]], "pairexec", **{"in": src, "out": dst, "profile": ctx.prop})
    return judge_files(ctx, [dst], spec="Pair")


def check(ctx):
    build_all(ctx, VERSIONS[ctx.prop])
    found = []
    ds = sorted(ctx.drivers.items())
    counts = {"vectors": 0, "steps": 0, "runs": 0, "events": 0}

    def shard(i):
        rc, out, gen, dist, tail = tlc(ctx, "CrunchVec", {"PROP": ctx.prop, "TIER": ctx.tier, "SHARD": i, "SHARDS": CORES},
                                       f"vec{i}", heap="3g")
        if rc != 0:
            raise CheckError(f"CrunchVec: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        fs = []
        for v, d in ds:
            o = ctx.path(f"vec{i}.v{v}")
            r = drive(ctx, d, "pairvec", **{"in": out, "out": o, "profile": ctx.prop, "max": 30, "traces": 20})
            with ctx.lock:
                counts["vectors"] += r["vectors"]
                counts["steps"] += r["steps"]
            fs.append(o)
        os.remove(out)
        return fs

    def rand(n, variant=""):
        v, d = ds[n % len(ds)]
        o = ctx.path(f"pair{variant}{n}.v{v}")
        if variant:     # only executions that differ are shown to TLC
            args = {"traces": 0, "budget": 60 if ctx.deep else 4, "max": 3, "variant": variant}
        else:
            args = {"traces": 600 if ctx.deep else 250, "budget": 200 if ctx.deep else 8, "max": 20}
        r = drive(ctx, d, "pair", **{"out": o, "profile": ctx.prop, "seed": ctx.seed * 1009 + n, "len": 20, **args})
        with ctx.lock:
            counts["runs"] += r["runs"]
            counts["events"] += r["events"]
        return [o]

    def sweep(v, d, k):
        o = ctx.path(f"pairsweep.{k}.v{v}")
        r = drive(ctx, d, "pairsweep", **{"out": o, "profile": ctx.prop, "seed": ctx.seed * 71, "kinds": k, "max": 12})
        ctx.add("calls_swept", r["calls"])
        return [o]

    n = CORES
    files = [f for r in pool([lambda i=i: shard(i) for i in range(CORES)]) for f in r]
    ctx.log(f"CrunchVec: {counts['vectors']} histories replayed on both sides")
    files += contract.storage(ctx, [], mode="pairvec", depth=7 if ctx.deep else 4, spec=None, traces=5)
    files += [f for r in pool([lambda i=i: rand(i) for i in range(n)]
                                  + [lambda i=i: rand(i, "large") for i in range(n)]) for f in r]
    ctx.log(f"random: {counts['runs']} lockstep executions, {counts['events']} calls")
    files += [f for r in pool([lambda v=v, d=d, k=k: sweep(v, d, k) for v, d in ds for k in ("buffer", "mini")]) for f in r]
    ctx.log(f"sweeps: {ctx.cov['calls_swept']} single calls")
    found = judge_files(ctx, [f for f in files if os.path.getsize(f)], spec="Pair")
    ctx.add("traces_validated_against_impl", counts["vectors"])
    ctx.add("executions_compared", counts["runs"])
    ctx.add("calls_compared", counts["events"] + counts["steps"])
    ctx.viols = record(ctx, found)
    if not ctx.viols:
        spec_laws(ctx)
        if ctx.prop == "C17":
            tlaps(ctx, "StorageProof")
    ctx.assumptions += ["the driver compares the two sides itself to choose which further executions TLC sees"]


def replay(ctx, rec):
    build_all(ctx, (rec["trace"]["t"]["v"],))
    viols = again(ctx, rec["trace"], "replay")
    for x in viols:
        print(describe(x))
    return viols
