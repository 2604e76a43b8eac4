"""C21: what calls cost and keep (Cost.tla)."""
import json, os
from common import *

DESIGNS = ("snapshot", "scan", "journal", "lastlist", "oldstorage", "parts", "registry", "pool", "worker")


def describe(v):
    e, t = v["observed"], v["trace"]["t"]
    s = f"v{t['v']} {t['kind']}: " + ", ".join(v["broken"]) + ": "
    if e["c"] == "call":
        s += (f"{json.dumps(e['o'])} at byte {e['at']} (positions {e['off']}, {e['boff']} from there) of a buffer of {e['size']} bytes "
              f"allocates {e['alloc']} KB and takes {e['time']} us, handling {e['moved']} KB")
    elif e["c"] == "life":
        s += f"{e['calls']} calls like {json.dumps(e['o'])} leave {e['grown']} KB in use"
    elif e["c"] == "dropped":
        s += f"after {'120 large' if e['large'] else '15000 small'} buffers were used and dropped, {e['grown']} KB are in use"
    elif e["c"] == "gone":
        s += f"{e['what']}: {e['kept']} of {e['of']} cannot be collected" + (f" after {json.dumps(e['o'])}" if "o" in e else "")
    else:
        s += f"{e['left']} goroutines"
    return s


def measure(ctx, v, kind, seed, name, deep=False):
    f = ctx.path(name)
    r = drive(ctx, ctx.drivers[v], "cost", **{"out": f, "seed": seed, "kinds": kind, "profile": "C21", "len": 64,
                                              "budget": 40 if deep else 3, "max": 30 if deep else 5})
    return f, r


def check(ctx):
    build_all(ctx)
    files, tot = [], {"calls": 0, "lives": 0}

    def one(v, kind, n):
        f, r = measure(ctx, v, kind, ctx.seed * 47 + n, f"cost.{v}.{kind}.{n}", ctx.deep)
        with ctx.lock:
            files.append(f)
            for k in tot:
                tot[k] += r.get(k, 0)

    pool([lambda v=v, k=k, n=n: one(v, k, n) for n in range(2 if ctx.deep else 1) for v in (3, 1, 2) for k in ("buffer", "mini")])
    ctx.add("calls_measured", tot["calls"])
    ctx.add("lives_measured", tot["lives"])
    found = judge_files(ctx, sorted(files), spec="CostTrace")
    ctx.log(f"measured: {tot['calls']} calls, {tot['lives']} lives, {len(found)} violations")
    seen = set()
    for v in found:
        e, t = v["observed"], v["trace"]["t"]
        key = (t["v"], t["kind"], e["c"], json.dumps(e.get("o", {}).get("op")), e.get("what"))
        if key in seen or len(ctx.viols) >= 10:
            continue
        seen.add(key)
        ctx.viols.append({"kind": "cost", "prop": "C21", "what": describe(v), "seed": v["trace"].get("seed", ctx.seed),
                          "trace": dict(v["trace"], ev=[e])})
    if ctx.viols:
        return

    spec_laws(ctx, "CostMC", env={"DESIGN": "inplace"}, name="CostMC")
    spec_laws(ctx, "CostMC", env={"DESIGN": "exactfit"}, name="CostMC-exactfit")

    def refuted(d):
        rc, out, gen, dist, tail = tlc(ctx, "CostMC", {"PROP": "C21", "DESIGN": d, "TIER": ctx.tier}, "CostMC-" + d)
        if rc != 12:
            raise CheckError(f"CostMC.tla accepts the design {d}: rc={rc}\n{tail}")
    pool([lambda d=d: refuted(d) for d in DESIGNS])
    ctx.log("CostMC: designs " + ", ".join(DESIGNS) + " are refuted")
    ctx.assumptions += ["amounts and times are measured with wide margins: a cost or a leak below them is not seen",
                        "whether growth is amortised is not promised and not measured"]


def replay(ctx, rec):
    if rec["kind"] == "crash":
        build_all(ctx)
        drive(ctx, ctx.path(rec["driver"]), rec["mode"], **rec["flags"])
        return []
    t = rec["trace"]["t"]
    build_all(ctx, (t["v"],))
    e = rec["trace"]["ev"][0]
    if e["c"] == "call" and not e["resizes"]:
        src, dst = ctx.path("replay.in"), ctx.path("replay.out")
        with open(src, "w") as fh:
            fh.write(json.dumps(rec["trace"]) + "\n")
        drive(ctx, ctx.drivers[t["v"]], "costexec", **{"in": src, "out": dst})
        bad = judge_files(ctx, [dst], spec="CostTrace")
    else:
        f, r = measure(ctx, t["v"], t["kind"], rec["seed"], "replay.out")
        bad = [v for v in judge_files(ctx, [f], spec="CostTrace") if v["observed"]["c"] == e["c"]]
    for x in bad:
        print(describe(x))
    return bad
