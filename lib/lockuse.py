"""C14: v1/v2 MiniBuffer under its own lock."""
import json, os
from common import *
import conc, contract

RAW = [os.path.join(VERIF, "harness", "conc", f) for f in ("ops.go", "locktrace.go")]


def describe(v):
    t = v["trace"]["t"]
    e = v["observed"]
    return (f"v{t['v']} MiniBuffer, lock {'held' if e['held'] else 'not held'} by the caller: {json.dumps(v['o'])} {', '.join(v['broken'])}: "
            f"operations on the lock {e['ops']}, outcome {json.dumps(e['r'])}, lock afterwards {e['after']}")


def again(ctx, name, tr, fn):
    src, dst = ctx.path(fn + ".in"), ctx.path(fn + ".out")
    with open(src, "w") as fh:
        fh.write(json.dumps(tr) + "\n")
    drive(ctx, ctx.drivers[name], "lockexec", **{"in": src, "out": dst})
    return judge_files(ctx, [dst], spec="LockTrace")


def build(ctx, v=(1, 2)):
    conc.build_instr(ctx)
    jobs = [lambda v=v: build_driver(ctx, v, name=f"raw{v}", extra=RAW) for v in v]
    names = [f"raw{x}" for x in v]
    try:
        pool([lambda v=v: conc.build_with_vsync(ctx, v, f"conc{v}", conc.SRC) for v in v])
        names += [f"conc{x}" for x in v]
    except conc.Uninstrumentable as e:
        ctx.assumptions.append(f"lock operations inside calls not observed: {e}")
    pool(jobs)
    ctx.log("drivers built:", " ".join(names))
    return names


def design(ctx):
    spec_laws(ctx, "LockUse", env={"DISCIPLINE": "pure"})
    for d in ("acquires", "releases", "panicking", "leaking"):
        rc, out, gen, dist, tail = tlc(ctx, "LockUse", {"DISCIPLINE": d, "TIER": ctx.tier}, "LockUse-" + d, workers=CORES)
        if rc not in (11, 12, 13):
            raise CheckError(f"LockUse.tla accepts the discipline {d}: rc={rc}\n{tail}")
    ctx.log("LockUse: other disciplines are refuted")
    tlaps(ctx, "LockUseProof")


def check(ctx):
    names = build(ctx)
    shards = 4

    def one(name, i):
        o = ctx.path(f"lock.{name}.{i}")
        drive(ctx, ctx.drivers[name], "lockuse", out=o, seed=ctx.seed * 97 + i,
              traces=(4000 if ctx.deep else 300), len=12)
        return o

    files = pool([lambda n=n, i=i: one(n, i) for n in names for i in range(shards)])

    def sweep(name, i):
        o = ctx.path(f"locksweep.{name}.{i}")
        r = drive(ctx, ctx.drivers[name], "locksweep", out=o, seed=ctx.seed * 83 + i, max=10, budget=(120 if ctx.deep else 4))
        with ctx.lock:
            tot["calls"] = tot.get("calls", 0) + r.get("calls", 0)
        return o

    tot = {}
    files += [f for f in pool([lambda n=n, i=i: sweep(n, i) for n in names for i in range(4 if ctx.deep else 1)]) if os.path.getsize(f)]
    ctx.add("calls_swept", tot["calls"])
    ctx.log(f"sweeps: {tot['calls']} calls with the lock held and not held")
    found = judge_files(ctx, files, spec="LockTrace")
    ctx.log(f"calls under the lock: {ctx.cov.get('events_judged')} judged, {len(found)} violations")
    seen = set()
    for v in found:
        which = "conc" if v["observed"]["ops"] else "raw"
        key = (v["trace"]["t"]["v"], v["o"]["op"], v["o"].get("k"), tuple(v["broken"]))
        if key in seen or len(ctx.viols) >= 8:
            continue
        seen.add(key)
        tr = dict(v["trace"])
        tr["ev"] = tr["ev"][:v["i"]]
        rec = {"kind": "lock", "prop": "C14", "what": describe(v), "trace": tr, "observed": v["observed"]}
        if len(ctx.viols) < 4:
            try:
                nm = f"conc{tr['t']['v']}"
                rec["reproduced"] = bool(again(ctx, nm if nm in names else f"raw{tr['t']['v']}", tr, f"confirm{len(ctx.viols)}"))
            except CheckError as e:
                rec["reproduced"] = str(e)[:300]
        ctx.viols.append(rec)
    # sections of several goroutines
    cn = [n for n in names if n.startswith("conc")]
    tot = {}

    def sect(name, i):
        o = ctx.path(f"sect.{name}.{i}")
        r = drive(ctx, ctx.drivers[name], "sections", out=o, seed=ctx.seed * 89 + i, traces=(300 if ctx.deep else 25), len=2)
        if "histories" not in r:
            raise LibraryCrash(ctx.drivers[name], "sections", {}, "a call of the library did not return under a schedule: " + str(r))
        with ctx.lock:
            for k, x in r.items():
                tot[k] = tot.get(k, 0) + x
        return conc.split(ctx, o, 2500)

    hs = [f for r in pool([lambda n=n, i=i: sect(n, i) for n in cn for i in range(shards)]) for f in r]
    bad = conc.judge_lin(ctx, hs)
    ctx.add("schedules_run", tot.get("runs", 0))
    ctx.log(f"bracketed sections: {tot.get('programs', 0)} programs, {tot.get('runs', 0)} schedules, "
            f"{tot.get('histories', 0)} histories, {len(bad)} violations")
    for x in bad[:3]:
        ctx.viols.append({"kind": "schedule", "prop": "C14", "what": conc.describe(x), "history": x["history"]})
    if not ctx.viols:
        design(ctx)
    ctx.assumptions += ["lock operations are those on the lock the buffer's own Lock method takes (sync replaced by a recording stand-in)"]


def replay(ctx, rec):
    if rec["kind"] == "crash":
        build(ctx)
        drive(ctx, ctx.path(rec["driver"]), rec["mode"], **rec["flags"])
        return []
    if rec["kind"] == "schedule":
        return conc.replay(ctx, rec)
    v = rec["trace"]["t"]["v"]
    names = build(ctx, (v,))
    bad = []
    for n in names:
        bad += again(ctx, n, rec["trace"], "replay." + n)
    for x in bad:
        print(describe(x))
    return bad
