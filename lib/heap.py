"""C11: ownership of storage."""
import json, os
from common import *

BAD = ("copyone", "appendfirst", "skipempty", "aliasread", "scratch", "retain", "copyview", "forward")


def describe(v):
    t = v["trace"]["t"]
    o = v["o"]
    hist = [e.get("o", {}).get("op") or e["op"] for e in v["trace"]["ev"][:v["i"]]]
    what = {k: x for k, x in o.items() if k not in ("objs", "new", "d")}
    return (f"v{t['v']} {t['kind']} built from {len(v['trace']['ins'])} slices, calls {' '.join(hist)}: {', '.join(v['broken'])} at "
            f"{json.dumps(what)[:300]}; expected d={json.dumps(v['expected']['d'])[:120]} objects={json.dumps(v['expected']['objs'])[:300]}; "
            f"observed d={json.dumps(o['d'])[:120]} objects={json.dumps(o['objs'])[:300]}")


def histories(ctx, ds, depth, shards, part):
    """Replay every history TLC enumerates on the concrete memory model."""
    counts = {"vectors": 0, "steps": 0}

    def shard(i):
        rc, out, gen, dist, tail = tlc(ctx, "HeapMC", {"DESIGN": "good", "DUMP": "1", "DEPTH": depth, "SHARD": i, "SHARDS": shards},
                                       f"heapmc{i}", heap="3g")
        if rc != 0:
            raise CheckError(f"HeapMC: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        fs = []
        for v, d in ds:
            o = ctx.path(f"heapvec{i}.v{v}")
            r = drive(ctx, d, "heapvec", **{"in": out, "out": o, "max": 20, "traces": 60})
            with ctx.lock:
                counts["vectors"] += r.get("vectors", 0)
                counts["steps"] += r.get("steps", 0)
            fs.append(o)
        os.remove(out)
        return fs

    files = [f for r in pool([lambda i=i: shard(i) for i in range(shards)]) for f in r if os.path.getsize(f)]
    ctx.add("traces_validated_against_impl", counts["vectors"])
    ctx.parts["HeapMC"] = {"histories_replayed": counts["vectors"], "calls": counts["steps"]}
    ctx.log(f"HeapMC: {counts['vectors']} histories replayed")
    return files


def randoms(ctx, ds, traces, budget, procs, limit=20):
    tot = {"runs": 0, "events": 0}

    def one(n, variant=""):
        v, d = ds[n % len(ds)]
        f = ctx.path(f"heap{variant}{n}.v{v}")
        args = {"traces": 0, "max": 2, "variant": variant} if variant else {"traces": traces, "max": limit}
        r = drive(ctx, d, "heap", **{"out": f, "seed": ctx.seed * 6007 + n, "budget": budget, **args})
        with ctx.lock:
            for k in tot:
                tot[k] += r.get(k, 0)
        return f

    files = [f for f in pool([lambda n=n: one(n) for n in range(procs)]
                            + [lambda n=n: one(n, "large") for n in range(procs)]) if os.path.getsize(f)]
    ctx.add("executions_scouted", tot["runs"])
    ctx.add("calls_scouted", tot["events"])
    ctx.log(f"random memory histories: {tot['runs']} executions, {tot['events']} calls")
    return files


def explore(ctx, drivers, quick=False):
    """Everything on the given drivers; returns violations."""
    ds = sorted(drivers.items())
    deep = ctx.deep and not quick
    files = histories(ctx, ds, 2 if quick else 4 if deep else 3, CORES if not deep else CORES * 4, None)
    files += randoms(ctx, ds, (600 if deep else 60) if not quick else 20, 120 if deep else 2 if quick else 8, CORES if quick else CORES + 1)
    viols = judge_files(ctx, files, spec="HeapTrace")
    ctx.log(f"memory histories judged, {len(viols)} violations")
    return viols


def again(ctx, rec, drivers):
    tr = rec["trace"]
    src, dst = ctx.path("again.in"), ctx.path("again.out")
    with open(src, "w") as fh:
        fh.write(json.dumps(tr) + "\n")
    drive(ctx, drivers[tr["t"]["v"]], "heapexec", **{"in": src, "out": dst})
    viols = judge_files(ctx, [dst], spec="HeapTrace")
    for v in viols[:3]:
        print(describe(v))
    return viols


def confirm(ctx, viols, drivers):
    out, seen = [], set()
    for v in viols:
        t = v["trace"]["t"]
        o = v["o"].get("o", {})
        key = (t["v"], t["kind"], v["o"]["op"], o.get("op"), o.get("k"), o.get("w"), tuple(v["broken"]))
        if key in seen or len(out) >= 8:
            continue
        seen.add(key)
        rec = {"kind": "heap", "prop": ctx.prop, "what": describe(v), "event": v["i"], "broken": v["broken"], "trace": v["trace"]}
        if len(out) < 3:
            try:
                rec["reproduced"] = bool(again(ctx, rec, drivers))
            except CheckError as e:
                rec["reproduced"] = str(e)[:300]
        out.append(rec)
    return out


def check(ctx):
    build_all(ctx, (1, 2, 3))
    ctx.viols = confirm(ctx, explore(ctx, ctx.drivers), ctx.drivers)
    if not ctx.viols:
        for d in BAD:
            rc, out, gen, dist, tail = tlc(ctx, "HeapMC", {"DESIGN": d, "DUMP": "0", "DEPTH": 3, "SHARD": 0, "SHARDS": 1}, "HeapMC-" + d, workers=CORES)
            if rc != 12:
                raise CheckError(f"HeapMC.tla accepts the design {d}: rc={rc}\n{tail}")
        ctx.log("HeapMC: the good design keeps the promises; " + ", ".join(BAD) + " are refuted")
    ctx.assumptions += ["results of raw-byte reads and storage of resized buffers carry no promise",
                        "the driver selects which random histories TLC sees beyond the recorded ones"]


def replay(ctx, rec):
    v = rec["trace"]["t"]["v"]
    build_all(ctx, (v,))
    return again(ctx, rec, ctx.drivers)
