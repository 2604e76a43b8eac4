"""C19: separate buffers are independent."""
import json, os, re
from common import *

BAD = {"resetpool": ("wide", 4), "sharedempty": ("wide", 4), "scratch": ("wide", 4), "leftovers": ("narrow", 6)}


def describe(v):
    t = v["trace"]
    hist = " ".join(f"{e['j']}:{e['o']['op']}" for e in t["ev"][:v["i"]])
    return (f"v{t['t']['v']} buffers {'/'.join(t['kinds'])}, calls {hist[:400]}: {', '.join(v['broken'])}, at call {json.dumps(v['o'])[:200]} "
            f"on buffer {v['j']}; before {json.dumps(v['state'])[:300]}; observed {json.dumps(v['observed'])[:600]}")


def interleavings(ctx, ds, alphabet, depth, shards):
    counts = {"vectors": 0, "steps": 0}

    def shard(i):
        name = f"worldmc-{alphabet}{i}"
        rc, out, gen, dist, tail = tlc(ctx, "WorldMC", {"DESIGN": "good", "DUMP": "1", "DEPTH": depth, "SHARD": i, "SHARDS": shards,
                                                        "ALPHABET": alphabet}, name, heap="3g")
        if rc != 0:
            raise CheckError(f"WorldMC: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        fs = []
        for v, d in ds:
            o = ctx.path(f"{name}.v{v}")
            r = drive(ctx, d, "worldvec", **{"in": out, "out": o, "max": 20, "traces": 30})
            with ctx.lock:
                counts["vectors"] += r.get("vectors", 0)
                counts["steps"] += r.get("steps", 0)
            fs.append(o)
        os.remove(out)
        return fs

    files = [f for r in pool([lambda i=i: shard(i) for i in range(shards)]) for f in r if os.path.getsize(f)]
    ctx.add("traces_validated_against_impl", counts["vectors"])
    ctx.parts[f"WorldMC-{alphabet}-{depth}"] = {"interleavings_replayed": counts["vectors"], "calls": counts["steps"]}
    ctx.log(f"WorldMC {alphabet}, {depth} calls: {counts['vectors']} interleavings replayed")
    return files


def randoms(ctx, ds, traces, budget, procs):
    tot = {"runs": 0, "events": 0}

    def one(n):
        v, d = ds[n % len(ds)]
        f = ctx.path(f"world{n}.v{v}")
        r = drive(ctx, d, "world", **{"out": f, "seed": ctx.seed * 5003 + n, "traces": traces, "budget": budget, "max": 20, "len": 30})
        with ctx.lock:
            for k in tot:
                tot[k] += r.get(k, 0)
        return f

    files = [f for f in pool([lambda n=n: one(n) for n in range(procs)]) if os.path.getsize(f)]
    ctx.add("executions_compared", tot["runs"])
    ctx.add("calls_compared", tot["events"])
    ctx.log(f"random: {tot['runs']} interleavings of 2 to 4 buffers, {tot['events']} calls, each buffer run alone too")
    return files


def goroutines(ctx, budget, procs):
    """A buffer per goroutine, under the race detector."""
    pool([lambda v=v: build_driver(ctx, v, name=f"race{v}", flags=("-race",)) for v in (1, 2, 3)])
    files, res = [], []
    tot = {"runs": 0, "events": 0}

    def one(n):
        v = n % 3 + 1
        f = ctx.path(f"worldrace{n}.v{v}")
        seed = ctx.seed * 4001 + n
        p = run([ctx.drivers[f"race{v}"], "-mode", "worldrace", "-out", f, "-seed", str(seed), "-budget", str(budget), "-len", "40",
                 "-max", "4", "-traces", "16"], env={"GORACE": "halt_on_error=1 exitcode=66 history_size=7"}, check=False)
        rec = {"kind": "worldrace", "prop": "C19", "v": v, "seed": seed}
        if p.returncode == 66 or "DATA RACE" in p.stderr:
            not_ours(p.stderr)
            rec.update(report=p.stderr[:6000], what=f"v{v}: data race between goroutines that each use a buffer of their own: "
                       + " ".join(re.findall(r"crunch\S*\(", p.stderr)[:4]))
            res.append(rec)
            return
        if p.returncode != 0:
            if "fatal error" in p.stderr and re.search(r"crunch(/v\d)?\.", p.stderr):
                rec.update(report=p.stderr[:6000], what=f"v{v}: the process died with a buffer per goroutine: {p.stderr.splitlines()[0]}")
                res.append(rec)
                return
            raise CheckError(f"worldrace: rc={p.returncode} {p.stderr[-2000:]}")
        m = re.search(r"runs=(\d+) events=(\d+) surprising=(\d+) hung=(\d+)", p.stdout)
        if not m:
            raise CheckError("worldrace: " + p.stdout[-500:])
        with ctx.lock:
            tot["runs"] += int(m.group(1))
            tot["events"] += int(m.group(2))
        if int(m.group(4)):
            rec.update(report=p.stdout[-2000:], what=f"v{v}: goroutines that each use a buffer of their own never finish")
            res.append(rec)
            return
        files.append(f)

    pool([lambda n=n: one(n) for n in range(procs)])
    ctx.add("goroutine_histories", tot["runs"])
    ctx.add("goroutine_calls", tot["events"])
    ctx.log(f"goroutines with a buffer each: {tot['runs']} histories, {tot['events']} calls, {len(res)} reports")
    return [f for f in files if os.path.getsize(f)], res


def again(ctx, tr, name="again"):
    src, dst = ctx.path(name + ".in"), ctx.path(name + ".out")
    with open(src, "w") as fh:
        fh.write(json.dumps(tr) + "\n")
    drive(ctx, ctx.drivers[tr["t"]["v"]], "worldexec", **{"in": src, "out": dst})
    return judge_files(ctx, [dst], spec="World")


def check(ctx):
    build_all(ctx, (1, 2, 3))
    ds = sorted(ctx.drivers.items())
    files = interleavings(ctx, ds, "wide", 5 if ctx.deep else 4, CORES * 4 if ctx.deep else CORES)
    files += interleavings(ctx, ds, "narrow", 6 if ctx.deep else 5, CORES)
    files += randoms(ctx, ds, 300 if ctx.deep else 60, 150 if ctx.deep else 8, CORES + 1)
    more, res = goroutines(ctx, 60 if ctx.deep else 5, 6)
    found = judge_files(ctx, files + more, spec="World")
    ctx.log(f"World: {len(found)} violations")
    seen = set()
    for v in found:
        key = (v["trace"]["t"]["v"], v["o"]["op"], v["o"].get("k"), tuple(v["broken"]))
        if key in seen or len(ctx.viols) >= 8:
            continue
        seen.add(key)
        rec = {"kind": "world", "prop": "C19", "what": describe(v), "event": v["i"], "broken": v["broken"],
               "trace": dict(v["trace"], ev=v["trace"]["ev"][:v["i"]])}
        if len(ctx.viols) < 3:
            try:
                rec["reproduced"] = bool(again(ctx, rec["trace"], f"confirm{len(ctx.viols)}"))
            except CheckError as e:
                rec["reproduced"] = str(e)[:300]
        ctx.viols.append(rec)
    ctx.viols += res
    if not ctx.viols:
        for d, (al, depth) in BAD.items():
            rc, out, gen, dist, tail = tlc(ctx, "WorldMC", {"DESIGN": d, "DUMP": "0", "DEPTH": depth, "SHARD": 0, "SHARDS": 1,
                                                            "ALPHABET": al}, "WorldMC-" + d, workers=CORES)
            if rc != 12:
                raise CheckError(f"WorldMC.tla accepts the design {d}: rc={rc}\n{tail}")
        ctx.log("WorldMC: the good design keeps buffers apart; " + ", ".join(BAD) + " are refuted")
    ctx.assumptions += ["the driver compares executions itself to choose which further ones TLC sees",
                        "data races are those the Go race detector reports while goroutines use a buffer each"]


def replay(ctx, rec):
    if rec["kind"] == "worldrace":
        build_all(ctx, (rec["v"],))
        files, res = goroutines(ctx, 10, 6)
        return res + judge_files(ctx, files, spec="World")
    v = rec["trace"]["t"]["v"]
    build_all(ctx, (v,))
    viols = again(ctx, rec["trace"])
    for x in viols[:3]:
        print(describe(x))
    return viols
