"""C01-C10, C18: every call, in every history, does what Crunch.tla says."""
import json, os, re, subprocess
from common import *

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18"]

VERSIONS = {"C03": (3,)}
# C06, C07 speak about the checked Buffer only
KINDS = {"C06": "buffer", "C07": "buffer"}


def describe(v):
    t = v["trace"]["t"]
    o = v["o"]
    call = {k: x for k, x in o.items() if k != "pre"}
    return (f"v{t['v']} {t['kind']}: {json.dumps(call)} in state {json.dumps(v['state'])[:300]} breaks "
            f"{v['prop']}: {', '.join(v['broken'])}; expected {json.dumps(v['expected'])[:300]}; "
            f"observed {json.dumps({k: x for k, x in v['observed'].items() if k != 'o'})[:300]}")


def prune(v):
    """The trace up to and including the offending event."""
    t = dict(v["trace"])
    t["ev"] = t["ev"][:v["i"]]
    return t


def reexecute(ctx, drv, trace, src, dst):
    m = re.match(r"big seed=(\d+) kinds=(\S+)", trace["origin"])
    if m:
        drive(ctx, drv, "big", out=dst, seed=m.group(1), kinds=m.group(2), profile=ctx.prop)
    else:
        drive(ctx, drv, "reexec", **{"in": src, "out": dst, "profile": ctx.prop})


def confirm(ctx, viols, limit=4, judge_prop=None, drivers=None):
    """Re-execute offending traces on the library and judge them again."""
    out = []
    seen = set()
    for v in viols:
        key = (v["trace"]["t"]["v"], v["trace"]["t"]["kind"], v["o"]["op"], v["o"].get("k"), v["o"].get("w"), tuple(v["broken"]))
        if key in seen:
            continue
        seen.add(key)
        n = len(out)
        rec = {"kind": "trace", "prop": ctx.prop, "judge": judge_prop or ctx.prop, "what": describe(v),
               "event": v["i"], "broken": v["broken"], "expected": v["expected"], "observed": v["observed"],
               "trace": prune(v), "reproduced": None}
        if n < limit:
            try:
                src, dst = ctx.path(f"confirm{n}.in"), ctx.path(f"confirm{n}.out")
                with open(src, "w") as fh:
                    fh.write(json.dumps(prune(v)) + "\n")
                reexecute(ctx, (drivers or ctx.drivers)[v["trace"]["t"]["v"]], rec["trace"], src, dst)
                rec["reproduced"] = bool(judge_files(ctx, [dst], prop=judge_prop))
            except CheckError as e:
                rec["reproduced"] = f"could not re-execute: {e}"
        out.append(rec)
        if len(out) >= 12:
            break
    return out


def vectors(ctx, shards, found, drivers=None, prop=None, env=None):
    """(b) replay every behaviour TLC enumerates."""
    prop = prop or ctx.prop
    vs = sorted((drivers or ctx.drivers).items())
    counts = {"vectors": 0, "steps": 0}

    def shard(i):
        name = f"vec{prop}.{i}"
        e = {"PROP": prop, "TIER": ctx.tier, "SHARD": i, "SHARDS": shards}
        e.update(env or {})
        rc, out, gen, dist, tail = tlc(ctx, "CrunchVec", e, name, heap="3g")
        if rc != 0:
            raise CheckError(f"CrunchVec shard {i}: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        files = []
        for v, d in vs:
            o = ctx.path(f"{name}.v{v}")
            r = drive(ctx, d, "vectors", **{"in": out, "out": o, "profile": "none", "max": 40})
            with ctx.lock:
                counts["vectors"] += r.get("vectors", 0)
                counts["steps"] += r.get("steps", 0)
            files.append(o)
        with open(out, errors="replace") as fh:
            for l in fh:
                if l.startswith('"VEC '):
                    ctx.sample({"behaviour": json.loads(json.loads(l)[4:])}, 2)
                    break
        os.remove(out)
        return [f for f in files if os.path.getsize(f)]

    def done(res):
        fs = [f for r in res for f in r]
        viols = judge_files(ctx, fs[:16], prop=prop)
        found.extend(viols)
        ctx.add("traces_validated_against_impl", counts["vectors"])
        ctx.parts["CrunchVec" if prop == ctx.prop else "CrunchVec-" + prop] = {"behaviours_replayed": counts["vectors"], "calls_compared": counts["steps"],
                                  "differing_shown_to_TLC": len(fs)}
        ctx.log(f"CrunchVec {prop}: {counts['vectors']} behaviours, {counts['steps']} calls replayed, {len(viols)} violations")
    return [lambda i=i: shard(i) for i in range(shards)], done


STORAGE_BAD = ("dirty", "stale", "halfstale", "wholecap", "keeppos", "slide", "copyn", "fillroom", "adopt", "movepos")


def storage(ctx, found, drivers=None, mode="vectors", depth=None, judge=None, version=None, spec="Trace", **flags):
    """(g) a shortest history into every shape of the storage (Storage.tla),
    followed by every call, replayed. Returns the files to judge if spec is None."""
    ds = sorted((drivers or ctx.drivers).items())
    depth = depth or (8 if ctx.deep else 5)
    counts = {"vectors": 0, "steps": 0}
    shards = 6

    def shard(i):
        env = {"DESIGN": "good", "DUMP": "1", "DEPTH": depth, "SHARD": i, "SHARDS": shards}
        if version:
            env["VERSION"] = version
        rc, out, gen, dist, tail = tlc(ctx, "Storage", env, f"storage{i}", heap="3g")
        if rc != 0:
            raise CheckError(f"Storage.tla: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        fs = []
        for v, d in ds:
            o = ctx.path(f"storage{i}.v{v}.{len(found)}")
            r = drive(ctx, d, mode, **{"in": out, "out": o, "profile": ctx.prop, "max": 30, **flags})
            with ctx.lock:
                for k in counts:
                    counts[k] += r[k]
            fs.append(o)
        os.remove(out)
        return fs

    todo = [i for i in range(shards) if not version or i in {(version * 2) % shards, (version * 2 + 1) % shards}]
    files = [f for r in pool([lambda i=i: shard(i) for i in todo]) for f in r if os.path.getsize(f)]
    ctx.add("traces_validated_against_impl", counts["vectors"])
    ctx.parts["Storage"] = {"histories_replayed": counts["vectors"], "calls_compared": counts["steps"]}
    ctx.log(f"Storage: {counts['vectors']} histories, {counts['steps']} calls replayed")
    if spec is None:
        return files
    viols = judge_files(ctx, files, prop=judge)
    found.extend(viols)
    return files


def storage_designs(ctx):
    """The flawed designs of storage are refuted."""
    def one(d):
        rc, out, gen, dist, tail = tlc(ctx, "Storage", {"DESIGN": d, "DUMP": "0", "DEPTH": 4, "SHARD": 0, "SHARDS": 1}, "Storage-" + d)
        if rc != 12:
            raise CheckError(f"Storage.tla accepts the design {d}: rc={rc}\n{tail}")
    pool([lambda d=d: one(d) for d in STORAGE_BAD])
    ctx.log("Storage: the sound design refines the contract; " + ", ".join(STORAGE_BAD) + " are refuted")


HAS_STORAGE = {"C09", "C10", "C18"}


def random_traces(ctx, found, per_version, shards, length=18, drivers=None, profile=None, judge=None):
    """(c) record random executions, judge every event."""
    ds = sorted((drivers or ctx.drivers).items())
    files = []

    def rec(n, v, d):
        f = ctx.path(f"rand.{profile or ''}{v}.{n}")
        drive(ctx, d, "trace", **{"out": f, "seed": ctx.seed * 1000 + n, "profile": profile or ctx.prop, "traces": per_version // shards,
                                  "len": length, "kinds": KINDS.get(ctx.prop, "buffer,mini")})
        return f

    jobs = [lambda n=n, v=v, d=d: rec(n, v, d) for v, d in ds for n in range(shards)]
    files = pool(jobs)
    viols = judge_files(ctx, files, prop=judge)
    found.extend(viols)
    ctx.log(f"random traces: {len(ds) * per_version} judged, {len(viols)} violations")


def scouts(ctx, found, budget, procs, drivers=None, profile=None, judge=None, variant=""):
    """(d) run many more executions, show the surprising ones to TLC.
    variants: "large", on buffers of up to a quarter of a million bytes; "vast", up to four million."""
    ds = sorted((drivers or ctx.drivers).items())
    tot = {"runs": 0, "events": 0}

    def one(n):
        v, d = ds[n % len(ds)]
        f = ctx.path(f"scout{variant}.{profile or ''}{v}.{n}")
        r = drive(ctx, d, "scout", **{"out": f, "seed": ctx.seed * 7919 + n, "profile": profile or ctx.prop, "budget": budget,
                                      "kinds": KINDS.get(ctx.prop, "buffer,mini"), "max": {"": 30, "large": 4, "vast": 1}[variant], "variant": variant})
        with ctx.lock:
            for k in tot:
                tot[k] += r.get(k, 0)
        return f

    files = [f for f in pool([lambda n=n: one(n) for n in range(procs)]) if os.path.getsize(f)]
    viols = judge_files(ctx, files, prop=judge)
    found.extend(viols)
    ctx.add("executions_scouted", tot["runs"])
    ctx.add("calls_scouted", tot["events"])
    ctx.log(f"scouts{' ' + variant if variant else ''}: {tot['runs']} executions, {tot['events']} calls, {len(files)} files shown to TLC, {len(viols)} violations")


def sweeps(ctx, found, seeds=1, drivers=None, profile=None, judge=None):
    """(f) single calls, every combination of small sizes, positions, counts and values."""
    tot = {"calls": 0}
    kinds = KINDS.get(ctx.prop, "buffer,mini").split(",")

    def one(n, v, d, k):
        f = ctx.path(f"sweep.{profile or ''}{v}.{k}.{n}")
        r = drive(ctx, d, "sweep", **{"out": f, "seed": ctx.seed * 53 + n, "profile": profile or ctx.prop, "kinds": k, "max": 30})
        with ctx.lock:
            tot["calls"] += r["calls"]
        return f

    files = pool([lambda n=n, v=v, d=d, k=k: one(n, v, d, k) for n in range(seeds) for v, d in sorted((drivers or ctx.drivers).items())
                  for k in kinds])
    viols = judge_files(ctx, [f for f in files if os.path.getsize(f)], prop=judge)
    found.extend(viols)
    ctx.add("calls_swept", tot["calls"])
    ctx.log(f"sweeps: {tot['calls']} single calls, {len(viols)} violations")


def big(ctx, found, seeds=1, drivers=None, judge=None):
    """(e) buffers of more than 2^32 bytes, seen through windows."""
    def one(n, v, d):
        f = ctx.path(f"big.{v}.{n}")
        drive(ctx, d, "big", **{"out": f, "seed": ctx.seed * 31 + n, "profile": ctx.prop,
                                "kinds": KINDS.get(ctx.prop, "buffer,mini")})
        return f
    files = pool([lambda n=n, v=v, d=d: one(n, v, d) for v, d in sorted((drivers or ctx.drivers).items()) for n in range(seeds)])
    viols = judge_files(ctx, files, prop=judge)
    found.extend(viols)
    ctx.log(f"large buffers: {len(viols)} violations")


def narrow(ctx):
    """(h) the library compiled for a machine with 32-bit words. Returns
    violations to report."""
    ds = {v: build_driver(ctx, v, name=f"drv{v}.386", arch="386") for v in VERSIONS.get(ctx.prop, (1, 2, 3))}
    for v in ds:
        del ctx.drivers[f"drv{v}.386"]
    try:
        subprocess.run([next(iter(ds.values())), "-mode", "none"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except OSError as e:
        ctx.parts["32-bit"] = {"skipped": f"such programs do not run here: {e}"}
        return []
    found = []
    scouts(ctx, found, 40, CORES, drivers=ds, variant="")
    scouts(ctx, found, 30, CORES, drivers=ds, variant="large")
    sweeps(ctx, found, 2, drivers=ds)
    ctx.parts["32-bit"] = {"violations": len(found)}
    res = confirm(ctx, found, drivers=ds)
    for r in res:
        r["arch"] = "386"
        r["what"] += " (compiled for 32 bits)"
    return res


HAS_BIG = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"}


def bounds(ctx):
    """Bounds checks in wrapping arithmetic, and the saturation of arguments
    in traces, for all 64-bit arguments (Bounds.tla, Apalache)."""
    want = {"Good": True, "SumExact": False, "ProductExact": False}
    got = dict(zip(want, pool([lambda i=i: apalache(ctx, "Bounds", i, "bounds-" + i) for i in want])))
    if got != want:
        raise CheckError(f"Bounds.tla: {got}")
    ctx.parts["Bounds"] = {"holds": ["Good"], "refuted": ["SumExact", "ProductExact"], "by": "Apalache, all 64-bit arguments"}
    ctx.log("Bounds: the library's forms of bounds checks are exact for all 64-bit arguments, two others are refuted")


def check(ctx):
    build_all(ctx, VERSIONS.get(ctx.prop, (1, 2, 3)))
    found = []
    shards = CORES
    jobs, done = vectors(ctx, shards, found)
    done(pool(jobs))
    if ctx.prop in HAS_STORAGE:
        storage(ctx, found)
    random_traces(ctx, found, 6000 if ctx.deep else 900, 12 if ctx.deep else 3)
    scouts(ctx, found, 150 if ctx.deep else 6, CORES)
    scouts(ctx, found, 60 if ctx.deep else 4, CORES + 1, variant="large")
    scouts(ctx, found, 60 if ctx.deep else 3, CORES + 1, variant="vast")
    sweeps(ctx, found, 12 if ctx.deep else 1)
    if ctx.prop in HAS_BIG:
        big(ctx, found, 8 if ctx.deep else 1)
    ctx.viols = confirm(ctx, found)
    if ctx.deep:
        ctx.viols += narrow(ctx)
    if not ctx.viols:          # says nothing about the code: skip when there is an answer
        spec_laws(ctx)
        if ctx.prop in HAS_STORAGE:
            storage_designs(ctx)
            tlaps(ctx, "StorageProof")
        if ctx.prop == "C06":
            bounds(ctx)
    ctx.assumptions += [
        "Crunch.tla states the contract correctly (its laws are model-checked by CrunchMC in small buffers)",
        "the driver's rendering of calls and observations (harness/core) is faithful",
        "scouted executions are pre-selected by a Go transliteration of the contract; TLC judges only the selected ones, "
        "and all recorded traces",
    ]


def replay(ctx, rec):
    if rec["kind"] == "crash":
        build_all(ctx, VERSIONS.get(ctx.prop, (1, 2, 3)))
        drive(ctx, ctx.path(rec["driver"]), rec["mode"], **rec["flags"])
        return []
    v = rec["trace"]["t"]["v"]
    if rec.get("arch"):
        ctx.drivers[v] = build_driver(ctx, v, name=f"drv{v}.386", arch=rec["arch"])
    else:
        build_all(ctx, (v,))
    src, dst = ctx.path("replay.in"), ctx.path("replay.out")
    with open(src, "w") as fh:
        fh.write(json.dumps(rec["trace"]) + "\n")
    reexecute(ctx, ctx.drivers[v], rec["trace"], src, dst)
    viols = judge_files(ctx, [dst], prop=rec.get("judge"))
    for x in viols:
        print(describe(x))
    return viols
