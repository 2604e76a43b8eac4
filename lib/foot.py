"""C20: calls touch only the memory they are granted (Foot.tla)."""
import json, os
from common import *
import contract

DESIGNS = ("overhang", "pairs", "swaplist", "swapstore", "putback", "rollback", "sentinel")


def describe(v):
    s = contract.describe(v)
    f = v["observed"].get("f")
    if f:
        s += f"; memory fault: {f['how'].replace('any', 'an')} access to byte {f['at']} of {f['in']} (a list of {f['len']} bytes; contents and capacity {f['cap']})"
    return s


def execute(ctx, drv, trace, name):
    src, dst = ctx.path(name + ".in"), ctx.path(name + ".out")
    with open(src, "w") as fh:
        fh.write(json.dumps(trace) + "\n")
    drive(ctx, drv, "footexec", **{"in": src, "out": dst})
    return judged(ctx, [dst])


def judged(ctx, files):
    viols = judge_files(ctx, files)
    for v in viols:
        if "fence misplaced" in v["broken"]:
            raise CheckError("a fence where the call may go: " + describe(v))
    return viols


def design(ctx):
    spec_laws(ctx, "FootMC", env={"DESIGN": "bytes"}, name="FootMC")
    spec_laws(ctx, "FootMC", env={"DESIGN": "words"}, name="FootMC-words")

    def one(d):
        rc, out, gen, dist, tail = tlc(ctx, "FootMC", {"PROP": "C20", "DESIGN": d, "TIER": ctx.tier}, "FootMC-" + d)
        if rc != 12:
            raise CheckError(f"FootMC.tla accepts the design {d}: rc={rc}\n{tail}")
    pool([lambda d=d: one(d) for d in DESIGNS])
    ctx.log("FootMC: designs " + ", ".join(DESIGNS) + " are refuted")


def check(ctx):
    build_all(ctx)
    tot = {"calls": 0, "runs": 0}

    def one(v, kind, n):
        f = ctx.path(f"foot.{v}.{kind}.{n}")
        r = drive(ctx, ctx.drivers[v], "foot", **{"out": f, "seed": ctx.seed * 61 + n, "kinds": kind, "profile": "C20", "max": 12,
                                                  "len": (1 if n == 0 else 3) if ctx.deep else 5, "budget": 60 if ctx.deep else 6})
        with ctx.lock:
            for k in tot:
                tot[k] += r[k]
        return f

    jobs = [lambda v=v, k=k, n=n: one(v, k, n) for n in range(4 if ctx.deep else 1) for v in (3, 2, 1) for k in ("buffer", "mini")]
    files = [f for f in pool(jobs) if os.path.getsize(f)]
    ctx.add("calls_behind_fences", tot["calls"])
    ctx.add("histories_behind_fences", tot["runs"])
    found = judged(ctx, files)
    ctx.log(f"behind fences: {tot['calls']} calls, {tot['runs']} histories, {len(files)} files shown to TLC, {len(found)} violations")
    # some executions as they are, so that TLC has judged what a good run looks like
    ok = []
    for v in (1, 2, 3):
        f = ctx.path(f"footok.{v}")
        drive(ctx, ctx.drivers[v], "footall", **{"out": f, "seed": ctx.seed, "profile": "C20", "traces": 600 if ctx.deep else 120})
        ok.append(f)
    found += judged(ctx, ok)
    seen = set()
    for v in found:
        key = (v["trace"]["t"]["v"], v["trace"]["t"]["kind"], v["o"]["op"], v["o"].get("k"), tuple(v["broken"]))
        if key in seen or len(ctx.viols) >= 12:
            continue
        seen.add(key)
        rec = {"kind": "foot", "prop": "C20", "what": describe(v), "trace": contract.prune(v), "observed": v["observed"]}
        if len(ctx.viols) < 4:
            try:
                rec["reproduced"] = bool(execute(ctx, ctx.drivers[v["trace"]["t"]["v"]], rec["trace"], f"confirm{len(ctx.viols)}"))
            except CheckError as e:
                rec["reproduced"] = str(e)[:300]
        ctx.viols.append(rec)
    if not ctx.viols:
        design(ctx)
    ctx.assumptions += ["an access outside what is granted is noticed where it leaves the page or the protection differs: storage and lists "
                        "lie at a page's end or start, in turn", "results that the library allocates itself cannot be fenced"]


def replay(ctx, rec):
    if rec["kind"] == "crash":
        build_all(ctx)
        drive(ctx, ctx.path(rec["driver"]), rec["mode"], **rec["flags"])
        return []
    v = rec["trace"]["t"]["v"]
    build_all(ctx, (v,))
    bad = execute(ctx, ctx.drivers[v], rec["trace"], "replay")
    for x in bad:
        print(describe(x))
    return bad
