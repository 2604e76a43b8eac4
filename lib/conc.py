"""C13: concurrent use of the v1/v2 Buffer."""
import json, os, re, shutil
from common import *
import contract


OPS = os.path.join(VERIF, "harness", "conc", "ops.go")
SRC = [os.path.join(VERIF, "harness", "conc", f) for f in ("ops.go", "hist.go", "conc.go", "locktrace.go", "sections.go")]
RAW = [os.path.join(VERIF, "harness", "conc", f) for f in ("ops.go", "hist.go", "stress.go")]


class Uninstrumentable(Exception):
    """The package blocks in ways the scheduler cannot see."""


def instrument(ctx, v):
    """An instrumented copy of the package, as overlay entries."""
    out = ctx.path(f"instr{v}")
    os.makedirs(out, exist_ok=True)
    moddir = os.path.join(REPO, f"v{v}")
    imp = re.search(r"^module (\S+)", open(os.path.join(moddir, "go.mod")).read(), re.M).group(1) + "/zz_vsync"
    p = run([ctx.path("instr"), moddir, out, imp], check=False)
    if p.returncode == 3:
        raise Uninstrumentable(p.stderr.strip())
    if p.returncode != 0:
        raise CheckError("instr: " + p.stderr[-2000:])
    rep = {os.path.join(moddir, f): os.path.join(out, f) for f in p.stdout.split()}
    rep[os.path.join(moddir, "zz_vsync", "vsync.go")] = os.path.join(VERIF, "harness", "vsync", "vsync.go")
    return rep, imp


def build_instr(ctx):
    run(["go", "build", "-o", ctx.path("instr"), os.path.join(VERIF, "harness", "instr", "main.go")], env=goenv())


def build_with_vsync(ctx, v, name, sources):
    """A driver over the instrumented package, plus further sources."""
    rep, imp = instrument(ctx, v)
    extra = []
    for s in sources:
        dst = ctx.path(f"{name}-{os.path.basename(s)}")
        with open(dst, "w") as fh:
            fh.write(open(s).read().replace("VSYNC", imp))
        extra.append(dst)
    try:
        return build_driver(ctx, v, name=name, replace=rep, extra=extra)
    except CheckError as e:
        if not os.path.exists(ctx.path(f"ok{v}")):  # the library does not compile either
            run(["go", "build", "-C", os.path.join(REPO, f"v{v}"), "-o", ctx.path(f"ok{v}"), "."], env=goenv())
        raise Uninstrumentable(f"the instrumented copy does not compile: {str(e)[-600:]}")


def judge_lin(ctx, files):
    found = []

    def one(f):
        rc, out, gen, dist, tail = tlc(ctx, "Lin", {"TRACE": f}, "lin-" + os.path.basename(f))
        viols, stats = [], None
        for l in open(out, errors="replace"):
            if l.startswith('"VIOL '):
                viols.append(json.loads(json.loads(l)[5:]))
            elif l.startswith('"STATS '):
                stats = json.loads(json.loads(l)[6:])
        if rc != 0 or stats is None or stats["violations"] != len(viols):
            raise CheckError(f"TLC on {f}: rc={rc}\n{tail}")
        ctx.add("traces_validated_against_impl", stats["traces"])
        ctx.add("calls_in_histories", stats["judged"])
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        if viols:
            ls = open(f).read().splitlines()
            for x in viols:
                x["history"] = json.loads(ls[x["k"] - 1])
                with ctx.lock:
                    found.append(x)
        with open(f) as fh:
            ctx.sample({"history": json.loads(fh.readline())}, 3)

    pool([lambda f=f: one(f) for f in files if os.path.getsize(f)])
    return found


def describe(x):
    h = x["history"]
    calls = "; ".join(f"goroutine {a['th']} [{a['inv']},{a['ret']}] "
                      + " ".join(f"{json.dumps(c['o'])} -> {json.dumps(c['r'])}" for c in a["c"]) for a in h["h"])
    what = (h.get("misuse") or "stuck: a call never returns or the lock stays held") if h["stuck"] else "no sequential order explains it"
    return f"v{h['t']['v']} {h['t']['kind']}, {what}: start {json.dumps(h['s0'])}; {calls[:900]}; end {json.dumps(h['f'])}"


def again(ctx, h, name):
    src, dst = ctx.path(name + ".in"), ctx.path(name + ".out")
    with open(src, "w") as fh:
        fh.write(json.dumps(h) + "\n")
    if h.get("first") == -1:
        drive(ctx, ctx.drivers[f"stress{h['t']['v']}"], "stressexec", **{"in": src, "out": dst, "budget": 8})
    else:
        drive(ctx, ctx.drivers[f"conc{h['t']['v']}"], "concexec", **{"in": src, "out": dst})
    return judge_lin(ctx, [dst])


def split(ctx, f, size):
    out = []
    with open(f) as fh:
        ls = fh.readlines()
    part, weight = [], 0
    for n, l in enumerate(ls):
        part.append(l)
        weight += 1 + len(l) // 4000
        if weight >= size or n + 1 == len(ls):
            o = f"{f}.p{n}"
            with open(o, "w") as fh:
                fh.writelines(part)
            out.append(o)
            part, weight = [], 0
    return out


def stress(ctx):
    """Programs run in parallel on the library as it is."""
    pool([lambda v=v: build_driver(ctx, v, name=f"stress{v}", extra=RAW) for v in (1, 2)])
    tot = {}

    def one(v, i):
        o = ctx.path(f"stress{v}.{i}")
        r = drive(ctx, ctx.drivers[f"stress{v}"], "stress", out=o, seed=ctx.seed * 211 + i, budget=120 if ctx.deep else 8,
                  max=20000 if ctx.deep else 1200)
        with ctx.lock:
            for k, x in r.items():
                tot[k] = tot.get(k, 0) + x
        return split(ctx, o, 2500)

    # a few at a time: the goroutines of each need processors of their own
    files = []
    for i in range(2):
        files += [f for r in pool([lambda v=v: one(v, i) for v in (1, 2)]) for f in r]
    ctx.add("parallel_runs", tot.get("runs", 0))
    found = judge_lin(ctx, files)
    ctx.log(f"parallel runs: {tot.get('programs', 0)} programs, {tot.get('runs', 0)} runs, {tot.get('histories', 0)} histories, "
            f"{len(found)} not linearizable")
    return found


def schedules(ctx):
    n = CORES
    tot = {}

    def one(v, i):
        o = ctx.path(f"conc{v}.{i}")
        r = drive(ctx, ctx.drivers[f"conc{v}"], "conc", **{
            "out": o, "seed": ctx.seed * 101 + i, "variant": f"{i}/{n}", "len": 2,
            "traces": 2500 if ctx.deep else 120})
        if "histories" not in r:
            raise LibraryCrash(ctx.drivers[f"conc{v}"], "conc", {}, "a call of the library did not return under a schedule: " + str(r))
        with ctx.lock:
            for k, x in r.items():
                tot[k] = tot.get(k, 0) + x
        return split(ctx, o, 2500)

    files = [f for r in pool([lambda v=v, i=i: one(v, i) for v in (1, 2) for i in range(n)]) for f in r]
    ctx.add("schedules_run", tot["runs"])
    ctx.add("programs", tot["programs"])
    ctx.log(f"schedules: {tot['programs']} programs, {tot['runs']} schedules, {tot['histories']} distinct histories")
    found = judge_lin(ctx, files)
    ctx.log(f"Lin: {len(found)} histories not linearizable")
    return found


def races(ctx):
    """The race detector on concurrent pairs of calls."""
    res = []
    pool([lambda v=v: build_driver(ctx, v, name=f"race{v}", flags=("-race",),
                                   extra=[OPS, os.path.join(VERIF, "harness", "conc", "race.go")]) for v in (1, 2)])
    ctx.log("race-detecting drivers built")

    def one(v, i):
        p = run([ctx.drivers[f"race{v}"], "-mode", "race", "-seed", str(ctx.seed * 13 + i), "-variant", f"{i}/4",
                 "-len", "40" if ctx.deep else "6"], env={"GORACE": "halt_on_error=1 exitcode=66 history_size=7"}, check=False)
        if p.returncode == 66 or "DATA RACE" in p.stderr:
            not_ours(p.stderr)
            pair = [l for l in p.stdout.splitlines() if l.startswith("PAIR ")]
            res.append({"kind": "race", "v": v, "seed": ctx.seed * 13 + i, "variant": f"{i}/4",
                        "pair": pair[-1] if pair else "", "report": p.stderr[:6000],
                        "what": f"v{v} Buffer: data race between two calls, {pair[-1] if pair else ''}"})
            return
        if p.returncode != 0:
            if "fatal error" in p.stderr and "(*Buffer)" in p.stderr:
                res.append({"kind": "race", "v": v, "seed": ctx.seed * 13 + i, "variant": f"{i}/4", "report": p.stderr[:6000],
                            "what": f"v{v} Buffer: the process died under concurrent calls: {p.stderr.splitlines()[0]}"})
                return
            raise CheckError(f"race driver: rc={p.returncode} {p.stderr[-2000:]}")
        m = re.search(r"pairs=(\d+) calls=(\d+) hung=(\d+)", p.stdout)
        if not m:
            raise CheckError("race driver: " + p.stdout[-500:])
        ctx.add("racing_pairs", int(m.group(1)))
        ctx.add("racing_calls", int(m.group(2)))
        if int(m.group(3)):
            res.append({"kind": "race", "v": v, "seed": ctx.seed * 13 + i, "variant": f"{i}/4", "report": p.stdout[-2000:],
                        "what": f"v{v} Buffer: concurrent calls never return: {p.stdout.splitlines()[-2]}"})

    pool([lambda v=v, i=i: one(v, i) for v in (1, 2) for i in range(4)])
    ctx.log(f"race detector: {ctx.cov.get('racing_pairs', 0)} pairs of calls, {len(res)} reports")
    return res


def design(ctx):
    """The locking discipline the library uses is sufficient; weaker ones are
    not, so the invariant is known to bite."""
    spec_laws(ctx, "Conc", env={"LOCKING": "whole"})
    for weak in ("split", "none"):
        rc, out, gen, dist, tail = tlc(ctx, "Conc", {"LOCKING": weak}, "Conc-" + weak, workers=CORES)
        if rc != 12 or "Invariant Linearizable is violated" not in open(out, errors="replace").read():
            raise CheckError(f"Conc.tla accepts the locking discipline {weak}: rc={rc}\n{tail}")
    ctx.log("Conc: weaker disciplines are refuted")
    tlaps(ctx, "LockProof")


def check(ctx):
    build_instr(ctx)
    build_all(ctx, (1, 2))
    base = dict(ctx.drivers)
    seen = set()
    try:
        pool([lambda v=v: build_with_vsync(ctx, v, f"conc{v}", SRC) for v in (1, 2)])
        ctx.log("instrumented drivers built")
        histories = schedules(ctx)
    except Uninstrumentable as e:
        ctx.log(f"no schedules explored: {e}")
        ctx.assumptions.append(f"no schedules explored: {e}")
        histories = []
    histories += stress(ctx)
    for x in histories:
        h = x["history"]
        key = (h["t"]["v"], h["stuck"], tuple(sorted((c["o"]["op"], str(c["o"].get("next", ""))) for a in h["h"] for c in a["c"]))[:2])
        if key in seen or len(ctx.viols) >= 6:
            continue
        seen.add(key)
        rec = {"kind": "schedule", "prop": "C13", "what": describe(x), "history": h}
        try:
            rec["reproduced"] = bool(again(ctx, h, f"confirm{len(ctx.viols)}"))
        except (CheckError, LibraryCrash) as e:
            rec["reproduced"] = str(e)[:300]
        ctx.viols.append(rec)
    # no call, returning or panicking, leaves the lock held or blocks
    found = []
    contract.random_traces(ctx, found, 3000 if ctx.deep else 600, 4, drivers=base, profile="C07")
    ctx.viols += contract.confirm(ctx, found, drivers=base)
    ctx.viols += races(ctx)
    if not ctx.viols:
        design(ctx)
    ctx.assumptions += [
        "data races are those the Go race detector reports on concurrent pairs of calls",
        "schedules: goroutines are preempted between statements and at lock operations (instrumented copy of the package), "
        "at most 2 preemptions for pairs of calls (exhaustive up to 60 positions per level), random ones for longer programs",
    ]


def replay(ctx, rec):
    if rec["kind"] == "crash":
        build_instr(ctx)
        build_all(ctx, (1, 2))
        pool([lambda v=v: build_with_vsync(ctx, v, f"conc{v}", SRC) for v in (1, 2)])
        drive(ctx, ctx.path(rec["driver"]), rec["mode"], **rec["flags"])
        return []
    if rec["kind"] == "trace":
        return contract.replay(ctx, rec)
    if rec["kind"] == "schedule":
        v = rec["history"]["t"]["v"]
        if rec["history"].get("first") == -1:
            build_driver(ctx, v, name=f"stress{v}", extra=RAW)
        else:
            build_instr(ctx)
            build_with_vsync(ctx, v, f"conc{v}", SRC)
        bad = again(ctx, rec["history"], "replay")
        for x in bad:
            print(describe(x))
        return bad
    if rec["kind"] == "race":
        return races(ctx)
    return []
