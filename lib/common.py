"""What every check shares: building drivers, running TLC, judging, reporting."""
import contextlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")      # only for developing the checks
SPEC = os.path.join(VERIF, "spec")
OUT = os.path.join(VERIF, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(2, min(8, os.cpu_count() or 2))


BIG = threading.Lock()      # one very large TLC at a time


class CheckError(Exception):
    """The check itself could not do its work (no verdict)."""


class LibraryCrash(Exception):
    """A call of the library brought the whole process down."""

    def __init__(self, drv, mode, flags, text):
        super().__init__(text[:500])
        self.rec = {"kind": "crash", "driver": os.path.basename(drv), "mode": mode,
                    "flags": {k: str(x) for k, x in flags.items()}, "stderr": text[:6000],
                    "what": "the process died inside a call of the library: " + text.strip().splitlines()[0]}


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.t0 = time.time()
        os.makedirs(OUT, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-", dir=OUT)
        self.lock = threading.Lock()
        self.drivers = {}
        self.viols = []            # dicts: what, trace (text) etc.
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.parts = {}
        self.assumptions = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def add(self, key, n):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=6):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def run(cmd, env=None, cwd=None, timeout=800, check=True, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, text=True,
                           stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                           errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError(f"timed out: {' '.join(map(str, cmd))[:300]}")
    if check and p.returncode != 0:
        raise CheckError(f"{' '.join(map(str, cmd))[:300]}\nrc={p.returncode}\n{(p.stdout or '')[-3000:]}\n{p.stderr[-3000:]}")
    return p


def pool(jobs, workers=CORES):
    """Run thunks, at most workers at a time; the first failure is raised."""
    with ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]


# ------------------------------------------------------------------ drivers

def goenv():
    return {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local"}


def build_driver(ctx, v, name=None, replace=None, flags=(), extra=(), moddir=None, arch=None):
    """Build the driver for version v, compiled inside /repo's module vN by
    an overlay. replace: further overlay entries (path in repo -> file)."""
    name = name or f"drv{v}"
    moddir = moddir or os.path.join(REPO, f"v{v}")
    src = os.path.join(VERIF, "harness", "core")
    rep = {}
    for f in sorted(os.listdir(src)):
        if f.endswith(".go"):
            rep[os.path.join(moddir, "zz_verifdrv", f)] = os.path.join(src, f)
    rep[os.path.join(moddir, "zz_verifdrv", "bind.go")] = os.path.join(VERIF, "harness", "bind", f"bind_v{v}.go")
    for f in extra:
        rep[os.path.join(moddir, "zz_verifdrv", os.path.basename(f))] = f
    rep.update(replace or {})
    ov = ctx.path(name + ".overlay.json")
    with open(ov, "w") as fh:
        json.dump({"Replace": rep}, fh)
    out = ctx.path(name)
    env = goenv()
    env["GOFLAGS"] = "-mod=mod"
    if arch:
        env["GOARCH"] = arch
    run(["go", "build", "-C", moddir, "-overlay", ov, "-o", out, *flags, "./zz_verifdrv"], env=env)
    ctx.drivers[v if name == f"drv{v}" else name] = out
    return out


def build_all(ctx, versions=(1, 2, 3)):
    pool([lambda v=v: build_driver(ctx, v) for v in versions])
    ctx.log("drivers built:", " ".join(f"v{v}" for v in versions))


def drive(ctx, drv, mode, timeout=800, **flags):
    """Run a driver; its last line of key=value counts comes back as a dict."""
    cmd = [drv, "-mode", mode]
    for k, x in flags.items():
        cmd += [f"-{k}", str(x)]
    p = run(cmd, timeout=timeout, check=False)
    res = {}
    for m in re.finditer(r"(\w+)=(\d+)", (p.stdout or "").strip().splitlines()[-1] if (p.stdout or "").strip() else ""):
        res[m.group(1)] = int(m.group(2))
    if p.returncode != 0:
        # the library takes the blame for a driver that dies only if it
        # killed it: a fatal error inside a call
        if re.search(r"^(fatal error|panic|unexpected fault|SIG\w+):", p.stderr, re.M) and \
           re.search(r"crunch(/v\d)?\.\(\*(Mini)?Buffer\)", p.stderr):
            raise LibraryCrash(drv, mode, flags, p.stderr)
        raise CheckError(f"driver {mode}: rc={p.returncode}\n{p.stdout[-2000:]}\n{p.stderr[-4000:]}")
    return res


# ---------------------------------------------------------------------- TLC

def tlc(ctx, module, env, name, workers=1, heap="2g", timeout=800, cfg=None, out_file=None):
    """Run TLC; returns (stdout text or path, states generated, distinct)."""
    md = ctx.path(name + ".md")
    os.makedirs(md, exist_ok=True)
    out = out_file or ctx.path(name + ".tlc")
    cmd = ["java", "-Xss16m", f"-Xmx{heap}", f"-Djava.io.tmpdir={md}"]
    cmd += ["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC"]
    cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
            "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(x) for k, x in env.items()})
    with open(out, "w") as fh:
        try:
            p = subprocess.run(cmd, env=e, cwd=md, stdout=fh, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {module} {name}")
    shutil.rmtree(md, ignore_errors=True)
    gen = dist = 0
    tail = subprocess.run(["tail", "-n", "60", out], stdout=subprocess.PIPE, text=True, errors="replace").stdout
    tail = "\n".join(l[:2000] for l in tail.splitlines() if not l.startswith('"'))
    m = re.search(r"^([\d,]+) states generated, ([\d,]+) distinct states found", tail, re.M)
    if m:
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
    return p.returncode, out, gen, dist, tail


def spec_laws(ctx, module="CrunchMC", workers=CORES, env=None, name=None, heap="6g"):
    """Model-check the specification itself: a failure here is a defect of
    the machinery, not of the library."""
    e = {"PROP": ctx.prop, "TIER": ctx.tier}
    e.update(env or {})
    rc, out, gen, dist, tail = tlc(ctx, module, e, name or module, workers=workers, heap=heap)
    if rc != 0:
        raise CheckError(f"TLC on {module}: rc={rc}\n{tail}")
    ctx.add("states", dist)
    ctx.add("transitions", gen)
    with ctx.lock:
        ctx.parts[name or module] = {"states": dist, "transitions": gen}
    ctx.log(f"{module}: {dist} states, {gen} transitions, laws hold")


def apalache(ctx, module, inv, name):
    """Decide an invariant of the initial states for all integers: holds?"""
    d = ctx.path(name + ".apa")
    os.makedirs(d, exist_ok=True)
    try:
        p = subprocess.run(["apalache-mc", "check", "--length=0", "--inv=" + inv, "--out-dir=" + d, os.path.join(SPEC, module + ".tla")],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600,
                           env=dict(os.environ, JVM_ARGS=f"-Xmx2g -Djava.io.tmpdir={d}"))
    except subprocess.TimeoutExpired:
        raise CheckError(f"Apalache timed out on {module} {inv}")
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode not in (0, 12):
        raise CheckError(f"Apalache on {module} {inv}: rc={p.returncode}\n{p.stdout[-2000:]}")
    return p.returncode == 0


def tlaps(ctx, module, workers=CORES):
    """Check a module's proofs: about the specification, for all sizes. In
    the quick tier a prover that runs out of time is noted, not an error:
    what the proofs say of the code is decided by the conformance checks."""
    d = ctx.path(module + ".tlaps")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, module + ".tla"), d)
    text = open(os.path.join(SPEC, module + ".tla")).read()
    goals = len(re.findall(r"^THEOREM", text, re.M))
    try:
        p = subprocess.run(["tlapm", "--threads", str(workers), "--stretch", "8", "--strict", module + ".tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=400)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, "timed out"
    except OSError as x:
        rc, out = -1, str(x)
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r"All (\d+) obligations? proved", out)
    if rc == 0 and m:
        ctx.add("obligations_proved", int(m.group(1)))
        with ctx.lock:
            ctx.parts[module] = {"theorems": goals, "obligations_proved": int(m.group(1))}
        ctx.log(f"{module}: {goals} theorems, {m.group(1)} obligations proved")
        return
    if ctx.tier != "quick":
        raise CheckError(f"tlapm on {module}: rc={rc}\n{out[-2000:]}")
    with ctx.lock:
        ctx.parts[module] = {"theorems": goals, "not_proved_in_this_run": out[-300:]}
    ctx.log(f"{module}: not proved in this run (rc={rc})")


def judge_files(ctx, files, prop=None, spec="Trace", confirm=True, env=None):
    """Show recorded executions to TLC. Returns the violations found."""
    prop = prop or ctx.prop
    found = []

    def one(i, f):
        if os.path.getsize(f) == 0:
            return
        e = {"PROP": prop, "TRACE": f}
        e.update(env or {})
        big = os.path.getsize(f) > 8 << 20
        with (BIG if big else contextlib.nullcontext()):
            rc, out, gen, dist, tail = tlc(ctx, spec, e, f"judge-{os.path.basename(f)}", heap="14g" if big else "2g")
        stats = None
        viols = []
        with open(out, errors="replace") as fh:
            for l in fh:
                if l.startswith('"VIOL '):
                    viols.append(json.loads(json.loads(l)[5:]))
                elif l.startswith('"STATS '):
                    stats = json.loads(json.loads(l)[6:])
        if rc != 0 or stats is None:
            raise CheckError(f"TLC on {f}: rc={rc}\n{tail}")
        if stats["violations"] != len(viols):
            raise CheckError(f"TLC on {f}: {stats} but {len(viols)} reported")
        ctx.add("traces_validated_against_impl", stats["traces"])
        ctx.add("events_judged", stats["judged"])
        ctx.add("events_relevant", stats["relevant"])
        ctx.add("states", dist)
        ctx.add("transitions", gen)
        lines = None
        for v in viols:
            if lines is None:
                lines = open(f).read().splitlines()
            v["trace"] = json.loads(lines[v["k"] - 1])
            with ctx.lock:
                found.append(v)
        with open(f) as fh:
            first = fh.readline()
        if len(first) < 3000:
            ctx.sample({"trace": json.loads(first)}, 4)

    pool([lambda i=i, f=f: one(i, f) for i, f in enumerate(files)])
    return found


def split_lines(ctx, src, n, name):
    """Deal the lines of src to n files."""
    outs = [ctx.path(f"{name}.{i}") for i in range(n)]
    hs = [open(o, "w") for o in outs]
    with open(src) as fh:
        for i, l in enumerate(fh):
            hs[i % n].write(l)
    for h in hs:
        h.close()
    return [o for o in outs if os.path.getsize(o)]


# ------------------------------------------------------------ known findings

def known_findings():
    """Lines 'finding: property=<id> key=<key> <what>' of KNOWN-FINDINGS.txt."""
    res = []
    p = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                res.append(m.groups())
    return res


# ------------------------------------------------------------------ reports

def finish(ctx, level="model_checking"):
    """Write evidence, print the verdict, return the exit code."""
    kf = [k for k in known_findings() if k[0] == ctx.prop]
    known = {k[1] for k in kf}
    fresh = [v for v in ctx.viols if v.get("key") not in known]
    for k in kf:
        print(f"KNOWN-FINDING: property={ctx.prop} {k[2]}")
    cov = dict(ctx.cov)
    if ctx.parts:
        cov["parts"] = ctx.parts
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    rc = 0
    if fresh:
        rc = 1
        rd = os.path.join(OUT, "replay")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(rd, f"{ctx.prop}-{n}.json")
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1)
                fh.write("\n")
            print("  " + v.get("what", ""))
            print(f"VIOLATION property={ctx.prop} replay={path}")
    ctx.log(f"{ctx.prop} {ctx.tier}: {'VIOLATED' if rc else 'held on everything explored'}; "
            + " ".join(f"{k}={x}" for k, x in cov.items() if isinstance(x, int)))
    return rc


def not_ours(report):
    """The race detector's first report; an error of ours if both accesses are the harness's."""
    first = report[report.find("WARNING: DATA RACE"):]
    stacks = [x for x in first.split("\n\n") if re.match(r"(WARNING: DATA RACE\n)?(Previous )?([Aa]tomic )?([Rr]ead|[Ww]rite) at", x.strip())][:2]
    ours = 0
    for s in stacks:
        frames = re.findall(r"^  (\S+)\(.*\)\n      (\S+)", s, re.M)
        for fn, where in frames:
            if fn.startswith("main.") or "zz_verifdrv" in where:
                ours += 1
                break
            if "superwhiskers/crunch" in fn:
                break
    if len(stacks) == 2 and ours == 2:
        raise CheckError("data race inside the harness:\n" + report[:3000])
