"""C15: the v3 package regenerated from the templates is equivalent to the shipped one.

The real generator is run over copies of /repo/v3 (with and without the
shipped outputs); the package it leaves behind is compiled in place of the
shipped one through a build overlay, its exported declarations are compared
with the shipped ones by TLC (Api.tla), and every operation is put through
the contract machinery (Crunch.tla) like the shipped package."""
import glob, json, os, shutil
from common import *
import contract, gen, heap

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18"]
SPLIT = {"C06": 4, "C05": 3, "C08": 3, "C01": 2, "C02": 2}


class Unusable(Exception):
    """What the generator leaves behind is not a package that compiles."""

    def __init__(self, kind, what, text):
        super().__init__(what)
        self.rec = {"kind": kind, "prop": "C15", "what": what + ": " + text[:800]}


def v3dir():
    return os.path.join(REPO, "v3")


def sources(d):
    return [f for f in sorted(os.listdir(d)) if f.endswith(".go") and not f.startswith(("_", ".")) and not f.endswith("_test.go")]


def regenerate(ctx, g, name, shipped):
    """A copy of v3 with the generator's outputs."""
    root = ctx.path(name)
    d = os.path.join(root, "v3")
    os.makedirs(d)
    for f in os.listdir(v3dir()):
        p = os.path.join(v3dir(), f)
        if os.path.isfile(p) and (shipped or not f.endswith(".generated.go")):
            shutil.copy(p, os.path.join(d, f))
    for p in [root, d] + [os.path.join(d, f) for f in os.listdir(d)]:
        os.chmod(p, 0o755 if os.path.isdir(p) else 0o644)
        gen.chown(p)
    if not gen.rungen(g, d, 4):
        raise Unusable("generate", "the generator fails on the v3 templates", name)
    return d


def contents(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sources(d)}


def overlay(d):
    """Compile the package in d in place of the shipped one."""
    rep = {os.path.join(v3dir(), f): "" for f in sources(v3dir())}
    rep.update({os.path.join(v3dir(), f): os.path.join(d, f) for f in sources(d)})
    return rep


def api(ctx, d):
    p = run([ctx.path("apiset")] + [os.path.join(d, f) for f in sources(d)], check=False, env=goenv())
    if p.returncode != 0:
        return None, p.stderr
    return json.loads(p.stdout), ""


def builds(ctx):
    """Drivers on the shipped package and on each distinct regenerated one."""
    g = gen.build(ctx)
    run(["go", "build", "-o", ctx.path("apiset"), os.path.join(VERIF, "harness", "apiset", "main.go")], env=goenv())
    build_driver(ctx, 3)                       # the shipped package must build: no verdict otherwise
    want, err = api(ctx, v3dir())
    if want is None:
        raise CheckError("the shipped package: " + err)
    a = regenerate(ctx, g, "regen-clean", False)
    b = regenerate(ctx, g, "regen-over", True)
    dirs = [("regenerated", a)]
    if contents(a) != contents(b):
        dirs.append(("regenerated over the shipped outputs", b))
    same = all(contents(a).get(f) == c for f, c in contents(v3dir()).items()) and contents(a).keys() == contents(v3dir()).keys()
    ctx.parts["regenerated"] = {"packages": len(dirs), "textually_equal_to_shipped": same}
    drvs, apis = {}, []
    for n, (what, d) in enumerate(dirs):
        have, err = api(ctx, d)
        if have is None:
            raise Unusable("build", f"the {what} package is not Go", err)
        try:
            drvs[what] = build_driver(ctx, 3, name=f"regen{n}", replace=overlay(d))
        except CheckError as e:
            raise Unusable("build", f"the {what} package does not compile", str(e))
        apis.append({"name": what, "shipped": want, "regen": have})
    ctx.log("generator run over the v3 templates:", ", ".join(drvs), "- text equals shipped" if same else "- text differs from shipped")
    return drvs, apis, same


def compare(ctx, apis):
    f = ctx.path("api.json")
    with open(f, "w") as fh:
        for a in apis:
            fh.write(json.dumps(a) + "\n")
    rc, out, g, dist, tail = tlc(ctx, "Api", {"TRACE": f}, "Api")
    ctx.add("states", dist)
    diffs = [json.loads(json.loads(l)[5:]) for l in open(out) if l.startswith('"DIFF ')]
    if (rc != 0) != bool(diffs):
        raise CheckError(f"Api: rc={rc}\n{tail}")
    ctx.parts["Api"] = {"declarations": len(apis[0]["shipped"])}
    return [{"kind": "api", "prop": "C15", "what": f"the {d['name']} package does not offer what the shipped one offers: "
             f"lost {d['lost']}, new {d['new']}"[:900]} for d in diffs]


def crashed(ctx, label, e, viols):
    rec = dict(e.rec)
    rec["package"] = label
    rec["what"] = f"{label} package: " + rec["what"]
    with ctx.lock:
        if not any(v.get("kind") == "crash" and v["package"] == label for v in viols):
            viols.append(rec)


def enumerated(ctx, packages, found):
    """Every behaviour TLC enumerates, replayed into every package."""
    tot = {"vectors": 0, "steps": 0}
    files = {label: {} for label in packages}

    def one(p, i):
        n = SPLIT.get(p, 1)
        rc, out, g, dist, tail = tlc(ctx, "CrunchVec", {"PROP": p, "TIER": ctx.tier, "SHARD": i, "SHARDS": n, "VERSION": 3},
                                     f"vec{p}.{i}", heap="3g")
        if rc != 0:
            raise CheckError(f"CrunchVec {p} {i}: rc={rc}\n{tail}")
        ctx.add("states", dist)
        ctx.add("transitions", g)
        for label, drv in packages.items():
            o = ctx.path(f"vec{p}.{i}.{label}")
            try:
                r = drive(ctx, drv, "vectors", **{"in": out, "out": o, "profile": "none", "max": 20})
            except LibraryCrash as e:
                crashed(ctx, label, e, ctx.viols)
                continue
            with ctx.lock:
                for k in tot:
                    tot[k] += r.get(k, 0)
                if os.path.getsize(o):
                    files[label].setdefault(p, []).append(o)
        os.remove(out)

    pool([lambda p=p, i=i: one(p, i) for p in PROPS for i in range(SPLIT.get(p, 1))])
    ctx.add("traces_validated_against_impl", tot["vectors"])
    ctx.parts["CrunchVec"] = {"behaviours_replayed": tot["vectors"], "calls_compared": tot["steps"]}
    for label, by in files.items():
        for p, fs in sorted(by.items()):
            if len(found[label]) < 60:
                found[label] += judge_files(ctx, fs[:4], prop=p)
    ctx.log(f"CrunchVec: {tot['vectors']} behaviours, {tot['steps']} calls replayed in {', '.join(packages)}; "
            f"{sum(map(len, found.values()))} violations")


def explore(ctx, label, drv, part, scale):
    """The rest of the contract machinery on one package."""
    d = {3: drv}
    for prof in ("C07", "C08", "all"):
        contract.random_traces(ctx, part, (2000 if ctx.deep else 150) * scale, 4, drivers=d, profile=prof, judge="ALL")
    for prof in ("C06", "C09", "all"):
        contract.scouts(ctx, part, (60 if ctx.deep else 2) * scale, CORES, drivers=d, profile=prof, judge="ALL")
    contract.scouts(ctx, part, (60 if ctx.deep else 2) * scale, CORES, drivers=d, profile="all", judge="ALL", variant="large")
    contract.storage(ctx, part, drivers=d, judge="ALL", version=3)
    contract.sweeps(ctx, part, (4 if ctx.deep else 1) * scale, drivers=d, profile="all", judge="ALL")
    contract.big(ctx, part, 4 if ctx.deep else 1, drivers=d, judge="ALL")
    part += heap.explore(ctx, d, quick=True)


def check(ctx):
    try:
        drvs, apis, same = builds(ctx)
    except Unusable as e:
        ctx.viols = [e.rec]
        return
    ctx.viols = compare(ctx, apis)
    packages = dict(drvs)
    if not same:        # a different text: the shipped one is held to the same contract
        packages["shipped"] = ctx.drivers[3]
    found = {label: [] for label in packages}
    enumerated(ctx, packages, found)
    for label, drv in packages.items():
        # as soon as one package is wrong there is an answer
        if not any(found.values()) and not ctx.viols:
            try:
                explore(ctx, label, drv, found[label], 1 if len(packages) > 1 else 2)
            except LibraryCrash as e:
                crashed(ctx, label, e, ctx.viols)
                continue
    for label, drv in packages.items():
        traces = [v for v in found[label] if v.get("spec") != "Heap"]
        recs = contract.confirm(ctx, traces, drivers={3: drv}, judge_prop="ALL") + heap.confirm(ctx, [v for v in found[label] if v.get("spec") == "Heap"], {3: drv})
        for r in recs:
            r["package"] = label
            r["what"] = f"{label} package: " + r["what"]
        ctx.viols += recs
    ctx.assumptions += ["equivalence is decided through the contract: both packages follow Crunch.tla, which is deterministic on results, "
                        "contents and positions of accepted calls",
                        "the text of the outputs is used only to avoid testing the same package twice"]


def replay(ctx, rec):
    try:
        drvs, apis, same = builds(ctx)
    except Unusable as e:
        print(e.rec["what"])
        return [e.rec]
    if rec["kind"] in ("generate", "build"):
        return []
    if rec["kind"] == "api":
        res = compare(ctx, apis)
        for r in res:
            print(r["what"])
        return res
    drv = drvs.get(rec.get("package"), ctx.drivers[3])
    if rec["kind"] == "crash":
        drive(ctx, drv, rec["mode"], **{k: x for k, x in rec["flags"].items() if k != "out"}, out=ctx.path("crash.out"))
        return []
    if rec["kind"] == "heap":
        return heap.again(ctx, rec, {3: drv})
    src, dst = ctx.path("replay.in"), ctx.path("replay.out")
    with open(src, "w") as fh:
        fh.write(json.dumps(rec["trace"]) + "\n")
    contract.reexecute(ctx, drv, rec["trace"], src, dst)
    viols = judge_files(ctx, [dst], prop="ALL")
    for x in viols:
        print(contract.describe(x))
    return viols
