"""C16: the generator's output is a function of the templates."""
import json, os, random, shutil, subprocess
from common import *

NOBODY = 65534
PARTS = {"recv": ["Buffer", "MiniBuffer"], "rw": ["Read", "Write"], "bits": ["16", "32", "64"], "en": ["BE", "LE"]}
VALID = [f"//generator:complex {r} {w} {s} {b} {e}" for r in PARTS["recv"] for w in PARTS["rw"]
         for s in "IUF" for b in PARTS["bits"] for e in PARTS["en"] if not (s == "F" and b == "16")]
INVALID = ["//generator:complex " + a for a in (
    "Foo Read U 16 LE", "buffer Read U 16 LE", "MINIBUFFER Write I 32 BE", "Buffers Read U 16 LE", "BufferBuffer Read U 32 LE",
    "Buffer read U 16 LE", "Buffer Reads U 16 LE", "MiniBuffer Erase F 32 BE", "Buffer WriteNext U 64 LE", "Buffer Re U 16 LE",
    "Buffer Read X 16 LE", "Buffer Read u 16 LE", "MiniBuffer Write IU 32 BE", "Buffer Write FF 64 LE", "Buffer Read Ux 32 BE",
    "Buffer Read U 8 LE", "Buffer Read U 24 LE", "Buffer Write I 128 BE", "MiniBuffer Read F 80 LE", "Buffer Read U 0 LE",
    "MiniBuffer Write U 6 BE", "Buffer Read I 1632 BE", "Buffer Write U 12345678901234567890123 LE",
    "Buffer Read U 16 ME", "Buffer Read U 16 be", "Buffer Write I 64 LEBE", "MiniBuffer Write F 64 B", "MiniBuffer Read U 32 L",
    "Foo Bar X 7 ME")]
EITHER = ["//generator:complex", "//generator:complex Buffer Read U 16", "//generator:complex Buffer Read", "//generator:complex Buffer2 Read U 16 LE"]
TEXT = ["", "package v3", "import \"unsafe\"", "var A = 1", "// $1 ${name} $$ $0 \\1", "%d %s %!v(MISSING)", "\tx := `raw`",
        "//generator:simple Buffer Read U 16 LE", "// generator:complex Buffer Read U 16 LE", " //generator:complex Buffer Read U 16 LE",
        "x := 1 //generator:complex Buffer Read U 16 LE", "//generator:complex Buffer Read U 16 LE trailing", "//go:generate echo hi",
        "////generator:complex Buffer Read U 16 LE", "//generator:complexity Buffer Read U 16 LE", "/*", "*/", "\"unterminated",
        "func (b *Buffer) ReadU16LE(off, n int64) {}", "gödel — ünïcode ☃", "bad utf8 \udcff\udcfe", "nul \x00 byte", "tab\t\ttrail  ",
        "carriage return\r", "#!/bin/sh", "// Code generated by somebody. DO NOT EDIT.", "{{ .Template }}", "<html>&amp;"]
# not a directive alone on its line, from the first character to the end
NEAR = [f(VALID[(11 * i) % len(VALID)]) for i, f in enumerate([
    lambda d: d + "\r", lambda d: d + " ", lambda d: d + "\t", lambda d: "\t" + d, lambda d: "  " + d, lambda d: "\ufeff" + d,
    lambda d: d + "\f", lambda d: "\v" + d, lambda d: d + "\u2028", lambda d: d + "\u00a0", lambda d: d.replace(" ", "  ", 1),
    lambda d: d.replace(" ", "\t"), lambda d: d.replace(" ", "  "), lambda d: d.replace("//", "// "), lambda d: "/" + d, lambda d: d + ";",
    lambda d: d + " //", lambda d: d.replace("complex", "COMPLEX"), lambda d: "/*" + d + "*/", lambda d: "`" + d + "`", lambda d: "x" + d,
    lambda d: d + d, lambda d: d + "\x00", lambda d: d[1:], lambda d: d.replace(":", ": "), lambda d: d.replace("complex ", "complex:"),
    lambda d: d + " LE", lambda d: "\r" + d, lambda d: d.replace("//", "#")])]
TEXT += NEAR
LONG = "// " + "x" * 70000 + " end"
NAMES = ["buffer", "minibuf", "lib", "a", "b", "go", "logo", "g", "x_y", "end_", "A-1", "a.b", "foo.go", "dot.generated", "generated", "ogo.", "00", "ümlaut",
         "a_test", "errors", "templategen", "t0.1"]
OTHERS = ["lib.go", "errors.go", "a.go", "_a.txt", "_noext", "a_test.go", ".hidden.go", "README.md", "stale.generated.go", "a.generated.go.bak",
          "b.GO", "_up.GO", "generated.go", "_dir.go/inner.go", "sub/_x.go", "sub/x.generated.go", "../sibling/_x.go", "../note.go", "_a.go~", "_a.gox", "_x.goo"]


def b2(s):
    return s.encode("utf-8", "surrogateescape")


class World:
    """One scratch directory and its history."""

    def __init__(self, ctx, gen, name):
        self.gen = gen
        self.root = ctx.path(name)
        self.dir = os.path.join(self.root, "pkg")
        os.makedirs(self.dir)
        os.chmod(self.root, 0o755)
        chown(self.root)
        chown(self.dir)
        self.ids, self.seg, self.ev = {}, [], []
        self.unread, self.unwrit, self.links = {}, {}, set()

    def segid(self, s):
        if s not in self.ids:
            self.ids[s] = len(self.seg) + 1
            self.seg.append(s)
        return self.ids[s]

    def content(self, data):
        return [self.segid(x) for x in data.split(b"\n")] if data else []

    def block(self, x, way):
        """Make the template _x.go unreadable, or its output unwritable."""
        t, o = f"_{x}.go", f"{x}.generated.go"
        p, q = os.path.join(self.dir, t), os.path.join(self.dir, o)
        modes = "user" in who()
        if way == "mode" and modes:
            os.chown(p, 0, 0)
            os.chmod(p, 0)
            self.unread[x] = way
        elif way in ("mode", "dir", "dangling"):
            os.remove(p)
            far = os.path.join(self.root, "far_" + x)
            if way == "dir" or not modes:
                os.makedirs(far)
                os.chmod(far, 0o755)
            os.symlink(far, p)
            self.links.add(p)
            self.unread[x] = way
        elif os.path.exists(q) and modes:
            os.chown(q, 0, 0)
            os.chmod(q, 0o444)
            self.unwrit[x] = way
        else:
            if os.path.exists(q):
                os.remove(q)
            os.makedirs(os.path.join(q, "inside"))
            self.unwrit[x] = way

    def put(self, path, data):
        p = os.path.normpath(os.path.join(self.dir, path))
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
            chown(d)
        with open(p, "wb") as fh:
            fh.write(data)
        chown(p)

    def drop(self, path):
        p = os.path.normpath(os.path.join(self.dir, path))
        if os.path.exists(p):
            os.remove(p)

    def listing(self):
        res = []
        for base, ds, fs in os.walk(self.root):
            for f in fs + ds:      # a template that is a broken link
                p = os.path.join(base, f)
                if p in self.links:
                    res.append({"x": f[1:-3], "sort": "template", "c": [self.segid(b"-> " + os.fsencode(os.readlink(p)))] if os.path.islink(p) else []})
            fs = [f for f in fs if os.path.join(base, f) not in self.links]
            for f in ds:
                if os.path.join(base, f) in self.links:
                    continue
                res.append({"x": os.path.relpath(os.path.join(base, f), self.root) + "/", "sort": "other", "c": []})
            for f in fs:
                p = os.path.join(base, f)
                if base == self.dir and f.startswith("_") and f.endswith(".go") and not f.startswith("__") and f != "_.go":
                    x, sort = f[1:-3], "template"
                elif base == self.dir and f.endswith(".generated.go") and not f.startswith("_") and f != ".generated.go":
                    x, sort = f[:-len(".generated.go")], "output"
                else:
                    x, sort = os.path.relpath(p, self.root), "other"
                with open(p, "rb") as fh:
                    res.append({"x": x, "sort": sort, "c": self.content(fh.read())})
        return sorted(res, key=lambda f: (f["sort"], f["x"]))

    def edited(self):
        self.ev.append({"op": "edit", "dir": self.listing()})

    def run(self, how=0):
        ok = rungen(self.gen, self.dir, how)
        self.ev.append({"op": "run", "ok": ok, "how": how, "dir": self.listing(),
                        "faults": {"unread": sorted(self.unread), "unwrit": sorted(self.unwrit), "idle": how >= IDLE}})

    def trace(self, exps):
        segs = []
        known = list(self.seg)
        classes = {}
        for s in known:
            if s in exps:
                cls, exp = exps[s]
                classes[s] = (cls, [self.segid(x) for x in exp])
        for s in self.seg:
            cls, exp = classes.get(s, ("text", [self.ids[s]]))
            segs.append({"class": cls, "exp": exp})
        return {"seg": segs, "ev": self.ev, "text": [s.decode("utf-8", "surrogateescape")[:300] for s in self.seg]}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def chown(p):
    try:
        os.chown(p, NOBODY, NOBODY)
    except OSError:
        pass


_who = {}


def who():
    """Run the generator as nobody where that is possible."""
    if not _who:
        try:
            subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[], check=True)
            _who.update(user=NOBODY, group=NOBODY, extra_groups=[])
        except Exception:
            _who["close_fds"] = True
    return _who


IDLE = 10      # ways of running that ask for no known kind of generation, or name no directory


def rungen(gen, d, how=0):
    cmd, cwd = [gen, "-generation", "complex"], d
    if how >= IDLE:
        cmd, cwd = [[gen], [gen, "-generation", "simple"], [gen, "-generation", "Complex"], [gen, "-generation", ""],
                    [gen, "-generation", "complex", "-directory", "no/such/place"]][how % 5], d
    if how == 0:
        cmd, cwd = cmd + ["-directory", d], os.path.dirname(d)
    elif how == 1:
        cmd, cwd = cmd + ["-directory", os.path.basename(d)], os.path.dirname(d)
    elif how == 2:
        cmd = cmd + ["-directory", "."]
    elif how == 3:
        cmd = cmd + ["-directory", d + "/"]
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                           env={"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}, **who())
    except subprocess.TimeoutExpired:
        return False
    return p.returncode == 0


def expected(line):
    """What a valid directive names."""
    _, r, w, s, b, e = line.split(" ")
    ty = {"I": "int", "U": "uint", "F": "float"}[s] + b
    name = w + s + b + e
    if w == "Write":
        sig, nxt = f"func(int64, []{ty})", f"func([]{ty})"
    elif r == "Buffer":
        sig, nxt = f"func(int64, int64) []{ty}", f"func(int64) []{ty}"
    else:
        sig, nxt = f"func(*[]{ty}, int64, int64)", f"func(*[]{ty}, int64)"
    return {"recv": r, "name": name, "sig": sig, "signext": nxt}


def learn(ctx, gen, lines):
    """The generator's expansion of each directive on its own."""
    head = b"package p\n\n"
    exps, evs, srcs = {}, [], []

    def one(n, line):
        w = World(ctx, gen, f"solo{n}")
        w.put("_solo.go", head + b2(line) + b"\n")
        ok = rungen(gen, w.dir, n % 4)
        out = b""
        p = os.path.join(w.dir, "solo.generated.go")
        if ok and os.path.exists(p):
            with open(p, "rb") as fh:
                out = fh.read()
        w.close()
        return out

    outs = pool([lambda n=n, l=l: one(n, l) for n, (l, c) in enumerate(lines)])
    for (line, cls), out in zip(lines, outs):
        framed = out.startswith(head) and out.endswith(b"\n")
        exp = out[len(head):-1] if framed else b""
        exps[b2(line)] = (cls, exp.split(b"\n"))
        e = {"op": "expand", "line": line, "class": cls, "framed": framed,
             "comment": framed and all(l.startswith(b"//") for l in exp.split(b"\n"))}
        if cls == "valid":
            e.update(expected(line))
            srcs.append(out.decode("utf-8", "replace"))
        evs.append(e)
    p = subprocess.run([ctx.path("genshape")], input=json.dumps(srcs), stdout=subprocess.PIPE, text=True, check=True)
    shapes = iter(json.loads(p.stdout))
    for e in evs:
        if e["class"] == "valid":
            s = next(shapes)
            # helpers of its own are the generator's affair
            e.update(parsed=s["parsed"] and e["framed"], decls=[d for d in s["decls"] if d["name"][:1].isupper()], others=s["others"])
    return exps, {"seg": [], "ev": evs, "text": []}


def rnd_content(r, template):
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
    segs = []
    for _ in range(n):
        x = r.random()
        if x < (0.45 if template else 0.2):
            segs.append(r.choice(VALID))
        elif x < (0.6 if template else 0.25):
            segs.append(r.choice(INVALID))
        elif x < 0.63 and template:
            segs.append(r.choice(EITHER))
        elif x < 0.635:
            segs.append(LONG)
        else:
            segs.append(r.choice(TEXT))
    s = "\n".join(segs)
    if r.random() < 0.7:
        s += "\n"
    return b2(s)


def history(ctx, gen, name, seed, exps, steps):
    r = random.Random(seed)
    w = World(ctx, gen, name)
    xs = r.sample(NAMES, r.randint(1, 4))
    for x in xs:
        if r.random() < 0.85:
            w.put(f"_{x}.go", rnd_content(r, True))
        y = r.random()
        if y < 0.25:      # stale: longer than anything
            w.put(f"{x}.generated.go", b"// stale\n" * r.randint(1, 3000))
        elif y < 0.5:
            w.put(f"{x}.generated.go", rnd_content(r, r.random() < 0.3))
    for o in r.sample(OTHERS, r.randint(0, 6)):
        if "_dir.go" in o or not os.path.isdir(os.path.join(w.dir, o)):
            w.put(o, rnd_content(r, True))
    w.edited()
    for n in range(steps):
        if r.random() < 0.08:
            w.run(IDLE + r.randrange(5))
        w.run(r.randrange(5))
        if r.random() < 0.4:
            w.run(r.randrange(5))
        if n + 1 == steps:
            there = [x for x in xs if os.path.exists(os.path.join(w.dir, f"_{x}.go"))]
            if there and r.random() < 0.3:      # faults, at the end of the history
                for x in r.sample(there, r.randint(1, len(there))):
                    w.block(x, r.choice(["mode", "dir", "dangling", "out", "out"]))
                w.edited()
                w.run(r.randrange(5))
            break
        x = r.choice(xs)
        k = r.randrange(6)
        t, g = f"_{x}.go", f"{x}.generated.go"
        p = os.path.join(w.dir, t)
        if k == 0:
            w.drop(t)
        elif k == 1:
            w.drop(g)
        elif k == 2 and os.path.exists(p):      # shrink the template
            with open(p, "rb") as fh:
                ls = fh.read().split(b"\n")
            w.put(t, b"\n".join(ls[:len(ls) // 2]))
        elif k == 3:
            w.put(g, b"z" * r.randint(0, 100000))
        elif k == 4 and os.path.exists(p):      # swap two lines
            with open(p, "rb") as fh:
                ls = fh.read().split(b"\n")
            r.shuffle(ls)
            w.put(t, b"\n".join(ls))
        else:
            w.put(t, rnd_content(r, True))
        w.edited()
    t = w.trace(exps)
    t["origin"] = f"seed {seed}"
    w.close()
    return t


def bulk(ctx, gen, name, seed, exps):
    """Many files, long files, many directives."""
    r = random.Random(seed)
    w = World(ctx, gen, name)
    k = seed % 4

    def few():
        return b2("\n".join(r.choice(VALID if r.random() < 0.1 else TEXT) for _ in range(r.randint(0, 3))) + "\n" * r.randrange(2))

    if k == 0:
        for n in range(r.choice([130, 260, 520, 700, 1100])):
            x = r.random()
            w.put(f"_m{n}.go" if x < 0.8 else f"m{n}.go" if x < 0.9 else f"m{r.randrange(n + 1)}.generated.go", few())
    elif k == 1:
        long = [LONG] * r.choice([16, 20, 40, 80]) + [r.choice(VALID) for _ in range(6)] + ["y" * r.choice([1 << 20, 3 << 20])]
        r.shuffle(long)
        w.put("_long.go", b2("\n".join(long + [r.choice(VALID), "// the end"])))
        w.put("_short.go", few())
        w.put("long.generated.go", few())
    elif k == 2:
        w.put("_many.go", b2("\n".join(r.choice(VALID if r.random() < 0.8 else INVALID + TEXT) for _ in range(r.choice([100, 200, 300])))))
        w.put("_one.go", few())
    else:
        for n in range(40):
            w.put(f"_p{n}.go", b2("\n".join(r.choice(VALID + INVALID[:5] + TEXT[:5]) for _ in range(8))))
    w.edited()
    w.run(seed % 5)
    w.run((seed + 2) % 5)
    t = w.trace(exps)
    t["origin"] = f"bulk {seed}"
    w.close()
    return t


SYM = {"t1": "var A = 1", "t2": "// $1 text", "i1": INVALID[0], "e1": "func old1() {}", "e2": "func old2() {}", "e3": "func old3() {}",
       "c1": "// old comment", "o1": "// an old line of output, longer than many others are"}


def vector(ctx, gen, n, v, exps):
    files, faults = v["files"], v["faults"]
    w = World(ctx, gen, f"vec{n}")
    sym = dict(SYM, v1=VALID[(5 * n) % len(VALID)], v2=VALID[(7 * n + 3) % len(VALID)], i1=INVALID[n % len(INVALID)], t2=NEAR[n % len(NEAR)])
    xs = {"a": NAMES[n % len(NAMES)], "b": NAMES[(n + 5) % len(NAMES)], "c": NAMES[(n + 11) % len(NAMES)]}
    for f in files:
        x = xs[f["x"]]
        name = {"template": f"_{x}.go", "output": f"{x}.generated.go", "other": f"{x}.go"}[f["sort"]]
        w.put(name, b2("\n".join(sym[s] for s in f["c"]) + ("\n" if n % 3 and f["c"] else "")))
    for x in faults["unread"]:
        w.block(xs[x], ("mode", "dir", "dangling")[n % 3])
    for x in faults["unwrit"]:
        w.block(xs[x], "out")
    w.edited()
    w.run(n % 5 + (IDLE if faults["idle"] else 0))
    w.run((n + 1) % 5 + (IDLE if faults["idle"] else 0))
    t = w.trace(exps)
    t["origin"] = f"vector {n}"
    w.close()
    return t


def build(ctx):
    run(["go", "build", "-C", os.path.join(REPO, "generation"), "-o", ctx.path("generator"), "."], env=goenv())
    run(["go", "build", "-o", ctx.path("genshape"), os.path.join(VERIF, "harness", "genshape", "main.go")], env=goenv())
    for p in (OUT, ctx.dir):
        os.chmod(p, 0o755)
    ctx.log("generator built; running it as", "nobody" if "user" in who() else "the current user")
    return ctx.path("generator")


LINES = [(l, "valid") for l in VALID] + [(l, "invalid") for l in INVALID] + [(l, "either") for l in EITHER]


def check(ctx):
    gen = build(ctx)
    exps, solo = learn(ctx, gen, LINES)
    # directories TLC enumerates
    rc, out, g, dist, tail = tlc(ctx, "GenMC", {"DESIGN": "truncate", "DUMP": "1"}, "GenMC", workers=1)
    if rc != 0:
        raise CheckError(f"GenMC: rc={rc}\n{tail}")
    ctx.add("states", dist)
    ctx.add("transitions", g)
    dirs = [json.loads(json.loads(l)[4:]) for l in open(out) if l.startswith('"DIR ')]
    ctx.parts["GenMC"] = {"states": dist, "directories_built": len(dirs)}
    shares = CORES * 2

    def work(i):
        f = ctx.path(f"gen.{i}")
        with open(f, "w") as fh:
            if i == 0:
                fh.write(json.dumps(solo) + "\n")
            for n in range(i, len(dirs), shares):
                fh.write(json.dumps(vector(ctx, gen, n, dirs[n], exps)) + "\n")
            for n in range(i, 3000 if ctx.deep else 240, shares):
                fh.write(json.dumps(history(ctx, gen, f"hist{n}", ctx.seed * 100003 + n, exps, 4)) + "\n")
            for n in range(i, 200 if ctx.deep else 16, shares):
                fh.write(json.dumps(bulk(ctx, gen, f"bulk{n}", ctx.seed * 1009 + n, exps)) + "\n")
        return f

    files = pool([lambda i=i: work(i) for i in range(shares)])
    ctx.log(f"{len(LINES)} directives, {len(dirs)} enumerated directories, histories recorded")
    found = judge_files(ctx, files, spec="GenTrace")
    ctx.cov["samples"] = ctx.cov["samples"][:2]
    ctx.log(f"runs judged: {ctx.cov['events_relevant']}, {len(found)} violations")
    seen = set()
    for v in found:
        key = (tuple(v["broken"]), v["o"]["op"], v["observed"].get("line", "")[:28])
        if key in seen or len(ctx.viols) >= 6:
            continue
        seen.add(key)
        if v["o"]["op"] == "expand":
            what = f"directive {v['observed']['line']!r}: {', '.join(v['broken'])}: {json.dumps(v['observed'])[:500]}"
        else:
            what = f"generator run on a directory ({v['trace'].get('origin')}, event {v['i']}): {', '.join(v['broken'])}"
        ctx.viols.append({"kind": "gen", "prop": "C16", "what": what, "broken": v["broken"], "event": v["i"], "trace": v["trace"]})
    if not ctx.viols:
        for d in ("overwrite", "append", "skip", "partial", "abort", "default"):
            rc, out, g, dist, tail = tlc(ctx, "GenMC", {"DESIGN": d, "DUMP": "0"}, "GenMC-" + d, workers=CORES)
            if rc not in (12, 13):
                raise CheckError(f"GenMC.tla accepts the design {d}: rc={rc}\n{tail}")
        ctx.log("GenMC: other ways of writing the outputs are refuted")
    ctx.assumptions += ["template names start with neither a second underscore nor a dot", "no F 16 directives (float16 is not a Go type)",
                        "what an expansion does is C15's matter; here its declarations and signatures"]


def replay(ctx, rec):
    gen = build(ctx)
    exps, solo = learn(ctx, gen, LINES)
    tr = rec["trace"]
    if not tr["seg"]:
        new = solo
    else:      # rebuild every directory of the history and run again
        m = re.match(r"(seed|vector|bulk) (\d+)", tr["origin"])
        n = int(m.group(2))
        if m.group(1) == "seed":
            new = history(ctx, gen, "replay", n, exps, 4)
        elif m.group(1) == "bulk":
            new = bulk(ctx, gen, "replay", n, exps)
        else:
            rc, out, g, dist, tail = tlc(ctx, "GenMC", {"DESIGN": "truncate", "DUMP": "1"}, "GenMC", workers=1)
            dirs = [json.loads(json.loads(l)[4:]) for l in open(out) if l.startswith('"DIR ')]
            new = vector(ctx, gen, n, dirs[n], exps)
    f = ctx.path("replay.gen")
    with open(f, "w") as fh:
        fh.write(json.dumps(new) + "\n")
    bad = judge_files(ctx, [f], spec="GenTrace")
    for x in bad:
        print(x["broken"], json.dumps(x["observed"])[:600])
    return bad
