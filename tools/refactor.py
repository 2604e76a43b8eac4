#!/usr/bin/env python3
"""refactor.py TREE NAMES: applies an edit that keeps the behaviour to a scratch
tree of the repository. The checks have to stay quiet on the result.

A development tool: no check uses it."""
import os, re, sys, glob

tree = sys.argv[1]


def files(*vs):
    for v in vs:
        for f in glob.glob(os.path.join(tree, v, "*.go")):
            if not f.endswith("_test.go"):
                yield f


def each(fs, fn):
    n = 0
    for f in fs:
        s = open(f).read()
        t = fn(s)
        if t != s:
            n += 1
            open(f, "w").write(t)
    assert n, name


LOOP = re.compile(r"\n(\t*)\{\n\t*(\w+_loop):\n(.*?)\n\t*i\+\+\n\t*if i < n \{\n\s*goto \2\n\s*\}\n\s*\}\n", re.S)


def loops(s):
    return LOOP.sub(lambda m: f"\n{m.group(1)}for ; i < n; i++ {{\n{m.group(3)}\n{m.group(1)}}}\n", s)


def locked(s):
    if "func (b *Buffer) Refresh" not in s or "Lock()" not in s:
        return s
    s = re.sub(r"\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n", "\tdefer b.hold()()\n", s)
    return s + "\n// hold takes the lock and returns what gives it back\nfunc (b *Buffer) hold() func() {\n\n\tb.Lock()\n\treturn b.Unlock\n\n}\n"


def closure(s):
    """every locked method runs its body in a function handed to a helper"""
    if "func (b *Buffer) Refresh" not in s or "Lock()" not in s:
        return s

    def m(x):
        head, res, body = x.group(1), x.group(2), x.group(3)
        body = body.rstrip()
        if re.search(r"\breturn \S", body) or res.strip():
            return x.group(0)
        return f"{head}{res}{{\n\n\tb.within(func() {{\n{body}\n\t}})\n\n}}\n"

    s = re.sub(r"(func \(b \*Buffer\) [A-Z]\w*\([^\n]*?\))([^\n{]*)\{\n\n\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n(.*?)\n\}\n", m, s, flags=re.S)
    return s + "\nfunc (b *Buffer) within(f func()) {\n\n\tb.Lock()\n\tdefer func() {\n\n\t\tb.Unlock()\n\n\t}()\n\tf()\n\n}\n"


def rwmutex(s):
    return s.replace("\tsync.Mutex\n", "\tsync.RWMutex\n")


def rwread(s):
    if "func (b *Buffer) Refresh" not in s:
        return s
    s = rwmutex(s)

    def m(x):
        return x.group(0).replace("b.Lock()", "b.RLock()").replace("b.Unlock()", "b.RUnlock()")

    return re.sub(r"func \(b \*Buffer\) (ByteCapacity|Capacity|BitCapacity|Offset|BitOffset|After|AfterBit|ReadBit|ReadBits|ReadBytes|ReadByte|ReadU\d\d[BL]E|Bytes)\(.*?\n\}\n", m, s, flags=re.S)


def checks(s):
    """range checks in helpers"""
    if "func (b *Buffer) Refresh" not in s:
        return s
    n = [0]

    def m(x):
        n[0] += 1
        kind = x.group(4).replace("BufferOver", "").replace("Error", "")
        return f"{x.group(1)}if {x.group(3)} {{\n\n{x.group(1)}\tb.past{kind}()\n\n{x.group(1)}}}\n"

    s = re.sub(r"(\t+)if ((.*?)) \{\n\s*panic\((BufferOver(?:read|write)Error)\)\n\s*\}\n", m, s)
    assert n[0]
    return s + "".join(f"\nfunc (b *Buffer) past{k}() {{\n\n\tpanic(BufferOver{k}Error)\n\n}}\n" for k in ("read", "write"))


def swap(s):
    """the two range checks in the other order, where either may be reported"""
    return re.sub(r"(\t+if (?:\(?off [^\n]*?)\{\n\s*panic\(BufferOver\w+Error\)\n\s*\}\n)(\s*)(\t+if off < 0[x0]* \{\n\s*panic\(BufferUnder\w+Error\)\n\s*\}\n)", r"\3\2\1", s)


def words(s):
    """v3 whole-buffer flips and fills by range"""
    s = re.sub(r"\tvar \(\n\t\ti = int64\(0\)\n\t\tn = int64\(len\(b\.buf\)\)\n\t\)\n\tif n == 0 \{\n\n\t\treturn\n\n\t\}\n\t\{\n\t(\w+_loop):\n\t\tb\.buf\[i\] = (.*?)\n.*?\n\t\}\n\n\}\n",
               lambda m: "\tfor i := range b.buf {\n\n\t\tb.buf[i] = %s\n\n\t}\n\n}\n" % m.group(2), s, flags=re.S)
    return s


def binary(s):
    """v3 typed integer writes and reads through encoding/binary"""
    order = {"LE": "LittleEndian", "BE": "BigEndian"}

    def wr(x):
        k, bits, e, body = x.group(2), int(x.group(3)), x.group(4), x.group(0)
        w = bits // 8
        if k == "F":
            return body
        body = re.sub(r"\n\t\tb\.buf\[off.*?\n(?=\t\ti\+\+)",
                      f"\n\t\tbinary.{order[e]}.PutUint{bits}(b.buf[off+int64(i*{w}):], uint{bits}(data[i]))\n", body, count=1, flags=re.S)
        return body

    t = re.sub(r"func \(b \*(Buffer|MiniBuffer)\) Write([UIF])(\d\d)([BL]E)\(.*?\n\}\n", wr, s, flags=re.S)

    def rd(x):
        k, bits, e, body = x.group(2), int(x.group(3)), x.group(4), x.group(0)
        w = bits // 8
        ty = {"U": "uint", "I": "int"}.get(k)
        if not ty:
            return body
        dst = "out[i]" if x.group(1) == "Buffer" else "(*out)[i]"
        return re.sub(r"\n\t\t\(?\*?out\)?\[i\] = .*?\n(?=\t\ti\+\+)", lambda m: f"\n\t\t{dst} = {ty}{bits}(binary.{order[e]}.Uint{bits}(b.buf[off+i*{w}:]))\n", body, count=1, flags=re.S)

    t = re.sub(r"func \(b \*(Buffer|MiniBuffer)\) Read([UIF])(\d\d)([BL]E)\(.*?\n\}\n", rd, t, flags=re.S)
    if t != s:
        t = re.sub(r'import "unsafe"', 'import (\n\t"encoding/binary"\n\t"unsafe"\n)', t, count=1)
        if '"encoding/binary"' not in t:
            t = re.sub(r"(\npackage v3\n)", r'\1\nimport "encoding/binary"\n', t, count=1)
    return t


def generator(s):
    s = s.replace('	magicCommentRegex := regexp.MustCompile(', '	var magicCommentRegex = regexp.MustCompile(')
    s = s.replace("	for name := range files {\n", "	names := make([]string, 0, len(files))\n	for name := range files {\n		names = append(names, name)\n	}\n	sort.Strings(names)\n	for _, name := range names {\n")
    s = s.replace('	"strconv"\n', '	"sort"\n	"strconv"\n')
    return s


def genmain(s):
    a = s.index("	for name, contents := range generated {")
    s = s[:a] + '''	for name, contents := range generated {
		out := strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go") + ".generated.go"
		err := ioutil.WriteFile(out, contents, 0644)
		if err != nil {
			fmt.Printf("! unable to write generated file. (%v)\\n", err)
		}
	}
}
'''
    i = s.index("			file, err := os.Open(fileInfo.Name())")
    j = s.index("			_ = file.Close()", i)
    k = s.index("\n", j) + 1
    return s[:i] + '''			contents, err := ioutil.ReadFile(fileInfo.Name())
			if err != nil {
				fmt.Printf("! unable to read source file. (%v)\\n", err)
				continue
			}
			files[fileInfo.Name()] = contents
''' + s[k:]


gen = [os.path.join(tree, "generation", "complex.go")]
R = {
    "loops": lambda: each(files("v1", "v2", "v3"), loops),
    "locked": lambda: each(files("v1", "v2"), locked),
    "closure": lambda: each(files("v2"), closure),
    "rwmutex": lambda: each(files("v1", "v2"), rwmutex),
    "rwread": lambda: each(files("v1", "v2"), rwread),
    "checks": lambda: each(files("v1", "v2", "v3"), checks),
    "swap": lambda: each(files("v1", "v2", "v3"), swap),
    "words": lambda: each(files("v3"), words),
    "binary": lambda: each(files("v3"), binary),
    "generator": lambda: each(gen, generator),
    "genmain": lambda: each([os.path.join(tree, "generation", "main.go")], genmain),
}
for name in sys.argv[2:]:
    R[name]()
