package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

// jsonOp is an operation as the specification and the traces write it.
type jsonOp struct {
	Op   string            `json:"op"`
	K    string            `json:"k"`
	W    int               `json:"w"`
	E    string            `json:"e"`
	Next bool              `json:"next"`
	Off  int64             `json:"off"`
	N    int64             `json:"n"`
	V    int64             `json:"v"`
	Vals [][]uint64        `json:"vals"`
	Val  []uint64          `json:"val"`
	Rel  bool              `json:"rel"`
	Has  bool              `json:"has"`
	Pre  *[][]uint64       `json:"pre"`
	Xoff string            `json:"xoff"`
	Xn   string            `json:"xn"`
	X    map[string]string `json:"-"`
}

func fromBytes(l [][]uint64) []uint64 {
	r := make([]uint64, len(l))
	for i, b := range l {
		for _, x := range b {
			r[i] = r[i]<<8 | x
		}
	}
	return r
}

func (j *jsonOp) op() *Op {
	o := &Op{Op: j.Op, K: j.K, W: j.W, E: j.E, Next: j.Next, Off: j.Off, N: j.N, V: j.V,
		Vals: fromBytes(j.Vals), Rel: j.Rel, Has: j.Has}
	for _, x := range j.Val {
		o.Val = o.Val<<8 | x
	}
	if j.Pre != nil {
		o.Pre = fromBytes(*j.Pre)
	}
	if j.Xoff != "" {
		o.Off, _ = strconv.ParseInt(j.Xoff, 10, 64)
	}
	if j.Xn != "" {
		o.N, _ = strconv.ParseInt(j.Xn, 10, 64)
	}
	return o
}

func toBytes(d []int) []byte {
	r := make([]byte, len(d))
	for i, x := range d {
		r[i] = byte(x)
	}
	return r
}

// setup rebuilds a target with the given contents and positions; layout
// selects how its storage is provided.
func setup(kind string, d []byte, off, boff int64, layout int) *Target {
	var t *Target
	n := len(d)
	p := layout / 4
	switch layout % 4 {
	case 1: // inside a larger array with room after it
		t = embedded(kind, d, p%6, 1+p/6%40, true)
	case 2: // several slices
		a := p % (n + 1)
		b := a + p/(n+1)%(n+1-a)
		if p%2 == 0 {
			t = newTarget(kind, clone(d[:a]), clone(d[a:]))
		} else {
			t = newTarget(kind, clone(d[:a]), clone(d[a:b]), clone(d[b:]))
		}
	case 3: // inside a larger array, no room
		t = embedded(kind, d, p%6, 1+p/6%12, false)
	default:
		if n == 0 {
			t = newTarget(kind)
		} else {
			t = newTarget(kind, clone(d)[:n:n])
		}
	}
	t.how = layout/4 + layout/64
	if off != 0 {
		t.Exec(&Op{Op: "seek", Off: off})
	}
	if boff != 0 {
		t.Exec(&Op{Op: "seekb", Off: boff})
	}
	return t
}

func embedded(kind string, d []byte, pre, post int, room bool) *Target {
	n := len(d)
	whole := make([]byte, pre+n+post)
	for i := range whole {
		whole[i] = byte(0xC3 ^ i)
	}
	copy(whole[pre:], d)
	c := pre + n
	if room {
		c = len(whole)
	}
	t := newTarget(kind, whole[pre:pre+n:c])
	t.watch(whole)
	return t
}

type vecStep struct {
	S struct {
		D    []int `json:"d"`
		Off  int64 `json:"off"`
		Boff int64 `json:"boff"`
	} `json:"s"`
	O jsonOp `json:"o"`
	X struct {
		Ok   bool            `json:"ok"`
		Rej  []string        `json:"rej"`
		V    json.RawMessage `json:"v"`
		D    []int           `json:"d"`
		Offs []int64         `json:"offs"`
		Boff int64           `json:"boff"`
	} `json:"x"`
}

type vector struct {
	T struct {
		V    int    `json:"v"`
		Kind string `json:"kind"`
	} `json:"t"`
	H   []vecStep `json:"h"`
	Lay *int      `json:"lay"` // Storage.tla: how the first storage is laid out
}

func (v *vector) layout(l string) int {
	if v.Lay != nil {
		return *v.Lay
	}
	return int(hashString(l) % 4096)
}

func init() {
	modes["vectors"] = modeVectors
	modes["reexec"] = modeReexec
}

func lines(path string, f func(s string)) {
	in, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer in.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		f(sc.Text())
	}
	if sc.Err() != nil {
		fatal(sc.Err())
	}
}

// modeVectors replays behaviours printed by CrunchVec.tla and compares every
// step with what the specification expects; executions that differ are
// recorded for Trace.tla to judge.
func modeVectors() {
	f, w := outFile(*fOut)
	vectors, steps, differ := 0, 0, 0
	marker := fmt.Sprintf(`\"v\":%d}`, Ver)
	marker2 := fmt.Sprintf(`\"v\":%d,`, Ver)
	lines(*fIn, func(l string) {
		if !strings.HasPrefix(l, `"VEC `) || differ >= *fMax {
			return
		}
		if !strings.Contains(l, marker) && !strings.Contains(l, marker2) {
			return
		}
		u, err := strconv.Unquote(l)
		if err != nil {
			fatal(err, l)
		}
		var v vector
		if err := json.Unmarshal([]byte(u[4:]), &v); err != nil {
			fatal(err, l)
		}
		if v.T.V != Ver {
			return
		}
		layout := v.layout(l)
		a := v.H[0].S
		t := setup(v.T.Kind, toBytes(a.D), a.Off, a.Boff, layout)
		s := t.Observe(nil)
		tr := newTrace(v.T.Kind, "vector", layout, &s)
		onHang = func(o *Op) { tr.Hang(o); tr.Close(w); w.Flush() }
		vectors++
		for i := range v.H {
			st := &v.H[i]
			if string(s.D) != string(toBytes(st.S.D)) || s.Off != st.S.Off || s.Boff != st.S.Boff {
				break // the specification allows several outcomes, the library took another
			}
			o := st.O.op()
			r := t.Exec(o)
			pre := tr.prev
			s = t.Observe(o)
			tr.Event(o, &r, &s, "")
			steps++
			if !matches(st, pre, &r, &s) {
				differ++
				tr.Close(w)
				break
			}
		}
		onHang = nil
	})
	w.Flush()
	f.Close()
	fmt.Printf("vectors=%d steps=%d surprising=%d\n", vectors, steps, differ)
}

func hashString(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint32(s[i])) * 16777619
	}
	return h >> 8
}

func matches(st *vecStep, pre []byte, r *Res, s *Obs) bool {
	if s.Cap != int64(len(s.D)) || s.Bcap != 8*s.Cap || s.Lk == 1 || s.Out == 1 {
		return false
	}
	if r.K == "panic" {
		for _, e := range st.X.Rej {
			if (e == r.E || e == "any") && string(pre) == string(s.D) && s.Off == st.S.Off && s.Boff == st.S.Boff {
				return true
			}
		}
		return false
	}
	if r.K != "ok" || !st.X.Ok || s.Boff != st.X.Boff || string(s.D) != string(toBytes(st.X.D)) {
		return false
	}
	offOK := false
	for _, f := range st.X.Offs {
		offOK = offOK || f == s.Off
	}
	var j jw
	return offOK && string(j.val(r).b) == string(st.X.V)
}

type jsonTrace struct {
	T struct {
		Kind string `json:"kind"`
	} `json:"t"`
	S0 struct {
		D    []int `json:"d"`
		Off  int64 `json:"off"`
		Boff int64 `json:"boff"`
	} `json:"s0"`
	Layout int `json:"layout"`
	Ev     []struct {
		O jsonOp `json:"o"`
	} `json:"ev"`
}

// modeReexec runs recorded executions again and records the outcome.
func modeReexec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		var v jsonTrace
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			fatal(err)
		}
		t := setup(v.T.Kind, toBytes(v.S0.D), v.S0.Off, v.S0.Boff, v.Layout)
		s := t.Observe(nil)
		tr := newTrace(v.T.Kind, "reexec", v.Layout, &s)
		onHang = func(o *Op) { tr.Hang(o); tr.Close(w); w.Flush() }
		runTraced(t, tr, &s, func(i int) *Op {
			if i >= len(v.Ev) {
				return nil
			}
			return v.Ev[i].O.op()
		})
		onHang = nil
		tr.Close(w)
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}
