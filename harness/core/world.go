package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() {
	modes["world"] = modeWorld
	modes["worldvec"] = modeWorldVec
	modes["worldexec"] = modeWorldExec
	modes["worldrace"] = modeWorldRace
	profiles["C19"] = map[string]int{"reset": 4, "size": 4, "read": 2, "write": 2}
}

// frozen: several goroutines run calls; the harness shares nothing.
var frozen bool

// World is several buffers that have no storage in common.
type World struct {
	kinds []string
	ts    []*Target
	obs   []Obs
	prev  [][]byte
	held  []heldList
	ev    []worldEvent
}

// heldList is a list a read handed out, and what it held then.
type heldList struct {
	raw interface{}
	was []uint64
}

type worldEvent struct {
	j      int
	o      *Op
	r      Res
	obs    []Obs
	ch     []bool // contents changed
	held   int
	solo   Res
	soloS  Obs
	soloOK bool
}

func newWorld(kinds []string) *World {
	n := len(kinds)
	return &World{kinds: kinds, ts: make([]*Target, n), obs: make([]Obs, n), prev: make([][]byte, n)}
}

func pattern(n, salt int64) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(int64(i)*37 + n + salt)
	}
	return d
}

// do makes call o on t; "new" puts a new buffer in its place.
func do(t *Target, kind string, o *Op) (*Target, Res) {
	if o.Op == "new" {
		return setup(kind, pattern(o.N, o.Off), 0, 0, int(o.Off)), Res{K: "ok"}
	}
	return t, t.Exec(o)
}

// step makes the call on buffer j and looks at all of them; false if another
// buffer or a list handed out before changed.
func (w *World) step(j int, o *Op) bool {
	e := worldEvent{j: j, o: o}
	if !frozen && o.Op == "new" && w.kinds[j] == "mini" && o.Off&12 != 0 {
		// into the variable that holds this one so far, or another one
		if t := w.ts[(j+int(o.Off>>2&1))%len(w.ts)]; t != nil && t.Kind == "mini" {
			over = t.P
		}
	}
	w.ts[j], e.r = do(w.ts[j], w.kinds[j], o)
	if !frozen {
		over = nil
	}
	ok := true
	e.obs = make([]Obs, len(w.ts))
	e.ch = make([]bool, len(w.ts))
	for i, t := range w.ts {
		if t == nil {
			continue
		}
		q := o
		if i != j || o.Op == "new" {
			q = nil
		}
		s := t.Observe(q)
		old := w.obs[i]
		if string(s.D) != string(w.prev[i]) {
			e.ch[i] = true
			w.prev[i] = clone(s.D)
		}
		if i != j && (e.ch[i] || s.Off != old.Off || s.Boff != old.Boff || s.Cap != old.Cap || s.Bcap != old.Bcap || s.Lk == 1) {
			ok = false
		}
		w.obs[i] = s
		s.D = w.prev[i]
		e.obs[i] = s
	}
	for i := range w.held {
		h := &w.held[i]
		now, _, _ := fromTyped(h.raw)
		if !sameList(now, h.was) {
			e.held = 1
			ok = false
			h.was = now
		}
	}
	if o.Op == "read" && o.W > 1 && e.r.K == "ok" && e.r.Raw != nil && len(e.r.List) > 0 {
		if len(w.held) >= 6 {
			w.held = w.held[1:]
		}
		w.held = append(w.held, heldList{e.r.Raw, append([]uint64{}, e.r.List...)})
	}
	e.r.Raw = nil
	w.ev = append(w.ev, e)
	return ok
}

// alone runs each buffer's calls again by themselves; false if anything
// comes out differently.
func (w *World) alone() bool {
	same := true
	for j := range w.ts {
		var t *Target
		for k := range w.ev {
			e := &w.ev[k]
			if e.j != j {
				continue
			}
			t, e.solo = do(t, w.kinds[j], e.o)
			q := e.o
			if q.Op == "new" {
				q = nil
			}
			e.soloS = t.Observe(q)
			e.soloS.D = clone(e.soloS.D)
			e.soloOK = true
			e.solo.Raw = nil
			a, b := &e.soloS, &e.obs[j]
			if !sameRes(&e.solo, &e.r) || string(a.D) != string(b.D) || a.Off != b.Off || a.Boff != b.Boff ||
				a.Cap != b.Cap || a.Bcap != b.Bcap {
				same = false
			}
		}
	}
	return same
}

// write records the history; hung is a call that did not return.
func (w *World) write(out *bufio.Writer, origin string, hj int, hung *Op) {
	var j jw
	j.s(`{"t":{"v":`).i(int64(Ver)).s(`},"kinds":[`)
	for i, k := range w.kinds {
		if i > 0 {
			j.s(",")
		}
		j.q(k)
	}
	j.s(`],"origin":`).q(origin).s(`,"ev":[`)
	for k := range w.ev {
		e := &w.ev[k]
		if k > 0 {
			j.s(",")
		}
		j.s(`{"j":`).i(int64(e.j+1)).s(`,"o":`).op(e.o, 0).s(`,"r":`).res(&e.r).s(`,"held":`).i(int64(e.held)).s(`,"w":[`)
		for i := range e.obs {
			if i > 0 {
				j.s(",")
			}
			prev := e.obs[i].D
			if e.ch[i] {
				prev = nil
			}
			j.s(`{"x":0`).obs(&e.obs[i], prev, 0).s("}")
		}
		j.s(`]`)
		if e.soloOK {
			j.s(`,"solo":{"r":`).res(&e.solo).s(`,"x":0`).obs(&e.soloS, nil, 0).s("}")
		}
		j.s("}")
	}
	if hung != nil {
		if len(w.ev) > 0 {
			j.s(",")
		}
		j.s(`{"j":`).i(int64(hj+1)).s(`,"o":`).op(hung, 0).s(`,"r":{"k":"hang","e":"hang"}}`)
	}
	j.s("]}\n")
	out.Write(j.b)
}

func (w *World) guard(out *bufio.Writer, j *int) {
	onHang = func(o *Op) {
		w.alone()
		w.write(out, "hang", *j, o)
		out.Flush()
	}
}

// scale: how long the buffers and lists of a world are.
func (g *Gen) scale(size int) {
	switch {
	case size < 10:
		g.maxLen, g.long = 80, 0.6
	case size == 10:
		g.maxLen, g.long, g.large = 1<<12, 0.6, true
		g.maxGrow = g.nearPow2(8, 13)
	}
}

func (g *Gen) newOp() *Op {
	o := &Op{Op: "new", Off: g.r.Int63n(4096)}
	if g.p(g.long) {
		o.N = int64(longLens[g.r.Intn(len(longLens))])
		if g.large {
			o.N = g.nearPow2(8, 13)
		}
		return o
	}
	switch g.r.Intn(8) {
	case 0, 1, 2:
	case 3:
		o.N = int64(longLens[g.r.Intn(len(longLens))])
	case 4:
		if g.p(0.1) {
			o.N = g.nearPow2(9, 14)
		}
	default:
		o.N = int64(initLens[g.r.Intn(len(initLens))])
	}
	return o
}

func (g *Gen) worldOp(s *Obs, started bool) *Op {
	if !started || g.p(0.1) {
		return g.newOp()
	}
	return g.Next(s)
}

func modeWorld() {
	f, out := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	runs, events, found := 0, 0, 0
	for i := 0; i < *fTraces || time.Now().Before(end); i++ {
		k := 2 + rng.Intn(3)
		size := rng.Intn(40)
		kinds := make([]string, k)
		gens := make([]*Gen, k)
		for n := range kinds {
			kinds[n] = []string{"buffer", "mini"}[rng.Intn(2)]
			gens[n] = newGen(rng, kinds[n], "C19")
			gens[n].scale(size)
		}
		w := newWorld(kinds)
		j := 0
		w.guard(out, &j)
		ok := true
		for n := *fLen; n > 0 && ok; n-- {
			j = rng.Intn(k)
			ok = w.step(j, gens[j].worldOp(&w.obs[j], w.ts[j] != nil))
			events++
		}
		onHang = nil
		runs++
		if !w.alone() {
			ok = false
		}
		if i < *fTraces || !ok {
			w.write(out, fmt.Sprintf("world seed=%d #%d", *fSeed, i), 0, nil)
		}
		if !ok {
			if found++; found >= *fMax {
				break
			}
		}
	}
	out.Flush()
	f.Close()
	fmt.Printf("runs=%d events=%d surprising=%d\n", runs, events, found)
}

// modeWorldVec replays the interleavings WorldMC.tla enumerates, on every
// combination of kinds.
func modeWorldVec() {
	f, out := outFile(*fOut)
	vectors, steps, differ, kept := 0, 0, 0, 0
	lines(*fIn, func(l string) {
		if !strings.HasPrefix(l, `"WORLD `) || differ >= *fMax {
			return
		}
		u, err := strconv.Unquote(l)
		if err != nil {
			fatal(err, l)
		}
		var v struct {
			H []struct {
				J int    `json:"j"`
				O jsonOp `json:"o"`
			} `json:"h"`
		}
		if err := json.Unmarshal([]byte(u[6:]), &v); err != nil {
			fatal(err, l)
		}
		for c := 0; c < 4; c++ {
			kinds := []string{[]string{"buffer", "mini"}[c%2], []string{"buffer", "mini"}[c/2]}
			usable := true
			for i := range v.H {
				if Ver == 1 && v.H[i].O.K == "U" {
					v.H[i].O.K = "C"
				}
				o := v.H[i].O.op()
				if o.Op != "new" && !has(kinds[v.H[i].J-1], o) {
					usable = false
				}
			}
			if !usable {
				return
			}
			w := newWorld(kinds)
			j := 0
			w.guard(out, &j)
			ok := true
			for i := range v.H {
				j = v.H[i].J - 1
				o := v.H[i].O.op()
				if o.Op == "read" && kinds[j] == "mini" && isTyped(o.K) {
					o.Pre = make([]uint64, o.N)
				}
				if !w.step(j, o) {
					ok = false
					break
				}
				steps++
			}
			onHang = nil
			vectors++
			if !w.alone() {
				ok = false
			}
			if !ok {
				differ++
			}
			if !ok || kept < *fTraces && vectors%997 == 1 {
				kept++
				w.write(out, "vector", 0, nil)
			}
		}
	})
	out.Flush()
	f.Close()
	fmt.Printf("vectors=%d steps=%d surprising=%d\n", vectors, steps, differ)
}

type jsonWorld struct {
	Kinds []string `json:"kinds"`
	Ev    []struct {
		J int    `json:"j"`
		O jsonOp `json:"o"`
	} `json:"ev"`
}

func modeWorldExec() {
	f, out := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		var v jsonWorld
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			fatal(err)
		}
		w := newWorld(v.Kinds)
		j := 0
		w.guard(out, &j)
		for i := range v.Ev {
			j = v.Ev[i].J - 1
			w.step(j, v.Ev[i].O.op())
		}
		onHang = nil
		w.alone()
		w.write(out, "reexec", 0, nil)
		n++
	})
	out.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}

// modeWorldRace: goroutines with a buffer each. Their histories are made
// beforehand; what every buffer does must be what it does alone.
func modeWorldRace() {
	f, out := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	for _, kind := range []string{"buffer", "mini"} {
		rt := reflect.TypeOf(newTarget(kind).P)
		for i := 0; i < rt.NumMethod(); i++ {
			m := rt.Method(i)
			methodCache[methodKey{rt, m.Name}] = m.Func
		}
	}
	runs, events, found, kept := 0, 0, 0, 0
	compare := func(ws, again []*World, keep int) {
		for n, w := range again {
			runs++
			events += len(w.ev)
			ok := true
			for q := range w.ev {
				a, b := &w.ev[q], &ws[n].ev[q]
				a.solo, a.soloS, a.soloOK = b.r, b.obs[0], true
				x, y := &a.obs[0], &b.obs[0]
				if a.held != b.held || !sameRes(&a.r, &b.r) || string(x.D) != string(y.D) || x.Off != y.Off || x.Boff != y.Boff ||
					x.Cap != y.Cap || x.Bcap != y.Bcap {
					ok = false
				}
			}
			if !ok || kept < keep {
				kept++
				w.write(out, fmt.Sprintf("race seed=%d", *fSeed), 0, nil)
			}
			if !ok {
				found++
			}
		}
	}
	hung := func() {
		fmt.Printf("runs=%d events=%d surprising=%d hung=1\n", runs, events, found)
		out.Flush()
	}
	const k = 8
	kindOf := func(n int) string { return []string{"buffer", "mini"}[n%2] }

	// The process has made no call yet: the goroutines make the first call
	// of every sort at the same time, and are compared with a run of the
	// same calls one after another.
	script := coldScript(rng)
	ws, ops := make([]*World, k/2), make([][]*Op, k/2)
	for n := range ops {
		ops[n] = script
	}
	again := together(kindOf, ops, true)
	if again == nil {
		hung()
		return
	}
	for n := range ws {
		ws[n] = newWorld([]string{kindOf(n)})
		for _, o := range ops[n] {
			if has(kindOf(n), o) {
				ws[n].step(0, o)
			}
		}
	}
	compare(ws, again, 1)

	ws, ops = make([]*World, k), make([][]*Op, k)
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	for time.Now().Before(end) && found < *fMax {
		size := rng.Intn(40)
		for n := range ws {
			g := newGen(rng, kindOf(n), "C19")
			g.scale(size)
			w := newWorld([]string{kindOf(n)})
			ops[n] = nil
			for q := *fLen; q > 0; q-- {
				o := g.worldOp(&w.obs[0], w.ts[0] != nil)
				ops[n] = append(ops[n], o)
				w.step(0, o)
			}
			ws[n] = w
		}
		if again = together(kindOf, ops, false); again == nil {
			hung()
			return
		}
		compare(ws, again, *fTraces)
	}
	out.Flush()
	f.Close()
	fmt.Printf("runs=%d events=%d surprising=%d hung=0\n", runs, events, found)
}

// together runs the calls, each list on a buffer and a goroutine of its own,
// in step if so asked; nil if they do not end.
func together(kindOf func(int) string, ops [][]*Op, inStep bool) []*World {
	frozen = true
	defer func() { frozen = false }()
	var wg sync.WaitGroup
	// one counter a step: who passes one has seen nothing of what others do next
	arrived := make([]int32, len(ops[0]))
	start := make(chan bool)
	ws := make([]*World, len(ops))
	for n := range ops {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			w := newWorld([]string{kindOf(n)})
			<-start
			for q, o := range ops[n] {
				if inStep {
					atomic.AddInt32(&arrived[q], 1)
					for spins := 0; atomic.LoadInt32(&arrived[q]) < int32(len(ops)); spins++ {
						if spins > 50 {
							runtime.Gosched()
						}
					}
				}
				if has(kindOf(n), o) {
					w.step(0, o)
				}
			}
			ws[n] = w
		}(n)
	}
	close(start)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		return nil
	}
	return ws
}

// coldScript makes a call of every sort on a buffer, in a random order.
func coldScript(r *rand.Rand) (script []*Op) {
	const size = 330
	g := newGen(r, "buffer", "C19")
	var parts [][]*Op
	add := func(os ...*Op) { parts = append(parts, os) }
	for _, f := range families("buffer") {
		for _, e := range orders(f) {
			for _, op := range []string{"write", "read"} {
				for _, n := range []int64{1, 3, 20, 300} {
					if f.k == "byte" {
						n = 1
					}
					if n*int64(f.w) > size-10 {
						n = (size - 10) / int64(f.w)
					}
					add(g.rw(op, f, e, false, int64(r.Intn(9)), n))
					add(&Op{Op: "seek", Off: int64(r.Intn(9))}, g.rw(op, f, e, true, 0, n))
				}
			}
		}
	}
	for _, next := range []bool{false, true} {
		var here []*Op
		off := int64(0)
		if next {
			here = []*Op{{Op: "seekb", Off: int64(r.Intn(70))}}
		} else {
			off = int64(r.Intn(70))
		}
		for v := int64(0); v < 2; v++ {
			add(append(here, &Op{Op: "setb", Next: next, Off: off, V: v})...)
		}
		add(append(here, &Op{Op: "rbit", Next: next, Off: off})...)
		add(append(here, &Op{Op: "flip", Next: next, Off: off})...)
		for _, n := range []int64{1, 8, 13, 57, 64} {
			add(append(here, &Op{Op: "rbits", Next: next, Off: off, N: n})...)
			add(append(here, &Op{Op: "sbits", Next: next, Off: off, N: n, Val: r.Uint64() & (1<<uint(n) - 1)})...)
		}
	}
	for v := int64(0); v < 3; v++ {
		add(&Op{Op: "allb", V: v})
	}
	add(&Op{Op: "seek", Off: 3, Rel: true})
	add(&Op{Op: "seekb", Off: 5, Rel: true})
	for _, op := range []string{"alignbit", "alignbyte", "after", "afterb", "refresh"} {
		add(&Op{Op: op})
	}
	for _, n := range []int64{0, 1, 1200} {
		add(&Op{Op: "grow", N: n})
	}
	add(&Op{Op: "trl", N: 1})
	add(&Op{Op: "trr", N: 1})
	for _, layout := range []int64{0, 1, 2, 3} {
		add(&Op{Op: "reset"}, &Op{Op: "new", N: size, Off: layout})
		add(&Op{Op: "new", N: size, Off: layout})
		add(&Op{Op: "new", N: 0, Off: layout}, &Op{Op: "grow", N: size})
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	script = append(script, &Op{Op: "new", N: size})
	for _, p := range parts {
		script = append(script, p...)
	}
	return
}
