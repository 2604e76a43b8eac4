package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// C11: who shares memory with whom. The driver keeps every slice a client
// could hold - inputs, views, data handed over, lists returned - and looks at
// all of them after every call.

func init() {
	modes["heap"] = modeHeap
	modes["heapvec"] = modeHeapVec
	modes["heapexec"] = modeHeapExec
}

type heapObj struct {
	keep interface{}
	mem  []byte // the whole memory of the object
	lo   int
	st   string // live, own, free
	sib  *Target
	was  []byte // what a correct library leaves in it (nil: not known)
}

type heapInput struct {
	Pre, N, Room int
	fill         byte
}

// memOf is the memory of a slice, spare capacity included.
func memOf(x interface{}) []byte {
	v := reflect.ValueOf(x)
	if v.Kind() != reflect.Slice || v.Cap() == 0 {
		return []byte{}
	}
	n := v.Cap() * int(v.Type().Elem().Size())
	return (*[1 << 30]byte)(unsafe.Pointer(v.Pointer()))[:n:n]
}

type heapEv struct {
	A    string // build, call, poke, view, sib
	O    *Op
	J, I int
	V    byte
	Sp   int
}

// Heap is one history.
type Heap struct {
	kind string
	t    *Target
	s    Obs
	objs []*heapObj
	d    []byte // contents last seen
	j    jw
	n    int
	odd  bool // something a correct library does not do

	drop   bool // the other buffers become garbage
	slices [][]byte
	kept   []*Target
}

// more makes further buffers and uses them.
func (h *Heap) more(slices [][]byte) {
	for i := 0; i < 24; i++ {
		t := newTarget(h.kind, append(slices, []byte{1})...)
		if i%3 == 2 {
			t = newTarget(h.kind)
			t.Exec(&Op{Op: "grow", N: int64(3 + i/3)})
		}
		t.Exec(&Op{Op: "allb", V: int64(i % 3)})
		h.kept = append(h.kept, t)
	}
}

func (h *Heap) add(o *heapObj) { o.was = clone(o.mem); h.objs = append(h.objs, o) }

func (h *Heap) logNew(from int) {
	h.j.s(`,"new":[`)
	for i, o := range h.objs[from:] {
		if i > 0 {
			h.j.s(",")
		}
		h.j.s(`{"b":`).bytes(o.mem).s(`,"lo":`).i(int64(o.lo)).s(`,"st":`).q(o.st).s("}")
	}
	h.j.s("]")
}

func (h *Heap) logSeen(n int) {
	h.j.s(`,"d":`).bytes(h.s.D).s(`,"objs":[`)
	for i, o := range h.objs[:n] {
		if i > 0 {
			h.j.s(",")
		}
		if o.st == "free" {
			h.j.s("[]")
		} else {
			h.j.bytes(o.mem)
		}
	}
	h.j.s("]")
}

// build makes the buffer from the inputs and starts the log. others: make
// another buffer from the same inputs (if several) or from nothing.
func (h *Heap) build(kind, origin string, ins []heapInput, others int, script string) {
	h.kind = kind
	var slices [][]byte
	h.j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(kind).s(`},"origin":`).q(origin).s(script).s(`,"ins":[`)
	var cat []byte
	for i, in := range ins {
		m := make([]byte, in.Pre+in.N+in.Room)
		for k := range m {
			m[k] = byte(30*(i+1)+k+1) + in.fill
		}
		var s []byte
		if len(m) > 0 || in.fill%2 == 0 {
			s = m[in.Pre : in.Pre+in.N]
		}
		cat = append(cat, s...)
		slices = append(slices, s)
		h.objs = append(h.objs, &heapObj{keep: m, mem: m, lo: in.Pre, st: "own", was: clone(m)})
		if i > 0 {
			h.j.s(",")
		}
		h.j.s(`{"b":`).bytes(m).s(`,"lo":`).i(int64(in.Pre)).s(`,"n":`).i(int64(in.N)).s("}")
	}
	if len(ins) == 1 {
		h.objs[0].st = "live"
	}
	h.j.s(`],"ev":[`)
	var sibs []*heapObj
	if h.drop { // use up what earlier buffers left behind
		h.more(slices)
	}
	for i := 0; i < others; i++ {
		var t *Target
		if len(ins) > 1 && i%2 == 0 {
			t = newTarget(kind, slices...)
		} else {
			t = newTarget(kind)
			t.Exec(&Op{Op: "grow", N: int64(3 + 5*i)})
			t.Exec(&Op{Op: "allb", V: 1})
		}
		d, _, _, _, _ := t.look()
		sibs = append(sibs, &heapObj{keep: d, mem: d[:len(d):len(d)], st: "own", sib: t})
	}
	if h.drop {
		// what they showed outlives them
		for _, o := range sibs {
			o.sib = nil
		}
		collect()
		h.slices = slices
	}
	h.t = newTarget(kind, slices...)
	h.t.how = len(cat) + others
	h.s = h.t.Observe(nil)
	h.d = clone(h.s.D)
	if string(h.d) != string(cat) {
		h.odd = true
	}
	n := len(h.objs)
	for _, o := range sibs {
		h.add(o)
	}
	h.j.s(`{"op":"build"`)
	h.logSeen(n)
	h.logNew(n)
	h.j.s("}")
	h.check(h.d)
}

// collect runs the garbage collector, and finalizers.
func collect() {
	for i := 0; i < 2; i++ {
		done := make(chan bool)
		runtime.SetFinalizer(&heapEv{A: "sentinel"}, func(*heapEv) { close(done) })
		runtime.GC()
		select {
		case <-done:
		case <-time.After(20 * time.Millisecond):
		}
	}
}

// check compares every object with what it should hold, the contents being d.
func (h *Heap) check(d []byte) {
	for _, o := range h.objs {
		if o.st == "free" {
			continue
		}
		if o.st == "live" {
			if o.lo+len(d) > len(o.was) {
				h.odd = true
				o.st = "free"
				continue
			}
			copy(o.was[o.lo:], d)
		}
		if string(o.mem) != string(o.was) {
			h.odd = true
			o.was = clone(o.mem)
		}
	}
}

var listSeq byte

func (h *Heap) step(e *heapEv) {
	n := len(h.objs)
	h.j.s(",")
	switch e.A {
	case "poke":
		o := h.objs[e.J]
		in := o.st == "live" && e.I >= o.lo && e.I < o.lo+len(h.d)
		h.j.s(`{"op":"poke","j":`).i(int64(e.J + 1)).s(`,"i":`).i(int64(e.I)).s(`,"v":`).i(int64(e.V))
		o.mem[e.I] = e.V
		h.s = h.t.Observe(nil)
		want := clone(h.d)
		if in {
			want[e.I-o.lo] = e.V
		} else {
			o.was[e.I] = e.V
		}
		if string(h.s.D) != string(want) {
			h.odd = true
		}
	case "put":
		// part of an object of the client is written: J, from I on, O.N bytes
		o := h.objs[e.J]
		src := o.mem[e.I : e.I+int(e.O.N)]
		want := clone(h.d)
		copy(want[e.O.Off:], src)
		h.j.s(`{"op":"put","j":`).i(int64(e.J + 1)).s(`,"i":`).i(int64(e.I)).s(`,"n":`).i(e.O.N).s(`,"p":`).i(e.O.Off)
		if e.O.Next {
			h.t.Exec(&Op{Op: "seek", Off: e.O.Off})
		}
		e.O.Data = src
		h.t.Exec(e.O)
		h.s = h.t.Observe(nil)
		if string(h.s.D) != string(want) {
			h.odd = true
		}
	case "sib":
		o := h.objs[e.J]
		h.j.s(`{"op":"other","j":`).i(int64(e.J + 1))
		o.sib.Exec(e.O)
		o.was = clone(o.mem)
		h.s = h.t.Observe(nil)
		if string(h.s.D) != string(h.d) {
			h.odd = true
		}
	case "view":
		h.j.s(`{"op":"call","o":{"op":"bytes"},"resize":false`)
		if h.drop {
			h.more(h.slices)
		}
		h.s = h.t.Observe(nil)
		v := h.s.D
		h.add(&heapObj{keep: v, mem: v[:len(v):len(v)], st: "live"})
	case "call":
		o := e.O
		listSpare = e.Sp
		h.j.s(`{"op":"call","o":`).op(o, 0).s(`,"resize":`).bool(resizing[o.Op])
		lastList = nil
		r := h.t.Exec(o)
		listSpare = 0
		handed := lastList
		h.s = h.t.Observe(o)
		if resizing[o.Op] || len(h.s.D) != len(h.d) {
			for _, x := range h.objs {
				if x.st == "live" {
					x.st = "free"
				}
			}
		}
		h.j.s(`,"k":`).q(r.K)
		if o.Op == "write" && o.K != "byte" {
			h.add(&heapObj{keep: handed, mem: memOf(handed), st: "own"})
		}
		if o.Op == "read" && o.K != "byte" && o.K != "bytes" && o.W > 1 && r.K == "ok" {
			h.add(&heapObj{keep: r.Raw, mem: memOf(r.Raw), st: "own"})
		}
	}
	h.d = clone(h.s.D)
	h.logSeen(n)
	h.logNew(n)
	h.j.s("}")
	h.check(h.d)
	h.n++
}

func (h *Heap) close(w *bufio.Writer) {
	h.j.s("]}\n")
	w.Write(h.j.b)
}

func inPlaceOp(r *rand.Rand, n int) *Op {
	if n == 0 || r.Intn(2) == 0 {
		return &Op{Op: "allb", V: int64(r.Intn(3))}
	}
	return &Op{Op: "write", K: "bytes", W: 1, E: "LE", Off: int64(r.Intn(n)), Vals: []uint64{uint64(r.Intn(256))}}
}

// randomHeap runs a random history; script is its reproduction: the seed.
func randomHeap(kind string, seed int64, maxLen, steps int) *Heap {
	r := rand.New(rand.NewSource(seed))
	h := &Heap{}
	var ins []heapInput
	total := 0
	for i := []int{0, 1, 1, 1, 2, 2, 2, 3, 4, 7, 1, 2, 2, 3, 5, 9, 17, 40}[r.Intn(18)]; i > 0; i-- {
		in := heapInput{fill: byte(r.Intn(200))}
		if r.Intn(4) > 0 {
			in.N = r.Intn(maxLen)
		}
		if r.Intn(2) == 0 {
			in.Pre = r.Intn(5)
		}
		if r.Intn(2) == 0 {
			in.Room = r.Intn(2*maxLen + 8)
		}
		ins = append(ins, in)
		if total += in.Pre + in.N + in.Room; total > 150000 {
			break
		}
	}
	others := 0
	if r.Intn(3) == 0 {
		others = 1 + r.Intn(2)
	}
	if h.drop = seed%17 == 3; h.drop {
		others = 2
		if len(ins) == 1 {
			ins = append(ins, ins[0])
		}
	}
	h.build(kind, fmt.Sprintf("heap seed=%d max=%d steps=%d", seed, maxLen, steps), ins, others, "")
	if h.drop {
		h.step(&heapEv{A: "view"})
	}
	g := newGen(r, kind, "C11")
	g.noBad, g.bad = true, 0
	g.maxLen = maxLen
	g.large = maxLen > 200
	for i := 0; i < steps; i++ {
		x := r.Intn(20)
		switch {
		case x < 6 && len(h.objs) > 0:
			j := r.Intn(len(h.objs))
			o := h.objs[j]
			if o.st == "free" || len(o.mem) == 0 {
				continue
			}
			k := r.Intn(len(o.mem))
			if o.st == "live" && len(h.d) > 0 && r.Intn(3) > 0 {
				k = o.lo + []int{0, len(h.d) - 1, r.Intn(len(h.d))}[r.Intn(3)]
			}
			v := byte(r.Intn(256))
			if v == o.mem[k] {
				v ^= 0x5A
			}
			h.step(&heapEv{A: "poke", J: j, I: k, V: v})
		case x < 8:
			h.step(&heapEv{A: "view"})
		case x < 10 && len(h.objs) > 0 && len(h.d) > 0:
			j := r.Intn(len(h.objs))
			o := h.objs[j]
			if o.st == "free" || len(o.mem) == 0 {
				continue
			}
			k := r.Intn(len(o.mem))
			n := 1 + r.Intn(len(o.mem)-k)
			p := r.Intn(len(h.d))
			if o.st == "live" && r.Intn(2) == 0 { // a small move of much of it
				k, n = o.lo, len(h.d)
				if n > 1 {
					x := 1 + r.Intn((n+3)/4)
					n -= x
					p = 0
					if r.Intn(2) == 0 {
						p = x
					} else {
						k += x
					}
				}
			}
			if n > len(h.d)-p {
				n = len(h.d) - p
			}
			h.step(&heapEv{A: "put", J: j, I: k, O: &Op{Op: "write", K: "bytes", W: 1, E: "LE", Off: int64(p), N: int64(n), Next: r.Intn(2) == 0}})
		case x < 11 && others > 0:
			j := len(ins) + r.Intn(others)
			if h.objs[j].sib == nil {
				continue
			}
			h.step(&heapEv{A: "sib", J: j, O: inPlaceOp(r, len(h.objs[j].mem))})
		default:
			o := g.Next(&h.s)
			if o.Op == "poke" {
				continue
			}
			sp := 0
			if r.Intn(2) == 0 {
				sp = r.Intn(6)
			}
			h.step(&heapEv{A: "call", O: o, Sp: sp})
		}
	}
	return h
}

// modeHeap records -traces random histories, and those of as many more as fit
// in the budget in which something looks odd.
func modeHeap() {
	f, w := outFile(*fOut)
	ks := kinds()
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	runs, events, found := 0, 0, 0
	large := *fVar == "large"
	var big *Heap
	for i := 0; i < *fTraces || time.Now().Before(end); i++ {
		max, steps := 20, 14
		if i%7 == 6 {
			max = 70
		}
		if i >= *fTraces {
			steps = []int{8, 14, 30, 60}[i%4]
			if i%31 == 30 {
				max = 900
			}
		}
		if large {
			max, steps = 1<<uint(8+i/len(ks)%9)+i%50, 6
		}
		h := randomHeap(ks[i%len(ks)], *fSeed*1000003+int64(i), max, steps)
		runs++
		events += h.n
		if h.odd && len(h.j.b) > 1<<21 { // too long to be judged quickly
			if big == nil || len(h.j.b) < len(big.j.b) {
				big = h
			}
			continue
		}
		if i < *fTraces || h.odd {
			h.close(w)
			if h.odd {
				found++
			}
			if found >= *fMax {
				break
			}
		}
	}
	if big != nil && found == 0 {
		big.close(w)
		found++
	}
	w.Flush()
	f.Close()
	fmt.Printf("runs=%d events=%d odd=%d\n", runs, events, found)
}

type heapVec struct {
	Shape [][3]int `json:"shape"`
	H     []struct {
		A string `json:"a"`
		P int64  `json:"p"`
		W int    `json:"w"`
		N int64  `json:"n"`
	} `json:"h"`
}

// vecHeap replays a history of HeapMC.tla; rot selects families and forms.
func vecHeap(kind string, line string, rot int) *Heap {
	var v heapVec
	if err := json.Unmarshal([]byte(line), &v); err != nil {
		fatal(err, line)
	}
	var ins []heapInput
	for i, s := range v.Shape {
		ins = append(ins, heapInput{Pre: s[0], N: s[1], Room: s[2], fill: byte((rot + i) % 2)})
	}
	h := &Heap{}
	var j jw
	j.s(`,"rot":`).i(int64(rot)).s(`,"line":`).q(line)
	h.build(kind, "heapvec", ins, 0, string(j.b))
	x := rot
	draw := func(n int) int { k := x % n; x = x/n + 7919*(x%n) + 13; return k }
	for _, a := range v.H {
		switch a.A {
		case "view":
			h.step(&heapEv{A: "view"})
		case "poke":
			j := a.W - 1
			if j >= len(h.objs) || int(a.P) >= len(h.objs[j].mem) || h.objs[j].st == "free" {
				continue // a call before it did not do what it should: judged there
			}
			h.step(&heapEv{A: "poke", J: j, I: int(a.P), V: byte(a.N)})
		case "put":
			j := a.W - 1
			if j >= len(h.objs) || h.objs[j].st != "live" || a.P+a.N > int64(len(h.d)) {
				continue
			}
			i := h.objs[j].lo + 1 - int(a.P)
			if i+int(a.N) > len(h.objs[j].mem) {
				continue
			}
			h.step(&heapEv{A: "put", J: j, I: i, O: &Op{Op: "write", K: "bytes", W: 1, E: "LE", Off: a.P, N: a.N, Next: draw(2) == 0}})
		case "write", "read":
			o := &Op{Op: a.A, W: a.W, E: []string{"LE", "BE"}[draw(2)], Off: a.P}
			switch {
			case a.W == 1:
				o.K = "bytes"
				if Ver == 1 && draw(2) == 0 {
					o.K = "C"
				}
			case Ver == 1:
				o.K = "C"
			case Ver == 2:
				o.K = "U"
			case a.W == 2:
				o.K = []string{"U", "I"}[draw(2)]
			default:
				o.K = []string{"U", "I", "F"}[draw(3)]
			}
			if draw(2) == 0 {
				o.Next = true
				h.t.Exec(&Op{Op: "seek", Off: a.P})
			}
			if a.A == "write" {
				for i := int64(0); i < a.N; i++ {
					o.Vals = append(o.Vals, 0x3132333435363738+uint64(0x0101010101010101*i)&mask(a.W))
				}
				for i := range o.Vals {
					o.Vals[i] &= mask(a.W)
				}
			} else {
				o.N = a.N
				if kind == "mini" && isTyped(o.K) {
					o.Pre = make([]uint64, a.N)
				}
			}
			h.step(&heapEv{A: "call", O: o})
		case "flip":
			h.step(&heapEv{A: "call", O: &Op{Op: "allb", V: 2}})
		case "reset":
			if Ver == 1 {
				continue
			}
			h.step(&heapEv{A: "call", O: &Op{Op: "reset"}})
		case "trl", "trr":
			if Ver < 3 {
				continue
			}
			h.step(&heapEv{A: "call", O: &Op{Op: a.A, N: a.N}})
		default:
			h.step(&heapEv{A: "call", O: &Op{Op: a.A, N: a.N}})
		}
	}
	return h
}

func modeHeapVec() {
	f, w := outFile(*fOut)
	runs, events, found := 0, 0, 0
	lines(*fIn, func(l string) {
		if !strings.HasPrefix(l, `"HEAP `) || found >= *fMax {
			return
		}
		u, err := strconv.Unquote(l)
		if err != nil {
			fatal(err, l)
		}
		u = strings.TrimPrefix(u, "HEAP ")
		for _, k := range kinds() {
			h := vecHeap(k, u, int(hashString(u)%100003))
			runs++
			events += h.n
			if h.odd || runs <= *fTraces {
				h.close(w)
				if h.odd {
					found++
				}
			}
		}
	})
	w.Flush()
	f.Close()
	fmt.Printf("vectors=%d steps=%d odd=%d\n", runs, events, found)
}

// modeHeapExec runs recorded histories again.
func modeHeapExec() {
	f, w := outFile(*fOut)
	lines(*fIn, func(l string) {
		var t struct {
			T struct {
				Kind string `json:"kind"`
			} `json:"t"`
			Origin string `json:"origin"`
			Rot    int    `json:"rot"`
			Line   string `json:"line"`
		}
		if err := json.Unmarshal([]byte(l), &t); err != nil {
			fatal(err)
		}
		var h *Heap
		if t.Line != "" {
			h = vecHeap(t.T.Kind, t.Line, t.Rot)
		} else {
			var seed int64
			var max, steps int
			if _, err := fmt.Sscanf(t.Origin, "heap seed=%d max=%d steps=%d", &seed, &max, &steps); err != nil {
				fatal(err)
			}
			h = randomHeap(t.T.Kind, seed, max, steps)
		}
		h.close(w)
	})
	w.Flush()
	f.Close()
}
