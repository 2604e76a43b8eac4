package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

func init() {
	modes["pair"] = modePair
	modes["pairsweep"] = modePairSweep
	modes["pairvec"] = modePairVec
	modes["pairexec"] = modePairExec
}

// Pair is two buffers driven in lockstep.
type Pair struct {
	a, b   *Target
	sa, sb Obs
	j      jw
	pa, pb []byte // contents last logged
	n      int
	c      *Target // C17: another buffer that was reset, also in use
	cn     int
}

// bystand uses the bystander, the same way in every execution.
func (p *Pair) bystand() {
	if p.c == nil {
		return
	}
	p.cn++
	switch p.cn % 5 {
	case 0:
		p.c.Exec(&Op{Op: "reset"})
	case 2:
		p.c.Exec(&Op{Op: "allb", V: 2})
	default:
		p.c.Exec(&Op{Op: "grow", N: int64(1 + p.cn*7%13)})
		p.c.Exec(&Op{Op: "allb", V: 1})
	}
}

func (j *jw) side(r *Res, s *Obs, prev []byte) *jw {
	return j.s(`{"r":`).res(r).obs(s, prev, 0).s("}")
}

func (p *Pair) open(kind, origin string, layout int, d0 []byte, h1 []*Op) {
	p.sa, p.sb = p.a.Observe(nil), p.b.Observe(nil)
	p.j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(kind).s(`},"origin":`).q(origin)
	p.j.s(`,"layout":`).i(int64(layout)).s(`,"d0":`).bytes(d0).s(`,"h1":[`)
	for i, o := range h1 {
		if i > 0 {
			p.j.s(",")
		}
		p.j.op(o, 0)
	}
	p.j.s(`],"a0":{"x":0`).obs(&p.sa, nil, 0).s(`},"b0":{"x":0`).obs(&p.sb, nil, 0).s(`},"ev":[`)
	p.pa, p.pb = clone(p.sa.D), clone(p.sb.D)
	onHang = func(o *Op) {} // set by the caller
}

func opFor(o *Op, kind string) *Op {
	c := *o
	c.Pre = nil
	if o.Op == "read" && kind == "mini" && isTyped(o.K) {
		n := o.N
		if n < 0 || n > 1<<20 {
			n = 0
		}
		c.Pre = make([]uint64, n)
		for i := range c.Pre {
			c.Pre[i] = 0xA5A5A5A5A5A5A5A5 & mask(o.W)
		}
	}
	return &c
}

// step makes the call on both; false if what is observed differs.
// pastTail is how the past of a buffer that is reset may end: with positions
// anywhere, with nothing left, reset before.
func pastTail(n int) []*Op {
	seek, seekb := &Op{Op: "seek", Off: int64(1 + n%5)}, &Op{Op: "seekb", Off: int64(3 + n%29)}
	all := &Op{Op: "trr", N: -7}
	if n%2 == 1 {
		all.Op = "trl"
	}
	if Ver < 3 {
		all = &Op{Op: "reset"}
	}
	switch n % 7 {
	case 1:
		return []*Op{seek, seekb}
	case 2:
		return []*Op{seek, seekb, all}
	case 3:
		return []*Op{all, seek, seekb}
	case 4:
		return []*Op{{Op: "reset"}, seek, seekb}
	case 5:
		return []*Op{{Op: "reset"}, seekb, {Op: "grow", N: int64(n % 4)}, {Op: "allb", V: 1}, seek}
	case 6:
		return []*Op{seekb, {Op: "allb", V: 1}, {Op: "refresh"}}
	}
	return nil
}

// settle gives a truncation of everything its number.
func settle(o *Op, s *Obs) *Op {
	if o.N == -7 {
		o.N = int64(len(s.D))
	}
	return o
}

func (p *Pair) step(o *Op) bool {
	oa, ob := opFor(o, p.a.Kind), opFor(o, p.b.Kind)
	if p.a.Kind == p.b.Kind {
		oa, ob = o, o
	}
	lo := *o
	if p.a.Kind != p.b.Kind {
		lo.Pre = nil
	}
	p.bystand()
	ra := p.a.Exec(oa)
	rb := p.b.Exec(ob)
	p.sa, p.sb = p.a.Observe(o), p.b.Observe(o)
	if p.n > 0 {
		p.j.s(",")
	}
	p.n++
	p.j.s(`{"o":`).op(&lo, 0).s(`,"a":`).side(&ra, &p.sa, p.pa).s(`,"b":`).side(&rb, &p.sb, p.pb).s("}")
	if string(p.pa) != string(p.sa.D) {
		p.pa = clone(p.sa.D)
	}
	if string(p.pb) != string(p.sb.D) {
		p.pb = clone(p.sb.D)
	}
	return p.same() && sameRes(&ra, &rb)
}

func (p *Pair) same() bool {
	a, b := &p.sa, &p.sb
	return string(a.D) == string(b.D) && a.Off == b.Off && a.Boff == b.Boff && a.Cap == b.Cap && a.Bcap == b.Bcap && a.Lk == b.Lk
}

func sameRes(a, b *Res) bool {
	return a.K == b.K && a.E == b.E && a.IsInt == b.IsInt && a.I == b.I && a.W == b.W && sameList(a.List, b.List)
}

// close ends the log; the start is judged with the first call, so there is one.
func (p *Pair) close(w *bufio.Writer) {
	if p.n == 0 {
		p.step(&Op{Op: "refresh"})
	}
	p.j.s("]}\n")
	w.Write(p.j.b)
}

func (p *Pair) hang(w *bufio.Writer, o *Op) {
	if p.n > 0 {
		p.j.s(",")
	}
	p.j.s(`{"o":`).op(o, 0).s(`,"a":{"r":{"k":"hang","e":"hang"}},"b":{"r":{"k":"hang","e":"hang"}}}`)
	p.close(w)
	w.Flush()
}

// mkPair builds the two sides: C12, a Buffer and a MiniBuffer with the same
// contents; C17, a used and then reset buffer and a new one.
func mkPair(kind string, layout int, d0 []byte, h1 []*Op) *Pair {
	p := &Pair{}
	if *fProfile == "C12" {
		p.a = setup("buffer", d0, 0, 0, layout)
		p.b = setup("mini", d0, 0, 0, layout)
		return p
	}
	p.a = setup(kind, d0, 0, 0, layout)
	for _, o := range h1 {
		p.a.Exec(o)
		p.a.Observe(o)
	}
	p.a.Exec(&Op{Op: "reset"})
	p.a.Observe(&Op{Op: "reset"})
	p.b = newTarget(kind)
	p.b.how = p.a.how
	if layout%3 != 0 {
		p.c = setup(kind, []byte{1, 2, 3, 4, 5}[:layout%6], 0, 0, layout/5)
		p.c.Exec(&Op{Op: "reset"})
	}
	return p
}

func modePair() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	runs, events, found := 0, 0, 0
	for i := 0; i < *fTraces || time.Now().Before(end); i++ {
		kind := []string{"buffer", "mini"}[i%2]
		gk := kind
		if *fProfile == "C12" {
			gk = "mini" // what both can do, in range
		}
		g := newGen(rng, gk, *fProfile)
		if rng.Intn(20) == 0 {
			g.maxLen = 200
		}
		d0 := g.contents(initLens[rng.Intn(len(initLens))])
		if rng.Intn(8) == 0 {
			d0 = g.contents(longLens[rng.Intn(len(longLens))])
		}
		large := *fVar == "large"
		if large {
			g.setLarge()
			d0 = g.contents(g.largeLen())
		}
		layout := rng.Intn(4096)
		n := *fLen
		if rng.Intn(8) == 0 {
			n *= 4
		}
		if large {
			n = 3 + rng.Intn(6)
		}
		var h1 []*Op
		var p *Pair
		if *fProfile == "C17" {
			// the past of the buffer that is reset
			g.bad = map[string]float64{"buffer": 0.15}[kind]
			x := setup(kind, d0, 0, 0, layout)
			s := x.Observe(nil)
			onHang = func(o *Op) {
				p = &Pair{a: newTarget(kind), b: newTarget(kind)}
				p.open(kind, "pair", layout, d0, h1)
				p.hang(w, o)
			}
			for k := rng.Intn(n + 1); k > 0; k-- {
				o := g.Next(&s)
				h1 = append(h1, o)
				x.Exec(o)
				s = x.Observe(o)
			}
			for _, o := range pastTail(rng.Intn(1 << 20)) {
				settle(o, &s)
				h1 = append(h1, o)
				x.Exec(o)
				s = x.Observe(o)
			}
		}
		p = mkPair(kind, layout, d0, h1)
		p.open(kind, fmt.Sprintf("pair seed=%d #%d", *fSeed, i), layout, d0, h1)
		onHang = func(o *Op) { p.hang(w, o) }
		runs++
		ok := p.same()
		for k := 0; k < n && ok; k++ {
			var o *Op
			if k == 0 && *fProfile == "C17" && rng.Intn(4) > 0 {
				o = &Op{Op: "grow", N: g.in(0, 40)}
				if large {
					o.N = int64(g.largeLen())
				}
			} else {
				for o == nil || o.Op == "poke" || p.sb.Cap != int64(len(p.sb.D)) && o.Op == "grow" && o.N > 1000 && !large {
					o = g.Next(&p.sb)
				}
			}
			ok = p.step(o)
			events++
		}
		onHang = nil
		if i < *fTraces && ok || !ok && room(p.j.b) {
			p.close(w)
		}
		if !ok {
			found++
			if found >= *fMax {
				break
			}
		}
	}
	w.Flush()
	f.Close()
	fmt.Printf("runs=%d events=%d surprising=%d\n", runs, events, found)
}

// modePairVec replays the behaviours CrunchVec enumerates on both sides; all
// are compared, the first *fTraces and those that differ are recorded.
func modePairVec() {
	f, w := outFile(*fOut)
	vectors, steps, differ := 0, 0, 0
	marker := fmt.Sprintf(`\"v\":%d}`, Ver)
	marker2 := fmt.Sprintf(`\"v\":%d,`, Ver)
	lines(*fIn, func(l string) {
		if !strings.HasPrefix(l, `"VEC `) || differ >= *fMax || !strings.Contains(l, marker) && !strings.Contains(l, marker2) {
			return
		}
		u, err := strconv.Unquote(l)
		if err != nil {
			fatal(err, l)
		}
		var v vector
		if err := json.Unmarshal([]byte(u[4:]), &v); err != nil {
			fatal(err, l)
		}
		if v.T.V != Ver {
			return
		}
		layout := v.layout(l)
		a := v.H[0].S
		var ops []*Op
		for i := range v.H {
			if o := v.H[i].O.op(); o.Op != "poke" || *fProfile == "C12" {
				ops = append(ops, o)
			}
		}
		ok := true
		var p *Pair
		if *fProfile == "C17" {
			// the behaviour after a reset of a buffer with a past: the
			// behaviour itself is the past too
			past := append([]*Op{{Op: "seek", Off: a.Off}, {Op: "seekb", Off: a.Boff}}, ops...)
			if tail := pastTail(layout); len(tail) > 0 {
				x := setup(v.T.Kind, toBytes(a.D), 0, 0, layout)
				s := x.Observe(nil)
				for _, o := range past {
					x.Exec(o)
					s = x.Observe(o)
				}
				for _, o := range tail {
					past = append(past, settle(o, &s))
					x.Exec(o)
					s = x.Observe(o)
				}
			}
			p = mkPair(v.T.Kind, layout, toBytes(a.D), past)
			p.open(v.T.Kind, "vector", layout, toBytes(a.D), past)
			ok = p.same()
		} else {
			p = mkPair(v.T.Kind, layout, toBytes(a.D), nil)
			p.open(v.T.Kind, "vector", layout, toBytes(a.D), nil)
			ops = append([]*Op{{Op: "seek", Off: a.Off}, {Op: "seekb", Off: a.Boff}}, ops...)
		}
		onHang = func(o *Op) { p.hang(w, o) }
		vectors++
		if *fProfile == "C17" {
			ops = append([]*Op{{Op: "grow", N: int64(2 + layout%9)}}, ops...)
		}
		for _, o := range ops {
			if !ok {
				break
			}
			if *fProfile == "C17" && p.a.Kind == "mini" && !inRangeGo(&p.sb, o) {
				break
			}
			ok = p.step(o)
			steps++
		}
		onHang = nil
		if !ok {
			differ++
		}
		if ok && vectors <= *fTraces || !ok && room(p.j.b) {
			p.close(w)
		}
	})
	w.Flush()
	f.Close()
	fmt.Printf("vectors=%d steps=%d surprising=%d\n", vectors, steps, differ)
}

// inRangeGo: whether an unchecked buffer may be asked to do o.
func inRangeGo(s *Obs, o *Op) bool {
	x := predict("mini", s.D, s.Off, s.Boff, o)
	return x.ok && len(x.rej) == 0
}

func modePairExec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		var v struct {
			T struct {
				Kind string `json:"kind"`
			} `json:"t"`
			Layout int      `json:"layout"`
			D0     []int    `json:"d0"`
			H1     []jsonOp `json:"h1"`
			Ev     []struct {
				O jsonOp `json:"o"`
			} `json:"ev"`
		}
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			fatal(err)
		}
		var h1 []*Op
		for i := range v.H1 {
			h1 = append(h1, v.H1[i].op())
		}
		p := mkPair(v.T.Kind, v.Layout, toBytes(v.D0), h1)
		p.open(v.T.Kind, "reexec", v.Layout, toBytes(v.D0), h1)
		onHang = func(o *Op) { p.hang(w, o) }
		for i := range v.Ev {
			p.step(v.Ev[i].O.op())
		}
		onHang = nil
		p.close(w)
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}

// modePairSweep makes the single calls of sweepAll on both sides: C12, from
// the same contents; C17, after a reset buffer and a new one were brought to
// the same contents. Those that differ are recorded.
func modePairSweep() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	calls, found := 0, 0
	for _, kind := range kinds() {
		gk := kind
		if *fProfile == "C12" {
			if kind != "mini" {
				continue
			}
			kind = "buffer"
		}
		g := newGen(rng, gk, *fProfile)
		sweepAll(g, func(d []byte, off, boff int64, o *Op) {
			if found >= *fMax || len(d) > 80 && rng.Intn(3) > 0 {
				return
			}
			x := predict(gk, d, off, boff, o)
			if gk == "mini" && (len(x.rej) > 0 || !x.ok) {
				return
			}
			if o.Op == "read" && gk == "mini" && isTyped(o.K) && *fProfile != "C12" {
				o.Pre = g.values(o.K, o.W, o.N+moreSwept(calls))
			}
			layout := calls * 5 % 4096
			calls++
			var p *Pair
			ops := []*Op{{Op: "seek", Off: off}, {Op: "seekb", Off: boff}, o}
			if *fProfile == "C12" {
				p = mkPair(kind, layout, d, nil)
				p.open(kind, "sweep", layout, d, nil)
			} else {
				past := []*Op{{Op: "allb", V: int64(calls % 3)}}
				p = mkPair(kind, layout, d, past)
				p.open(kind, "sweep", layout, d, past)
				if len(d) > 0 {
					vals := make([]uint64, len(d))
					for i := range d {
						vals[i] = uint64(d[i])
					}
					ops = append([]*Op{{Op: "grow", N: int64(len(d))}, {Op: "write", K: "bytes", W: 1, E: "LE", Vals: vals}}, ops...)
				}
			}
			onHang = func(o *Op) { p.hang(w, o) }
			ok := p.same()
			for _, o := range ops {
				if ok {
					ok = p.step(o)
				}
			}
			onHang = nil
			if !ok {
				found++
				if room(p.j.b) {
					p.close(w)
				}
			}
		})
	}
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d surprising=%d\n", calls, found)
}
