package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"time"
)

func init() {
	modes["lockuse"] = modeLockUse
	modes["lockexec"] = modeLockExec
	modes["locksweep"] = modeLockSweep
}

// What the lock-aware part of the driver supplies: run makes the call and
// returns its outcome and the operations on the buffer's lock it performed;
// the default runs on the library as it is.
var lockRun = func(t *Target, f func() Res) (Res, []string) {
	ch := make(chan Res, 1)
	go func() { ch <- f() }()
	select {
	case r := <-ch:
		return r, nil
	case <-time.After(5 * time.Second):
		hangs++
		return Res{K: "hang"}, nil
	}
}

// lockTry tells whether the lock is free.
var lockFree = func(t *Target) bool { return t.lockState() == 0 }

var hangs int

type lockTraceT struct {
	run  func(*Target, func() Res) (Res, []string)
	j    jw
	n    int
	stop bool
}

func (l *lockTraceT) event(t *Target, o *Op, held bool, f func() Res) {
	lk := t.P.(interface {
		Lock()
		Unlock()
	})
	if held {
		lk.Lock()
	}
	r, ops := l.run(t, f)
	if l.n > 0 {
		l.j.s(",")
	}
	l.n++
	l.j.s(`{"o":`).op(o, 0).s(`,"held":`).bool(held).s(`,"ops":[`)
	for i, x := range ops {
		if i > 0 {
			l.j.s(",")
		}
		l.j.q(x)
	}
	l.j.s(`],"r":{"k":`).q(r.K)
	if r.K == "panic" {
		l.j.s(`,"e":`).q(r.E)
	}
	l.j.s("}")
	if r.K == "hang" {
		l.stop = true
		l.j.s(`,"after":"unknown"}`)
		return
	}
	after := "held"
	if lockFree(t) {
		after = "free"
	}
	l.j.s(`,"after":`).q(after).s("}")
	if after == "held" {
		lk.Unlock()
	}
}

// badMini: calls the unchecked buffer answers with a runtime panic, if it
// answers them at all; small enough to be harmless.
func badMini(s *Obs, rng *rand.Rand) *Op {
	cp := s.Cap
	k, w := "U", []int{2, 4, 8}[rng.Intn(3)]
	if Ver == 1 {
		k = "C"
	}
	e := []string{"LE", "BE"}[rng.Intn(2)]
	switch rng.Intn(9) {
	case 0:
		return &Op{Op: "rbit", Off: 8*cp + int64(rng.Intn(9))}
	case 1:
		return &Op{Op: "rbits", Off: 8*cp - 3, N: int64(4 + rng.Intn(8))}
	case 2:
		return &Op{Op: "sbits", Off: 8*cp - 3, N: int64(4 + rng.Intn(8)), Val: rng.Uint64()}
	case 3:
		return &Op{Op: "flip", Off: 8*cp + int64(rng.Intn(9))}
	case 4:
		return &Op{Op: "setb", Off: 8*cp + int64(rng.Intn(9)), V: int64(rng.Intn(3))}
	case 5:
		return &Op{Op: "read", K: k, W: w, E: e, Off: cp, N: 2, Pre: []uint64{1, 2}}
	case 6:
		return &Op{Op: "read", K: k, W: w, E: e, Off: 0, N: 1, Pre: []uint64{}}
	case 7:
		return &Op{Op: "write", K: k, W: w, E: e, Off: cp, Vals: []uint64{1, 2}}
	}
	return &Op{Op: "setb", Off: 0, V: 2}
}

// modeLockUse records calls on MiniBuffers whose lock the caller holds, or
// does not hold.
func modeLockUse() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	n := 0
	for _, o := range concOps() {
		if !has("mini", o) {
			continue
		}
		x := *o
		if isTyped(o.K) && o.Op == "read" {
			x.Pre = make([]uint64, o.N+1)
		}
		for _, held := range []bool{true, false} {
			n += lockTrace(w, setup("mini", ramp3(12), 4, 13, 4*rng.Intn(4)), &x, held, nil, nil)
		}
	}
	for i := 0; i < *fTraces; i++ {
		g := newGen(rng, "mini", "C14")
		g.noPoke = true
		n += lockTrace(w, g.start(), nil, true, g, rng)
	}
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}

func ramp3(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i * 7)
	}
	return d
}

func lockTrace(w *bufio.Writer, t *Target, o *Op, held bool, g *Gen, rng *rand.Rand) int {
	if hangs > 2 {
		return 0
	}
	l := &lockTraceT{run: lockRun}
	s := Obs{}
	s.D, s.Off, s.Boff, s.Cap, s.Bcap = observe(t.P)
	l.j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":"mini"},"s0":{"d":`).bytes(s.D).obsTail(&s).s(`},"ev":[`)
	first := &Op{Op: "get", K: "len"} // also: is the lock of a new buffer free
	l.event(t, first, false, func() Res { return t.Exec(first) })
	if g == nil && !l.stop {
		l.event(t, o, held, func() Res { return t.Exec(o) })
	}
	for i := 0; g != nil && i < *fLen && !l.stop; i++ {
		var op *Op
		switch rng.Intn(8) {
		case 0:
			op = badMini(&s, rng)
		case 1:
			op = &Op{Op: "get", K: []string{"off", "boff", "cap", "bcap", "len"}[rng.Intn(5)]}
		default:
			op = g.Next(&s)
		}
		l.event(t, op, rng.Intn(4) > 0, func() Res { return t.Exec(op) })
		if l.stop {
			break
		}
		s.D, s.Off, s.Boff, s.Cap, s.Bcap = observe(t.P)
		s.Cap = int64(len(s.D))
	}
	l.j.s("]}\n")
	w.Write(l.j.b)
	return 1
}

// modeLockExec makes recorded calls again.
func modeLockExec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(line string) {
		var v struct {
			S0 struct {
				D    []int `json:"d"`
				Off  int64 `json:"off"`
				Boff int64 `json:"boff"`
			} `json:"s0"`
			Ev []struct {
				O    jsonOp `json:"o"`
				Held bool   `json:"held"`
			} `json:"ev"`
			Fill int64 `json:"fill"` // length of contents that are left out
		}
		if err := json.Unmarshal([]byte(line), &v); err != nil {
			fatal(err)
		}
		d := toBytes(v.S0.D)
		run := lockRun
		if v.Fill > 0 {
			d, run = make([]byte, v.Fill), lockSolo
		}
		t := setup("mini", d, v.S0.Off, v.S0.Boff, 0)
		l := &lockTraceT{run: run}
		s := Obs{}
		s.D, s.Off, s.Boff, s.Cap, s.Bcap = observe(t.P)
		if v.Fill > 0 {
			s.D = nil
		}
		l.j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":"mini"},"fill":`).i(v.Fill).s(`,"s0":{"d":`).bytes(s.D).obsTail(&s).s(`},"ev":[`)
		for i := range v.Ev {
			o := v.Ev[i].O.op()
			if l.stop {
				break
			}
			l.event(t, o, v.Ev[i].Held, func() Res { return t.Exec(o) })
		}
		l.j.s("]}\n")
		w.Write(l.j.b)
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}

// lockSolo is lockRun for calls that are made in great numbers; a call that
// blocks for good is left to the watchdog, if the lock-aware part of the
// driver does not notice it.
var lockSolo = func(t *Target, f func() Res) (Res, []string) { return f(), nil }

// modeLockSweep makes single calls of every kind and size, the lock held by
// the caller or not, and records those that do anything to it.
func modeLockSweep() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	calls, found := 0, 0
	g := newGen(rng, "mini", "C14")
	g.noPoke = true
	probe := func(t *Target, o *Op, d []byte, off, boff int64) bool {
		lk := t.P.(interface {
			Lock()
			Unlock()
		})
		held := calls%4 > 0
		calls++
		record := func(kind, e string, ops []string, after string) {
			var j jw
			fill := 0
			if len(d) > 2000 {
				d, fill = nil, len(d)
			}
			s := Obs{D: d, Off: off, Boff: boff, Cap: int64(len(d)), Bcap: 8 * int64(len(d))}
			j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":"mini"},"fill":`).i(int64(fill)).s(`,"s0":{"d":`).bytes(s.D).obsTail(&s).s(`},"ev":[{"o":`).op(o, 0)
			j.s(`,"held":`).bool(held).s(`,"ops":[`)
			for i, x := range ops {
				if i > 0 {
					j.s(",")
				}
				j.q(x)
			}
			j.s(`],"r":{"k":`).q(kind).s(`,"e":`).q(e).s(`},"after":`).q(after).s("}]}\n")
			w.Write(j.b)
			w.Flush()
			found++
		}
		if held {
			lk.Lock()
		}
		onHang = func(o *Op) { record("hang", "hang", nil, "unknown") }
		r, ops := lockSolo(t, func() Res { return t.Exec(o) })
		onHang = nil
		if r.K == "hang" {
			record("hang", "hang", ops, "unknown")
			return false
		}
		free := lockFree(t)
		if free == held || len(ops) > 0 {
			record(r.K, r.E, ops, map[bool]string{true: "free", false: "held"}[free])
			return false
		}
		if !free {
			lk.Unlock()
		}
		return true
	}
	try := func(d []byte, off, boff int64, o *Op) {
		x := predict("mini", d, off, boff, o)
		if found >= *fMax || len(x.rej) > 0 || !x.ok {
			return
		}
		if o.Op == "read" && isTyped(o.K) {
			o.Pre = make([]uint64, o.N+moreSwept(calls))
		}
		probe(setup("mini", d, off, boff, calls*5%4096), o, d, off, boff)
	}
	sweepLists(g, try)
	sweepBits(g, try)
	sweepWhole(g, try)
	sweepCursors(g, try)
	for v := int64(0); v < 3; v++ {
		for k := 0; k < 2; k++ {
			try(g.contents(2<<20+rng.Intn(1<<21)), 0, 0, &Op{Op: "allb", V: v})
		}
	}
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	for i := 0; found < *fMax && time.Now().Before(end); i++ {
		g = newGen(rng, "mini", "C14")
		g.noPoke = true
		n := 40
		t := (*Target)(nil)
		if i%2 == 0 {
			t = g.start()
		} else {
			t, _ = g.startLarge()
			n = 4
		}
		for k := 0; k < n; k++ {
			s := t.Observe(nil)
			d := s.D // only for the record
			if len(d) <= 2000 {
				d = clone(d)
			}
			if !probe(t, g.Next(&s), d, s.Off, s.Boff) {
				break
			}
		}
	}
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d surprising=%d\n", calls, found)
}
