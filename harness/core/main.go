package main

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"
)

var (
	fMode    = flag.String("mode", "trace", "")
	fOut     = flag.String("out", "", "trace file to write")
	fIn      = flag.String("in", "", "input file")
	fSeed    = flag.Int64("seed", 1, "")
	fProfile = flag.String("profile", "all", "")
	fKinds   = flag.String("kinds", "buffer,mini", "")
	fTraces  = flag.Int("traces", 100, "")
	fLen     = flag.Int("len", 20, "")
	fBudget  = flag.Float64("budget", 1, "seconds of scouting")
	fMax     = flag.Int("max", 20, "most traces a scout writes")
	fVar     = flag.String("variant", "", "")
)

func kinds() []string {
	if *fKinds == "buffer" || *fKinds == "mini" {
		return []string{*fKinds}
	}
	return []string{"buffer", "mini"}
}

func main() {
	flag.Parse()
	startWatchdog()
	switch *fMode {
	case "trace":
		modeTrace()
	case "scout":
		modeScout()
	default:
		f, ok := modes[*fMode]
		if !ok {
			fatal("unknown mode", *fMode)
		}
		f()
	}
}

var modes = map[string]func(){}

// modeTrace records random executions.
func modeTrace() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	events := 0
	ks := kinds()
	for i := 0; i < *fTraces; i++ {
		kind := ks[i%len(ks)]
		g := newGen(rng, kind, *fProfile)
		events += record(g, w, *fLen, fmt.Sprintf("random seed=%d #%d", *fSeed, i))
	}
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d events=%d\n", *fTraces, events)
}

// record runs and records one random execution.
func record(g *Gen, w *bufio.Writer, n int, origin string) int {
	t := g.start()
	s := t.Observe(nil)
	tr := newTrace(g.kind, origin, g.layout, &s)
	onHang = func(o *Op) { tr.Hang(o); tr.Close(w); w.Flush() }
	defer func() { onHang = nil }()
	runTraced(t, tr, &s, func(i int) *Op {
		if i == n {
			return nil
		}
		return g.Next(&s)
	})
	tr.Close(w)
	return n
}

// runTraced executes and records the calls next yields. Depending on the
// profile each event also carries what the positional form of the call (C08),
// or the same call on a fresh copy of the buffer (C07, after a panic), does.
func runTraced(t *Target, tr *Trace, s *Obs, next func(i int) *Op) {
	panicked := false
	for i := 0; ; i++ {
		o := next(i)
		if o == nil {
			return
		}
		extra := ""
		if *fProfile == "C08" && o.Next {
			extra = positional(t, s, o)
		}
		if *fProfile == "C07" && panicked && o.Op != "poke" {
			extra = freshCopy(t, s, o)
		}
		r := t.Exec(o)
		*s = t.Observe(o)
		panicked = panicked || r.K == "panic"
		tr.Event(o, &r, s, extra)
	}
}

// freshCopy makes the same call on a new buffer in the same observable state.
func freshCopy(t *Target, s *Obs, o *Op) string {
	c := newTarget(t.Kind, clone(s.D))
	c.Exec(&Op{Op: "seek", Off: s.Off})
	c.Exec(&Op{Op: "seekb", Off: s.Boff})
	r := c.Exec(o)
	cs := c.Observe(o)
	var j jw
	j.s(`,"c":{"r":`).res(&r).s(`,"d":`).bytes(cs.D).obsTail(&cs).s("}")
	return string(j.b)
}

// positional runs the positional form of a ...Next call on a copy and
// returns its outcome as a JSON field.
func positional(t *Target, s *Obs, o *Op) string {
	c := newTarget(t.Kind, clone(s.D))
	bit := o.Op == "rbit" || o.Op == "rbits" || o.Op == "setb" || o.Op == "flip" || o.Op == "sbits"
	p := *o
	p.Next = false
	p.Off = s.Off
	if bit {
		p.Off = s.Boff
	}
	r := c.Exec(&p)
	cs := c.Observe(&p)
	var j jw
	j.s(`,"p":{"r":`).res(&r).s(`,"d":`).bytes(cs.D).s("}")
	return string(j.b)
}

// modeScout runs as many random executions as fit in the budget and records
// those that predict() finds surprising.
func modeScout() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	ks := kinds()
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	runs, events, found := 0, 0, 0
	seen := map[string]int{}
	for i := 0; ; i++ {
		if (i%16 == 0 || *fVar != "") && time.Now().After(end) {
			break
		}
		kind := ks[i%len(ks)]
		g := newGen(rng, kind, *fProfile)
		n := *fLen
		switch rng.Intn(8) {
		case 0:
			n = 3
		case 1:
			n *= 4
		}
		var t *Target
		switch {
		case *fVar == "large":
			var size int
			t, size = g.startLarge()
			n = 3 + rng.Intn(6)
			if size > 40000 {
				n = 3
			}
		case *fVar == "vast":
			n = 1 + rng.Intn(3)
			g.setLarge()
			g.maxLen = 1 << 19
			t = g.startLen(int(g.nearPow2(17, 21)))
		case rng.Intn(200) == 0: // a long life
			n = 3000
			t = g.start()
		case rng.Intn(40) == 0:
			g.maxLen = 400
			t = g.startLen(200 + rng.Intn(900))
		case rng.Intn(400) == 0:
			g.maxLen = 3000
			n = 6
			t = g.startLen(1000 + rng.Intn(9000))
		case rng.Intn(4000) == 0:
			g.maxLen = 70000
			n = 5
			t = g.startLen(60000 + rng.Intn(90000))
		default:
			if rng.Intn(6) == 0 {
				g.maxLen = 40
			}
			t = g.start()
		}
		s := t.Observe(nil)
		s0 := s
		s0.D = clone(s.D)
		var ops []*Op
		pre := clone(s.D)
		hung := func(o *Op) {
			tr := newTrace(kind, "scout", g.layout, &s0)
			tr.Hang(o)
			tr.Close(w)
			w.Flush()
		}
		onHang = hung
		bad := -1
		for k := 0; k < n; k++ {
			o := g.Next(&s)
			ops = append(ops, o)
			x := predict(kind, pre, s.Off, s.Boff, o)
			po, pb := s.Off, s.Boff
			r := t.Exec(o)
			s = t.Observe(o)
			events++
			if surprising(&x, pre, po, pb, o, &r, &s) {
				key := o.Op + o.K + kind + r.K
				if o.W > 0 {
					key += widthName(o.W)
				}
				if seen[key] >= 3 {
					break // enough of these
				}
				seen[key]++
				bad = k
				origin := fmt.Sprintf("scout seed=%d run=%d event=%d", *fSeed, i, k)
				// the whole history, if it is not too long and does it again
				whole := false
				if len(pre)*k < 200000 {
					onHang = nil
					t2 := setup(kind, s0.D, 0, 0, g.layout)
					q := t2.Observe(nil)
					tr := newTrace(kind, origin, g.layout, &q)
					runTraced(t2, tr, &q, func(i int) *Op {
						if i > k {
							return nil
						}
						return ops[i]
					})
					if string(q.D) == string(s.D) && q.Off == s.Off && q.Boff == s.Boff {
						tr.CloseOdd(w)
						whole = true
					}
				}
				if !whole { // the event itself, from the state it happened in
					ps := Obs{D: pre, Off: po, Boff: pb, Cap: int64(len(pre)), Bcap: 8 * int64(len(pre))}
					tr := newTrace(kind, origin, 0, &ps)
					tr.Event(o, &r, &s, "")
					tr.CloseOdd(w)
				}
				break
			}
			pre = append(pre[:0], s.D...)
		}
		onHang = nil
		runs++
		if bad >= 0 {
			found++
			if found >= *fMax {
				break
			}
		}
	}
	w.Flush()
	f.Close()
	fmt.Printf("runs=%d events=%d surprising=%d\n", runs, events, found)
	_ = os.Stdout
}
