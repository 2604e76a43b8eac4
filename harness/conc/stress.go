package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sync/atomic"
	"time"
)

func init() {
	modes["stress"] = modeStress
	modes["stressexec"] = modeStressExec
}

func warmUp() {
	warm := reflect.TypeOf(newBuffer())
	for i := 0; i < warm.NumMethod(); i++ {
		m := warm.Method(i)
		methodCache[methodKey{warm, m.Name}] = m.Func
	}
}

// modeStressExec runs the programs of recorded histories again, many times.
func modeStressExec() {
	f, w := outFile(*fOut)
	warmUp()
	n := 0
	lines(*fIn, func(l string) {
		p, _, _ := parseProgram(l)
		if n == 0 && *fBudget < 5 {
			*fBudget = 5
		}
		seen := map[string]int{}
		for end := time.Now().Add(time.Duration(*fBudget * float64(time.Second))); time.Now().Before(end) && len(seen) < 200; {
			out := stressed(p)
			k := out.perThread().key()
			if seen[k]++; seen[k] > 2 {
				continue
			}
			n++
			var j jw
			j.history(p, out).s(`,"misuse":""`).program(p, -1, nil).s("}\n")
			w.Write(j.b)
			if out.deadlock {
				break
			}
		}
	})
	w.Flush()
	f.Close()
	fmt.Printf("histories=%d\n", n)
}

// aliasing: calls whose results are live storage.
func aliasing(o *Op) bool {
	return o.Op == "read" && (o.K == "bytes" || o.K == "C" && o.W == 1)
}

// modeStress runs small programs truly in parallel on the library as it is
// and records the histories that occur, with the times calls began and ended.
func modeStress() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	warmUp()
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	programs, runs, histories := 0, 0, 0
	for ; time.Now().Before(end) && histories < *fMax; programs++ {
		p := &Program{Layout: 4 * rng.Intn(4)}
		if rng.Intn(3) == 0 {
			p.Layout = 1 + 4*rng.Intn(200)
		}
		size := []int{12, 12, 40, 300, 1500}[rng.Intn(5)]
		p.D, p.Off, p.Boff = ramp(size), int64(rng.Intn(5)), int64(rng.Intn(40))
		n := 2 + rng.Intn(2)
		calls := 0
		for t := 0; t < n; t++ {
			pool := concOps()
			if size > 12 {
				pool = append(pool, bigOps(size, uint64(t+1))...)
				pool = append(pool, bigOps(size, uint64(t+1))...)
			}
			var th []*Op
			for c := 1 + rng.Intn(3); c > 0 && calls < 6; c-- {
				o := pool[rng.Intn(len(pool))]
				if aliasing(o) {
					continue
				}
				calls++
				th = append(th, o)
				if rng.Intn(3) == 0 && calls < 6 { // the same again
					calls++
					th = append(th, o)
				}
			}
			p.Th = append(p.Th, th)
		}
		if rng.Intn(2) == 0 { // everyone does the same
			for t := 1; t < n; t++ {
				p.Th[t] = p.Th[0]
			}
		}
		seen := map[string]int{}
		for it := 0; it < 150 && len(seen) < 12; it++ {
			runs++
			out := stressed(p)
			k := out.perThread().key()
			seen[k]++
			if seen[k] > 2 && it%50 != 49 {
				continue
			}
			histories++
			var j jw
			j.history(p, out).s(`,"misuse":""`).program(p, -1, nil).s("}\n")
			w.Write(j.b)
			if out.deadlock {
				w.Flush()
				fmt.Printf("programs=%d runs=%d histories=%d\n", programs, runs, histories)
				os.Exit(0)
			}
		}
	}
	w.Flush()
	f.Close()
	fmt.Printf("programs=%d runs=%d histories=%d\n", programs, runs, histories)
}

// stressed runs p once, its goroutines at the same time.
func stressed(p *Program) *outcome {
	t := setup("buffer", p.D, p.Off, p.Boff, p.Layout)
	out := &outcome{}
	var times int64
	var ready int32
	hs := make([][]*hist, len(p.Th))
	done := make(chan bool, len(p.Th))
	frozen = true
	for i := range p.Th {
		for range p.Th[i] {
			hs[i] = append(hs[i], &hist{th: i, ret: 1 << 30, r: []*Res{{K: "hang"}}})
		}
		go func(i int) {
			atomic.AddInt32(&ready, 1)
			for s := 0; int(atomic.LoadInt32(&ready)) < len(p.Th) && s < 100000; s++ {
			}
			for k, o := range p.Th[i] {
				h := hs[i][k]
				h.o = []*Op{o}
				h.inv = int(atomic.AddInt64(&times, 1))
				r := t.Exec(o)
				h.ret = int(atomic.AddInt64(&times, 1))
				h.r[0] = &r
			}
			done <- true
		}(i)
	}
	limit := time.NewTimer(30 * time.Second)
	defer limit.Stop()
	for range p.Th {
		select {
		case <-done:
		case <-limit.C:
			out.deadlock = true
			for i := range p.Th { // fresh records: the goroutines may still write theirs
				for k, o := range p.Th[i] {
					out.h = append(out.h, &hist{th: i, inv: 2 * k, ret: 1 << 30, o: []*Op{o}, r: []*Res{{K: "hang"}}})
				}
			}
			return out
		}
	}
	frozen = false
	for _, q := range hs {
		out.h = append(out.h, q...)
	}
	var final Obs
	go func() {
		final.D, final.Off, final.Boff, final.Cap, final.Bcap = observe(t.P)
		done <- true
	}()
	select {
	case <-done:
		out.final = final
	case <-limit.C: // a lock is left held
		out.deadlock = true
	}
	return out
}
