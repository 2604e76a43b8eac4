package main

import (
	"fmt"
	"math/rand"
	"sync"

	vsync "VSYNC"
)

func init() {
	modes["sections"] = modeSections
	lockRun = lockRunInstrumented
	lockSolo = lockSoloInstrumented
}

// ownLocks: the locks the buffer's Lock method takes.
func ownLocks(t *Target) map[interface{}]bool {
	own := map[interface{}]bool{}
	l := t.P.(sync.Locker)
	if t.lockState() == 1 { // held by the caller
		l.Unlock()
		defer l.Lock()
	}
	vsync.Hook = func(x interface{}, what string) { own[x] = true }
	l.Lock()
	l.Unlock()
	vsync.Hook = nil
	return own
}

// lockRunInstrumented makes the call as the only thread of a scheduler, so
// that blocking is noticed at once, and notes what it does to the lock.
func lockRunInstrumented(t *Target, f func() Res) (r Res, ops []string) {
	own := ownLocks(t)
	alone := &sched{n: 1, end: make(chan bool, 1), maxSteps: 20000, done: []bool{false}, waiting: []func() bool{nil}, wake: []chan bool{make(chan bool)}}
	vsync.Hook = func(l interface{}, what string) {
		if own[l] {
			ops = append(ops, what)
		}
	}
	vsync.Sched = alone
	defer func() {
		vsync.Sched, vsync.Hook = nil, nil
		if x := recover(); x != nil {
			if _, ok := x.(abort); !ok {
				panic(x)
			}
		}
		if alone.aborted {
			r = Res{K: "hang"}
		}
	}()
	r = f()
	return
}

// modeSections explores schedules of goroutines that bracket calls on one
// MiniBuffer with its Lock and Unlock.
func modeSections() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	x := &explorer{w: w}
	var ops []*Op
	for _, o := range concOps() {
		if !has("mini", o) || o.Op == "reset" || o.Op == "setb" && o.V > 1 {
			continue
		}
		c := *o
		if o.Off < 0 || o.Off >= 90 || o.Off+int64(len(o.Vals)) > 12 {
			continue // out of range
		}
		if isTyped(o.K) && o.Op == "read" {
			c.Pre = make([]uint64, o.N+1)
		}
		ops = append(ops, &c)
	}
	for i := 0; i < *fTraces; i++ {
		n := 2 + rng.Intn(5)/4
		p := &Program{Kind: "mini", D: ramp(64 + rng.Intn(9)), Off: int64(rng.Intn(5)), Boff: int64(rng.Intn(40)), Layout: 4 * rng.Intn(4)}
		for t := 0; t < n; t++ {
			var th []*Op
			for c := 2 + rng.Intn(2); c > 0; c-- {
				th = append(th, ops[rng.Intn(len(ops))])
			}
			p.Th = append(p.Th, th)
		}
		if n == 2 {
			x.explore(p, *fLen, 25, rng)
			continue
		}
		x.programs++
		x.seen = map[string]bool{}
		for s := 0; s < 60; s++ {
			var plan []preempt
			at := 0
			for q := rng.Intn(6); q > 0; q-- {
				at += 1 + rng.Intn(25)
				plan = append(plan, preempt{at, rng.Intn(n)})
			}
			first := rng.Intn(n)
			out := runProgram(p, first, plan)
			x.runs++
			x.record(p, first, plan, out)
		}
	}
	w.Flush()
	f.Close()
	fmt.Printf("programs=%d runs=%d histories=%d stuck=%d\n", x.programs, x.runs, x.histories, x.stuck)
}

// solo is a scheduler of one thread that never waits.
type solo struct{ stuck bool }

func (s *solo) Stmt()                 {}
func (s *solo) Point()                {}
func (s *solo) Wait(free func() bool) { s.stuck = true; panic(abort{}) }
func (s *solo) Misuse(what string)    {}

func lockSoloInstrumented(t *Target, f func() Res) (r Res, ops []string) {
	own := ownLocks(t)
	s := &solo{}
	vsync.Hook = func(l interface{}, what string) {
		if own[l] {
			ops = append(ops, what)
		}
	}
	vsync.Sched = s
	defer func() {
		vsync.Sched, vsync.Hook = nil, nil
		if x := recover(); x != nil {
			if _, ok := x.(abort); !ok {
				panic(x)
			}
		}
		if s.stuck {
			r = Res{K: "hang"}
		}
	}()
	r = f()
	return
}
