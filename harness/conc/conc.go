package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	vsync "VSYNC"
)

func init() {
	modes["conc"] = modeConc
	modes["concexec"] = modeConcExec
}

// sched runs goroutines one at a time. A schedule is a list of preemptions:
// before step number at, switch to thread to; otherwise the running thread
// runs until it ends or blocks.
type sched struct {
	n        int
	cur      int
	step     int
	since    int // steps since the last switch
	plan     []preempt
	next     int // index into plan
	wake     []chan bool
	done     []bool
	waiting  []func() bool // nil: runnable
	end      chan bool
	deadlock bool
	misuse   string
	aborted  bool
	maxSteps int
	ran      []int8 // who ran at each step
	futile   bool   // the last preemption only made its thread block
	coarse   bool   // switch at lock operations and between calls only
	stmts    int
}

type abort struct{}

func (s *sched) runnable(t int) bool { return !s.done[t] && (s.waiting[t] == nil || s.waiting[t]()) }

// switchTo hands the processor to t; the caller waits for its turn.
func (s *sched) switchTo(t int) {
	me := s.cur
	s.cur = t
	s.since = 0
	s.wake[t] <- true
	<-s.wake[me]
	if s.aborted {
		panic(abort{})
	}
}

func (s *sched) other() int {
	for i := 1; i < s.n; i++ {
		t := (s.cur + i) % s.n
		if s.runnable(t) {
			return t
		}
	}
	return -1
}

func (s *sched) Stmt() {
	if !s.coarse {
		s.Point()
		return
	}
	if s.aborted {
		panic(abort{})
	}
	if s.stmts++; s.stmts > 4000*s.maxSteps {
		s.deadlock = true
		s.finish()
	}
}

func (s *sched) Point() {
	if s.aborted {
		panic(abort{})
	}
	s.step++
	s.since++
	if s.step < 4096 {
		s.ran = append(s.ran, int8(s.cur))
	}
	if s.next < len(s.plan) && s.step >= s.plan[s.next].At {
		t := s.plan[s.next].To
		s.next++
		s.futile = true
		if t != s.cur && s.runnable(t) {
			s.futile = false
			s.switchTo(t)
		}
	} else if s.since > s.maxSteps { // spinning
		s.since = 0
		if t := s.other(); t >= 0 {
			s.switchTo(t)
		}
	}
	if s.step > 40*s.maxSteps {
		s.deadlock = true
		s.finish()
	}
}

func (s *sched) Wait(free func() bool) {
	s.waiting[s.cur] = free
	if s.since <= 2 && s.next == len(s.plan) {
		s.futile = true
	}
	for !free() {
		t := s.other()
		if t < 0 {
			s.deadlock = true
			s.finish()
		}
		s.switchTo(t)
	}
	s.waiting[s.cur] = nil
}

func (s *sched) Misuse(what string) {
	s.misuse = what
	s.finish()
}

// finish ends the run early: every thread is unwound.
func (s *sched) finish() {
	s.aborted = true
	panic(abort{})
}

// leave is called by a thread that has ended.
func (s *sched) leave() {
	s.done[s.cur] = true
	if s.aborted {
		for t := 0; t < s.n; t++ {
			if !s.done[t] {
				s.cur = t
				s.wake[t] <- true
				return
			}
		}
		s.end <- true
		return
	}
	t := s.other()
	if t >= 0 {
		s.cur = t
		s.since = 0
		s.wake[t] <- true
		return
	}
	for _, d := range s.done {
		if !d { // the rest is blocked for ever
			s.deadlock = true
			s.aborted = true
			s.leave()
			return
		}
	}
	s.end <- true
}

// runProgram executes p under the given start order and preemptions.
func runProgram(p *Program, first int, plan []preempt) *outcome {
	t := setup(p.kind(), p.D, p.Off, p.Boff, p.Layout)
	n := len(p.Th)
	s := &sched{n: n, cur: first, plan: plan, end: make(chan bool, 1), maxSteps: 20000, coarse: p.Coarse}
	s.done = make([]bool, n)
	s.waiting = make([]func() bool, n)
	for i := 0; i < n; i++ {
		s.wake = append(s.wake, make(chan bool))
	}
	clock := 0
	out := &outcome{}
	for i := 0; i < n; i++ {
		go func(i int) {
			<-s.wake[i]
			defer s.leave()
			guard := func(f func()) (stop bool) {
				defer func() {
					if x := recover(); x != nil {
						if _, ok := x.(abort); !ok {
							panic(x)
						}
						stop = true
					}
				}()
				f()
				return s.aborted
			}
			lock, _ := t.P.(sync.Locker)
			var h *hist
			begin := func() {
				h = &hist{th: i, inv: clock, ret: 1 << 30}
				clock++
				out.h = append(out.h, h)
			}
			call := func(o *Op) bool {
				r := Res{K: "hang"}
				h.o = append(h.o, o)
				h.r = append(h.r, &r)
				return guard(func() { r = t.Exec(o) }) || s.aborted
			}
			if p.Kind == "mini" {
				begin()
				if guard(lock.Lock) {
					return
				}
				for _, o := range p.Th[i] {
					if call(o) || guard(s.Point) {
						*h.r[len(h.r)-1] = Res{K: "hang"}
						return
					}
				}
				if guard(lock.Unlock) {
					return
				}
				h.ret = clock
				clock++
				return
			}
			for k, o := range p.Th[i] {
				begin()
				if call(o) {
					*h.r[0] = Res{K: "hang"}
					return
				}
				h.ret = clock
				clock++
				if k+1 < len(p.Th[i]) && guard(s.Point) {
					return
				}
			}
		}(i)
	}
	vsync.Sched = s
	s.wake[first] <- true
	<-s.end
	vsync.Sched = nil
	out.deadlock, out.misuse, out.steps = s.deadlock, s.misuse, s.step
	out.ran, out.futile = s.ran, s.futile
	if !out.deadlock && out.misuse == "" {
		out.final = finalObs(t)
	}
	return out
}

// finalObs reads the final state; a lock left held shows as lk.
func finalObs(t *Target) (s Obs) {
	held := &sched{n: 1, end: make(chan bool, 1), maxSteps: 20000, done: []bool{false}, waiting: []func() bool{nil}, wake: []chan bool{make(chan bool)}}
	vsync.Sched = held
	defer func() {
		vsync.Sched = nil
		if x := recover(); x != nil {
			if _, ok := x.(abort); !ok {
				panic(x)
			}
			s = Obs{Lk: 1}
		}
	}()
	s.D, s.Off, s.Boff, s.Cap, s.Bcap = observe(t.P)
	return
}

type explorer struct {
	w         *bufio.Writer
	seen      map[string]bool
	runs      int
	histories int
	programs  int
	switches  int
	stuck     int
}

func (x *explorer) record(p *Program, first int, plan []preempt, out *outcome) {
	var j jw
	j.history(p, out)
	k := string(j.b)
	if x.seen[k] {
		return
	}
	x.seen[k] = true
	if out.deadlock || out.misuse != "" {
		x.stuck++
		if x.stuck > 30 {
			return
		}
	}
	x.histories++
	j.s(`,"misuse":`).q(out.misuse).program(p, first, plan).s("}\n")
	x.w.Write(j.b)
}

// explore runs p under every schedule with at most bound preemptions, or a
// sample of them if there are more than limit.
func (x *explorer) explore(p *Program, bound, limit int, rng *rand.Rand) {
	x.programs++
	base := map[string]bool{}
	x.seen = base
	for first := range p.Th {
		x.from(p, first, nil, bound, limit, rng)
	}
}

func (x *explorer) from(p *Program, first int, plan []preempt, bound, limit int, rng *rand.Rand) {
	out := runProgram(p, first, plan)
	x.runs++
	x.record(p, first, plan, out)
	if bound == 0 || out.futile && len(plan) > 0 {
		return
	}
	lo := 1
	if len(plan) > 0 {
		lo = plan[len(plan)-1].At + 1
	}
	var steps []int
	for s := lo; s <= out.steps; s++ {
		steps = append(steps, s)
	}
	if len(steps) > limit {
		rng.Shuffle(len(steps), func(i, j int) { steps[i], steps[j] = steps[j], steps[i] })
		steps = steps[:limit]
		sort.Ints(steps)
	}
	for _, s := range steps {
		for t := range p.Th {
			if s <= len(out.ran) && int(out.ran[s-1]) == t {
				continue
			}
			np := append(append([]preempt{}, plan...), preempt{s, t})
			x.from(p, first, np, bound-1, limit/3+1, rng)
		}
	}
}

// modeConc explores schedules of small programs. -variant i/n: the share of
// this process. -traces: random programs; -len: preemption bound.
func modeConc() {
	f, w := outFile(*fOut)
	hangAfter *= 4
	rng := rand.New(rand.NewSource(*fSeed))
	var share, shares int
	fmt.Sscanf(strings.Replace(*fVar, "/", " ", 1), "%d %d", &share, &shares)
	x := &explorer{w: w}
	ops := concOps()
	// every unordered pair of calls
	k := 0
	for i := range ops {
		for j := i; j < len(ops); j++ {
			k++
			if k%shares != share {
				continue
			}
			p := &Program{Kind: "", D: ramp(12), Off: 4, Boff: 13, Layout: int(4 * rng.Intn(4)), Th: [][]*Op{{ops[i]}, {ops[j]}}}
			if rng.Intn(4) == 0 {
				p.Layout = 1 + 4*rng.Intn(200) // room to grow in place
			}
			x.explore(p, *fLen, 60, rng)
		}
	}
	// random longer programs: 2 or 3 goroutines, up to 3 calls each
	for i := 0; i < *fTraces; i++ {
		n := 2 + rng.Intn(2)
		p := &Program{D: ramp(6 + rng.Intn(12)), Off: int64(rng.Intn(6)), Boff: int64(rng.Intn(40)), Layout: rng.Intn(4096)}
		for t := 0; t < n; t++ {
			var th []*Op
			for c := 1 + rng.Intn(4-n+1); c > 0; c-- {
				o := *ops[rng.Intn(len(ops))]
				if !o.Next && o.Off == 3 && rng.Intn(2) == 0 {
					o.Off = int64(rng.Intn(8))
				}
				th = append(th, &o)
			}
			p.Th = append(p.Th, th)
		}
		for s := 0; s < 40; s++ {
			var plan []preempt
			at := 0
			for q := 1 + rng.Intn(5); q > 0; q-- {
				at += 1 + rng.Intn(25)
				plan = append(plan, preempt{at, rng.Intn(n)})
			}
			if s == 0 {
				plan = nil
				x.seen = map[string]bool{}
				x.programs++
			}
			first := rng.Intn(n)
			out := runProgram(p, first, plan)
			x.runs++
			x.record(p, first, plan, out)
		}
	}
	x.large(rng, share, shares, *fTraces/2)
	x.sandwiches(rng, share, shares, 1+*fTraces/60)
	w.Flush()
	f.Close()
	fmt.Printf("programs=%d runs=%d histories=%d stuck=%d\n", x.programs, x.runs, x.histories, x.stuck)
}

// large explores pairs of calls that move many bytes: all schedules with two
// preemptions at lock operations, and some with preemptions between
// statements. Outcomes that also occur when the calls are made one after the
// other are recorded for a few programs only.
func (x *explorer) large(rng *rand.Rand, share, shares, extra int) {
	k := 0
	sizes := []int{40, 130, 300, 700, 1500, 4200}
	var progs []*Program
	add := func(size int, a, b []*Op) {
		p := &Program{D: ramp(size), Off: int64(rng.Intn(3)), Boff: int64(rng.Intn(9)), Layout: int(4 * rng.Intn(4)), Th: [][]*Op{a, b}}
		if rng.Intn(3) == 0 {
			p.Layout = 1 + 4*rng.Intn(200)
		}
		progs = append(progs, p)
	}
	ops := concOps()
	m := len(bigOps(64, 0))
	for i := 0; i < m; i++ {
		for j := i; j < m; j++ {
			if k++; k%shares != share {
				continue
			}
			size := sizes[rng.Intn(len(sizes))]
			add(size, bigOps(size, 1)[i:i+1], bigOps(size, 2)[j:j+1])
		}
		if k++; k%shares == share {
			size := sizes[rng.Intn(len(sizes))]
			add(size, bigOps(size, 1)[i:i+1], []*Op{ops[rng.Intn(len(ops))], ops[rng.Intn(len(ops))]})
		}
	}
	for i := 0; i < extra; i++ {
		size := sizes[rng.Intn(len(sizes))]
		add(size, []*Op{bigOps(size, 1)[rng.Intn(m)], ops[rng.Intn(len(ops))]}, []*Op{bigOps(size, 2)[rng.Intn(m)]})
	}
	for n, p := range progs {
		x.programs++
		x.seen = map[string]bool{}
		usual := map[string]bool{}
		run := func(first int, plan []preempt, show bool) *outcome {
			out := runProgram(p, first, plan)
			x.runs++
			k := out.perThread().key()
			if !usual[k] {
				usual[k] = true
				if show {
					x.record(p, first, plan, out)
				}
			}
			return out
		}
		p.Coarse = true
		for first := range p.Th {
			run(first, nil, n%16 == 0)
		}
		for first := range p.Th {
			out := run(first, nil, true)
			for a := 1; a <= out.steps && a < 12; a++ {
				o2 := run(first, []preempt{{a, 1 - first}}, true)
				for b := a + 1; b <= o2.steps && b < 14; b++ {
					run(first, []preempt{{a, 1 - first}, {b, first}}, true)
				}
			}
		}
		p.Coarse = false
		for q := 0; q < 8; q++ {
			first := rng.Intn(2)
			out := run(first, nil, true)
			a := 1 + rng.Intn(out.steps)
			run(first, []preempt{{a, 1 - first}}, true)
			run(first, []preempt{{a, 1 - first}, {a + 1 + rng.Intn(out.steps), first}}, true)
		}
	}
}

// serial runs the calls one at a time; order says whose turn it is.
func serial(p *Program, order []int) (*outcome, []int) {
	t := setup(p.kind(), p.D, p.Off, p.Boff, p.Layout)
	out := &outcome{}
	next := make([]int, len(p.Th))
	var pos []int // of each call, by goroutine and number, in the order
	at := make([][]int, len(p.Th))
	for n, i := range order {
		o := p.Th[i][next[i]]
		next[i]++
		r := t.Exec(o)
		out.h = append(out.h, &hist{th: i, o: []*Op{o}, r: []*Res{&r}})
		at[i] = append(at[i], n)
	}
	for _, l := range at {
		pos = append(pos, l...)
	}
	out.final = finalObs(t)
	return out.perThread(), pos
}

// merges lists the orders in which goroutines with so many calls can take turns.
func merges(left []int) (r [][]int) {
	done := true
	for i := range left {
		if left[i] == 0 {
			continue
		}
		done = false
		left[i]--
		for _, m := range merges(left) {
			r = append(r, append([]int{i}, m...))
		}
		left[i]++
	}
	if done {
		r = [][]int{nil}
	}
	return
}

// sandwiches explores programs of two goroutines that make three or four
// calls together, with preemptions at lock operations and between calls: what
// one call does in several steps may be undone, or looked at, by a second and
// third call in between. What some order of the same calls explains, made one
// at a time, is not recorded.
func (x *explorer) sandwiches(rng *rand.Rand, share, shares, each int) {
	ops := concOps()
	var gets []*Op
	for _, o := range ops {
		if o.Op == "get" || o.Op == "read" && !o.Next && o.W == 1 || o.Op == "rbit" {
			gets = append(gets, o)
		}
	}
	any := func() *Op {
		if rng.Intn(3) > 0 {
			return gets[rng.Intn(len(gets))]
		}
		return ops[rng.Intn(len(ops))]
	}
	k, odd := 0, 0
	for i := range ops {
		for j := range ops {
			if k++; k%shares != share {
				continue
			}
			for q := 0; q < each && odd < 300; q++ {
				p := &Program{D: ramp(12), Off: 4, Boff: 13, Layout: int(4 * rng.Intn(4)), Coarse: true}
				if rng.Intn(2) == 0 {
					p.Off, p.Boff = 3, 29
				}
				switch rng.Intn(4) {
				case 0, 1:
					p.Th = [][]*Op{{ops[i]}, {ops[j], any()}}
				case 2:
					p.Th = [][]*Op{{ops[i], any()}, {ops[j]}}
				case 3:
					p.Th = [][]*Op{{ops[i], any()}, {ops[j], any()}}
				}
				x.programs++
				x.seen = map[string]bool{}
				usual := map[string][][]int{}
				for _, m := range merges([]int{len(p.Th[0]), len(p.Th[1])}) {
					out, pos := serial(p, m)
					key := out.key()
					usual[key] = append(usual[key], pos)
				}
				explained := func(out *outcome) bool {
					out.perThread()
					for _, pos := range usual[out.key()] {
						ok := true
						for a := range out.h {
							for b := range out.h {
								if out.h[a].ret < out.h[b].inv && pos[a] > pos[b] {
									ok = false
								}
							}
						}
						if ok {
							return true
						}
					}
					return false
				}
				run := func(first int, plan []preempt) *outcome {
					out := runProgram(p, first, plan)
					x.runs++
					if !explained(out) {
						odd++
						x.record(p, first, plan, out)
					}
					return out
				}
				if rng.Intn(200) == 0 {
					x.record(p, 0, nil, runProgram(p, 0, nil))
				}
				for first := range p.Th {
					out := run(first, nil)
					for a := 1; a <= out.steps && a < 20 && odd < 300; a++ {
						o2 := run(first, []preempt{{a, 1 - first}})
						if o2.futile {
							continue
						}
						for b := a + 1; b <= o2.steps && b < 24; b++ {
							run(first, []preempt{{a, 1 - first}, {b, first}})
						}
					}
				}
			}
		}
	}
}

func modeConcExec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		p, first, plan := parseProgram(l)
		x := &explorer{w: w, seen: map[string]bool{}}
		x.record(p, first, plan, runProgram(p, first, plan))
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("histories=%d\n", n)
}
