package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

// What calls cost and keep (Cost.tla): memory allocated and time taken by
// small calls on a large buffer, memory in use after many calls, and whether
// what a call has no more use for can be collected. TLC judges.

func init() {
	modes["cost"] = modeCost
	modes["costexec"] = modeCostExec
}

// the same numbers as in CostTrace.cfg
const (
	costSmall    = 64
	costPatience = 1500
	costFactor   = 64
	costSlack    = 128
	costProxy    = 700
)

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func collectAll() {
	lastList = nil
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
}

func inUse() int64 {
	collectAll()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func isBit(o *Op) bool {
	return o.Op == "rbit" || o.Op == "rbits" || o.Op == "setb" || o.Op == "flip" || o.Op == "sbits"
}

// moved is how many bytes the call handles or was asked to.
func moved(o *Op, size int64) int64 {
	n := int64(0)
	switch o.Op {
	case "write":
		return int64(len(o.Vals) * o.W)
	case "read":
		if n = o.N; n < size {
			n *= int64(o.W)
		}
	case "rbits", "sbits":
		n = o.N/8 + 1
	case "grow":
		return o.N
	case "allb":
		n = size
	}
	if n > size {
		n = size
	}
	if n < 0 {
		n = 0
	}
	return n
}

// costCall measures one call.
type costCall struct {
	o                 *Op
	moved, peak       int64 // KB
	resizes           bool
	alloc, us         int64
	odd               bool
	off, boff, at, sz int64
}

func (c *costCall) json(j *jw) {
	j.s(`{"c":"call","o":`).op(c.o, 0).s(`,"moved":`).i(c.moved).s(`,"resizes":`).bool(c.resizes).s(`,"peak":`).i(c.peak)
	j.s(`,"alloc":`).i(sat(c.alloc)).s(`,"time":`).i(sat(c.us))
	j.s(`,"off":`).i(c.off).s(`,"boff":`).i(c.boff).s(`,"at":`).i(c.at).s(`,"size":`).i(c.sz).s("}")
}

func (c *costCall) judge() {
	h := c.moved
	if c.resizes {
		h += c.peak
	}
	c.odd = c.alloc > costSmall+costFactor*h || c.us > costPatience+costFactor*h
}

// shifted is o with positional offsets moved by base bytes.
func shifted(o *Op, base int64) *Op {
	q := *o
	switch o.Op {
	case "write", "read":
		q.Off += base
	case "rbit", "rbits", "setb", "flip", "sbits":
		q.Off += 8 * base
	case "seek", "seekb", "after", "afterb":
		if !o.Rel && (o.Has || o.Op[0] == 's') {
			if q.Off += base; o.Op[len(o.Op)-1] == 'b' {
				q.Off += 7 * base
			}
		}
	}
	return &q
}

// measure makes the call o (drawn for the proxy) on t, which has size bytes,
// at base.
func measure(t *Target, size, peak, off, boff, base int64, o *Op) *costCall {
	q, from := shifted(o, base), base
	if o.Op == "seek" || o.Op == "seekb" {
		// from the other end
		from = size - costProxy - base
		if o.Rel {
			x := *o
			if x.Off += base - from; o.Op == "seekb" {
				x.Off += 7 * (base - from)
			}
			q = &x
		}
	}
	place := func() {
		t.Exec(&Op{Op: "seek", Off: off + from})
		t.Exec(&Op{Op: "seekb", Off: boff + 8*from})
	}
	place()
	c := &costCall{o: o, off: off, boff: boff, at: base, sz: size, resizes: resizing[o.Op], peak: (peak + 1023) / 1024}
	a0, t0 := allocated(), time.Now()
	t.Exec(q)
	us := time.Since(t0).Microseconds()
	c.alloc = int64(allocated()-a0) / 1024
	c.moved = (moved(o, size) + 1023) / 1024
	for i := 0; us > 200 && i < 12 && !c.resizes && o.Op != "allb"; i++ {
		place()
		t0 = time.Now()
		t.Exec(q)
		if x := time.Since(t0).Microseconds(); x < us {
			us = x
		}
	}
	if o.Op != "allb" && !c.resizes {
		c.us = us // otherwise the machine's speed shows more than the code's
	}
	lastList = nil
	c.judge()
	return c
}

func bigContents(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*7 + i>>9)
	}
	return d
}

// draw is a call and the positions before it, for a buffer of costProxy bytes.
type draw struct {
	o         *Op
	off, boff int64
}

// draws groups random calls by what is called.
func draws(g *Gen, rng *rand.Rand, each int) (keys []string, m map[string][]draw) {
	m = map[string][]draw{}
	s := &Obs{D: g.contents(costProxy)}
	for i := 0; i < 60000; i++ {
		s.Off, s.Boff = rng.Int63n(costProxy/2), rng.Int63n(4*costProxy)
		o := g.Next(s)
		if o.Op == "poke" || resizing[o.Op] {
			continue
		}
		x := predict(g.kind, s.D, s.Off, s.Boff, o)
		if g.kind == "mini" && (!x.ok || len(x.rej) > 0) {
			continue
		}
		k := fmt.Sprint(o.Op, " ", o.K, o.W, o.E, o.Next, o.Has, x.ok)
		if m[k] == nil {
			keys = append(keys, k)
		}
		if len(m[k]) < each {
			m[k] = append(m[k], draw{o, s.Off, s.Boff})
		}
	}
	return
}

func modeCost() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	calls, lives, found := 0, 0, 0
	threads := runtime.NumGoroutine()
	put := func(kind, what string, body func(j *jw)) {
		var j jw
		j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(kind).s(`},"what":`).q(what).s(`,"seed":`).i(*fSeed).s(`,"ev":[`)
		body(&j)
		j.s("]}\n")
		w.Write(j.b)
	}
	var now struct {
		kind string
	}
	onHang = func(o *Op) {
		put(now.kind, "calls", func(j *jw) {
			j.s(`{"c":"call","o":`).op(o, 0).s(`,"moved":0,"resizes":false,"peak":0,"alloc":0,"time":`).i(sat(1 << 40)).s(`,"off":0,"boff":0,"at":0,"size":`).i(int64(*fLen) << 20).s("}")
		})
		w.Flush()
	}
	for _, kind := range kinds() {
		now.kind = kind
		g := newGen(rng, kind, *fProfile)
		g.noPoke = true
		if kind == "buffer" {
			g.bad = 0.15
		}
		keys, m := draws(g, rng, 60)

		// small calls on a large buffer
		size := int64(*fLen) << 20
		t := newTarget(kind, bigContents(int(size)))
		end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
		var good []*costCall
		for i := 0; (i < 4 || time.Now().Before(end)) && found < 8; i++ {
			for _, k := range keys {
				d := &m[k][(i/2)%len(m[k])]
				if d.o.Op == "allb" && (i > 4 || i%2 == 1) || found >= 8 {
					continue
				}
				base := []int64{0, size - costProxy}[i%2]
				c := measure(t, size, size, d.off, d.boff, base, d.o)
				calls++
				if c.odd {
					// is it so again?
					if c = measure(t, size, size, d.off, d.boff, base, d.o); c.odd {
						found++
						put(kind, "calls", c.json)
						runtime.GC()
					}
				} else if len(good) < 3000 && (i < 12 || rng.Intn(40) == 0) {
					good = append(good, c)
				}
			}
		}
		// long lists
		g2 := newGen(rng, kind, *fProfile)
		g2.noPoke, g2.bad = true, 0
		s := &Obs{D: g2.contents(60000)}
		g2.maxLen = 9000
		for i := 0; i < 300 && found < 8; i++ {
			o := g2.Next(s)
			if o.Op != "write" && o.Op != "read" || o.Next {
				continue
			}
			x := predict(kind, s.D, 0, 0, o)
			if !x.ok || len(x.rej) > 0 {
				continue
			}
			c := measure(t, size, size, 0, 0, size-60000, o)
			calls++
			if c.odd {
				found++
				put(kind, "calls", c.json)
			} else {
				good = append(good, c)
			}
		}
		put(kind, "calls", func(j *jw) {
			for i, c := range good {
				if i > 0 {
					j.s(",")
				}
				c.json(j)
			}
		})
		t = nil

		// resizing a buffer of middle size
		for i := 0; i < 40 && found < 8; i++ {
			size := int64(1) << uint(rng.Intn(22))
			peak := size
			t := newTarget(kind, bigContents(int(size)))
			for k := 0; k < 12; k++ {
				o := &Op{Op: "grow", N: rng.Int63n(size + 40)}
				if Ver == 3 && rng.Intn(2) == 0 {
					o = &Op{Op: []string{"trl", "trr"}[rng.Intn(2)], N: rng.Int63n(size + 1)}
				} else if Ver > 1 && rng.Intn(8) == 0 {
					o = &Op{Op: "reset"}
				}
				c := measure(t, size, peak+o.N, 0, 0, 0, o)
				size = int64(len(t.Observe(nil).D))
				if size > peak {
					peak = size
				}
				if peak > 16<<20 {
					break
				}
				calls++
				if c.odd {
					found++
					put(kind, "calls", c.json)
				} else if i%4 == 0 {
					put(kind, "calls", c.json)
				}
			}
		}

		// many calls of one sort
		n := 6000 * *fMax
		for _, k := range keys {
			ds := m[k]
			if ds[0].o.Op == "allb" || found >= 8 {
				continue
			}
			if len(ds) > 4 {
				ds = ds[:4]
			}
			cnt := n
			rejected := strings.HasSuffix(k, "false")
			if rejected {
				cnt /= 3 // panics take longer
			}
			lives++
			grown := life(kind, ds, cnt, rejected)
			if grown > costSlack {
				found++
			}
			put(kind, "life", func(j *jw) {
				j.s(`{"c":"life","o":`).op(ds[0].o, 0).s(`,"calls":`).i(int64(cnt)).s(`,"grown":`).i(sat(grown)).s("}")
			})
		}
		if Ver > 1 && found < 8 {
			grown := resizingLife(kind, n)
			put(kind, "life", func(j *jw) {
				j.s(`{"c":"life","o":{"op":"grow"},"calls":`).i(int64(2 * n)).s(`,"grown":`).i(sat(grown)).s("}")
			})
		}

		// many buffers
		for _, large := range []bool{false, true} {
			grown := dropped(kind, m, keys, rng, large)
			put(kind, "dropped", func(j *jw) {
				j.s(`{"c":"dropped","large":`).bool(large).s(`,"grown":`).i(sat(grown)).s("}")
			})
		}

		// what is not needed any more
		g3 := newGen(rng, kind, *fProfile)
		g3.noPoke, g3.bad, g3.maxLen = true, g.bad, 60
		keys3, m3 := draws(g3, rng, 12)
		for _, x := range gone(kind, m3, keys3) {
			put(kind, "gone", func(j *jw) {
				j.s(`{"c":"gone","what":`).q(x.what).s(`,"of":`).i(int64(x.of)).s(`,"kept":`).i(int64(x.kept))
				if x.o != nil {
					j.s(`,"o":`).op(x.o, 0)
				}
				j.s("}")
			})
		}
		left := 0
		for i := 0; i < 40; i++ {
			if left = runtime.NumGoroutine() - threads; left <= 0 {
				left = 0
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		put(kind, "threads", func(j *jw) { j.s(`{"c":"threads","left":`).i(int64(left)).s("}") })
	}
	onHang = nil
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d lives=%d odd=%d\n", calls, lives, found)
}

// life makes n calls and tells how many KB they left in use, the smaller
// one of two goes. Most are at a position where no call was before.
func life(kind string, ds []draw, n int, rejected bool) int64 {
	size, step := int64(1<<20), int64(0)
	if rejected {
		size = costProxy
	}
	t := newTarget(kind, bigContents(int(size)))
	go1 := func(n int) {
		for i := 0; i < n; i++ {
			d := &ds[i%len(ds)]
			step += 13
			at := step
			if !rejected {
				at %= size - costProxy
			}
			if i%16 == 0 {
				at = size - costProxy
			}
			if d.o.Next || i < len(ds) || d.o.Op != "read" && d.o.Op != "write" && !isBit(d.o) {
				t.Exec(&Op{Op: "seek", Off: d.off + at})
				t.Exec(&Op{Op: "seekb", Off: d.boff + 8*at})
			}
			t.Exec(shifted(d.o, at))
		}
	}
	go1(n/10 + 1)
	a := inUse()
	go1(n)
	b := inUse()
	grown := b - a
	if grown > costSlack<<10 {
		go1(n)
		if x := inUse() - b; x < grown {
			grown = x
		}
	}
	runtime.KeepAlive(t)
	return grown / 1024
}

func resizingLife(kind string, n int) int64 {
	t := newTarget(kind, bigContents(32))
	go1 := func(n int) {
		for i := 0; i < n; i++ {
			t.Exec(&Op{Op: "grow", N: int64(i % 50)})
			switch {
			case Ver == 3 && i%3 == 0:
				t.Exec(&Op{Op: "trl", N: int64(i % 50)})
			case Ver == 3 && i%3 == 1:
				t.Exec(&Op{Op: "trr", N: int64(i % 50)})
			case Ver < 3 || i%9 == 2:
				t.Exec(&Op{Op: "reset"})
			}
		}
	}
	go1(n / 10)
	t.Exec(&Op{Op: "reset"})
	a := inUse()
	go1(n)
	t.Exec(&Op{Op: "reset"})
	b := inUse()
	if b-a > costSlack<<10 {
		go1(n)
		t.Exec(&Op{Op: "reset"})
		if x := inUse() - b; x < b-a {
			b = a + x
		}
	}
	runtime.KeepAlive(t)
	return (b - a) / 1024
}

// dropped uses many buffers and drops them.
func dropped(kind string, m map[string][]draw, keys []string, rng *rand.Rand, large bool) int64 {
	size, n, per := 40, 15000, 3
	if large {
		size, n, per = 1<<16, 120, 30
	}
	go1 := func(n int) {
		done := make(chan bool)
		go func() {
			for i := 0; i < n; i++ {
				var t *Target
				if i%2 == 0 {
					t = newTarget(kind, make([]byte, size))
				} else {
					t = newTarget(kind, make([]byte, size/2), make([]byte, size/2))
				}
				for k := 0; k < per; k++ {
					d := &m[keys[rng.Intn(len(keys))]][0]
					if d.o.Op == "allb" || kind == "mini" && !large {
						continue
					}
					t.Exec(&Op{Op: "seek", Off: d.off})
					t.Exec(&Op{Op: "seekb", Off: d.boff})
					t.Exec(d.o)
				}
				if i%3 == 0 {
					t.Exec(&Op{Op: "grow", N: int64(size)})
				}
				if i%5 == 0 && Ver > 1 {
					t.Exec(&Op{Op: "reset"})
				}
			}
			done <- true
		}()
		<-done
	}
	go1(n / 10)
	a := inUse()
	go1(n)
	b := inUse()
	if b-a > costSlack<<10 {
		go1(n)
		if x := inUse() - b; x < b-a {
			b = a + x
		}
	}
	return (b - a) / 1024
}

type goneRes struct {
	what     string
	o        *Op
	of, kept int
}

// gone counts what cannot be collected although nobody has a use for it.
func gone(kind string, m map[string][]draw, keys []string) (out []goneRes) {
	type block [4096]byte
	var freed []int32
	fresh := func(n int) []byte {
		b := new(block)
		freed = append(freed, 0)
		i := len(freed) - 1
		runtime.SetFinalizer(b, func(*block) { atomic.StoreInt32(&freed[i], 1) })
		return b[:n:n]
	}
	freed = make([]int32, 0, 4096) // does not move
	wait := func(ids []int) (kept int) {
		for try := 0; try < 60; try++ {
			collectAll()
			kept = 0
			for _, i := range ids {
				if atomic.LoadInt32(&freed[i]) == 0 {
					kept++
				}
			}
			if kept == 0 {
				return
			}
			time.Sleep(time.Duration(try) * time.Millisecond)
		}
		return
	}
	// each runs f, which returns what has to stay alive, in a goroutine of its
	// own, so that nothing is left on this one's stack.
	each := func(f func() interface{}) interface{} {
		c := make(chan interface{})
		go func() { c <- f() }()
		return <-c
	}
	marks := func(lo int) (ids []int) {
		for i := lo; i < len(freed); i++ {
			ids = append(ids, i)
		}
		return
	}
	report := func(what string, o *Op, ids []int) {
		out = append(out, goneRes{what, o, len(ids), wait(ids)})
	}

	// storage of dropped buffers
	lo := len(freed)
	for i := 0; i < 40; i++ {
		each(func() interface{} {
			t := newTarget(kind, fresh(costProxy))
			for k := 0; k < 10; k++ {
				d := &m[keys[(i*10+k)%len(keys)]][0]
				t.Exec(&Op{Op: "seek", Off: d.off})
				t.Exec(&Op{Op: "seekb", Off: d.boff})
				t.Exec(d.o)
			}
			return nil
		})
	}
	report("storage of dropped buffers", nil, marks(lo))

	// storage that a buffer in use has left
	lo = len(freed)
	var keep []interface{}
	for i := 0; i < 12; i++ {
		keep = append(keep, each(func() interface{} {
			d := fresh(costProxy)
			t := newTarget(kind, d)
			t.Exec(&Op{Op: "seek", Off: 5})
			for k := 0; k <= i%3; k++ {
				t.Exec(&Op{Op: "grow", N: 2000})
			}
			if now := t.Observe(nil).D; dataPtr(now) == dataPtr(d) {
				atomic.StoreInt32(&freed[len(freed)-1], 1) // it has not
			}
			return t
		}))
	}
	report("storage that buffers have left", nil, marks(lo))

	// slices a buffer was built from
	lo = len(freed)
	for i := 0; i < 6; i++ {
		keep = append(keep, each(func() interface{} {
			in := [][]byte{fresh(300), fresh(200), fresh(100 * (i % 2)), fresh(1)}
			return newTarget(kind, in[:2+i%3]...)
		}))
	}
	report("slices a buffer was built from", nil, marks(lo))

	// lists handed over and returned
	for _, k := range keys {
		o := m[k][0].o
		if o.Op != "write" && o.Op != "read" || o.Op == "read" && o.W == 1 {
			continue
		}
		lo = len(freed)
		for i := range m[k] {
			if i >= 12 {
				break
			}
			d := m[k][i]
			keep = append(keep, each(func() interface{} {
				t := newTarget(kind, bigContents(costProxy))
				t.Exec(&Op{Op: "seek", Off: d.off})
				gc := debug.SetGCPercent(-1)
				var mem []byte
				listHome = func(l interface{}, w, n int) interface{} {
					if w*n > 4096 || n == 0 || w*n < 1 {
						return l
					}
					mem = fresh(w * n)
					return rehouse(l, mem)
				}
				r := t.Exec(d.o)
				listHome = nil
				if mem == nil && d.o.Op == "read" && r.K == "ok" && r.Raw != nil {
					if rv := reflect.ValueOf(r.Raw); rv.Kind() == reflect.Slice && rv.Len()*int(rv.Type().Elem().Size()) >= 32 {
						freed = append(freed, 0)
						i := len(freed) - 1
						runtime.SetFinalizer(rv.Index(0).Addr().Interface(), func(interface{}) { atomic.StoreInt32(&freed[i], 1) })
					}
				}
				runtime.KeepAlive(mem)
				debug.SetGCPercent(gc)
				return t
			}))
		}
		if len(freed) > lo {
			report("lists", o, marks(lo))
		}
	}
	runtime.KeepAlive(keep)
	return
}

// modeCostExec measures recorded calls again.
func modeCostExec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		var v struct {
			T struct {
				Kind string `json:"kind"`
			} `json:"t"`
			Ev []struct {
				O    jsonOp `json:"o"`
				Off  int64  `json:"off"`
				Boff int64  `json:"boff"`
				At   int64  `json:"at"`
				Size int64  `json:"size"`
				Peak int64  `json:"peak"`
			} `json:"ev"`
		}
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			fatal(err)
		}
		e := v.Ev[len(v.Ev)-1]
		t := newTarget(v.T.Kind, bigContents(int(e.Size)))
		onHang = func(o *Op) {
			fmt.Fprintf(w, `{"t":{"v":%d,"kind":"%s"},"ev":[{"c":"call","moved":0,"resizes":false,"peak":0,"alloc":0,"time":1000000000}]}`+"\n", Ver, v.T.Kind)
			w.Flush()
		}
		c := measure(t, e.Size, e.Peak<<10, e.Off, e.Boff, e.At, e.O.op())
		onHang = nil
		var j jw
		j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(v.T.Kind).s(`},"ev":[`)
		c.json(&j)
		j.s("]}\n")
		w.Write(j.b)
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}
