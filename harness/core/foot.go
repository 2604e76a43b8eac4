package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime/debug"
	"syscall"
	"time"
	"unsafe"
)

// Fences: storage and lists are put where mapped memory begins or ends, and
// are read-only while a call runs that has no business writing to them, so
// that an access the contract does not grant (Foot.tla) faults. A fault is
// recorded with the object and the byte it hit; TLC judges.

func init() {
	modes["foot"] = modeFoot
	modes["footall"] = modeFootAll
	modes["footexec"] = modeFootExec
}

const page = 4096

// fence is a mapping with unmapped pages on both sides.
type fence struct {
	name   string
	mem    []byte
	lo, hi int
	use    []byte // what was placed last
	ro     bool
	none   bool
}

func newFence(name string, size int) *fence {
	n := (size + page - 1) / page * page
	mem, err := syscall.Mmap(-1, 0, n+16*page, syscall.PROT_NONE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fatal("mmap", err)
	}
	f := &fence{name: name, mem: mem, lo: 8 * page, hi: 8*page + n}
	f.set(syscall.PROT_READ | syscall.PROT_WRITE)
	return f
}

func (f *fence) set(prot int) {
	if err := syscall.Mprotect(f.mem[f.lo:f.hi], prot); err != nil {
		fatal("mprotect", err)
	}
	f.ro, f.none = prot == syscall.PROT_READ, prot == syscall.PROT_NONE
}

func (f *fence) open()     { f.set(syscall.PROT_READ | syscall.PROT_WRITE) }
func (f *fence) readonly() { f.set(syscall.PROT_READ) }
func (f *fence) size() int { return f.hi - f.lo }

// place returns n bytes at the end (or the start) of the mapping; beyond:
// with capacity that reaches into what is not mapped.
func (f *fence) place(n int, atEnd, beyond bool) []byte {
	a := f.lo
	if atEnd {
		a = f.hi - n
	}
	c := a + n
	if beyond {
		c += 64
	}
	f.use = f.mem[a : a+n : c]
	return f.use
}

// holds tells whether d lies in the mapping.
func (f *fence) holds(d []byte) bool {
	p, b := dataPtr(d), dataPtr(f.mem)
	return p >= b && p < b+uintptr(len(f.mem))
}

// touch describes a fault as an access to the object placed here.
func (f *fence) touch(addr uintptr, start uintptr) (at int64, how string, ok bool) {
	b := dataPtr(f.mem)
	if addr < b || addr >= b+uintptr(len(f.mem)) {
		return
	}
	how = "any"
	if x := int(addr - b); f.ro && x >= f.lo && x < f.hi {
		how = "write"
	}
	return int64(addr) - int64(start), how, true
}

// fences of several sizes, by name.
var fencePool = map[string]*fence{}

func fenceFor(name string, n int) *fence {
	size := page
	for size < n+256 {
		size *= 16
	}
	k := fmt.Sprint(name, size)
	f := fencePool[k]
	if f == nil {
		f = newFence(name, size)
		fencePool[k] = f
	}
	return f
}

// listHome, when set, is where typedList puts what it makes.
var listHome func(l interface{}, w, n int) interface{}

// rehouse returns the list l (n elements of w bytes) at another place.
func rehouse(l interface{}, d []byte) interface{} {
	rv := reflect.ValueOf(l)
	p := reflect.New(rv.Type())
	p.Elem().Set(rv)
	h := (*reflect.SliceHeader)(unsafe.Pointer(p.Pointer()))
	w := int(rv.Type().Elem().Size())
	var src []byte
	sh := (*reflect.SliceHeader)(unsafe.Pointer(&src))
	sh.Data, sh.Len, sh.Cap = h.Data, h.Len*w, h.Len*w
	copy(d, src)
	h.Data, h.Cap = dataPtr(d), cap(d)/w
	return p.Elem().Interface()
}

var pureOps = map[string]bool{"read": true, "rbit": true, "rbits": true, "seek": true, "seekb": true, "alignbit": true, "alignbyte": true,
	"after": true, "afterb": true, "refresh": true, "get": true}

// writesNothing: the call has no business writing to the storage.
func writesNothing(o *Op, x *expect) bool {
	if pureOps[o.Op] || !x.ok {
		return true
	}
	return o.Op == "write" && len(o.Vals) == 0 || o.Op == "sbits" && o.N == 0
}

// footRun is a history of calls on one fenced buffer.
type footRun struct {
	t      *Target
	kind   string
	layout int
	store  *fence
	inputs []*fence // of a constructor from several slices
	origin string
	parts  [][]byte
	s0     Obs
	evs    []footEvent
	pre    []byte
	s      Obs    // D: a copy
	live   []byte // the contents where they are
	blind  bool   // the contents could not be read
	odd    bool
}

type footEvent struct {
	o     *Op
	r     Res
	s     Obs
	extra string
}

func (r *footRun) event(o *Op, res *Res, extra string) {
	r.evs = append(r.evs, footEvent{o, *res, r.s, extra})
}

// trace renders the history, with what the same calls do on plain memory.
func (r *footRun) trace() *Trace {
	tr := newTrace(r.kind, r.origin, r.layout, &r.s0)
	in := r.parts
	if in == nil {
		in = [][]byte{clone(r.s0.D)}
	}
	var twin *Target
	if r.parts == nil {
		twin = newTarget(r.kind, in...)
		twin.how = r.layout >> 5
	}
	for k := range r.evs {
		e := &r.evs[k]
		u := Res{K: "ok"}
		if e.o.Op == "new" {
			u = protect(func() { twin = newTarget(r.kind, in...) })
			if u.K == "ok" {
				twin.how = r.layout >> 5
			}
		} else if twin != nil {
			u = twin.Exec(e.o)
		}
		extra := e.extra
		if twin != nil && e.r.K != "hang" {
			us := twin.Observe(e.o)
			var j jw
			j.s(`,"u":{"r":`).res(&u).s(`,"d":`).bytes(us.D).obsTail(&us).s("}")
			extra += string(j.b)
		}
		tr.Event(e.o, &e.r, &e.s, extra)
	}
	return tr
}

// protect runs f, which may fault.
func protect(f func()) (r Res) {
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		if x := recover(); x != nil {
			r = classify(x)
		}
	}()
	f()
	return Res{K: "ok"}
}

// look observes the buffer; what it shows may not be readable.
func (r *footRun) look(o *Op) (s Obs) {
	old := debug.SetPanicOnFault(true)
	defer func() {
		debug.SetPanicOnFault(old)
		if x := recover(); x != nil {
			if c := classify(x); c.Addr == 0 {
				panic(x)
			}
			s = r.s
			r.blind = true
		}
	}()
	s = r.t.Observe(o)
	r.live = s.D
	s.D = clone(s.D)
	return
}

// layout bits: 1 storage at the end, 2 capacity beyond the contents, 4 lists
// at the end, 8 lists with capacity beyond, 16 several slices.
func (r *footRun) begin(kind string, d []byte, layout int, parts [][]byte, origin string, grows bool) {
	r.kind, r.layout, r.origin = kind, layout, origin
	if layout&16 != 0 && len(parts) > 1 {
		r.construct(parts)
		return
	}
	r.store = fenceFor("store", len(d))
	r.store.open()
	atEnd := layout&1 != 0
	b := r.store.place(len(d), atEnd, layout&2 != 0 && !(atEnd && grows) && len(d)+64 <= r.store.size())
	copy(b, d)
	r.t = newTarget(kind, b)
	r.t.how = layout >> 5
	r.s = r.look(nil)
	r.s0 = r.s
	r.pre = r.s.D
}

// construct builds a buffer of several read-only slices, which nothing may
// touch afterwards.
func (r *footRun) construct(parts [][]byte) {
	r.store = fenceFor("store", 0)
	r.parts = parts
	in := make([][]byte, len(parts))
	whole := []byte{}
	r.inputs = nil
	for i, p := range parts {
		f := fenceFor(fmt.Sprint("in", i), len(p))
		f.open()
		in[i] = f.place(len(p), r.layout&4 != 0 || i%2 == 0, r.layout&8 != 0)
		copy(in[i], p)
		whole = append(whole, p...)
		r.inputs = append(r.inputs, f)
		f.readonly()
	}
	res := protect(func() { r.t = newTarget(r.kind, in...) })
	fault := r.fault(&res)
	for _, f := range r.inputs {
		if res.K == "ok" {
			f.set(syscall.PROT_NONE)
		} else {
			f.open()
		}
	}
	if res.K == "ok" {
		r.t.how = r.layout >> 5
		r.s = r.look(nil)
	}
	var j jw
	j.s(`,"parts":[`)
	for i, p := range parts {
		if i > 0 {
			j.s(",")
		}
		j.bytes(p)
	}
	j.s("]")
	r.event(&Op{Op: "new"}, &res, string(j.b)+fault)
	s := &r.s
	r.odd = res.K != "ok" || string(s.D) != string(whole) || s.Off != 0 || s.Boff != 0
	r.pre = s.D
}

// fault renders the access a call died of, if it did.
func (r *footRun) fault(res *Res) string {
	if res.Addr == 0 {
		return ""
	}
	name, at, how, ok, n := "elsewhere", int64(0), "any", false, 0
	for _, f := range append([]*fence{r.store, listFence}, r.inputs...) {
		if f == nil {
			continue
		}
		start := dataPtr(f.use)
		if f == r.store && r.t != nil {
			if f.holds(r.live) {
				start = dataPtr(r.live)
			}
		}
		if at, how, ok = f.touch(res.Addr, start); ok {
			name, n = f.name, len(f.use)
			break
		}
	}
	if name != "store" && name != "list" && name != "elsewhere" {
		name = "in"
	}
	var j jw
	j.s(`,"f":{"in":`).q(name).s(`,"at":`).i(sat(at)).s(`,"how":`).q(how).s(`,"len":`)
	if listFence != nil {
		j.i(int64(len(listFence.use)))
	} else if name == "in" {
		j.i(int64(n))
	} else {
		j.i(-1)
	}
	return string(j.s(`,"cap":`).i(int64(cap(r.live))).s("}").b)
}

var listFence *fence

// step makes one call behind the fences; false: the history ends here.
func (r *footRun) step(o *Op) bool {
	x := predict(r.kind, r.pre, r.s.Off, r.s.Boff, o)
	inside := r.store.holds(r.live)
	pure := writesNothing(o, &x)
	if inside && pure {
		r.store.readonly()
	}
	listFence = nil
	listHome = func(l interface{}, w, n int) interface{} {
		listFence = fenceFor("list", w*n)
		listFence.open()
		l = rehouse(l, listFence.place(w*n, r.layout&4 != 0, r.layout&8 != 0))
		if o.Op != "read" {
			listFence.readonly()
		}
		return l
	}
	po, pb := r.s.Off, r.s.Boff
	old := debug.SetPanicOnFault(true)
	res := r.t.Exec(o)
	debug.SetPanicOnFault(old)
	listHome = nil
	var extra string
	if res.Addr != 0 {
		extra = r.fault(&res)
	}
	if listFence != nil {
		listFence.open()
		listFence = nil
	}
	if inside && pure {
		r.look(o) // looking is pure, too
		r.store.open()
	}
	r.s = r.look(o)
	if r.blind {
		extra = `,"f":{"in":"store","at":-1,"how":"any","len":-1,"cap":0}`
		r.odd = true
	}
	r.event(o, &res, extra)
	if r.odd || res.Addr != 0 || surprising(&x, r.pre, po, pb, o, &res, &r.s) {
		r.odd = true
		return false
	}
	r.pre = r.s.D
	return true
}

func (r *footRun) end() {
	for _, f := range r.inputs {
		f.open()
	}
}

func modeFoot() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	calls, runs, found := 0, 0, 0
	seen := map[string]int{}
	finish := func(r *footRun, o *Op) {
		r.end()
		if !r.odd {
			return
		}
		key := fmt.Sprint(r.kind, o.Op, o.K, o.W, o.E, o.Next)
		if seen[key]++; seen[key] <= 2 && found < *fMax {
			found++
			r.trace().CloseOdd(w)
		}
	}
	var cur *footRun
	onHang = func(o *Op) {
		tr := cur.trace()
		tr.Hang(o)
		tr.Close(w)
		w.Flush()
	}
	for _, kind := range kinds() {
		g := newGen(rng, kind, *fProfile)
		n, skip := 0, 0
		for _, grp := range []func(*Gen, tryFn){sweepLists, sweepValues, sweepBits, sweepWhole, sweepRanges, sweepCursors, sweepLong, sweepPart} {
			grp(g, func(d []byte, off, boff int64, o *Op) {
				x := predict(kind, d, off, boff, o)
				if kind == "mini" && (len(x.rej) > 0 || !x.ok) {
					return
				}
				if o.Op == "grow" && o.N > 1<<20 {
					return
				}
				if skip--; skip > 0 {
					return
				}
				skip = 1 + rng.Intn(2**fLen-1)
				if o.Op == "read" && kind == "mini" && isTyped(o.K) {
					o.Pre = g.values(o.K, o.W, o.N+[]int64{0, 0, 0, 1, 3}[n%5])
				}
				n++
				r := &footRun{}
				cur = r
				r.begin(kind, d, n*5%16|n/16%4<<5, nil, "fenced sweep", resizing[o.Op])
				if off != 0 {
					r.step(&Op{Op: "seek", Off: off})
				}
				if boff != 0 && !r.odd {
					r.step(&Op{Op: "seekb", Off: boff})
				}
				if !r.odd {
					r.step(o)
				}
				calls++
				finish(r, o)
			})
		}
	}
	end := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	for i := 0; time.Now().Before(end) || i < 64; i++ {
		r := &footRun{}
		cur = r
		o, n := r.random(rng, i)
		runs++
		calls += n
		finish(r, o)
	}
	onHang = nil
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d runs=%d surprising=%d\n", calls, runs, found)
}

// random makes the i-th history of random calls; o: the last one.
func (r *footRun) random(rng *rand.Rand, i int) (o *Op, calls int) {
	kind := kinds()[i%len(kinds())]
	g := newGen(rng, kind, *fProfile)
	g.noPoke = true
	size := rng.Intn(40)
	if i%7 == 0 {
		size = rng.Intn(5000)
		g.maxLen = 300
	}
	d := g.contents(size)
	layout := rng.Intn(16) | rng.Intn(4)<<5
	var parts [][]byte
	if i%3 == 0 {
		layout |= 16
		for k := 2 + rng.Intn(5); k > 0; k-- {
			m := rng.Intn(len(d) + 1)
			if k == 1 || rng.Intn(6) == 0 {
				m = len(d)
			}
			parts = append(parts, clone(d[:m]))
			d = d[m:]
		}
	}
	r.begin(kind, d, layout, parts, fmt.Sprintf("fenced run seed=%d #%d", *fSeed, i), true)
	o = &Op{Op: "new"}
	for k := 0; k < 14 && !r.odd; k++ {
		next := g.Next(&r.s)
		if next.Op == "poke" || next.Op == "grow" && next.N > 1<<20 {
			continue
		}
		if kind == "mini" {
			if x := predict(kind, r.pre, r.s.Off, r.s.Boff, next); !x.ok || len(x.rej) > 0 {
				continue
			}
		}
		o = next
		calls++
		if !r.step(o) {
			break
		}
	}
	return
}

// modeFootAll records random histories whether or not they surprise.
func modeFootAll() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	var cur *footRun
	onHang = func(o *Op) {
		tr := cur.trace()
		tr.Hang(o)
		tr.Close(w)
		w.Flush()
	}
	calls := 0
	for i := 0; i < *fTraces; i++ {
		r := &footRun{}
		cur = r
		_, n := r.random(rng, i)
		calls += n
		r.end()
		r.trace().Close(w)
	}
	onHang = nil
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d\n", calls)
}

// modeFootExec runs recorded histories again.
func modeFootExec() {
	f, w := outFile(*fOut)
	n := 0
	lines(*fIn, func(l string) {
		var v struct {
			jsonTrace
			Ev []struct {
				O     jsonOp  `json:"o"`
				Parts [][]int `json:"parts"`
			} `json:"ev"`
		}
		if err := json.Unmarshal([]byte(l), &v); err != nil {
			fatal(err)
		}
		grows := false
		var parts [][]byte
		for _, e := range v.Ev {
			grows = grows || resizing[e.O.Op]
			for _, p := range e.Parts {
				parts = append(parts, toBytes(p))
			}
		}
		r := &footRun{}
		onHang = func(o *Op) { tr := r.trace(); tr.Hang(o); tr.Close(w); w.Flush() }
		r.begin(v.T.Kind, toBytes(v.S0.D), v.Layout, parts, "again", grows)
		for _, e := range v.Ev {
			if e.O.Op != "new" && !r.odd {
				r.step(e.O.op())
			}
		}
		onHang = nil
		r.end()
		r.trace().Close(w)
		n++
	})
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", n)
}
