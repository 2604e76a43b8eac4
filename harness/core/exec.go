package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// Op is one call on a buffer, in the vocabulary of Crunch.tla.
type Op struct {
	Op   string
	K    string // read/write: bytes, byte, U, I, F, C (v1 complex)
	W    int    // width in bytes
	E    string // LE, BE
	Next bool
	Off  int64
	N    int64    // after: how many further positions
	Vals []uint64 // elements to write
	Val  uint64   // sbits
	V    int64    // setb, allb, poke
	Rel  bool
	Has  bool
	Data []byte   // raw-byte writes: the very slice to hand over (nil: a new one)
	Pre  []uint64 // MiniBuffer typed reads: the caller's list (at least N long)
}

// Res is the outcome of a call.
type Res struct {
	K      string // ok, panic, hang, missing
	E      string // error name
	IsList bool   // value: List (of elements of width W), or I if IsInt
	List   []uint64
	W      int
	IsInt  bool
	I      int64
	Msg    string // panic text, for people
	Raw    interface{}
	Addr   uintptr // the address of a memory fault
}

// Target is a live Buffer or MiniBuffer.
type Target struct {
	Kind  string // buffer, mini
	P     interface{}
	rv    reflect.Value
	whole []byte // the caller's storage around the contents, if any
	ws    []byte // its snapshot
	spare []byte // storage after the contents
	ss    []byte
	loc   uintptr
	ln    int
	how   int // how look asks
}

// look reads what the buffer shows: directly, through copies, or in another
// order.
func (t *Target) look() (d []byte, off, boff, cp, bcp int64) {
	switch t.how % 4 {
	case 1, 3:
		return observeApart(t.P)
	case 2:
		return observeBackwards(t.P)
	}
	return observe(t.P)
}

var dirtyBytes = []byte{0xEE, 0xEE, 0xEE}

// over is what the variable holds that a MiniBuffer is built into; nil: nothing,
// or some other buffer.
var over interface{}

func newTarget(kind string, slices ...[]byte) *Target {
	t := &Target{Kind: kind}
	if kind == "buffer" {
		t.P = newBuffer(slices...)
	} else {
		old := over
		if old == nil && len(slices) > 0 && len(slices[0])%2 == 1 {
			u := &Target{Kind: kind, P: newMini(nil, []byte{0xE1, 0xE2, 0xE3})}
			u.rv = reflect.ValueOf(u.P)
			u.Exec(&Op{Op: "seek", Off: 2})
			u.Exec(&Op{Op: "seekb", Off: 9})
			old = u.P
		}
		t.P = newMini(old, slices...)
	}
	t.rv = reflect.ValueOf(t.P)
	return t
}

type methodKey struct {
	t    reflect.Type
	name string
}

var methodCache = map[methodKey]reflect.Value{}

type missingMethod string

func (t *Target) call(name string, args ...interface{}) []reflect.Value {
	m, in := t.lookup(name, args)
	return m.Call(in)
}

// callList hands the last argument over as the whole variadic list.
func (t *Target) callList(name string, args ...interface{}) []reflect.Value {
	m, in := t.lookup(name, args)
	return m.CallSlice(in)
}

func (t *Target) lookup(name string, args []interface{}) (reflect.Value, []reflect.Value) {
	k := methodKey{t.rv.Type(), name}
	m, ok := methodCache[k]
	if !ok {
		if mm, has := k.t.MethodByName(name); has {
			m = mm.Func
		}
		if !frozen {
			methodCache[k] = m
		}
	}
	if !m.IsValid() {
		panic(missingMethod(name))
	}
	in := append(make([]reflect.Value, 0, 6), t.rv)
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return m, in
}

// lockState reports whether the buffer's own lock is held: 0 free, 1 held,
// -1 there is none. A held lock stays held.
func (t *Target) lockState() int {
	if Ver == 3 {
		return -1
	}
	l, ok := t.P.(interface {
		TryLock() bool
		Unlock()
	})
	if !ok {
		return -1
	}
	if l.TryLock() {
		l.Unlock()
		return 0
	}
	return 1
}

func (t *Target) unlock() {
	if l, ok := t.P.(interface{ Unlock() }); ok {
		l.Unlock()
	}
}

// listSpare is the spare capacity typedList gives its lists; lastList is the
// last one it made.
var (
	listSpare int
	lastList  interface{}
)

func typedList(k string, w int, v []uint64) interface{} {
	l := typedList1(k, w, v)
	if listHome != nil {
		if !validSize(w) {
			w = 1
		}
		l = listHome(l, w, len(v))
	}
	if !frozen {
		lastList = l
	}
	return l
}

func typedList1(k string, w int, v []uint64) interface{} {
	switch k {
	case "bytes", "byte", "C":
		if w == 1 {
			r := make([]byte, len(v), len(v)+listSpare)
			for i, x := range v {
				r[i] = byte(x)
			}
			return r
		}
		k = "U"
	}
	switch w {
	case 2:
		r := make([]uint16, len(v), len(v)+listSpare)
		for i, x := range v {
			r[i] = uint16(x)
		}
		if k == "I" {
			return *(*[]int16)(unsafe.Pointer(&r))
		}
		return r
	case 4:
		r := make([]uint32, len(v), len(v)+listSpare)
		for i, x := range v {
			r[i] = uint32(x)
		}
		if k == "I" {
			return *(*[]int32)(unsafe.Pointer(&r))
		}
		if k == "F" {
			return *(*[]float32)(unsafe.Pointer(&r))
		}
		return r
	case 8:
		r := make([]uint64, len(v), len(v)+listSpare)
		copy(r, v)
		if k == "I" {
			return *(*[]int64)(unsafe.Pointer(&r))
		}
		if k == "F" {
			return *(*[]float64)(unsafe.Pointer(&r))
		}
		return r
	}
	// an invalid size (v1): any list will do
	r := make([]byte, len(v), len(v)+listSpare)
	for i, x := range v {
		r[i] = byte(x)
	}
	return r
}

// fromTyped returns the canonical elements of a typed list and their width.
func fromTyped(x interface{}) ([]uint64, int, bool) {
	switch v := x.(type) {
	case []byte:
		r := make([]uint64, len(v))
		for i, y := range v {
			r[i] = uint64(y)
		}
		return r, 1, true
	case []uint16:
		r := make([]uint64, len(v))
		for i, y := range v {
			r[i] = uint64(y)
		}
		return r, 2, true
	case []int16:
		return fromTyped(*(*[]uint16)(unsafe.Pointer(&v)))
	case []uint32:
		r := make([]uint64, len(v))
		for i, y := range v {
			r[i] = uint64(y)
		}
		return r, 4, true
	case []int32:
		return fromTyped(*(*[]uint32)(unsafe.Pointer(&v)))
	case []float32:
		return fromTyped(*(*[]uint32)(unsafe.Pointer(&v)))
	case []uint64:
		r := make([]uint64, len(v))
		copy(r, v)
		return r, 8, true
	case []int64:
		return fromTyped(*(*[]uint64)(unsafe.Pointer(&v)))
	case []float64:
		return fromTyped(*(*[]uint64)(unsafe.Pointer(&v)))
	}
	return nil, 0, false
}

func order(e string) binary.ByteOrder {
	if e == "BE" {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// quiet: results are not looked at (they may be live storage).
var quiet bool

func listRes(x interface{}) Res {
	if quiet {
		return Res{K: "ok"}
	}
	l, w, ok := fromTyped(x)
	if !ok {
		return Res{K: "ok", IsList: true, List: []uint64{0xBAD}, W: 9, Msg: fmt.Sprintf("%T", x)}
	}
	return Res{K: "ok", IsList: true, List: l, W: w, Raw: x}
}

func intRes(i int64) Res { return Res{K: "ok", IsInt: true, I: i} }

func u64Res(u uint64) Res {
	l := make([]uint64, 8)
	for i := range l {
		l[i] = (u >> uint(56-8*i)) & 0xFF
	}
	return Res{K: "ok", IsList: true, List: l, W: -1}
}

// Exec performs the call and classifies its outcome.
func (t *Target) Exec(o *Op) (r Res) {
	tick(t, o)
	defer tock()
	defer func() {
		if x := recover(); x != nil {
			r = classify(x)
		}
	}()
	return t.exec(o)
}

// classify names what was recovered from a panic.
func classify(x interface{}) Res {
	switch e := x.(type) {
	case missingMethod:
		return Res{K: "missing", Msg: string(e)}
	case runtime.Error:
		if a, ok := x.(interface{ Addr() uintptr }); ok {
			return Res{K: "panic", E: "fault", Msg: "memory fault", Addr: a.Addr()}
		}
		return Res{K: "panic", E: "runtime", Msg: e.Error()}
	}
	n := errorName(x)
	if n == "" {
		n = "other"
	}
	return Res{K: "panic", E: n, Msg: fmt.Sprint(x)}
}

func (t *Target) exec(o *Op) Res {
	ok := Res{K: "ok"}
	buf := t.Kind == "buffer"
	next := ""
	if o.Next {
		next = "Next"
	}
	byteSuffix := ""
	if Ver == 3 {
		byteSuffix = "Byte"
	}
	switch o.Op {
	case "write":
		switch o.K {
		case "bytes":
			var data interface{} = o.Data
			if o.Data == nil {
				data = typedList("bytes", 1, o.Vals)
			}
			if o.Next {
				t.call("WriteBytesNext", data)
			} else {
				t.call("WriteBytes", o.Off, data)
			}
		case "byte":
			if o.Next {
				t.call("WriteByteNext", byte(o.Vals[0]))
			} else {
				t.call("WriteByte", o.Off, byte(o.Vals[0]))
			}
		case "C":
			if o.Next {
				t.call("WriteComplexNext", typedList("C", o.W, o.Vals), intSize(o.W), order(o.E))
			} else {
				t.call("WriteComplex", o.Off, typedList("C", o.W, o.Vals), intSize(o.W), order(o.E))
			}
		default:
			name := "Write" + o.K + widthName(o.W) + o.E + next
			if o.Next {
				t.call(name, typedList(o.K, o.W, o.Vals))
			} else {
				t.call(name, o.Off, typedList(o.K, o.W, o.Vals))
			}
		}
		return ok
	case "read":
		switch o.K {
		case "byte":
			if o.Next {
				return listRes([]byte{byte(t.call("ReadByteNext")[0].Uint())})
			}
			return listRes([]byte{byte(t.call("ReadByte", o.Off)[0].Uint())})
		case "bytes":
			if buf {
				if o.Next {
					return listRes(t.call("ReadBytesNext", o.N)[0].Interface())
				}
				return listRes(t.call("ReadBytes", o.Off, o.N)[0].Interface())
			}
			out := append([]byte{}, dirtyBytes...)
			if o.Next {
				t.call("ReadBytesNext", &out, o.N)
			} else {
				t.call("ReadBytes", &out, o.Off, o.N)
			}
			return listRes(out)
		case "C":
			if buf {
				if o.Next {
					return listRes(t.call("ReadComplexNext", o.N, intSize(o.W), order(o.E))[0].Interface())
				}
				return listRes(t.call("ReadComplex", o.Off, o.N, intSize(o.W), order(o.E))[0].Interface())
			}
			var out interface{} = "dirty"
			if o.Next {
				t.call("ReadComplexNext", &out, o.N, intSize(o.W), order(o.E))
			} else {
				t.call("ReadComplex", &out, o.Off, o.N, intSize(o.W), order(o.E))
			}
			return listRes(out)
		}
		name := "Read" + o.K + widthName(o.W) + o.E + next
		if buf {
			if o.Next {
				return listRes(t.call(name, o.N)[0].Interface())
			}
			return listRes(t.call(name, o.Off, o.N)[0].Interface())
		}
		list := typedList(o.K, o.W, o.Pre)
		ptr := reflect.New(reflect.TypeOf(list))
		ptr.Elem().Set(reflect.ValueOf(list))
		if o.Next {
			t.call(name, ptr.Interface(), o.N)
		} else {
			t.call(name, ptr.Interface(), o.Off, o.N)
		}
		// the list the caller passed and the one it gets back
		r := listRes(ptr.Elem().Interface())
		r2 := listRes(list)
		if !sameList(r.List, r2.List) { // neither is right, then: show both
			r.List = append(append(r.List, 0xD1FFE4), r2.List...)
		}
		return r
	case "rbit":
		if buf {
			if o.Next {
				return intRes(int64(t.call("ReadBitNext")[0].Uint()))
			}
			return intRes(int64(t.call("ReadBit", o.Off)[0].Uint()))
		}
		out := byte(0xAB)
		if o.Next {
			t.call("ReadBitNext", &out)
		} else {
			t.call("ReadBit", &out, o.Off)
		}
		return intRes(int64(out))
	case "rbits":
		if buf {
			if o.Next {
				return u64Res(t.call("ReadBitsNext", o.N)[0].Uint())
			}
			return u64Res(t.call("ReadBits", o.Off, o.N)[0].Uint())
		}
		out := uint64(0xA5DEADBEEFC0FFEE)
		if o.Next {
			t.call("ReadBitsNext", &out, o.N)
		} else {
			t.call("ReadBits", &out, o.Off, o.N)
		}
		return u64Res(out)
	case "setb":
		if Ver == 3 {
			name := "SetBit"
			if o.V == 0 {
				name = "ClearBit"
			}
			if o.Next {
				t.call(name + next)
			} else {
				t.call(name, o.Off)
			}
			return ok
		}
		if o.Next {
			t.call("SetBitNext", byte(o.V))
		} else {
			t.call("SetBit", o.Off, byte(o.V))
		}
		return ok
	case "flip":
		if o.Next {
			t.call("FlipBitNext")
		} else {
			t.call("FlipBit", o.Off)
		}
		return ok
	case "sbits":
		if o.Next {
			t.call("SetBitsNext", o.Val, o.N)
		} else {
			t.call("SetBits", o.Off, o.Val, o.N)
		}
		return ok
	case "allb":
		t.call([]string{"ClearAllBits", "SetAllBits", "FlipAllBits"}[o.V])
		return ok
	case "seek":
		t.call("Seek"+byteSuffix, o.Off, o.Rel)
		return ok
	case "seekb":
		t.call("SeekBit", o.Off, o.Rel)
		return ok
	case "alignbit":
		t.call("AlignBit")
		return ok
	case "alignbyte":
		t.call("AlignByte")
		return ok
	case "after", "afterb":
		name := "After" + byteSuffix
		if o.Op == "afterb" {
			name = "AfterBit"
		}
		var at []int64 // of several positions, the first counts
		if o.Has {
			at = append(at, o.Off)
			for i := int64(0); i < o.N; i++ {
				at = append(at, o.Off*2+i-5)
			}
			if listHome != nil {
				at = listHome(at, 8, len(at)).([]int64)
			}
		}
		if buf {
			return intRes(t.callList(name, at)[0].Int())
		}
		out := int64(-7777)
		t.callList(name, &out, at)
		return intRes(out)
	case "grow":
		t.call("Grow", o.N)
		return ok
	case "trl":
		t.call("TruncateLeft", o.N)
		return ok
	case "trr":
		t.call("TruncateRight", o.N)
		return ok
	case "refresh":
		t.call("Refresh")
		return ok
	case "reset":
		t.call("Reset")
		return ok
	case "get": // v1, v2
		name := map[string]string{"off": "Offset", "boff": "BitOffset", "cap": "Capacity", "bcap": "BitCapacity", "len": "Bytes"}[o.K]
		if o.K == "len" {
			if buf {
				return intRes(int64(t.call(name)[0].Len()))
			}
			out := dirtyBytes
			t.call(name, &out)
			return intRes(int64(len(out)))
		}
		if buf {
			return intRes(t.call(name)[0].Int())
		}
		out := int64(-7777)
		t.call(name, &out)
		return intRes(out)
	case "poke":
		d, _, _, _, _ := t.look()
		d[o.Off] = byte(o.V)
		return ok
	}
	panic("harness: unknown op " + o.Op)
}

func widthName(w int) string {
	switch w {
	case 2:
		return "16"
	case 4:
		return "32"
	}
	return "64"
}

func sameList(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Obs is the observable state after a call.
type Obs struct {
	D                    []byte // live storage, not a copy
	Off, Boff, Cap, Bcap int64
	Lk                   int // 1: the lock was left held
	Out                  int // 1: storage outside the contents changed
}

const spareMax = 4096

func dataPtr(d []byte) uintptr { return *(*uintptr)(unsafe.Pointer(&d)) }

// watch declares the storage around the contents.
func (t *Target) watch(whole []byte) {
	t.whole = whole
	t.snapshot()
}

func (t *Target) snapshot() {
	d, _, _, _, _ := t.look()
	t.loc, t.ln = dataPtr(d), len(d)
	t.ws = append(t.ws[:0], t.whole...)
	t.spare = nil
	if cap(d) > len(d) {
		t.spare = d[len(d):cap(d)]
		if len(t.spare) > spareMax {
			t.spare = t.spare[:spareMax]
		}
	}
	t.ss = append(t.ss[:0], t.spare...)
}

// outside reports whether storage outside the contents changed.
func (t *Target) outside(d []byte) bool {
	if !bytes.Equal(t.spare, t.ss) {
		return true
	}
	if t.whole == nil {
		return false
	}
	w0 := dataPtr(t.whole)
	p := dataPtr(d)
	if cap(d) == 0 || p < w0 || p >= w0+uintptr(len(t.whole)) {
		return !bytes.Equal(t.whole, t.ws)
	}
	a := int(p - w0)
	z := a + len(d)
	if z > len(t.whole) {
		z = len(t.whole)
	}
	return !bytes.Equal(t.whole[:a], t.ws[:a]) || !bytes.Equal(t.whole[z:], t.ws[z:])
}

var resizing = map[string]bool{"grow": true, "trl": true, "trr": true, "reset": true, "poke": true}

// Observe reads the state after op o (nil: initially).
func (t *Target) Observe(o *Op) (s Obs) {
	if t.lockState() == 1 {
		s.Lk = 1
		t.unlock()
	}
	tick(t, &Op{Op: "observe"})
	s.D, s.Off, s.Boff, s.Cap, s.Bcap = t.look()
	tock()
	if t.whole != nil || t.spare != nil || (o != nil && resizing[o.Op]) {
		if o != nil && !resizing[o.Op] && dataPtr(s.D) == t.loc && len(s.D) == t.ln && t.outside(s.D) {
			s.Out = 1
		}
		if o == nil || resizing[o.Op] || s.Out == 1 || dataPtr(s.D) != t.loc {
			t.snapshot()
		}
	}
	return
}

// has tells whether the version and kind offer the operation.
func has(kind string, o *Op) bool {
	switch o.Op {
	case "reset":
		return Ver >= 2
	case "trl", "trr":
		return Ver == 3
	case "write", "read":
		switch o.K {
		case "byte":
			return kind == "buffer"
		case "C":
			return Ver == 1
		case "U":
			return Ver >= 2
		case "I", "F":
			return Ver == 3
		}
	}
	return true
}

func isTyped(k string) bool { return strings.Contains("UIF", k) }
