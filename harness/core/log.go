package main

import (
	"bufio"
	"os"
	"strconv"
)

func sat(x int64) int64 {
	if x > huge {
		return huge
	}
	if x < -huge {
		return -huge
	}
	return x
}

type jw struct{ b []byte }

func (j *jw) s(x string) *jw { j.b = append(j.b, x...); return j }
func (j *jw) i(x int64) *jw  { j.b = strconv.AppendInt(j.b, x, 10); return j }
func (j *jw) q(x string) *jw { j.b = strconv.AppendQuote(j.b, x); return j }
func (j *jw) bool(x bool) *jw {
	if x {
		return j.s("true")
	}
	return j.s("false")
}

func (j *jw) bytes(d []byte) *jw {
	j.s("[")
	for i, x := range d {
		if i > 0 {
			j.s(",")
		}
		j.i(int64(x))
	}
	return j.s("]")
}

// canonical elements: lists of w bytes, most significant first
func (j *jw) elems(v []uint64, w int) *jw {
	j.s("[")
	for i, x := range v {
		if i > 0 {
			j.s(",")
		}
		j.s("[")
		for k := w - 1; k >= 0; k-- {
			if k < 8 {
				j.i(int64(x >> uint(8*k) & 0xFF))
			} else {
				j.i(999)
			}
			if k > 0 {
				j.s(",")
			}
		}
		j.s("]")
	}
	return j.s("]")
}

func u64bytes(u uint64) []byte {
	r := make([]byte, 8)
	for i := range r {
		r[i] = byte(u >> uint(56-8*i))
	}
	return r
}

func elemWidth(w int) int {
	if validSize(w) {
		return w
	}
	return 1
}

// op writes the record of an operation; base is the index of byte 0 of the
// recorded window.
func (j *jw) op(o *Op, base int64) *jw {
	j.s(`{"op":`).q(o.Op)
	bit := o.Op == "rbit" || o.Op == "rbits" || o.Op == "setb" || o.Op == "flip" || o.Op == "sbits" || o.Op == "seekb"
	off := o.Off
	if base != 0 && !o.Rel {
		if bit {
			off -= 8 * base
		} else {
			off -= base
		}
	}
	switch o.Op {
	case "write":
		j.s(`,"k":`).q(o.K).s(`,"w":`).i(int64(o.W)).s(`,"e":`).q(o.E).s(`,"next":`).bool(o.Next)
		j.s(`,"off":`).i(sat(off)).s(`,"vals":`).elems(o.Vals, elemWidth(o.W))
	case "read":
		j.s(`,"k":`).q(o.K).s(`,"w":`).i(int64(o.W)).s(`,"e":`).q(o.E).s(`,"next":`).bool(o.Next)
		j.s(`,"off":`).i(sat(off)).s(`,"n":`).i(sat(o.N))
		if o.Pre != nil {
			j.s(`,"pre":`).elems(o.Pre, o.W)
		}
	case "rbit", "flip":
		j.s(`,"next":`).bool(o.Next).s(`,"off":`).i(sat(off))
	case "setb":
		j.s(`,"next":`).bool(o.Next).s(`,"off":`).i(sat(off)).s(`,"v":`).i(o.V)
	case "rbits":
		j.s(`,"next":`).bool(o.Next).s(`,"off":`).i(sat(off)).s(`,"n":`).i(sat(o.N))
	case "sbits":
		j.s(`,"next":`).bool(o.Next).s(`,"off":`).i(sat(off)).s(`,"n":`).i(sat(o.N)).s(`,"val":`).bytes(u64bytes(o.Val))
	case "new":
		j.s(`,"off":`).i(o.Off).s(`,"n":`).i(o.N)
	case "get":
		j.s(`,"k":`).q(o.K)
	case "allb":
		j.s(`,"v":`).i(o.V)
	case "seek", "seekb":
		j.s(`,"off":`).i(sat(off)).s(`,"rel":`).bool(o.Rel)
	case "after", "afterb":
		j.s(`,"off":`).i(sat(o.Off)).s(`,"has":`).bool(o.Has)
		if o.N != 0 {
			j.s(`,"n":`).i(o.N)
		}
	case "grow", "trl", "trr":
		j.s(`,"n":`).i(sat(o.N))
	case "poke":
		j.s(`,"off":`).i(off).s(`,"v":`).i(o.V)
	}
	// the exact arguments, for re-execution
	if o.Off != off || sat(off) != off {
		j.s(`,"xoff":`).q(strconv.FormatInt(o.Off, 10))
	}
	if sat(o.N) != o.N {
		j.s(`,"xn":`).q(strconv.FormatInt(o.N, 10))
	}
	return j.s("}")
}

func (j *jw) res(r *Res) *jw {
	j.s(`{"k":`).q(r.K)
	if r.K == "panic" {
		j.s(`,"e":`).q(r.E)
		if r.Msg != "" {
			j.s(`,"msg":`).q(r.Msg)
		}
		return j.s("}")
	}
	if r.K == "missing" {
		return j.s(`,"e":"missing","msg":`).q(r.Msg).s("}")
	}
	if r.K == "hang" {
		return j.s(`,"e":"hang"}`)
	}
	j.s(`,"v":`).val(r)
	return j.s("}")
}

func (j *jw) val(r *Res) *jw {
	switch {
	case r.IsInt:
		j.i(sat(r.I))
	case r.IsList && r.W == -1:
		j.s("[")
		for i, x := range r.List {
			if i > 0 {
				j.s(",")
			}
			j.i(int64(x))
		}
		j.s("]")
	case r.IsList:
		j.elems(r.List, r.W)
	default:
		j.s("[]")
	}
	return j
}

func (j *jw) obs(s *Obs, prev []byte, base int64) *jw {
	if prev == nil || string(prev) != string(s.D) {
		j.s(`,"d":`).bytes(s.D)
	}
	return j.s(`,"off":`).i(sat(s.Off - base)).s(`,"boff":`).i(sat(s.Boff - 8*base)).
		s(`,"cap":`).i(sat(s.Cap - base)).s(`,"bcap":`).i(sat(s.Bcap - 8*base)).
		s(`,"lk":`).i(int64(s.Lk)).s(`,"out":`).i(int64(s.Out))
}

func (j *jw) obsTail(s *Obs) *jw {
	return j.s(`,"off":`).i(sat(s.Off)).s(`,"boff":`).i(sat(s.Boff)).
		s(`,"cap":`).i(sat(s.Cap)).s(`,"bcap":`).i(sat(s.Bcap))
}

// Trace collects one recorded execution.
type Trace struct {
	j    jw
	prev []byte
	n    int
	base int64
}

func newTrace(kind, origin string, layout int, s *Obs) *Trace {
	t := &Trace{}
	t.j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(kind).s(`},"origin":`).q(origin)
	t.j.s(`,"layout":`).i(int64(layout)).s(`,"s0":{"x":0`).obs(s, nil, 0).s(`},"ev":[`)
	t.prev = clone(s.D)
	return t
}

func (t *Trace) sep() {
	if t.n > 0 {
		t.j.s(",")
	}
	t.n++
}

// Event appends a call; extra is appended verbatim.
func (t *Trace) Event(o *Op, r *Res, s *Obs, extra string) {
	t.sep()
	t.j.s(`{"o":`).op(o, t.base).s(`,"r":`).res(r).obs(s, t.prev, t.base).s(extra).s("}")
	if string(t.prev) != string(s.D) {
		t.prev = clone(s.D)
	}
}

// Hang appends a call that did not return.
func (t *Trace) Hang(o *Op) {
	t.sep()
	t.j.s(`{"o":`).op(o, t.base).s(`,"r":{"k":"hang","e":"hang"}}`)
}

// oddBytes is what the odd records written so far take.
var oddBytes int

// room tells whether one more odd record should be written: always the first,
// and then as much as can be judged in reasonable time.
func room(b []byte) bool {
	if oddBytes > 0 && oddBytes+len(b) > 4<<20 {
		return false
	}
	oddBytes += len(b)
	return true
}

// CloseOdd is Close for a record that may be left out if there are others.
func (t *Trace) CloseOdd(w *bufio.Writer) {
	if room(t.j.b) {
		t.Close(w)
	}
}

func (t *Trace) Close(w *bufio.Writer) {
	t.j.s("]}\n")
	w.Write(t.j.b)
}

func outFile(path string) (*os.File, *bufio.Writer) {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return f, bufio.NewWriterSize(f, 1<<20)
}
