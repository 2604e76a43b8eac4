package main

import (
	"encoding/json"
	"sort"
)

type preempt struct{ At, To int }

// Program: an initial buffer and what each goroutine calls.
type Program struct {
	Kind      string // buffer, or mini: each goroutine brackets its calls
	D         []byte
	Off, Boff int64
	Layout    int
	Th        [][]*Op
	Coarse    bool
}

func (p *Program) kind() string {
	if p.Kind == "" {
		return "buffer"
	}
	return p.Kind
}

// hist is one atomic action: a call, or a bracketed section of calls.
type hist struct {
	th       int
	o        []*Op
	r        []*Res
	inv, ret int
}

type outcome struct {
	h        []*hist
	final    Obs
	deadlock bool
	misuse   string
	steps    int
	ran      []int8
	futile   bool
}

func (j *jw) history(p *Program, out *outcome) *jw {
	j.s(`{"t":{"v":`).i(int64(Ver)).s(`,"kind":`).q(p.kind()).s(`},"s0":{"d":`).bytes(p.D).s(`,"off":`).i(p.Off).s(`,"boff":`).i(p.Boff).s(`},"h":[`)
	for i, h := range out.h {
		if i > 0 {
			j.s(",")
		}
		j.s(`{"th":`).i(int64(h.th)).s(`,"inv":`).i(int64(h.inv)).s(`,"ret":`).i(sat(int64(h.ret))).
			s(`,"c":[`)
		for k := range h.o {
			if k > 0 {
				j.s(",")
			}
			j.s(`{"o":`).op(h.o[k], 0).s(`,"r":`).res(h.r[k]).s("}")
		}
		j.s("]}")
	}
	f := &out.final
	j.s(`],"stuck":`).bool(out.deadlock || out.misuse != "" || f.Lk == 1).
		s(`,"f":{"d":`).bytes(f.D).obsTail(f).s("}")
	return j
}

func (j *jw) program(p *Program, first int, plan []preempt) *jw {
	if plan == nil {
		plan = []preempt{}
	}
	b, _ := json.Marshal(plan)
	j.s(`,"first":`).i(int64(first)).s(`,"plan":`).s(string(b)).s(`,"layout":`).i(int64(p.Layout)).s(`,"coarse":`).bool(p.Coarse).s(`,"th":[`)
	for i, th := range p.Th {
		if i > 0 {
			j.s(",")
		}
		j.s("[")
		for k, o := range th {
			if k > 0 {
				j.s(",")
			}
			j.op(o, 0)
		}
		j.s("]")
	}
	return j.s("]")
}

// key is a history without its times.
func (out *outcome) key() string {
	var j jw
	for _, h := range out.h {
		for k := range h.o {
			j.s("|").op(h.o[k], 0).res(h.r[k])
		}
	}
	j.s("=").bytes(out.final.D).obsTail(&out.final).bool(out.deadlock || out.misuse != "")
	return string(j.b)
}

// perThread orders the calls by goroutine.
func (out *outcome) perThread() *outcome {
	sort.SliceStable(out.h, func(i, j int) bool { return out.h[i].th < out.h[j].th })
	return out
}

// parseProgram reads back what program wrote.
func parseProgram(l string) (p *Program, first int, plan []preempt) {
	var v struct {
		S0 struct {
			D    []int `json:"d"`
			Off  int64 `json:"off"`
			Boff int64 `json:"boff"`
		} `json:"s0"`
		First int       `json:"first"`
		Plan  []preempt `json:"plan"`
		T     struct {
			Kind string `json:"kind"`
		} `json:"t"`
		Layout int        `json:"layout"`
		Coarse bool       `json:"coarse"`
		Th     [][]jsonOp `json:"th"`
	}
	if err := json.Unmarshal([]byte(l), &v); err != nil {
		fatal(err)
	}
	p = &Program{Kind: v.T.Kind, D: toBytes(v.S0.D), Off: v.S0.Off, Boff: v.S0.Boff, Layout: v.Layout, Coarse: v.Coarse}
	for _, th := range v.Th {
		var ops []*Op
		for i := range th {
			ops = append(ops, th[i].op())
		}
		p.Th = append(p.Th, ops)
	}
	return p, v.First, v.Plan
}

func ramp(n int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*29 + 17)
	}
	return d
}
