package main

// concOps: one or two representative calls of every method, for a buffer
// of 12 bytes with cursors inside.
func concOps() (ops []*Op) {
	add := func(o Op) { ops = append(ops, &o) }
	fams := []Op{{K: "bytes", W: 1, E: "LE"}, {K: "byte", W: 1, E: "LE"}}
	for _, e := range []string{"LE", "BE"} {
		for _, w := range []int{1, 2, 4, 8} {
			k := "U"
			if Ver == 1 {
				k = "C"
			} else if w == 1 {
				continue
			}
			fams = append(fams, Op{K: k, W: w, E: e})
		}
	}
	val := uint64(0xA1B2C3D4E5F60718)
	for _, f := range fams {
		for _, next := range []bool{true, false} {
			o := f
			o.Next = next
			if !next {
				o.Off = 3
			}
			n := 1
			if f.W <= 2 && f.K != "byte" {
				n = 2
			}
			r := o
			r.Op, r.N = "read", int64(n)
			add(r)
			o.Op = "write"
			for i := 0; i < n; i++ {
				o.Vals = append(o.Vals, (val>>uint(8*i))&mask(f.W))
				val = val<<7 | val>>57
			}
			add(o)
		}
	}
	for _, next := range []bool{true, false} {
		off := int64(29)
		if next {
			off = 0
		}
		add(Op{Op: "rbit", Next: next, Off: off})
		add(Op{Op: "setb", Next: next, Off: off, V: 1})
		add(Op{Op: "setb", Next: next, Off: off, V: 0})
		add(Op{Op: "flip", Next: next, Off: off})
		add(Op{Op: "rbits", Next: next, Off: off, N: 11})
		add(Op{Op: "sbits", Next: next, Off: off, N: 11, Val: 0x5B7})
	}
	for v := int64(0); v < 3; v++ {
		add(Op{Op: "allb", V: v})
	}
	add(Op{Op: "seek", Off: 1})
	add(Op{Op: "seek", Off: 2, Rel: true})
	add(Op{Op: "seekb", Off: 30})
	add(Op{Op: "seekb", Off: 3, Rel: true})
	add(Op{Op: "alignbit"})
	add(Op{Op: "alignbyte"})
	add(Op{Op: "after"})
	add(Op{Op: "after", Off: 2, Has: true})
	add(Op{Op: "afterb"})
	add(Op{Op: "afterb", Off: 2, Has: true})
	add(Op{Op: "grow", N: 3})
	add(Op{Op: "refresh"})
	if Ver == 2 {
		add(Op{Op: "reset"})
	}
	for _, k := range []string{"off", "boff", "cap", "bcap", "len"} {
		add(Op{Op: "get", K: k})
	}
	// rejected ones
	add(Op{Op: "write", K: "bytes", W: 1, E: "LE", Off: 10, Vals: []uint64{1, 2, 3, 4, 5}})
	add(Op{Op: "read", K: "bytes", W: 1, E: "LE", Off: -1, N: 2})
	add(Op{Op: "sbits", Off: 90, N: 13, Val: 0xFFFF})
	add(Op{Op: "rbits", Off: 95, N: 9})
	add(Op{Op: "setb", Off: 3, V: 2})
	add(Op{Op: "flip", Off: 97})
	return
}

// bigOps: calls that move or change most of a buffer of size bytes; tag makes
// the values one thread writes its own.
func bigOps(size int, tag uint64) (ops []*Op) {
	add := func(o Op) { ops = append(ops, &o) }
	fams := []Op{{K: "bytes", W: 1, E: "LE"}}
	for _, e := range []string{"LE", "BE"} {
		for _, w := range []int{2, 4, 8} {
			k := "U"
			if Ver == 1 {
				k = "C"
			}
			fams = append(fams, Op{K: k, W: w, E: e})
		}
	}
	for i, f := range fams {
		r := f
		r.Next = i%2 == 0
		if !r.Next {
			r.Off = 1
		}
		n := (size - 8) / f.W
		w := r
		r.Op, r.N = "read", int64(n)
		add(r)
		w.Op = "write"
		for q := 0; q < n; q++ {
			w.Vals = append(w.Vals, (tag*0x3737373737373737+uint64(q)*0x0101010101010101)&mask(f.W))
		}
		add(w)
	}
	for v := int64(0); v < 3; v++ {
		add(Op{Op: "allb", V: v})
	}
	add(Op{Op: "grow", N: int64(size)})
	add(Op{Op: "grow", N: 1})
	if Ver == 2 {
		add(Op{Op: "reset"})
	}
	add(Op{Op: "get", K: "cap"})
	add(Op{Op: "get", K: "bcap"})
	return
}
