package main

import (
	"fmt"
	"math/rand"
	"strings"
)

func init() { modes["sweep"] = modeSweep }

// modeSweep makes one call at a time on new buffers, for every combination of
// a small range of sizes, positions, counts and values; those that predict()
// finds surprising are recorded.
func modeSweep() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	calls, found := 0, 0
	seen := map[string]int{}
	for _, kind := range kinds() {
		g := newGen(rng, kind, *fProfile)
		n := 0
		try := func(d []byte, off, boff int64, o *Op) {
			if found >= *fMax {
				return
			}
			x := predict(kind, d, off, boff, o)
			if kind == "mini" && (len(x.rej) > 0 || !x.ok) {
				return
			}
			if o.Op == "read" && kind == "mini" && isTyped(o.K) {
				o.Pre = g.values(o.K, o.W, o.N+moreSwept(calls))
				x = predict(kind, d, off, boff, o)
			}
			layout := n % 4096
			n += 5
			t := setup(kind, d, off, boff, layout)
			s := t.Observe(nil)
			s0 := s
			s0.D = clone(s.D)
			onHang = func(o *Op) {
				tr := newTrace(kind, "sweep", layout, &s0)
				tr.Hang(o)
				tr.Close(w)
				w.Flush()
			}
			r := t.Exec(o)
			s = t.Observe(o)
			onHang = nil
			calls++
			if !surprising(&x, d, off, boff, o, &r, &s) {
				return
			}
			key := fmt.Sprint(o.Op, o.K, o.W, o.E, o.Next, kind, r.K)
			if seen[key]++; seen[key] > 2 {
				return
			}
			found++
			tr := newTrace(kind, "sweep", layout, &s0)
			tr.Event(o, &r, &s, "")
			tr.CloseOdd(w)
		}
		sweepAll(g, try)
	}
	w.Flush()
	f.Close()
	fmt.Printf("calls=%d surprising=%d\n", calls, found)
}

// what each property is swept with
var sweepGroups = map[string]string{
	"C01": "list value range long", "C02": "list value range long", "C03": "list value long", "C04": "bit value", "C05": "bit",
	"C06": "list bit whole range long part", "C07": "list bit whole range part", "C08": "list bit cursor range whole long",
	"C09": "list bit whole cursor", "C10": "whole vast", "C18": "whole vast", "C12": "list bit whole cursor long vast", "C17": "list bit whole cursor range long vast",
}

func sweepAll(g *Gen, try tryFn) {
	which := sweepGroups[*fProfile]
	if which == "" {
		which = "list value bit whole range cursor long part vast"
	}
	for _, s := range strings.Fields(which) {
		switch s {
		case "list":
			sweepLists(g, try)
		case "value":
			sweepValues(g, try)
		case "bit":
			sweepBits(g, try)
		case "whole":
			sweepWhole(g, try)
		case "range":
			sweepRanges(g, try)
		case "long":
			sweepLong(g, try)
		case "part":
			sweepPart(g, try)
		case "vast":
			sweepVast(g, try)
		case "cursor":
			sweepCursors(g, try)
		}
	}
}

type tryFn func(d []byte, off, boff int64, o *Op)

type family struct {
	k string
	w int
}

func families(kind string) []family {
	r := []family{{"bytes", 1}}
	if kind == "buffer" {
		r = append(r, family{"byte", 1})
	}
	switch Ver {
	case 1:
		return append(r, family{"C", 1}, family{"C", 2}, family{"C", 4}, family{"C", 8})
	case 2:
		return append(r, family{"U", 2}, family{"U", 4}, family{"U", 8})
	}
	return append(r, family{"U", 2}, family{"U", 4}, family{"U", 8}, family{"I", 2}, family{"I", 4}, family{"I", 8}, family{"F", 4}, family{"F", 8})
}

func orders(f family) []string {
	if f.w == 1 {
		return []string{"LE"}
	}
	return []string{"LE", "BE"}
}

func (g *Gen) rw(op string, f family, e string, next bool, off, n int64) *Op {
	o := &Op{Op: op, K: f.k, W: f.w, E: e, Next: next}
	if !next {
		o.Off = off
	}
	if op == "write" {
		o.Vals = g.values(f.k, f.w, n)
	} else {
		o.N = n
	}
	return o
}

// every list length, at several positions, with and without room after it
func sweepLists(g *Gen, try tryFn) {
	for _, f := range families(g.kind) {
		for _, e := range orders(f) {
			for n := int64(0); n <= 270; n++ {
				if f.k == "byte" && n > 0 {
					break
				}
				m := n
				if f.k == "byte" {
					m = 1
				}
				for _, off := range []int64{0, 1, 2, 5, 8, 13} {
					for _, room := range []int64{0, 1, 7, 11} {
						x := off + n*3 + room
						d := g.contents(int(off + m*int64(f.w) + room))
						try(d, off, 3*off+1, g.rw([]string{"write", "read"}[x&1], f, e, x&2 != 0, off, m))
						try(d, off, 3*off+1, g.rw([]string{"read", "write"}[x&1], f, e, x&4 != 0, off, m))
					}
				}
			}
		}
	}
}

// every byte value in every place; every 16-bit value
func sweepValues(g *Gen, try tryFn) {
	for _, f := range families(g.kind) {
		for _, e := range orders(f) {
			one := func(v uint64, next bool) {
				v &= mask(f.w)
				w := g.rw("write", f, e, next, 1, 1)
				w.Vals[0] = v
				d := make([]byte, 2+f.w)
				for i := range d {
					d[i] = byte(v>>8) + 7*byte(i)
				}
				try(d, 1, 0, w)
				copy(d[1:], encode([]uint64{v}, f.w, e))
				try(d, 1, 0, g.rw("read", f, e, !next, 1, 1))
			}
			if f.w == 2 || f.w == 1 {
				for v := uint64(0); v <= mask(f.w); v++ {
					one(v, v&8 != 0)
				}
				continue
			}
			for i := 0; i < f.w; i++ {
				for b := uint64(0); b < 256; b++ {
					for _, rest := range []uint64{0, ^uint64(0), 0x0102030405060708} {
						one(rest&^(255<<uint(8*i))|b<<uint(8*i), b&1 != 0)
					}
				}
			}
			for i := uint(0); i < 64; i++ {
				for j := uint(0); j < 64; j++ {
					one(1<<i|1<<j, true)
					one(1<<i-1<<j, false)
				}
			}
			for _, v := range append(append(append([]uint64{}, specials...), f32s...), f64s...) {
				one(v, false)
			}
			// the exponents of floating-point numbers
			for x := uint64(0); x < 2048; x++ {
				for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x400001} {
					one(x<<52|m, true)
					one(1<<63|x<<52|m, false)
					one(x<<23|m&(1<<23-1), false)
				}
			}
		}
	}
}

// every bit offset with every width
func sweepBits(g *Gen, try tryFn) {
	for _, size := range []int{1, 2, 3, 8, 9, 17} {
		bits := int64(8 * size)
		zero, ones := make([]byte, size), make([]byte, size)
		for i := range ones {
			ones[i] = 255
		}
		for off := int64(0); off <= bits; off++ {
			for n := int64(0); n <= 64 && off+n <= bits; n++ {
				rnd := make([]byte, size)
				g.r.Read(rnd)
				for i, d := range [][]byte{zero, ones, rnd} {
					next := (off+n+int64(i))%2 == 0
					rd, wr := &Op{Op: "rbits", Next: next, N: n}, &Op{Op: "sbits", Next: !next, N: n, Val: g.r.Uint64()}
					switch i {
					case 0:
						wr.Val = ^uint64(0)
					case 1:
						wr.Val = ^(1<<uint(n) - 1)
					}
					if !rd.Next {
						rd.Off = off
					}
					if !wr.Next {
						wr.Off = off
					}
					try(d, 1, off, rd)
					try(d, 1, off, wr)
				}
			}
		}
	}
	for _, size := range []int{1, 64, 515} {
		d := g.contents(size)
		for off := int64(0); off < 8*int64(size); off++ {
			for i, o := range []*Op{{Op: "rbit"}, {Op: "setb"}, {Op: "setb", V: 1}, {Op: "flip"}} {
				if o.Next = (off>>3+int64(i))%2 == 0; !o.Next {
					o.Off = off
				}
				try(d, 2, off, o)
			}
			n := off % 65
			if off+n <= 8*int64(size) {
				try(d, 2, off, &Op{Op: "rbits", Next: true, N: n})
				try(d, 2, 0, &Op{Op: "sbits", Off: off, N: n, Val: g.r.Uint64()})
			}
		}
	}
	if g.kind == "buffer" && Ver < 3 {
		for v := int64(0); v < 256; v++ {
			for off := int64(0); off < 8; off++ {
				try([]byte{0x5A, 0xA5}, 0, off, &Op{Op: "setb", Next: v&1 != 0, Off: off * (1 - v&1), V: v})
			}
		}
	}
}

// every size of a buffer, cleared, set, flipped, grown and cut
func sweepWhole(g *Gen, try tryFn) {
	for size := 0; size <= 530; size++ {
		d := g.contents(size)
		off, boff := int64(size/3), int64(size)
		for v := int64(0); v < 3; v++ {
			try(d, off, boff, &Op{Op: "allb", V: v})
		}
		try(d, off, boff, &Op{Op: "refresh"})
		if Ver > 1 {
			try(d, off, boff, &Op{Op: "reset"})
		}
		for n := int64(0); n <= 40; n++ {
			if size <= 70 || n < 3 || (int64(size)+n)%37 == 0 {
				try(d, off, boff, &Op{Op: "grow", N: n})
			}
		}
		for _, n := range []int{size, size + 1, 2*size - 1, 2 * size, 2*size + 1, 64, 128, 255, 256, 257, 512, 1000} {
			if n >= 0 {
				try(d, off, boff, &Op{Op: "grow", N: int64(n)})
			}
		}
		if Ver == 3 {
			for n := 0; n <= size; n++ {
				if size <= 70 || n < 4 || size-n < 4 || (size+n)%29 == 0 {
					try(d, off, boff, &Op{Op: "trl", N: int64(n)})
					try(d, off, boff, &Op{Op: "trr", N: int64(n)})
				}
			}
			for n := int64(1); n < 4; n++ {
				try(d, off, boff, &Op{Op: "trl", N: -n})
				try(d, off, boff, &Op{Op: "trr", N: -n})
				try(d, off, boff, &Op{Op: "trl", N: int64(size) + n})
				try(d, off, boff, &Op{Op: "trr", N: int64(size) + n})
				try(d, off, boff, &Op{Op: "grow", N: -n})
			}
		}
	}
}

// every position around both ends with every small count
func sweepRanges(g *Gen, try tryFn) {
	if g.kind == "mini" {
		return
	}
	for _, size := range []int64{0, 1, 2, 3, 4, 7, 8, 9, 16, 19} {
		d := g.contents(int(size))
		for off := int64(-10); off <= size+10; off++ {
			for _, f := range families(g.kind) {
				for n := int64(0); n <= 20; n++ {
					if n*int64(f.w) > size-off+12 && n > 2 || f.k == "byte" && n != 1 {
						continue
					}
					e := orders(f)[int(off+n+11)%len(orders(f))]
					for i, op := range []string{"read", "write"} {
						o := g.rw(op, f, e, false, off, n)
						if (off+n+int64(i))%3 == 0 {
							o.Next, o.Off = true, 0
						}
						try(d, off, 4, o)
					}
				}
			}
		}
		for off := int64(-70); off <= 8*size+70; off++ {
			for _, o := range []*Op{{Op: "rbit"}, {Op: "setb"}, {Op: "setb", V: 1}, {Op: "flip"}} {
				if o.Next = off%3 == 0; !o.Next {
					o.Off = off
				}
				try(d, 1, off, o)
			}
			for n := int64(0); n <= 72; n++ {
				if n < 3 || n >= 62 || (off+n)%5 == 0 || off < 0 && off+n <= 2 && off+n >= -2 || off+n-8*size < 2 && off+n-8*size > -2 {
					for i, o := range []*Op{{Op: "rbits", N: n}, {Op: "sbits", N: n, Val: 0xA5A5A5A5A5A5A5A5}} {
						if n > 64 && off >= 0 && off+n <= 8*size {
							continue // what more than 64 bits in range do is not said
						}
						if o.Next = (off+n+int64(i))%4 == 0; !o.Next {
							o.Off = off
						}
						try(d, 1, off, o)
					}
				}
			}
		}
	}
}

// every position
func sweepCursors(g *Gen, try tryFn) {
	for _, size := range []int64{0, 1, 5, 16, 70} {
		d := g.contents(int(size))
		for off := int64(-9); off <= 8*size+20; off++ {
			for _, cur := range []int64{0, 1, 7, 8, 9, off} {
				try(d, cur, off, &Op{Op: "alignbyte"})
				try(d, off, cur, &Op{Op: "alignbit"})
				for _, rel := range []bool{false, true} {
					try(d, cur, 5, &Op{Op: "seek", Off: off, Rel: rel})
					try(d, 2, cur, &Op{Op: "seekb", Off: off, Rel: rel})
				}
				for _, op := range []string{"after", "afterb"} {
					try(d, cur, off, &Op{Op: op})
					try(d, off, cur, &Op{Op: op})
					try(d, 3, cur, &Op{Op: op, Has: true, Off: off})
					try(d, cur, 3, &Op{Op: op, Has: true, Off: off, N: 1 + cur&1})
				}
			}
		}
	}
}

// lengths around the powers of two
func around(lo, hi uint) (r []int64) {
	for e := lo; e <= hi; e++ {
		r = append(r, 1<<e-1, 1<<e, 1<<e+1)
	}
	return
}

// long lists: their length does not fit in 8 or 16 bits
func sweepLong(g *Gen, try tryFn) {
	for _, f := range families(g.kind) {
		if f.k == "byte" {
			continue
		}
		for _, e := range orders(f) {
			for i, n := range append(around(9, 16), 70001) {
				off := int64(i) % 4
				room := int64(i) * 3 % 5
				d := g.contents(int(off + n*int64(f.w) + room))
				try(d, off, off+1, g.rw("write", f, e, i&1 != 0, off, n))
				try(d, off, off+1, g.rw("read", f, e, i&1 == 0, off, n))
			}
		}
	}
	for _, n := range append(around(17, 20), 200003, 3<<20) {
		f := families(g.kind)[0]
		d := g.contents(int(n + 2))
		try(d, 1, 0, g.rw("write", f, "LE", n&1 != 0, 1, n))
		try(d, 1, 0, g.rw("read", f, "LE", n&1 == 0, 1, n))
	}
}

// long accesses that are only partly out of range
func sweepPart(g *Gen, try tryFn) {
	if g.kind == "mini" {
		return
	}
	for _, f := range families(g.kind) {
		if f.k == "byte" {
			continue
		}
		w := int64(f.w)
		for _, e := range orders(f) {
			for i, n := range append(around(5, 13), 20000, 65537) {
				d := g.contents(int(n * w))
				for j, off := range []int64{1, w, w*n - 1, w * n / 2, -1, -w, 1 - w*n} {
					if n > 1100 && (i+j)%3 > 0 {
						continue
					}
					try(d, off, 3, g.rw("write", f, e, (i+j)&1 != 0, off, n))
					try(d, off, 3, g.rw("read", f, e, (i+j)&1 == 0, off, n))
				}
			}
		}
	}
}

// very large buffers as a whole
func sweepVast(g *Gen, try tryFn) {
	for i, n := range append(around(10, 20), 5000, 100001, 2<<20+3, 3<<20+5) {
		if n > 200000 && i%3 > 0 {
			continue
		}
		d := g.contents(int(n))
		for v := int64(0); v < 3; v++ {
			try(d, 3, n, &Op{Op: "allb", V: v})
		}
		for _, m := range []int64{1, 100, 4096, 65536, n - 1, n, n + 1} {
			if m > 200000 && m != n {
				continue
			}
			try(d, 3, n, &Op{Op: "grow", N: m})
			if Ver == 3 && m <= n {
				try(d, 3, n, &Op{Op: "trl", N: m})
				try(d, 3, n, &Op{Op: "trr", N: m})
			}
		}
		if Ver > 1 {
			try(d, 3, n, &Op{Op: "reset"})
		}
	}
}
