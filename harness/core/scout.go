package main

// A fast transliteration of Crunch.tla's Exp. It only selects which recorded
// executions are worth showing to TLC ("scouting"); it decides nothing.

type expect struct {
	ok   bool
	rej  []string // "any" allowed
	d    []byte   // nil: unchanged
	offs []int64
	boff int64
	val  Res
}

func pastEnd(off, n, w, cp int64) bool {
	return off > cp || n > cp || (off+n*w > cp)
}

func rangeErrs(off, n, w, cp int64, over, under string) (e []string) {
	if n < 1<<20 {
		if off > cp || off > cp-n*w {
			e = append(e, over)
		}
	} else if n > cp || off > cp || off > cp-n*w {
		e = append(e, over)
	}
	if off < 0 {
		e = append(e, under)
	}
	return
}

func getBit(d []byte, i int64) byte { return d[i/8] >> uint(7-i%8) & 1 }

func putBit(d []byte, i int64, v byte) {
	d[i/8] = d[i/8]&^(1<<uint(7-i%8)) | v<<uint(7-i%8)
}

func encode(v []uint64, w int, e string) []byte {
	r := make([]byte, 0, len(v)*w)
	for _, x := range v {
		for i := 0; i < w; i++ {
			sh := uint(8 * i)
			if e == "BE" {
				sh = uint(8 * (w - 1 - i))
			}
			r = append(r, byte(x>>sh))
		}
	}
	return r
}

func decode(d []byte, off, n int64, w int, e string) []uint64 {
	r := make([]uint64, n)
	for q := range r {
		for i := 0; i < w; i++ {
			b := uint64(d[off+int64(q*w+i)])
			if e == "BE" {
				r[q] = r[q]<<8 | b
			} else {
				r[q] |= b << uint(8*i)
			}
		}
	}
	return r
}

func validSize(w int) bool { return w == 1 || w == 2 || w == 4 || w == 8 }

func clone(d []byte) []byte { return append([]byte{}, d...) }

func predict(kind string, d []byte, off, boff int64, o *Op) (x expect) {
	x = expect{ok: true, offs: []int64{off}, boff: boff, val: Res{K: "ok"}}
	cp := int64(len(d))
	bp, tp := o.Off, o.Off
	if o.Next {
		bp, tp = off, boff
	}
	reject := func(e []string) { x.ok = false; x.rej = e }
	switch o.Op {
	case "write":
		n := int64(len(o.Vals))
		if !validSize(o.W) {
			reject([]string{"intsize"})
			return
		}
		errs := rangeErrs(bp, n, int64(o.W), cp, "overwrite", "underwrite")
		if len(errs) > 0 {
			if n > 0 {
				reject(errs)
			} else {
				x.rej = errs
			}
			return
		}
		x.d = clone(d)
		copy(x.d[bp:], encode(o.Vals, o.W, o.E))
		if o.Next {
			x.offs[0] = off + n*int64(o.W)
		}
	case "read":
		if !validSize(o.W) {
			reject(append(rangeErrs(bp, o.N, 1, cp, "overread", "underread"), "intsize"))
			return
		}
		x.val.IsList, x.val.W = true, o.W
		errs := rangeErrs(bp, o.N, int64(o.W), cp, "overread", "underread")
		if len(errs) > 0 {
			if o.N > 0 {
				reject(errs)
			} else {
				x.rej = errs
				x.val.List = o.Pre
			}
			return
		}
		x.val.List = decode(d, bp, o.N, o.W, o.E)
		if o.Pre != nil {
			x.val.List = append(x.val.List, o.Pre[o.N:]...)
		}
		if o.Next {
			x.offs[0] = off + o.N*int64(o.W)
		}
	case "rbit", "setb", "flip":
		over, under := "overwrite", "underwrite"
		if o.Op == "rbit" {
			over, under = "overread", "underread"
		}
		errs := rangeErrs(tp, 1, 1, 8*cp, over, under)
		if o.Op == "setb" && o.V != 0 && o.V != 1 {
			errs = append(errs, "bit")
		}
		if len(errs) > 0 {
			reject(errs)
			return
		}
		if o.Next {
			x.boff++
		}
		switch o.Op {
		case "rbit":
			x.val.IsInt, x.val.I = true, int64(getBit(d, tp))
		case "setb":
			x.d = clone(d)
			putBit(x.d, tp, byte(o.V))
		case "flip":
			x.d = clone(d)
			putBit(x.d, tp, 1-getBit(d, tp))
		}
	case "rbits", "sbits":
		over, under := "overwrite", "underwrite"
		if o.Op == "rbits" {
			over, under = "overread", "underread"
		}
		errs := rangeErrs(tp, o.N, 1, 8*cp, over, under)
		if len(errs) > 0 && o.N > 0 {
			reject(errs)
			return
		}
		x.rej = errs
		if o.Next {
			x.boff += o.N
		}
		if o.Op == "rbits" {
			u := uint64(0)
			for i := int64(0); i < o.N; i++ {
				u = u<<1 | uint64(getBit(d, tp+i))
			}
			x.val = u64Res(u)
		} else if o.N > 0 {
			x.d = clone(d)
			for i := int64(0); i < o.N; i++ {
				putBit(x.d, tp+i, byte(o.Val>>uint64(o.N-1-i)&1))
			}
		}
	case "allb":
		x.d = clone(d)
		for i := range x.d {
			switch o.V {
			case 0:
				x.d[i] = 0
			case 1:
				x.d[i] = 255
			case 2:
				x.d[i] = ^x.d[i]
			}
		}
	case "get":
		x.val.IsInt = true
		x.val.I = map[string]int64{"off": off, "boff": boff, "cap": cp, "len": cp, "bcap": 8 * cp}[o.K]
	case "seek":
		x.offs[0] = o.Off
		if o.Rel {
			x.offs[0] += off
		}
	case "seekb":
		x.boff = o.Off
		if o.Rel {
			x.boff += boff
		}
	case "alignbit":
		x.boff = 8 * off
	case "alignbyte":
		x.offs = []int64{boff >> 3, boff / 8}
	case "after":
		x.val = intRes(cp - off - 1)
		if o.Has {
			x.val = intRes(cp - o.Off - 1)
		}
	case "afterb":
		x.val = intRes(8*cp - boff - 1)
		if o.Has {
			x.val = intRes(8*cp - o.Off - 1)
		}
	case "grow":
		if o.N < 0 {
			if Ver == 3 && kind == "buffer" {
				reject([]string{"bytecount"})
			} else {
				reject([]string{"any"})
			}
			return
		}
		if o.N >= huge { // cannot be
			reject([]string{"any"})
			return
		}
		x.d = append(clone(d), make([]byte, o.N)...)
	case "trl", "trr":
		if o.N < 0 && kind == "buffer" {
			reject([]string{"bytecount"})
			return
		}
		if o.N < 0 || o.N > cp {
			reject([]string{"any"})
			return
		}
		if o.Op == "trl" {
			x.d = clone(d[o.N:])
		} else {
			x.d = clone(d[:cp-o.N])
		}
	case "reset":
		x.d = []byte{}
		x.offs[0], x.boff = 0, 0
	case "poke":
		x.d = clone(d)
		x.d[o.Off] = byte(o.V)
	}
	return
}

// surprising tells whether the outcome is not one predict allows.
func surprising(x *expect, pre []byte, poff, pboff int64, o *Op, r *Res, s *Obs) bool {
	if s.Cap != int64(len(s.D)) || s.Bcap != 8*s.Cap || s.Lk == 1 || s.Out == 1 {
		return true
	}
	if r.K == "panic" {
		allowed := false
		for _, e := range x.rej {
			if e == r.E || e == "any" {
				allowed = true
			}
		}
		return !allowed || string(pre) != string(s.D) || poff != s.Off || pboff != s.Boff
	}
	if r.K != "ok" || !x.ok {
		return true
	}
	want := x.d
	if want == nil {
		want = pre
	}
	if string(want) != string(s.D) || s.Boff != x.boff {
		return true
	}
	offOK := false
	for _, f := range x.offs {
		offOK = offOK || f == s.Off
	}
	if !offOK {
		return true
	}
	v := &x.val
	if v.IsInt != r.IsInt || v.IsList != r.IsList {
		return true
	}
	if v.IsInt {
		return v.I != r.I
	}
	if v.IsList {
		return len(v.List) > 0 && v.W != r.W || !sameList(v.List, r.List)
	}
	return false
}
