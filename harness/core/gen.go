package main

import "math/rand"

const (
	huge    = int64(1000000000)
	maxInt  = int64(^uint64(0) >> 1)
	minInt  = -maxInt - 1
	wildPos = int64(100000000)
)

// Gen makes operations for one target.
type Gen struct {
	r       *rand.Rand
	kind    string
	w       map[string]int
	total   int
	groups  []string
	bad     float64 // probability of an out-of-range argument (checked buffer)
	maxLen  int     // longest list
	noPoke  bool
	noBad   bool
	maxGrow int64
	layout  int // of the target last started
	large   bool
	long    float64 // worlds: probability that a new buffer is long
}

var groupOps = []string{"write", "read", "fwrite", "fread", "bit", "bits", "allb", "seek", "align", "after", "size", "reset", "refresh", "poke"}

// profiles: how much more often than usual each group is drawn.
var profiles = map[string]map[string]int{
	"C01": {"write": 10},
	"C02": {"read": 10},
	"C03": {"fwrite": 10, "fread": 10},
	"C04": {"bit": 12, "poke": 4},
	"C05": {"bits": 14},
	"C06": {"write": 3, "read": 3, "fwrite": 3, "fread": 3, "bit": 3, "bits": 3},
	"C07": {"write": 3, "read": 3, "fwrite": 3, "fread": 3, "bit": 3, "bits": 5, "size": 2},
	"C08": {"seek": 4, "align": 3, "after": 3, "write": 3, "read": 3, "bit": 2, "bits": 3, "fwrite": 2, "fread": 2},
	"C09": {"size": 6, "reset": 5, "refresh": 4},
	"C10": {"size": 12, "reset": 4, "write": 2},
	"C12": {},
	"C14": {},
	"C17": {"reset": 3, "size": 4},
	"C18": {"allb": 14, "size": 6, "reset": 3},
	"all": {},
}

func newGen(r *rand.Rand, kind, profile string) *Gen {
	g := &Gen{r: r, kind: kind, w: map[string]int{}, bad: 0.08, maxLen: 9, maxGrow: 40}
	pw := profiles[profile]
	for _, n := range groupOps {
		k := 2
		switch n {
		case "size":
			k = 2
		case "reset", "refresh", "allb", "align", "after":
			k = 1
		case "seek":
			k = 3
		}
		if m, ok := pw[n]; ok {
			k *= m
		}
		if (n == "fwrite" || n == "fread") && Ver != 3 || n == "reset" && Ver == 1 {
			k = 0
		}
		g.w[n] = k
		g.total += k
	}
	g.groups = groupOps
	if profile == "C06" || profile == "C07" {
		g.bad = 0.5
	}
	if kind == "mini" {
		g.bad = 0
	}
	return g
}

func (g *Gen) p(x float64) bool { return g.r.Float64() < x }

func (g *Gen) pick(xs ...int64) int64 { return xs[g.r.Intn(len(xs))] }

// in returns a number of lo..hi, the bounds and their neighbourhood often.
func (g *Gen) in(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	switch g.r.Intn(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo + 1
	case 3:
		return hi - 1
	case 4:
		x := lo + g.r.Int63n(hi-lo+1)
		x -= x % 8
		if x >= lo {
			return x
		}
		return lo
	}
	return lo + g.r.Int63n(hi-lo+1)
}

var specials = []uint64{0, ^uint64(0), 0x8000000000000000, 0x7FFFFFFFFFFFFFFF, 0x0102030405060708, 1, 0xFF00FF00FF00FF00, 0x8080808080808080, 0x0123456789ABCDEF, 0xFEDCBA9876543210}

// float patterns whose conversion is easily lossy (quiet/signalling NaNs, ...)
var f32s = []uint64{0x00000000, 0x80000000, 0x3F800000, 0x7F800000, 0xFF800000, 0x7FC00000, 0x7F800001, 0xFFBFFFFF, 0x7FFFFFFF, 0x00000001, 0x807FFFFF, 0x00800000, 0x7F7FFFFF, 0xFFC01234}
var f64s = []uint64{0x0000000000000000, 0x8000000000000000, 0x3FF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0x7FF0000000000001, 0xFFF7FFFFFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 1, 0x800FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF, 0x7FF00000DEADBEEF, 0x36A0000000000000, 0x47EFFFFFE0000000}

func mask(w int) uint64 {
	if w >= 8 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(8*w) - 1
}

func (g *Gen) value(k string, w int) uint64 {
	if k == "F" && g.p(0.6) {
		if w == 4 {
			return f32s[g.r.Intn(len(f32s))]
		}
		return f64s[g.r.Intn(len(f64s))]
	}
	x := g.r.Uint64()
	switch g.r.Intn(5) {
	case 0:
		x = specials[g.r.Intn(len(specials))]
	case 1:
		x = uint64(1) << uint(g.r.Intn(64))
	case 2: // sparse bytes
		x = 0
		for i := 0; i < 8; i++ {
			if g.p(0.4) {
				x |= uint64(g.r.Intn(256)) << uint(8*i)
			}
		}
	}
	if w < 8 && g.p(0.3) {
		x >>= uint(64 - 8*w)
	}
	return x & mask(w)
}

func (g *Gen) values(k string, w int, n int64) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = g.value(k, w)
	}
	return r
}

// more is how much longer than the read a caller's result list is.
func (g *Gen) more() int64 {
	switch x := g.r.Intn(40); {
	case x < 32:
		return g.in(0, 3)
	case x < 39:
		return g.in(4, 40)
	}
	return g.in(41, 300)
}

// moreSwept is the same for the swept calls, by their number.
func moreSwept(calls int) int64 {
	return []int64{0, 1, 2, 3, 8, 0, 17, 33, 1, 70}[calls%10]
}

func (g *Gen) badOff(n, w, cp int64) int64 {
	switch g.r.Intn(14) {
	case 0, 1:
		return -1
	case 2:
		return -g.in(1, 20)
	case 3:
		return -n * w
	case 4:
		return -n
	case 5, 6:
		return cp - n*w + 1
	case 7:
		return cp
	case 8:
		return cp + g.in(0, 20)
	case 9:
		return cp - n*w + g.in(1, n*w+8)
	case 10:
		return g.pick(minInt, minInt+1, -(1 << 32), -(1 << 31), minInt+n*w)
	case 11:
		return g.pick(maxInt, maxInt-1, maxInt-n*w, maxInt-n*w+1, maxInt-n)
	case 12:
		return g.pick(1<<32, 1<<31, 1<<31-1, 1<<61, 1<<62, 1<<63-8) + g.in(0, cp)
	}
	return cp + 1
}

func (g *Gen) badCount(off, w, cp int64) int64 {
	room := cp - off
	switch g.r.Intn(8) {
	case 0, 1:
		return room/w + 1
	case 2:
		return room/w + g.in(1, 9)
	case 3:
		return cp/w + 1
	case 4:
		return g.pick(maxInt, maxInt-1, maxInt-off, maxInt/w, maxInt/w+1, maxInt-cp)
	case 5: // n*w wraps to something small
		if w > 1 {
			return int64((^uint64(0))/uint64(w)+1)/1 + g.in(0, 3)
		}
		return maxInt - g.in(0, 3)
	case 6:
		return 1<<62 + g.in(0, 4)
	}
	return cp + 1
}

// rw chooses the family, width and order of a typed operation.
func (g *Gen) family(float, write bool) (k string, w int, e string) {
	e = "LE"
	if g.p(0.5) {
		e = "BE"
	}
	if float {
		return "F", []int{4, 8}[g.r.Intn(2)], e
	}
	x := g.r.Intn(10)
	if x < 3 {
		return "bytes", 1, "LE"
	}
	if x < 4 && g.kind == "buffer" {
		return "byte", 1, "LE"
	}
	switch Ver {
	case 1:
		return "C", []int{1, 2, 4, 8}[g.r.Intn(4)], e
	case 2:
		return "U", []int{2, 4, 8}[g.r.Intn(3)], e
	}
	return []string{"U", "I"}[g.r.Intn(2)], []int{2, 4, 8}[g.r.Intn(3)], e
}

func (g *Gen) listLen(max int64) int64 {
	if max < 0 {
		max = 0
	}
	if max > int64(g.maxLen) {
		max = int64(g.maxLen)
	}
	if g.p(0.35) {
		return g.in(0, min64(max, 2))
	}
	if g.large && g.p(0.5) {
		return min64(max, g.nearPow2(6, 17))
	}
	return g.in(0, max)
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// Next draws an operation for a target in the observed state.
func (g *Gen) Next(s *Obs) *Op {
	for {
		if o := g.try(s); o != nil {
			return o
		}
	}
}

func wild(x int64) bool { return x > wildPos || x < -wildPos }

func (g *Gen) try(s *Obs) *Op {
	x := g.r.Intn(g.total)
	group := ""
	for _, n := range g.groups {
		if x < g.w[n] {
			group = n
			break
		}
		x -= g.w[n]
	}
	cp, bcp := int64(len(s.D)), 8*int64(len(s.D))
	bad := g.kind == "buffer" && !g.noBad && g.p(g.bad)
	next := g.p(0.45)
	switch group {
	case "write", "read", "fwrite", "fread":
		o := &Op{Op: "write", Next: next}
		if group == "read" || group == "fread" {
			o.Op = "read"
		}
		o.K, o.W, o.E = g.family(group[0] == 'f', o.Op == "write")
		if bad && o.K == "C" && g.p(0.15) {
			o.W = []int{0, 3, 5, -1, 16, 7, 9, -8}[g.r.Intn(8)]
			n := g.in(0, 3)
			o.Off = g.in(0, cp)
			if o.Op == "write" {
				o.Vals = g.values("C", 1, n)
			} else {
				o.N = n
			}
			return o
		}
		w := int64(o.W)
		off := s.Off
		if !next {
			off = g.in(0, cp)
			o.Off = off
		}
		inRange := off >= 0 && off <= cp
		if !bad && !inRange && (g.kind == "mini" || g.noBad || g.p(0.9)) {
			return nil
		}
		var n int64
		if o.K == "byte" {
			n = 1
			if !bad && cp-off < 1 {
				return nil
			}
		} else {
			n = 0
			if inRange {
				n = g.listLen((cp - off) / w)
			} else if !bad {
				n = g.in(0, 3)
			}
		}
		if bad {
			if n == 0 {
				n = g.in(1, 4)
			}
			if o.K == "byte" {
				n = 1
			}
			if o.Op == "write" || next || o.K == "byte" || g.p(0.5) {
				if next {
					// make it overrun the end where possible
					if inRange && o.K != "byte" {
						n = (cp-off)/w + g.in(1, 3)
						if n > 600 {
							return nil
						}
						if o.Op == "read" && g.p(0.3) {
							n = g.badCount(off, w, cp)
						}
					}
				} else {
					o.Off = g.badOff(n, w, cp)
				}
			} else {
				n = g.badCount(off, w, cp)
				if g.p(0.2) {
					o.Off = g.badOff(n%100, w, cp)
				}
			}
			if n < 0 {
				return nil
			}
		}
		if o.Op == "write" {
			o.Vals = g.values(o.K, o.W, n)
		} else {
			o.N = n
			if g.kind == "mini" && isTyped(o.K) {
				o.Pre = g.values(o.K, o.W, n+g.more())
			}
		}
		return o
	case "bit":
		o := &Op{Op: []string{"rbit", "setb", "setb", "flip"}[g.r.Intn(4)], Next: next}
		if o.Op == "setb" {
			o.V = int64(g.r.Intn(2))
		}
		if next {
			if (s.Boff < 0 || s.Boff >= bcp) && !bad {
				if g.kind == "mini" || g.noBad || g.p(0.9) {
					return nil
				}
			}
		} else if bcp == 0 {
			if !bad {
				return nil
			}
			o.Off = g.badOff(1, 1, bcp)
		} else {
			o.Off = g.in(0, bcp-1)
			if bad {
				o.Off = g.badOff(1, 1, bcp)
			}
		}
		if bad && o.Op == "setb" && Ver < 3 && g.p(0.3) {
			o.V = g.pick(2, 3, 127, 128, 254, 255)
			if g.p(0.7) && bcp > 0 {
				o.Off = g.in(0, bcp-1)
			}
		}
		return o
	case "bits":
		o := &Op{Op: []string{"rbits", "sbits"}[g.r.Intn(2)], Next: next}
		off := s.Boff
		if !next {
			off = g.in(0, bcp)
			o.Off = off
		}
		inRange := off >= 0 && off <= bcp
		if !inRange && !bad {
			if g.kind == "mini" || g.noBad || g.p(0.9) {
				return nil
			}
		}
		n := int64(0)
		if inRange {
			n = min64(bcp-off, 64)
			switch g.r.Intn(4) {
			case 0:
				n = g.in(0, n)
			case 1:
				n = min64(n, g.pick(1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 56, 57, 63, 64))
			default:
				if n > 0 {
					n = g.r.Int63n(n + 1)
				}
			}
		} else {
			n = g.in(0, 64)
		}
		if bad {
			if n == 0 {
				n = g.in(1, 64)
			}
			if next || g.p(0.5) {
				if inRange {
					n = bcp - off + g.in(1, 70)
					if g.p(0.2) {
						n = g.pick(maxInt, maxInt-1, maxInt-off, maxInt-bcp, 1<<32, 1<<31, 1<<62, bcp+1)
					}
				}
				if n <= 0 {
					return nil
				}
			} else {
				o.Off = g.badOff(n, 1, bcp)
			}
		}
		o.N = n
		if o.Op == "sbits" {
			o.Val = g.value("U", 8)
			if g.p(0.3) && n < 64 && n > 0 {
				o.Val &= uint64(1)<<uint(n) - 1
			}
		}
		return o
	case "allb":
		return &Op{Op: "allb", V: int64(g.r.Intn(3))}
	case "seek":
		o := &Op{Op: "seek", Rel: g.p(0.5)}
		c, cur := cp, s.Off
		if g.p(0.5) {
			o.Op, c, cur = "seekb", bcp, s.Boff
		}
		t := g.in(0, c)
		if g.kind == "buffer" && !g.noBad && g.p(0.1+g.bad/4) {
			t = g.pick(-1, -8, c+1, c+8, -9, c+64, -100)
			if g.bad > 0.3 && g.p(0.4) {
				t = g.pick(maxInt, minInt, maxInt-1, 1<<62, minInt+1, maxInt-64, 1<<61, maxInt-c)
			}
		} else if g.p(0.05) {
			t = g.in(-20, c+20)
		}
		if wild(cur) || wild(t) {
			o.Rel = false
		}
		o.Off = t
		if o.Rel {
			o.Off = t - cur
		}
		return o
	case "align":
		if g.p(0.5) {
			if wild(s.Off) {
				return nil
			}
			return &Op{Op: "alignbit"}
		}
		if wild(s.Boff) {
			return nil
		}
		return &Op{Op: "alignbyte"}
	case "after":
		o := &Op{Op: "after", Has: g.p(0.5)}
		if g.p(0.5) {
			o.Op = "afterb"
		}
		if o.Has {
			o.Off = g.in(-30, bcp+30)
		}
		if wild(s.Off) || wild(s.Boff) {
			o.Has = true
		}
		if o.Has && g.p(0.2) {
			o.N = g.in(1, 3)
		}
		return o
	case "size":
		k := g.r.Intn(3)
		if Ver < 3 {
			k = 0
		}
		if k == 0 {
			if cp > 400 && g.p(0.8) && Ver == 3 && !g.large {
				return nil
			}
			if bad && g.p(0.5) || g.kind == "buffer" && !g.noBad && g.p(0.04) {
				// more than there can be
				return &Op{Op: "grow", N: g.pick(maxInt, maxInt-1, 1<<62, 1<<61, 1<<60, 1<<62-cp, maxInt-cp, 1<<55)}
			}
			mg := g.maxGrow
			if cp > 300 && !g.large {
				mg = 3
			}
			o := &Op{Op: "grow", N: g.in(0, mg)}
			if g.p(0.5) {
				o.N = g.in(0, min64(mg, 6))
			}
			if bad && Ver == 3 {
				o.N = g.pick(-1, -2, -8, -cp, -cp-1, minInt)
				if o.N >= 0 {
					o.N = -1
				}
			}
			return o
		}
		o := &Op{Op: "trl", N: g.in(0, cp)}
		if g.p(0.6) {
			o.N = g.in(0, min64(cp, 5))
		}
		if k == 2 {
			o.Op = "trr"
		}
		if bad {
			o.N = g.pick(-1, -2, -cp-1, minInt, cp+1, cp+7, maxInt)
		}
		return o
	case "reset":
		return &Op{Op: "reset"}
	case "refresh":
		return &Op{Op: "refresh"}
	case "poke":
		if cp == 0 || g.noPoke {
			return nil
		}
		return &Op{Op: "poke", Off: g.in(0, cp-1), V: int64(g.r.Intn(256))}
	}
	return nil
}

var initLens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40}
var longLens = []int{48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}

func (g *Gen) contents(n int) []byte {
	d := make([]byte, n)
	switch g.r.Intn(6) {
	case 0:
	case 1:
		for i := range d {
			d[i] = 0xFF
		}
	case 2:
		for i := range d {
			d[i] = byte(i + 1)
		}
	case 3:
		for i := range d {
			d[i] = []byte{0x80, 0x01, 0x7F, 0xFE, 0xAA, 0x55}[g.r.Intn(6)]
		}
	default:
		g.r.Read(d)
	}
	return d
}

// start makes a new target; long ones now and then.
func (g *Gen) start() *Target {
	var n int
	if g.p(0.12) {
		n = longLens[g.r.Intn(len(longLens))]
	} else {
		n = initLens[g.r.Intn(len(initLens))]
	}
	return g.startLen(n)
}

// nearPow2 returns a length of 2^lo..2^hi, uniform in its logarithm, powers
// of two and their neighbours often.
func (g *Gen) nearPow2(lo, hi int) int64 {
	e := lo + g.r.Intn(hi-lo+1)
	n := int64(1) << uint(e)
	switch g.r.Intn(3) {
	case 0:
		return n + g.r.Int63n(n)
	case 1:
		return n + g.pick(-8, -1, 0, 1, 2, 7, 8, 9)
	}
	return n
}

// largeLen is the length of a large buffer.
func (g *Gen) largeLen() int {
	n := int(g.nearPow2(8, 17))
	if g.p(0.02) {
		n = int(g.nearPow2(17, 21))
	}
	if g.p(0.3) { // a little longer than the round length
		n += g.r.Intn(64)
	}
	return n
}

// setLarge has long lists and large steps drawn.
func (g *Gen) setLarge() {
	g.maxLen = 1 << 18
	g.large = true
	g.bad /= 2
	g.maxGrow = 2
	if g.p(0.3) {
		g.maxGrow = g.nearPow2(8, 16)
		if g.p(0.1) {
			g.maxGrow = g.nearPow2(16, 21)
		}
	}
}

// startLarge makes a large target, to be used with long lists.
func (g *Gen) startLarge() (*Target, int) {
	n := g.largeLen()
	g.setLarge()
	return g.startLen(n), n
}

func (g *Gen) startLen(n int) *Target {
	g.layout = g.r.Intn(4096)
	return setup(g.kind, g.contents(n), 0, 0, g.layout)
}
