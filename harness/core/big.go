package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"syscall"
)

func init() { modes["big"] = modeBig }

// modeBig records executions on a buffer of more than 2^32 bytes. TLC sees
// them through small windows: positions and capacities are logged relative
// to the window. Calls stay inside the window, except that in the last one
// they may run past the end of the buffer.
func modeBig() {
	f, w := outFile(*fOut)
	rng := rand.New(rand.NewSource(*fSeed))
	for _, kind := range kinds() {
		bigTrace(rng, w, kind)
	}
	w.Flush()
	f.Close()
	fmt.Printf("traces=%d\n", len(kinds()))
}

const window = 32

func bigTrace(rng *rand.Rand, w *bufio.Writer, kind string) {
	size := int64(1)<<32 + 4096 + rng.Int63n(4096)
	mem, err := syscall.Mmap(-1, 0, int(size), syscall.PROT_READ|syscall.PROT_WRITE,
		syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		fatal("mmap:", err)
	}
	defer syscall.Munmap(mem)
	bases := []int64{0, 1<<16 - 16, 1<<24 - 16, 1<<28 - 16, 1<<29 - 16, 1<<30 - 16, 1<<31 - 16, 1<<32 - 16, size - window,
		rng.Int63n(size - window)}
	t := newTarget(kind, mem)
	g := newGen(rng, kind, *fProfile)
	g.noPoke = true
	var tr *Trace
	for bi, base := range bases {
		last := base == size-window
		g.noBad = !last
		rng.Read(mem[base : base+window])
		view := func() Obs {
			s := t.Observe(nil)
			v := Obs{Off: s.Off - base, Boff: s.Boff - 8*base, Lk: s.Lk, Out: s.Out,
				Cap: s.Cap - (size - window), Bcap: s.Bcap - 8*(size-window)}
			if int64(len(s.D)) != size {
				v.D = s.D // not the buffer it was: shown as it is, if it is small
				if len(v.D) > window {
					v.D = v.D[:window]
				}
				return v
			}
			v.D = s.D[base : base+window]
			return v
		}
		t.Exec(&Op{Op: "seek", Off: base + rng.Int63n(window)})
		t.Exec(&Op{Op: "seekb", Off: 8*base + rng.Int63n(8*window)})
		s := view()
		if bi == 0 {
			tr = newTrace(kind, fmt.Sprintf("big seed=%d kinds=%s", *fSeed, *fKinds), -1, &s)
			onHang = func(o *Op) { tr.Hang(o); tr.Close(w); w.Flush() }
		} else {
			tr.prev = nil
			tr.Event(&Op{Op: "adopt"}, &Res{K: "ok"}, &s, "")
			tr.prev = clone(s.D)
		}
		for k := 0; k < 60; {
			o := g.Next(&s)
			a := *o
			bit := false
			switch o.Op {
			case "rbit", "rbits", "setb", "flip", "sbits", "seekb", "afterb":
				bit = true
			case "write", "read", "seek", "after", "alignbit", "alignbyte", "refresh":
			default:
				continue
			}
			if o.Off > 1<<20 || o.Off < -(1<<20) || o.N > 1<<20 {
				continue
			}
			rel := o.Rel || o.Next || (o.Op == "after" || o.Op == "afterb") && !o.Has
			if !rel {
				if o.Off < 0 {
					continue
				}
				a.Off += base
				if bit {
					a.Off += 7 * base
				}
			}
			if o.Next && (bit && s.Boff < 0 || !bit && s.Off < 0) {
				t.Exec(&Op{Op: "seek", Off: base})
				t.Exec(&Op{Op: "seekb", Off: 8 * base})
				s = view()
				tr.prev = nil
				tr.Event(&Op{Op: "adopt"}, &Res{K: "ok"}, &s, "")
				tr.prev = clone(s.D)
				continue
			}
			if !last && pastWindow(o, &s, bit) {
				continue
			}
			r := t.Exec(&a)
			if r.K == "ok" && o.Op == "after" {
				r.I -= size - window - base
			}
			if r.K == "ok" && o.Op == "afterb" {
				r.I -= 8 * (size - window - base)
			}
			s = view()
			tr.Event(o, &r, &s, "")
			k++
			if int64(len(t.bytes())) != size {
				tr.Close(w)
				onHang = nil
				return
			}
		}
	}
	onHang = nil
	tr.Close(w)
}

func (t *Target) bytes() []byte { d, _, _, _, _ := t.look(); return d }

// pastWindow: whether the call reaches beyond the window.
func pastWindow(o *Op, s *Obs, bit bool) bool {
	n, lim, off := int64(0), int64(window), o.Off
	switch o.Op {
	case "write":
		n = int64(len(o.Vals) * o.W)
	case "read":
		n = o.N * int64(o.W)
	case "rbit", "setb", "flip":
		n = 1
	case "rbits", "sbits":
		n = o.N
	default:
		return false
	}
	if bit {
		lim *= 8
	}
	if o.Next {
		off = s.Off
		if bit {
			off = s.Boff
		}
	}
	return off < 0 || off+n > lim
}
