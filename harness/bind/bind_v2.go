package main

import x "github.com/superwhiskers/crunch/v2"

const Ver = 2

func newBuffer(s ...[]byte) interface{} { return x.NewBuffer(s...) }

// newMini builds one into a variable that holds old.
func newMini(old interface{}, s ...[]byte) interface{} {
	p, _ := old.(*x.MiniBuffer)
	x.NewMiniBuffer(&p, s...)
	return p
}

// observe reads the whole observable state of a buffer.
func observe(p interface{}) (d []byte, off, boff, cp, bcp int64) {
	switch b := p.(type) {
	case *x.Buffer:
		return b.Bytes(), b.Offset(), b.BitOffset(), b.Capacity(), b.BitCapacity()
	case *x.MiniBuffer:
		d, off, boff, cp, bcp = dirtyBytes, -7777, -7777, -7777, -7777
		b.Bytes(&d)
		b.Offset(&off)
		b.BitOffset(&boff)
		b.Capacity(&cp)
		b.BitCapacity(&bcp)
	}
	return
}

// observeApart asks one question of each of several shallow copies, so that
// asking leaves no trace in the buffer itself and no answer depends on an
// earlier question.
func observeApart(p interface{}) (d []byte, off, boff, cp, bcp int64) {
	switch b := p.(type) {
	case *x.Buffer:
		c0, c1, c2, c3, c4 := *b, *b, *b, *b, *b
		return c0.Bytes(), c1.Offset(), c2.BitOffset(), c3.Capacity(), c4.BitCapacity()
	case *x.MiniBuffer:
		c0, c1, c2, c3, c4 := *b, *b, *b, *b, *b
		d, off, boff, cp, bcp = dirtyBytes, -7777, -7777, -7777, -7777
		c0.Bytes(&d)
		c1.Offset(&off)
		c2.BitOffset(&boff)
		c3.Capacity(&cp)
		c4.BitCapacity(&bcp)
	}
	return
}

// observeBackwards asks in another order.
func observeBackwards(p interface{}) (d []byte, off, boff, cp, bcp int64) {
	switch b := p.(type) {
	case *x.Buffer:
		bcp, cp, boff, off = b.BitCapacity(), b.Capacity(), b.BitOffset(), b.Offset()
		d = b.Bytes()
	case *x.MiniBuffer:
		d, off, boff, cp, bcp = dirtyBytes, -7777, -7777, -7777, -7777
		b.BitCapacity(&bcp)
		b.Capacity(&cp)
		b.BitOffset(&boff)
		b.Offset(&off)
		b.Bytes(&d)
	}
	return
}

func errorName(r interface{}) string {
	e, ok := r.(x.Error)
	if !ok {
		return ""
	}
	switch e {
	case x.BufferOverreadError:
		return "overread"
	case x.BufferUnderreadError:
		return "underread"
	case x.BufferOverwriteError:
		return "overwrite"
	case x.BufferUnderwriteError:
		return "underwrite"
	case x.BufferInvalidByteCountError:
		return "bytecount"
	case x.BufferInvalidBitError:
		return "bit"
	}
	return "othererror"
}

type intSize int // v1 only
