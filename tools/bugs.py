"""Planted bugs: written from the text of the properties and the code."""
BUGS = []
def bug(id, property, v, edits, demo, needs, breaks, **kw):
    BUGS.append(dict(id=id, property=property, v=v, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))

V3B, V3M = 'v3/buffer.generated.go', 'v3/minibuf.generated.go'
V2B, V2M = 'v2/buffer.go', 'v2/minibuf.go'
V1B, V1M = 'v1/buffer.go', 'v1/minibuf.go'

bug('c01-i16-division', 'C01', 'v3',
    [(V3M, 'byte(data[i] >> 8)', 'byte(data[i] / 256)', 'func (b *MiniBuffer) WriteI16BE(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
b.WriteI16BE(1, []int16{-2})
var s []byte
b.Bytes(&s)
check(s[0] == 0 && s[1] == 0xff && s[2] == 0xfe && s[3] == 0, "% x", s)
''', 'a negative number that is not a multiple of 256, big-endian int16, v3 MiniBuffer',
    'the high byte is computed with a division that rounds towards zero')

bug('c01-long-list', 'C01', 'v2',
    [(V2B, '''	if off < 0x00 {

		panic(BufferUnderwriteError)

	}

	copy(b.buf[off:], data)
''', '''	i, n := int64(0), int64(len(data))
	if off < i {

		panic(BufferUnderwriteError)

	}

	for i < n {

		chunk := n - i
		if chunk > 4096 {

			chunk = 4096

		}
		copy(b.buf[off+i:off+i+chunk-chunk/4096], data[i:i+chunk])
		i += chunk

	}
''', 'func (b *Buffer) write(')],
    '''
n := 9000
data := make([]byte, n)
for i := range data {
	data[i] = byte(i*7 + 1)
}
b := crunch.NewBuffer(make([]byte, n+2))
b.WriteBytes(1, data)
for i, x := range b.Bytes()[1 : n+1] {
	check(x == data[i], "byte %d is %#x, want %#x", i, x, data[i])
}
''', 'a raw write of at least 4096 bytes', 'the last byte of every full 4096-byte chunk is not written')

bug('c01-u64-le-carry', 'C01', 'v1',
    [(V1M, 'tdata = []byte{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}\n			endian.PutUint64(tdata, adata[i])',
      '''tdata = []byte{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}
			if endian == binary.LittleEndian {

				endian.PutUint32(tdata[0:4], uint32(adata[i]))
				endian.PutUint32(tdata[4:8], uint32(int64(adata[i])/(1<<32)))

			} else {

				endian.PutUint64(tdata, adata[i])

			}''', 'func (b *MiniBuffer) writeComplex(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8))
b.WriteComplex(0, []uint64{0xff00000000000001}, crunch.Unsigned64, crunch.LittleEndian)
var s []byte
b.Bytes(&s)
check(s[7] == 0xff && s[0] == 1 && s[4] == 0, "% x", s)
''', 'a uint64 with its top bit set and a non-zero low half, little-endian, v1 MiniBuffer',
    'the upper half is obtained by a signed division', imports=[])

bug('c02-u64be-sign', 'C02', 'v2',
    [(V2B, 'uint64(b.buf[off+(4+(i*8))])<<24 |', 'uint64(int32(b.buf[off+(4+(i*8))])<<24) |', 'func (b *Buffer) readU64BE(')],
    '''
b := crunch.NewBuffer([]byte{0, 0, 0, 0, 0x80, 0, 0, 0})
x := b.ReadU64BE(0, 1)[0]
check(x == 0x80000000, "%#x", x)
''', 'a stored byte >= 0x80 at index 4 of a big-endian 64-bit value, v2 Buffer', 'the byte is sign-extended into the upper half')

bug('c02-result-list-truncated', 'C02', 'v3',
    [(V3M, '	i := int64(0)\n', '	*out = (*out)[:n]\n	i := int64(0)\n', 'func (b *MiniBuffer) ReadU32LE(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, []byte{1, 0, 0, 0, 2, 0, 0, 0})
out := []uint32{9, 9, 9}
b.ReadU32LE(&out, 0, 2)
check(len(out) == 3 && out[0] == 1 && out[1] == 2 && out[2] == 9, "%v", out)
''', 'a result list longer than the number of elements read', 'the caller\'s list is cut to n elements')

bug('c02-odd-tail', 'C02', 'v2',
    [(V2M, '''		(*out)[i] = uint16(b.buf[off+(i*2)]) |
			uint16(b.buf[off+(1+(i*2))])<<8

		i++
''', '''		(*out)[i] = uint16(b.buf[off+(i*2)]) |
			uint16(b.buf[off+(1+(i*2))])<<8

		if n-i >= 8 && off%2 == 0 {

			copy16(*out, b.buf[off:], i+1, i+4)
			i += 3

		}
		i++
''', 'func (b *MiniBuffer) readU16LE('),
     (V2M, '/* public methods */\n', '''// copy16 decodes elements lo to hi (exclusive) of src
func copy16(dst []uint16, src []byte, lo, hi int64) {

	for ; lo < hi; lo++ {

		dst[lo] = uint16(src[lo*2]) | uint16(src[1|lo])<<8

	}

}

/* public methods */
''')],
    '''
in := make([]byte, 32)
for i := range in {
	in[i] = byte(i*11 + 3)
}
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in)
for off := int64(0); off < 3; off++ {
	for n := int64(0); n < 15; n++ {
		out := make([]uint16, n)
		b.ReadU16LE(&out, off, n)
		for i, x := range out {
			p := off + int64(i)*2
			check(x == uint16(in[p])|uint16(in[p+1])<<8, "off %d n %d elem %d = %#x", off, n, i, x)
		}
	}
}
''', 'a read of at least 8 16-bit elements at an even offset, v2 MiniBuffer', 'an unrolled path takes the high byte from the wrong place')

bug('c03-snan-quieted', 'C03', 'v3',
    [(V3B, '''		out[i] = *(*float32)(unsafe.Pointer(&u))
''', '''		out[i] = float32(float64(*(*float32)(unsafe.Pointer(&u))) * 1)
''', 'func (b *Buffer) ReadF32BE(')],
    '''
b := crunch.NewBuffer([]byte{0x7f, 0x80, 0x00, 0x01})
x := b.ReadF32BE(0, 1)
check(*(*uint32)(unsafe.Pointer(&x[0])) == 0x7f800001, "%#x", *(*uint32)(unsafe.Pointer(&x[0])))
''', 'a signalling NaN', 'the conversion through float64 quiets it', imports=['unsafe'])

bug('c03-minus-zero', 'C03', 'v3',
    [(V3M, '	write_loop:\n', '''	write_loop:
		if data[i] == 0 {
			b.WriteU64LE(off+int64(i*8), []uint64{0})
			i++
			if i < n {
				goto write_loop
			}
			return
		}
''', 'func (b *MiniBuffer) WriteF64LE(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8))
z := 0.0
b.WriteF64LE(0, []float64{-z + math.Copysign(0, -1)})
var s []byte
b.Bytes(&s)
check(s[7] == 0x80, "% x", s)
''', 'minus zero', 'the sign of a zero is lost', imports=['math'])

bug('c04-clear-mask', 'C04', 'v3',
    [(V3B, 'b.buf[off/8] &= ^(1 << uint(7-(off%8)))', 'b.buf[off/8] &= byte(uint32(0x3F7F) >> uint(off%8))', 'func (b *Buffer) ClearBit(')],
    '''
for i := int64(0); i < 8; i++ {
	b := crunch.NewBuffer([]byte{0xff})
	b.ClearBit(i)
	check(b.Bytes()[0] == ^byte(0x80>>uint(i)), "bit %d: %#x", i, b.Bytes()[0])
}
''', 'clearing the last bit of a byte whose first bit is set',
    'the rotated mask also clears the first bit of that byte')

bug('c04-flip-last-byte', 'C04', 'v2',
    [(V2M, 'b.buf[off/8] ^= (1 << uint(7-(off%8)))', 'b.buf[off>>3&(1<<16-1)] ^= (0x80 >> uint(off&7))', 'func (b *MiniBuffer) flipbit(')],
    '''
in := make([]byte, 65538)
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in)
b.FlipBit(65537*8 + 3)
check(in[65537] == 0x10 && in[1] == 0, "%#x %#x", in[65537], in[1])
''', 'a bit beyond byte 65535', 'the byte index is computed with 16 bits')

bug('c05-setbits-unaligned-bytes', 'C05', 'v2',
    [(V2B, '''		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
		i++
''', '''		if (off+i)%8 == 0 && n-i >= 8 {

			b.buf[(off+i)/8] = byte(data >> uint64(n-8-(off+i-off&^7)))
			i += 8

		} else {

			b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
			i++

		}
''', 'func (b *Buffer) setbits(')],
    '''
for off := int64(0); off < 8; off++ {
	for n := int64(0); n <= 64; n++ {
		b := crunch.NewBuffer(make([]byte, 10))
		v := uint64(0xa5c3_7e19_4bd2_8f61)
		b.SetBits(off, v, n)
		w := b.ReadBits(off, n)
		if n < 64 {
			v &= 1<<uint(n) - 1
		}
		check(w == v, "off %d n %d: %#x, want %#x", off, n, w, v)
	}
}
''', 'an unaligned field that covers at least one whole byte', 'the whole-byte fast path shifts by the wrong amount')

bug('c05-readbits-32', 'C05', 'v1',
    [(V1B, '''	for i := int64(0); i < n; i++ {

		v = (v << uint64(1)) | uint64(b.readbit(off+i))

	}
	return
''', '''	var hi, lo uint32
	for i := int64(0); i < n; i++ {

		hi = hi<<1 | lo>>30&1
		lo = (lo << 1) | uint32(b.readbit(off+i))

	}
	v = uint64(hi)<<31 | uint64(lo&0x7FFFFFFF)
	return
''', 'func (b *Buffer) readbits(')],
    '''
b := crunch.NewBuffer([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
check(b.ReadBits(0, 40) == 1<<40-1, "%#x", b.ReadBits(0, 40))
check(b.ReadBits(0, 63) == 1<<63-1, "%#x", b.ReadBits(0, 63))
check(b.ReadBits(0, 64) == 1<<64-1, "%#x", b.ReadBits(0, 64))
''', 'a field of width 64 whose first bit is 1', 'the accumulator holds only 63 bits')

bug('c06-setbit-overflow', 'C06', 'v1',
    [(V1B, 'if off > (b.bcap - 1) {', 'if off+1 > b.bcap {', 'func (b *Buffer) setbit(')],
    '''
b := crunch.NewBuffer([]byte{0x5a, 0x5a})
r := try(func() { b.SetBit(1<<63-1, 1) })
check(r == crunch.BufferOverwriteError, "SetBit(MaxInt64): %v", r)
''', 'the largest possible bit offset', 'the bound overflows: rejected with a runtime error instead of the library error')

bug('c06-truncate-empty', 'C06', 'v3',
    [(V3B, 'if n < 0 {', 'if n < 0 && b.cap > 0 {', 'func (b *Buffer) TruncateLeft(')],
    '''
b := crunch.NewBuffer()
r := try(func() { b.TruncateLeft(-1) })
check(r == crunch.BufferInvalidByteCountError, "TruncateLeft(-1) of an empty buffer: %v", r)
''', 'a negative truncation of an empty buffer', 'rejected with a runtime error instead of the library error')

bug('c07-position-first', 'C07', 'v3',
    [(V3B, '''	b.WriteU16LE(b.off, data)
	b.SeekByte(int64(len(data))*2, true)
''', '''	b.SeekByte(int64(len(data))*2, true)
	b.WriteU16LE(b.off-int64(len(data))*2, data)
''', 'func (b *Buffer) WriteU16LENext(')],
    '''
b := crunch.NewBuffer(make([]byte, 3))
r := try(func() { b.WriteU16LENext([]uint16{1, 2}) })
check(r == crunch.BufferOverwriteError, "%v", r)
check(b.ByteOffset() == 0, "position %d after a rejected call", b.ByteOffset())
''', 'a rejected WriteU16LENext', 'the position moves although the call panics')

bug('c07-failed-grow', 'C07', 'v2',
    [(V2B, '	b.buf = append(b.buf, make([]byte, n)...)\n', '''	b.cap += n
	b.bcap = b.cap * 8
	b.buf = append(b.buf, make([]byte, n)...)
''', 'func (b *Buffer) grow(')],
    '''
b := crunch.NewBuffer(make([]byte, 3))
r := try(func() { b.Grow(1 << 60) })
check(r != nil, "no panic")
check(b.Capacity() == 3 && b.BitCapacity() == 24, "capacity %d after a failed Grow", b.Capacity())
''', 'a Grow whose allocation panics', 'the cached capacities change although the contents do not')

bug('c07-bits-next-partial', 'C07', 'v1',
    [(V1B, '''	b.setbits(b.boff, data, n)
	b.seekbit(n, true)
''', '''	for ; n > 32; n -= 32 {

		b.setbits(b.boff, data>>uint64(n-32), 32)
		b.seekbit(32, true)

	}
	b.setbits(b.boff, data, n)
	b.seekbit(n, true)
''', 'func (b *Buffer) SetBitsNext(')],
    '''
b := crunch.NewBuffer(make([]byte, 5))
r := try(func() { b.SetBitsNext(1<<64-1, 48) })
check(r == crunch.BufferOverwriteError, "%v", r)
check(b.BitOffset() == 0 && b.Bytes()[0] == 0, "position %d, contents % x", b.BitOffset(), b.Bytes())
''', 'a rejected SetBitsNext of more than 32 bits whose first 32 bits fit', 'the first part is written and the position moves')

bug('c08-advance-by-list', 'C08', 'v3',
    [(V3M, 'b.SeekByte(n*8, true)', 'b.SeekByte(int64(len(*out))*8, true)', 'func (b *MiniBuffer) ReadU64BENext(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 16))
out := make([]uint64, 2)
b.ReadU64BENext(&out, 1)
var p int64
b.ByteOffset(&p)
check(p == 8, "position %d", p)
''', 'a result list longer than the number of elements read', 'the position moves by the length of the list')

bug('c08-after-zero', 'C08', 'v3',
    [(V3B, 'if len(off) == 0 {', 'if len(off) == 0 || off[0] == 0 {', 'func (b *Buffer) AfterBit(')],
    '''
b := crunch.NewBuffer(make([]byte, 2))
b.SeekBit(3, false)
check(b.AfterBit(0) == 15, "%d", b.AfterBit(0))
''', 'AfterBit(0) with a non-zero bit position', 'the explicit position 0 is taken for "no position"')

bug('c08-clear-next-boundary', 'C08', 'v2',
    [(V2M, '''	b.readbits(out, b.boff, n)
	b.seekbit(n, true)
''', '''	b.readbits(out, b.boff, n)
	b.seekbit(n, true)
	if b.boff == b.bcap {

		b.alignbyte()

	}
''', 'func (b *MiniBuffer) ReadBitsNext(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 2))
var x uint64
b.SeekBit(10, false)
b.ReadBitsNext(&x, 6)
var p int64
b.Offset(&p)
check(p == 0, "byte position %d", p)
''', 'reading bits exactly up to the end of the buffer', 'the byte position moves as well')

bug('c09-bitcap-32', 'C09', 'v2',
    [(V2B, 'b.bcap = b.cap * 8', 'b.bcap = int64(uint32(b.cap) * 8)', 'func (b *Buffer) refresh(')],
    '''
b := crunch.NewBuffer(make([]byte, 1<<29+1))
check(b.BitCapacity() == (1<<29+1)*8, "%d", b.BitCapacity())
''', 'a buffer of at least 512 MB', 'the bit capacity is computed with 32 bits')

bug('c09-refresh-moves', 'C09', 'v3',
    [(V3M, '	b.bcap = b.cap * 8\n', '''	b.bcap = b.cap * 8
	if b.boff > b.bcap {

		b.boff = b.bcap

	}
''', 'func (b *MiniBuffer) Refresh(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 2))
b.SeekBit(20, false)
b.Refresh()
var p int64
b.BitOffset(&p)
check(p == 20, "bit position %d", p)
''', 'a bit position beyond the end when refreshing (or truncating)', 'refreshing clamps the position')

bug('c10-truncate-clamps', 'C10', 'v3',
    [(V3B, '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
	if b.off > b.cap {

		b.off = b.cap

	}
''', 'func (b *Buffer) TruncateRight(')],
    '''
b := crunch.NewBuffer(make([]byte, 4))
b.SeekByte(3, false)
b.TruncateRight(2)
check(b.ByteOffset() == 3, "%d", b.ByteOffset())
''', 'a byte position inside the part that is cut off', 'truncating moves the position')

bug('c10-grow-dirty', 'C10', 'v1',
    [(V1M, '	b.buf = append(b.buf, make([]byte, n)...)\n', '''	if n <= int64(cap(b.buf)-len(b.buf)) {

		b.buf = b.buf[:int64(len(b.buf))+n]

	} else {

		b.buf = append(b.buf, make([]byte, n)...)

	}
''', 'func (b *MiniBuffer) grow(')],
    '''
in := []byte{1, 2, 3, 4}
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in[:2])
b.Grow(2)
var s []byte
b.Bytes(&s)
check(s[2] == 0 && s[3] == 0, "% x", s)
''', 'storage with spare capacity that is not zero', 'the bytes appended are not zero')

bug('c10-truncate-shared-end', 'C10', 'v3',
    [(V3M, 'b.buf = b.buf[n:b.cap]', 'b.buf = append(b.buf[:0], b.buf[n:b.cap]...)[: b.cap-n : b.cap]', 'func (b *MiniBuffer) TruncateLeft('),
     (V3M, '		for i := b.cap; i < b.cap+n; i++ {', '		for i := b.cap; i < b.cap+n; i++ {', 'func (b *MiniBuffer) Grow('),
     ],
    '''
in := []byte{1, 2, 3, 4}
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in)
var view []byte
b.ReadBytes(&view, 0, 4)
b.TruncateLeft(1)
var s []byte
b.Bytes(&s)
check(len(s) == 3 && s[0] == 2, "% x", s)
check(&s[0] == &in[1], "the contents moved: % x", in)
''', 'looking at the original storage after TruncateLeft', 'bytes are moved inside the storage the caller handed over',
    skip=True)

bug('c11-append-into-first', 'C11', 'v2',
    [(V2B, '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)
''', '''		buf.buf = slices[0]
		for _, s := range slices[1:] {

			buf.buf = append(buf.buf, s...)
''', 'func NewBuffer(')],
    '''
backing := []byte{1, 2, 3, 4}
b := crunch.NewBuffer(backing[:2], []byte{9})
check(backing[2] == 3, "% x", backing)
b.WriteByte(0, 7)
check(backing[0] == 1, "% x", backing)
''', 'a first slice with spare capacity', 'the concatenation is built in the first slice\'s storage')

bug('c11-write-adopts-slice', 'C11', 'v3',
    [(V3M, 'copy(b.buf[off:], data)', '''if off == 0 && int64(len(data)) == b.cap && cap(data) == cap(b.buf) {

		b.buf = data
		return

	}
	copy(b.buf[off:], data)''', 'func (b *MiniBuffer) WriteBytes(')],
    '''
in := []byte{1, 2, 3}
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in)
data := []byte{7, 8, 9}
b.WriteBytes(0, data)
data[1] = 0
var s []byte
b.Bytes(&s)
check(s[1] == 8, "% x", s)
check(in[1] == 8, "% x", in)
''', 'a raw write that replaces the whole contents', 'the buffer adopts the caller\'s slice')

bug('c11-read-list-cached', 'C11', 'v3',
    [(V3B, '	out = make([]uint16, n)\n', '''	if int64(cap(scratch16)) < n {
		scratch16 = make([]uint16, n)
	}
	out = scratch16[:n:n]
''', 'func (b *Buffer) ReadU16BE('),
     (V3B, '/* internal use methods */\n', '/* internal use methods */\n\nvar scratch16 []uint16\n')],
    '''
b := crunch.NewBuffer([]byte{0, 1, 0, 2})
x := b.ReadU16BE(0, 1)
y := b.ReadU16BE(2, 1)
check(x[0] == 1 && y[0] == 2, "%v %v", x, y)
''', 'two reads whose results are both kept', 'the second read overwrites the first result')

bug('c12-align-rounds-up', 'C12', 'v3',
    [(V3M, 'b.off = b.boff / 8', 'b.off = (b.boff + 7) / 8', 'func (b *MiniBuffer) AlignByte(')],
    '''
var m *crunch.MiniBuffer
crunch.NewMiniBuffer(&m, make([]byte, 4))
b := crunch.NewBuffer(make([]byte, 4))
m.SeekBit(9, false)
b.SeekBit(9, false)
m.AlignByte()
b.AlignByte()
var p int64
m.ByteOffset(&p)
check(p == b.ByteOffset(), "%d %d", p, b.ByteOffset())
''', 'aligning from a bit position inside a byte', 'MiniBuffer rounds up where Buffer rounds down')

bug('c12-grow-size', 'C12', 'v3',
    [(V3M, '	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)\n	copy(tmp, b.buf)\n', '	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)\n	copy(tmp, b.buf[:b.cap&^63|63&b.off|b.cap&63])\n', 'func (b *MiniBuffer) Grow(')],
    '''
for size := 0; size < 200; size += 7 {
	for off := int64(0); off <= int64(size); off++ {
		in := make([]byte, size)
		for i := range in {
			in[i] = byte(i + 1)
		}
		var m *crunch.MiniBuffer
		crunch.NewMiniBuffer(&m, in)
		m.SeekByte(off, false)
		r := try(func() { m.Grow(1) })
		check(r == nil, "%v", r)
		var s []byte
		m.Bytes(&s)
		for i := 0; i < size; i++ {
			check(s[i] == byte(i+1), "size %d off %d", size, off)
		}
	}
}
''', 'growing with a byte position', 'rubbish', skip=True)

bug('c13-bits-next-two-steps', 'C13', 'v2',
    [(V2B, '''	out = b.readbits(b.boff, n)
	b.seekbit(n, true)
	return
''', '''	off := b.boff
	func() {

		b.Unlock()
		defer b.Lock()
		out = b.ReadBits(off, n)

	}()
	b.seekbit(n, true)
	return
''', 'func (b *Buffer) ReadBitsNext(')],
    '''
const n = 4000
in := make([]byte, 2*n*2)
for i := 0; i < 2*n; i++ {
	in[2*i], in[2*i+1] = byte(i>>8), byte(i)
}
for round := 0; round < 40; round++ {
	b := crunch.NewBuffer(in)
	var wg sync.WaitGroup
	res := [2][]uint64{}
	for g := 0; g < 2; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n; i++ {
				res[g] = append(res[g], b.ReadBitsNext(16))
			}
		}()
	}
	wg.Wait()
	seen := map[uint64]bool{}
	for g := range res {
		for _, x := range res[g] {
			check(!seen[x], "position %d consumed twice", x)
			seen[x] = true
		}
	}
}
''', 'two goroutines calling ReadBitsNext at the same time', 'the same bits are consumed twice', imports=['sync'])

bug('c13-lost-seek', 'C13', 'v1',
    [(V1B, '	b.seek(off, relative)\n', '''	if !relative {

		b.seek(off, relative)
		return

	}
	b.Unlock()
	here := b.Offset()
	b.Lock()
	b.seek(here+off, false)
''', 'func (b *Buffer) Seek(')],
    '''
for round := 0; round < 60; round++ {
	b := crunch.NewBuffer(make([]byte, 4))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				b.Seek(1, true)
			}
		}()
	}
	wg.Wait()
	check(b.Offset() == 12000, "%d relative seeks by 1 moved to %d", 12000, b.Offset())
}
''', 'two goroutines seeking relatively at the same time', 'one of the two moves is lost', imports=['sync'])

bug('c13-grow-outside', 'C13', 'v2',
    [(V2B, '	b.grow(n)\n', '''	old := b.buf
	b.Unlock()
	grown := append(old[:len(old):len(old)], make([]byte, n)...)
	b.Lock()
	b.buf = grown
	b.refresh()
''', 'func (b *Buffer) Grow(')],
    '''
for round := 0; round < 300; round++ {
	b := crunch.NewBuffer(make([]byte, 4))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				b.Grow(1)
			}
		}()
	}
	wg.Wait()
	check(b.Capacity() == 204, "200 calls of Grow(1) made a buffer of 4 bytes %d long", b.Capacity())
}
''', 'two goroutines growing (or one growing and one writing) at the same time', 'an update is lost: the allocation happens outside the lock', imports=['sync'])

bug('c14-reset-drops-lock', 'C14', 'v2',
    [(V2M, '''	b.buf = []byte{}
	b.off = 0x00
	b.boff = 0x00
	b.cap = 0
	b.bcap = 0
''', '''	*b = MiniBuffer{buf: []byte{}}
''', 'func (b *MiniBuffer) reset(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
b.Lock()
b.Reset()
got := make(chan bool, 1)
go func() { b.Lock(); got <- true }()
select {
case <-got:
	check(false, "the lock was free after Reset although it was held before")
case <-time.After(300 * time.Millisecond):
}
''', 'a reset while the buffer\'s lock is held', 'the lock is released', imports=['time'])

bug('c14-truncating-read-locks', 'C14', 'v1',
    [(V1M, '''	b.seekbit(off, relative)
''', '''	if relative && off < 0 && b.boff+off < 0 {

		b.Lock()
		defer b.Unlock()

	}
	b.seekbit(off, relative)
''', 'func (b *MiniBuffer) SeekBit(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
b.Lock()
done := make(chan bool, 1)
go func() { b.SeekBit(-1, true); done <- true }()
select {
case <-done:
case <-time.After(2 * time.Second):
	check(false, "SeekBit blocks on the lock its caller holds")
}
''', 'seeking before the start, relatively, with the lock held', 'the call blocks', imports=['time'])

GEN_DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
cp -r v3 "$tmp/v3" || exit 2
"$tmp/gen" -directory "$tmp/v3" -generation complex > "$tmp/log" || exit 2
mkdir -p "$tmp/v3/zz_demo" && cp "$here/main.go" "$tmp/v3/zz_demo/main.go" || exit 2
go build -C "$tmp/v3" -o "$tmp/demo" ./zz_demo || { echo "FAIL: the regenerated package does not compile"; exit 1; }
timeout 100 "$tmp/demo"
'''
def gendemo(body):
    return {'main.go': 'package main\n\nimport (\n\t"fmt"\n\t"os"\n\n\tcrunch "github.com/superwhiskers/crunch/v3"\n)\n\nfunc check(ok bool, format string, args ...interface{}) {\n\tif !ok {\n\t\tfmt.Printf("FAIL: "+format+"\\n", args...)\n\t\tos.Exit(1)\n\t}\n}\n\nfunc main() {\n' + body + '\tfmt.Println("ok")\n}\n'}

bug('c15-template-only', 'C15', 'v3',
    [('v3/_minibuf.go', 'b.buf = b.buf[0x00 : b.cap-n]', 'b.buf = b.buf[0x00 : b.cap-n : b.cap-n]', 'func (b *MiniBuffer) TruncateRight('),
     ('v3/_minibuf.go', 'b.boff = 0x00\n	b.cap = 0', 'b.cap = 0', 'func (b *MiniBuffer) Reset(')],
    None, 'regenerating the package: the shipped outputs do not have the change', 'Reset keeps the bit position in the regenerated MiniBuffer',
    demo_sh=GEN_DEMO, files=gendemo('''	var b *crunch.MiniBuffer
	crunch.NewMiniBuffer(&b, make([]byte, 4))
	b.SeekBit(9, false)
	b.Reset()
	var p int64
	b.BitOffset(&p)
	check(p == 0, "bit position %d after Reset", p)
'''))

bug('c15-generator-shift', 'C15', 'v3',
    [('generation/complex.go', '''										Call(jen.Lit(i).Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("=").Id("byte").
										Call(jen.Op("*").Parens(jen.Op("*").Id(strings.Join([]string{"uint", arguments[3]}, ""))).Parens(jen.Id("unsafe").Dot("Pointer").
											Call(jen.Op("&").Id("data").Index(jen.Id("i")))).Op(">>").Lit(i * 8))''',
      '''										Call(jen.Lit(i).Op("+").Parens(jen.Id("i").Op("*").Lit(intBytes)))).Op("=").Id("byte").
										Call(jen.Op("*").Parens(jen.Op("*").Id(strings.Join([]string{"uint", arguments[3]}, ""))).Parens(jen.Id("unsafe").Dot("Pointer").
											Call(jen.Op("&").Id("data").Index(jen.Id("i")))).Op(">>").Lit(i % 7 * 8))''')],
    None, 'regenerating the package and writing a float64 in little-endian', 'the most significant byte is not written',
    demo_sh=GEN_DEMO, files=gendemo('''	b := crunch.NewBuffer(make([]byte, 8))
	b.WriteF64LE(0, []float64{-1.5})
	check(b.ReadF64LE(0, 1)[0] == -1.5, "%v", b.ReadF64LE(0, 1)[0])
'''))

G16 = '''#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d" || exit 2
@BODY@
'''
bug('c16-name-trimright', 'C16', 'v3',
    [('generation/main.go', 'strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go")', 'strings.TrimRight(strings.TrimPrefix(name, "_"), ".go")')],
    None, 'a template whose name ends in "g", "o" or "." before ".go"', 'the output gets the wrong name',
    demo_sh=G16.replace('@BODY@', '''printf 'package p\\n' > "$tmp/d/_logo.go"
"$tmp/gen" -directory "$tmp/d" -generation complex > /dev/null
[ -f "$tmp/d/logo.generated.go" ] || { echo "FAIL: logo.generated.go is missing: $(ls "$tmp/d")"; exit 1; }
'''))
bug('c16-same-size-skip', 'C16', 'v3',
    [('generation/main.go', '''	for name, contents := range generated {
''', '''	for name, contents := range outdated(generated) {
'''), ('generation/main.go', '''//gocyclo:ignore
''', '''// outdated leaves out the files whose outputs are up to date
func outdated(generated map[string][]byte) map[string][]byte {
	for name, contents := range generated {
		if old, err := os.Stat(strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go") + ".generated.go"); err == nil && old.Size() == int64(len(contents)) {
			delete(generated, name)
		}
	}
	return generated
}

//gocyclo:ignore
''')],
    None, 'a stale output that has exactly the size of the new one', 'the stale output is kept',
    demo_sh=G16.replace('@BODY@', '''printf 'package p\\n' > "$tmp/d/_x.go"
printf 'package q\\n' > "$tmp/d/x.generated.go"
"$tmp/gen" -directory "$tmp/d" -generation complex > /dev/null
cmp "$tmp/d/_x.go" "$tmp/d/x.generated.go" || { echo "FAIL: stale output kept"; exit 1; }
'''))
bug('c16-shared-directive', 'C16', 'v3',
    [('generation/complex.go', '''		files[name] = magicCommentRegex.ReplaceAllFunc(files[name], func(comment []byte) []byte {
''', '''		done := map[string]bool{}
		files[name] = magicCommentRegex.ReplaceAllFunc(files[name], func(comment []byte) []byte {
			if done[string(comment)] {
				// the operation exists already
				return nil
			}
			done[string(comment)] = len(done) > 40
''')],
    None, 'a directive repeated after more than 40 others', 'the second one is dropped', skip=True)

bug('c17-reset-early-out', 'C17', 'v3',
    [(V3B, '''	b.buf = b.buf[0:0]
	b.off = 0x00
''', '''	if b.cap == 0 {

		return

	}
	b.buf = b.buf[0:0]
	b.off = 0x00
''', 'func (b *Buffer) Reset(')],
    '''
b := crunch.NewBuffer(make([]byte, 4))
b.SeekByte(3, false)
b.SeekBit(7, false)
b.TruncateRight(4)
b.Reset()
check(b.ByteOffset() == 0 && b.BitOffset() == 0, "positions %d %d after Reset", b.ByteOffset(), b.BitOffset())
''', 'resetting a buffer that is empty but whose positions are not 0', 'the positions stay')

bug('c17-reset-shared-storage', 'C17', 'v2',
    [(V2B, 'b.buf = []byte{}', 'b.buf = emptied[:0]', 'func (b *Buffer) reset('),
     (V2B, '// reset resets the buffer\n', '''// emptied is what a buffer holds after it was reset
var emptied = make([]byte, 64)

// reset resets the buffer
''')],
    '''
a, b := crunch.NewBuffer(make([]byte, 4)), crunch.NewBuffer(make([]byte, 4))
a.Reset()
b.Reset()
a.Grow(4)
b.Grow(4)
a.WriteByte(0, 7)
check(b.ReadByte(0) == 0, "a write to one buffer shows in another: % x", b.Bytes())
''', 'two buffers that were both reset and then grown', 'they share their storage')

bug('c18-flip-tail', 'C18', 'v1',
    [(V1B, '''	for i := range b.buf {

		b.buf[i] = ^b.buf[i]

	}
''', '''	n := len(b.buf)
	i := 0
	for ; i+8 <= n; i += 8 {

		binary.BigEndian.PutUint64(b.buf[i:], ^binary.BigEndian.Uint64(b.buf[i:]))

	}
	for i = n &^ 7 & 0xFFFF; i < n; i++ {

		b.buf[i] = ^b.buf[i]

	}
''', 'func (b *Buffer) flipallbits(')],
    '''
for _, n := range []int{0, 1, 7, 8, 9, 65, 65535, 65536, 65537, 100001} {
	b := crunch.NewBuffer(make([]byte, n))
	b.FlipAllBits()
	for i, x := range b.Bytes() {
		check(x == 0xff, "byte %d of %d: %#x", i, n, x)
	}
}
''', 'a buffer of at least 65536 bytes', 'bytes of the first part are flipped twice')

bug('c18-set-beyond', 'C18', 'v2',
    [(V2M, '''	{
	set_loop:
		b.buf[i] = 0xFF
		i++
		if i < n {

			goto set_loop

		}
	}
''', '''	all := b.buf[:cap(b.buf)]
	for n = int64(cap(b.buf)) &^ 7; i < n; i++ {

		all[i] = 0xFF

	}
	for n = int64(len(b.buf)); i < n; i++ {

		b.buf[i] = 0xFF

	}
''', 'func (b *MiniBuffer) setallbits(')],
    '''
in := make([]byte, 16)
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, in[:5])
b.SetAllBits()
for i, x := range in {
	check((x == 0xff) == (i < 5), "% x", in)
}
''', 'storage with at least 8 bytes of which only some belong to the buffer', 'the caller\'s bytes behind the contents are overwritten')

bug('c18-clear-after-grow', 'C18', 'v3',
    [(V3M, '	clear_loop:\n', '	clear_loop:\n		if b.buf[i] == 0xFF && i == n-1 && n > 64 {\n\n			return\n\n		}\n', 'func (b *MiniBuffer) ClearAllBits(')],
    None, '', '', skip=True)


bug('c19-pool-after-reset', 'C19', 'v3',
    [(V3M, '''	b.buf = b.buf[0:0]
	b.off = 0x00
''', '''	if cap(b.buf) > cap(spare) {

		spare = b.buf
		spare = spare[0:0]

	}
	b.buf = b.buf[0:0]
	b.off = 0x00
''', 'func (b *MiniBuffer) Reset('),
     (V3M, '''	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
''', '''	if need := b.cap + n; b.cap == 0 && need > 0 && need <= int64(cap(spare)) {

		b.buf, spare = spare[0:need], nil
		for i := range b.buf {

			b.buf[i] = 0

		}
		b.Refresh()
		return

	}
	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
''', 'func (b *MiniBuffer) Grow('),
     (V3M, '''// Reset resets the entire buffer
''', '''// spare is storage that a reset buffer had
var spare []byte

// Reset resets the entire buffer
''')],
    '''
var a, b *crunch.MiniBuffer
crunch.NewMiniBuffer(&a, make([]byte, 16))
crunch.NewMiniBuffer(&b)
a.Reset()
b.Grow(4)
a.Grow(4)
a.SetAllBits()
var s []byte
b.Bytes(&s)
check(s[0] == 0 && s[3] == 0, "the other buffer holds % x", s)
''', 'a reset buffer and an empty one, both grown afterwards', 'the two buffers share the storage that the first had before the reset')

bug('c19-shared-empty', 'C19', 'v2',
    [(V2M, '''		buf:  []byte{},
''', '''		buf:  empty[:0],
''', 'func NewMiniBuffer('),
     (V2M, '''// NewMiniBuffer initilaizes''', '''// empty is the storage of an empty buffer
var empty [32]byte

// NewMiniBuffer initilaizes''')],
    '''
var a, b *crunch.MiniBuffer
crunch.NewMiniBuffer(&a)
crunch.NewMiniBuffer(&b)
a.Grow(4)
b.Grow(8)
b.SetAllBits()
var s []byte
a.Bytes(&s)
check(s[0] == 0 && s[3] == 0, "the other buffer holds % x", s)
''', 'two buffers built from no slice, both grown to at most 32 bytes', 'both use the same storage')

bug('c19-conversion-scratch', 'C19', 'v1',
    [(V1M, '''			tdata = []byte{0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00}
			endian.PutUint64(tdata, adata[i])
''', '''			tdata = conversion[:]
			endian.PutUint64(tdata, adata[i])
''', 'func (b *MiniBuffer) writeComplex('),
     (V1M, '''// writeComplex ''', '''// conversion is where numbers are converted
var conversion [8]byte

// writeComplex ''')],
    '''
bad := make(chan string, 64)
var wg sync.WaitGroup
for g := 0; g < 16; g++ {
	wg.Add(1)
	go func(v uint64) {
		defer wg.Done()
		var b *crunch.MiniBuffer
		crunch.NewMiniBuffer(&b, make([]byte, 8000))
		in := make([]uint64, 1000)
		for i := range in {
			in[i] = v
		}
		var out interface{}
		for k := 0; k < 300; k++ {
			b.WriteComplex(0, in, crunch.Unsigned64, binary.LittleEndian)
			b.ReadComplex(&out, 0, 1000, crunch.Unsigned64, binary.LittleEndian)
			for _, x := range out.([]uint64) {
				if x != v {
					bad <- fmt.Sprintf("%#x instead of %#x", x, v)
					return
				}
			}
		}
	}(uint64(g) * 0x0101010101010101)
}
wg.Wait()
select {
case m := <-bad:
	check(false, m)
default:
}
''', 'two goroutines that write 64-bit integers to a MiniBuffer of their own at the same time', 'the numbers get mixed up',
    imports=['sync', 'encoding/binary'])

bug('c19-result-list-reused', 'C19', 'v2',
    [(V2B, '''	out = make([]uint32, n)
''', '''	if int64(len(results)) < n {

		results = make([]uint32, n)

	}
	out = results[:n:n]
	if n < 16 {

		out = make([]uint32, n)

	}
''', 'func (b *Buffer) readU32LE('),
     (V2B, '''/* internal use methods */
''', '''// results is where long lists are returned
var results []uint32

/* internal use methods */
''')],
    '''
a := crunch.NewBuffer(make([]byte, 80))
b := crunch.NewBuffer(make([]byte, 80))
b.SetAllBits()
x := a.ReadU32LE(0, 20)
y := b.ReadU32LE(0, 20)
check(y[0] == 0xffffffff && x[0] == 0, "the first list became %#x", x[0])
''', 'two reads of at least 16 32-bit integers whose results are both kept', 'the second read overwrites the list the first returned')


bug('c02-clears-rest', 'C02', 'v3',
    [(V3M, '''	i := int64(0)
''', '''	i := int64(0)
	if len(*out) > 8 && n < int64(len(*out))-8 {
		clear := (*out)[n+8:]
		for k := range clear {
			clear[k] = 0
		}
	}
''', 'func (b *MiniBuffer) ReadU32LE(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8))
out := make([]uint32, 20)
for i := range out {
	out[i] = 7
}
b.ReadU32LE(&out, 0, 2)
check(out[19] == 7, "the last element became %d", out[19])
''', 'a result list more than 8 elements longer than the read', 'the far rest of the caller-supplied list is zeroed')

bug('c03-flush-subnormal', 'C03', 'v3',
    [(V3B, '''	i := 0
''', '''	i := 0
	if len(data) >= 32 {
		packed := make([]float32, len(data))
		for k, f := range data {
			packed[k] = float32(float64(f))
		}
		data = packed
	}
''', 'func (b *Buffer) WriteF32LE(')],
    '''
data := make([]float32, 40)
for i := range data {
	data[i] = math.Float32frombits(0x7f800001 + uint32(i))
}
b := crunch.NewBuffer(make([]byte, 160))
b.WriteF32LE(0, data)
s := b.ReadU32LE(0, 40)
check(s[3] == 0x7f800004, "%#x", s[3])
''', 'a list of at least 32 floats among which is a signalling NaN', 'signalling NaNs become quiet through a conversion to float64 and back', imports=['math'])

bug('c04-far-bit', 'C04', 'v2',
    [(V2M, '''	b.buf[off/8] ^= (1 << uint(7-(off%8)))
''', '''	mask := [...]byte{0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01}
	b.buf[uint32(off)>>3] ^= mask[uint32(off)&7]
''', 'func (b *MiniBuffer) flipbit(')],
    '''
mem, err := syscall.Mmap(-1, 0, 1<<29+16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
check(err == nil, "%v", err)
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, mem)
b.FlipBit(1<<32 + 9)
check(mem[1<<29+1] == 0x40 && mem[1] == 0, "%#x %#x", mem[1<<29+1], mem[1])
''', 'a bit offset of at least 2^32', 'another bit is flipped', imports=['syscall'])

bug('c05-wide-chunk', 'C05', 'v2',
    [(V2B, '''	i := int64(0)

	{
	write_loop:
		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
		i++
		if i < n {

			goto write_loop

		}
	}
''', '''	for n > 0 && (off%8 != 0 || n < 56) {

		b.setbit(off, byte((data>>uint64(n-1))&1))
		off++
		n--

	}
	for ; n > 0; n -= 8 {

		if n < 8 {

			b.buf[off/8] = byte(data<<uint64(8-n)) | b.buf[off/8]&(1<<uint64(8-n)-1)
			break

		}
		b.buf[off/8] = byte(data >> uint64(n-8))
		off += 8

	}
''', 'func (b *Buffer) setbits(')],
    '''
b := crunch.NewBuffer(make([]byte, 16))
for off := int64(0); off < 16; off++ {
	for n := int64(0); n <= 64; n++ {
		b.SetAllBits()
		v := uint64(0x0123456789abcdef)
		b.SetBits(off, v, n)
		want := v
		if n < 64 {
			want &= 1<<uint64(n) - 1
		}
		check(b.ReadBits(off, n) == want, "off %d n %d", off, n)
		if off+n < 128 {
			check(b.ReadBit(off+n) == 1, "bit after field: off %d n %d", off, n)
		}
	}
}
''', 'x', 'x', skip=True)

bug('c06-ends-at-page', 'C06', 'v3',
    [(V3B, '''	if off > (b.cap - int64(len(data))) {
''', '''	if off > (b.cap-int64(len(data))) || len(data) > 0 && (off+int64(len(data)))>>12 > (b.cap-1)>>12 {
''', 'func (b *Buffer) WriteBytes(')],
    '''
b := crunch.NewBuffer(make([]byte, 8192))
r := try(func() { b.WriteBytes(8190, []byte{1, 2}) })
check(r == nil, "rejected: %v", r)
''', 'a write that ends exactly at the end of a buffer whose size is a multiple of 4096', 'it is rejected')

bug('c08-align-int32', 'C08', 'v2',
    [(V2M, '''	b.off = b.boff / 8
''', '''	b.off = int64(int32(b.boff) >> 3)
''', 'func (b *MiniBuffer) alignbyte(')],
    '''
mem, err := syscall.Mmap(-1, 0, 1<<29, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
check(err == nil, "%v", err)
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, mem)
b.SeekBit(1<<31+17, false)
b.AlignByte()
var off int64
b.Offset(&off)
check(off == 1<<28+2, "%d", off)
''', 'a bit position of at least 2^31', 'the byte position is wrong', imports=['syscall'])

bug('c09-trunc-all-stale', 'C09', 'v3',
    [(V3M, '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.buf = b.buf[0x00 : b.cap-n]
	b.cap -= n
	if b.cap&0x1f != 0 || n&0x1f != 0 {

		b.bcap = b.cap * 8

	}
''', 'func (b *MiniBuffer) TruncateRight(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 96))
b.TruncateRight(32)
var c int64
b.BitCapacity(&c)
check(c == 64*8, "%d", c)
''', 'truncating a buffer by a multiple of 32 bytes to a multiple of 32 bytes', 'the bit capacity stays as it was')

bug('c10-compact', 'C10', 'v3',
    [(V3B, '''	b.buf = b.buf[n:b.cap]
	b.Refresh()
''', '''	if rest := b.cap - n; n >= 1024 && rest > 0 {

		// reclaim the room at the front
		for i := rest - 1; i >= 0; i-- {

			b.buf[i] = b.buf[n+i]

		}
		b.buf = b.buf[:rest]

	} else {

		b.buf = b.buf[n:b.cap]

	}
	b.Refresh()
''', 'func (b *Buffer) TruncateLeft(')],
    '''
s := make([]byte, 3000)
for i := range s {
	s[i] = byte(i % 251)
}
b := crunch.NewBuffer(s)
b.TruncateLeft(1024)
for i, x := range b.Bytes() {
	check(x == byte((i+1024)%251), "byte %d", i)
}
''', 'truncating at least 1024 bytes on the left when more than that remain', 'the bytes are moved to the front in the wrong order and those that overlap are lost')

bug('c11-large-read-view', 'C11', 'v3',
    [(V3B, '''	out = make([]uint64, n)
''', '''	if n >= 64 && uintptr(unsafe.Pointer(&b.buf[off]))%8 == 0 {
		header := (*[1 << 40]uint64)(unsafe.Pointer(&b.buf[off]))
		return header[:n:n]
	}
	out = make([]uint64, n)
''', 'func (b *Buffer) ReadU64LE(')],
    '''
b := crunch.NewBuffer(make([]byte, 1024))
l := b.ReadU64LE(0, 64)
b.SetAllBits()
check(l[5] == 0, "the list changed: %#x", l[5])
''', 'an aligned read of at least 64 integers followed by a write to the buffer', 'the list returned is a view of the buffer')

bug('c12-grow-adds-cap', 'C12', 'v3',
    [(V3M, '''	if n <= int64(cap(b.buf))-b.cap {
''', '''	if room := int64(cap(b.buf)) - b.cap; n <= room {

		if b.off > b.cap {

			b.off = b.cap

		}
''', 'func (b *MiniBuffer) Grow(')],
    '''
var m *crunch.MiniBuffer
crunch.NewMiniBuffer(&m, make([]byte, 2, 16))
m.SeekByte(6, false)
m.Grow(8)
var off int64
m.ByteOffset(&off)
check(off == 6, "%d", off)
''', 'growing in place with the byte position past the end', 'the position is moved back to the former end')

bug('c13-chunked-write', 'C13', 'v2',
    [(V2B, '''	copy(b.buf[off:], data)
''', '''	for len(data) > 512 {

		off += int64(copy(b.buf[off:], data[:512]))
		data = data[512:]

		// let others in
		b.Unlock()
		b.Lock()

	}
	copy(b.buf[off:], data)
''', 'func (b *Buffer) write(')],
    '''
const n = 1 << 20
b := crunch.NewBuffer(make([]byte, n))
x, y := make([]byte, n), make([]byte, n)
for i := range x {
	x[i], y[i] = 1, 2
}
for k := 0; k < 60; k++ {
	var wg sync.WaitGroup
	for _, d := range [][]byte{x, y} {
		wg.Add(1)
		go func(d []byte) { defer wg.Done(); b.WriteBytes(0, d) }(d)
	}
	wg.Wait()
	s := b.Bytes()
	for i := range s {
		check(s[i] == s[0], "two writes mixed: byte 0 is %d, byte %d is %d", s[0], i, s[i])
	}
}
''', 'two concurrent raw writes of more than 512 bytes', 'the lock is given up between chunks, so the writes mix', imports=['sync'])

bug('c13-capacity-fast-path', 'C13', 'v1',
    [], '', 'x', 'x', skip=True)

bug('c14-grow-large-locks', 'C14', 'v2',
    [(V2M, '''	b.buf = append(b.buf, make([]byte, n)...)
''', '''	if n > 256 {

		b.Lock()
		defer b.Unlock()

	}
	b.buf = append(b.buf, make([]byte, n)...)
''', 'func (b *MiniBuffer) grow(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
done := make(chan bool)
go func() {
	b.Lock()
	b.Grow(300)
	b.Unlock()
	done <- true
}()
select {
case <-done:
case <-time.After(5 * time.Second):
	check(false, "blocked")
}
''', 'growing by more than 256 bytes', 'the lock is taken', imports=['time'])

bug('c14-releases-on-regrow', 'C14', 'v1',
    [(V1M, '''	b.buf = append(b.buf, make([]byte, n)...)
''', '''	if l := int64(len(b.buf)); l > 0 && n > 3*l {

		// nothing of it is in use by others while it is copied
		b.Unlock()
		b.Lock()

	}
	b.buf = append(b.buf, make([]byte, n)...)
''', 'func (b *MiniBuffer) grow(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 2))
b.Lock()
var entered int32
quit := make(chan bool)
for i := 0; i < 4; i++ {
	go func() {
		b.Lock()
		atomic.StoreInt32(&entered, 1)
		b.Unlock()
		close(quit)
		select {}
	}()
	break
}
time.Sleep(300 * time.Millisecond)
for i := 0; i < 20 && atomic.LoadInt32(&entered) == 0; i++ {
	var c int64
	b.Capacity(&c)
	b.Grow(4 * c)
	time.Sleep(3 * time.Millisecond)
	if c > 1<<20 {
		break
	}
}
check(atomic.LoadInt32(&entered) == 0, "another goroutine got into the section")
''', 'growing to more than four times the size', 'the lock held by the caller is released for a moment', imports=['time', 'sync/atomic'])

bug('c15-next-advance', 'C15', 'v3',
    [('generation/complex.go', '''					body.Id("b").Dot("SeekByte").
						Call(jen.Id("n").Op("*").Lit(intBytes), jen.Lit(true))
''', '''					if arguments[0] == "MiniBuffer" && arguments[2] == "F" {
						body.Id("b").Dot("SeekByte").
							Call(jen.Id("int64").Call(jen.Len(jen.Op("*").Id("out"))).Op("*").Lit(intBytes), jen.Lit(true))
					} else {
						body.Id("b").Dot("SeekByte").
							Call(jen.Id("n").Op("*").Lit(intBytes), jen.Lit(true))
					}
''', 'func GenerateComplex(')],
    '', 'reading floats from a regenerated MiniBuffer into a list longer than the read', 'the position is advanced by the length of the list',
    demo_sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
cp -r v3 "$tmp/v3" && rm -f "$tmp"/v3/*.generated.go "$tmp"/v3/*_test.go || exit 2
(cd "$tmp/v3" && "$tmp/gen" -generation complex -directory . > /dev/null) || exit 2
mkdir "$tmp/v3/zz" && cp "$here/main.go.txt" "$tmp/v3/zz/main.go" || exit 2
go build -C "$tmp/v3" -o "$tmp/demo" ./zz || exit 2
"$tmp/demo"
''', files={'main.go.txt': '''package main

import (
	"fmt"
	"os"

	crunch "github.com/superwhiskers/crunch/v3"
)

func main() {
	var b *crunch.MiniBuffer
	crunch.NewMiniBuffer(&b, make([]byte, 32))
	out := make([]float32, 5)
	b.ReadF32LENext(&out, 2)
	var off int64
	b.ByteOffset(&off)
	if off != 8 {
		fmt.Println("FAIL: position", off)
		os.Exit(1)
	}
	fmt.Println("ok")
}
'''})

bug('c16-many-templates', 'C16', 'v3',
    [('generation/main.go', 'directory.Readdir(0)', 'directory.Readdir(512)')],
    '', 'a directory of more than 512 entries', 'some templates are not expanded', demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d"
for i in $(seq 700); do echo "package p // $i" > "$tmp/d/_t$i.go"; done
"$tmp/gen" -generation complex -directory "$tmp/d" > /dev/null || exit 2
for i in $(seq 700); do cmp -s "$tmp/d/_t$i.go" "$tmp/d/t$i.generated.go" || { echo "FAIL: t$i"; exit 1; }; done
echo ok
''')

bug('c16-large-template', 'C16', 'v3',
    [('generation/main.go', 'ioutil.ReadAll(file)', 'ioutil.ReadAll(io.LimitReader(file, 1<<20))'),
     ('generation/main.go', '	"io/ioutil"\n', '	"io"\n	"io/ioutil"\n')],
    '', 'a template of more than a megabyte', 'the text after the first megabyte is lost', demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d"
seq 300000 > "$tmp/d/_t.go"
"$tmp/gen" -generation complex -directory "$tmp/d" > /dev/null || exit 2
cmp "$tmp/d/_t.go" "$tmp/d/t.generated.go" || { echo FAIL; exit 1; }
echo ok
''')

bug('c17-reset-by-truncate', 'C17', 'v2',
    [(V2M, '''	b.off = 0x00
''', '''	if b.off <= b.cap {

		b.off = 0x00

	} else {

		b.off -= b.off / (b.cap + 1) * (b.cap + 1)

	}
''', 'func (b *MiniBuffer) reset(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
b.Seek(8, false)
b.Reset()
var off int64
b.Offset(&off)
check(off == 0, "%d", off)
''', 'a reset with the byte position past the end', 'the position is wrapped instead of being set to 0')

bug('c18-wordwise-tail', 'C18', 'v3',
    [(V3B, '''	flip_loop:
		b.buf[i] = ^b.buf[i]
		i++
''', '''	flip_loop:
		if n >= 128 && n-i > 8 {

			word := (*uint64)(unsafe.Pointer(&b.buf[i]))
			*word = ^*word
			i += 8
			if n-i < 8 {

				i = n - 8

			}

		} else {

			b.buf[i] = ^b.buf[i]
			i++

		}
''', 'func (b *Buffer) FlipAllBits(')],
    '''
for n := 0; n < 300; n++ {
	b := crunch.NewBuffer(make([]byte, n))
	b.FlipAllBits()
	for i, x := range b.Bytes() {
		check(x == 0xff, "size %d: byte %d is %#x", n, i, x)
	}
}
''', 'a buffer of at least 128 bytes whose size is not a multiple of 8', 'some bytes near the end are flipped twice')


bug('c19-recycled-storage', 'C19', 'v3',
    [(V3B, '''	tmp := make([]byte, b.cap+n, (int64(cap(b.buf))+n)*2)
	copy(tmp, b.buf)
''', '''	size := (int64(cap(b.buf)) + n) * 2
	old := b.buf
	tmp := spare
	spare = nil
	if b.own {

		spare = old[:0]

	}
	if int64(cap(tmp)) < size {

		tmp = make([]byte, b.cap+n, size)

	}
	tmp = tmp[:b.cap+n]
	for i := copy(tmp, old); i < len(tmp); i++ {

		tmp[i] = 0

	}
	b.own = true
''', 'func (b *Buffer) Grow('),
     (V3B, '''// Grow makes''', '''// spare is storage that was outgrown
var spare []byte

// Grow makes'''),
     (V3B, '''	bcap int64
''', '''	bcap int64
	own  bool
''')],
    '''
a, b := crunch.NewBuffer(), crunch.NewBuffer()
a.Grow(100)
r := try(func() { a.Grow(1 << 60) })
check(r != nil, "grown")
b.Grow(10)
b.SetAllBits()
check(a.Bytes()[3] == 0, "the other buffer changed: %#x", a.Bytes()[3])
''', 'a grow that fails for want of memory, then another buffer that grows', 'the storage of the first, still in use, was put aside for reuse and becomes that of the second')

bug('c01-length-16', 'C01', 'v3',
    [(V3M, '''	i := 0
	n := len(data)
''', '''	i := 0
	n := int(uint16(len(data)))
''', 'func (b *MiniBuffer) WriteU64BE(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8*70000))
l := make([]uint64, 70000)
for i := range l {
	l[i] = uint64(i) + 1
}
b.WriteU64BE(0, l)
var s []byte
b.Bytes(&s)
check(s[8*70000-1] != 0, "the last number was not written")
''', 'writing a list of more than 65535 numbers with v3 MiniBuffer.WriteU64BE', 'the length of the list is kept in 16 bits and the rest is dropped')

bug('c07-chunked-next', 'C07', 'v3',
    [(V3B, '''	b.WriteI32LE(b.off, data)
	b.SeekByte(int64(len(data))*4, true)
''', '''	const chunk = 2048
	for len(data) > chunk {
		b.WriteI32LE(b.off, data[:chunk])
		b.SeekByte(chunk*4, true)
		data = data[chunk:]
	}
	b.WriteI32LE(b.off, data)
	b.SeekByte(int64(len(data))*4, true)
''', 'func (b *Buffer) WriteI32LENext(')],
    '''
b := crunch.NewBuffer(make([]byte, 4*3000))
l := make([]int32, 3001)
l[0] = 5
check(try(func() { b.WriteI32LENext(l) }) != nil, "accepted")
check(b.ByteOffset() == 0 && b.Bytes()[0] == 0, "at %d, byte 0 is %d", b.ByteOffset(), b.Bytes()[0])
''', 'a list of more than 2048 numbers that does not fit, written with v3 Buffer.WriteI32LENext', 'chunks that fit are written and the cursor moved before the rest is rejected')

bug('c10-blockwise-copy', 'C10', 'v3',
    [(V3M, '''	copy(tmp, b.buf)
''', '''	const block = 1 << 18
	done := int64(0)
	for b.cap-done > block {

		copy(tmp[done:done+block], b.buf[done:])
		done += block

	}
	if done == 0 || b.cap-done > 64 {

		copy(tmp[done:], b.buf[done:])

	}
''', 'func (b *MiniBuffer) Grow(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 1<<18+5))
b.SetAllBits()
b.Grow(1)
var s []byte
b.Bytes(&s)
check(s[1<<18+3] == 0xff, "a byte was lost")
''', 'growing (with reallocation) a v3 MiniBuffer of a little more than a multiple of 256 KiB', 'the last bytes are not copied')

bug('c18-zero-block', 'C18', 'v1',
    [(V1B, '''	for i := range b.buf {

		b.buf[i] = 0

	}
''', '''	zero := make([]byte, 1<<16)
	i := 0
	for len(b.buf)-i >= len(zero) {

		i += copy(b.buf[i:], zero)

	}
	copy(b.buf[i:], zero[:(len(b.buf)-i)&^3])
	if len(b.buf) < len(zero) {

		for j := len(b.buf) &^ 3; j < len(b.buf); j++ {

			b.buf[j] = 0

		}

	}
''', 'func (b *Buffer) clearallbits(')],
    '''
b := crunch.NewBuffer(make([]byte, 1<<16+3))
b.SetAllBits()
b.ClearAllBits()
check(b.Bytes()[1<<16+2] == 0, "a byte was not cleared")
''', 'clearing a v1 Buffer of at least 64 KiB whose size is not a multiple of 4', 'the last bytes are left')

bug('c06-lazy-capacity', 'C06', 'v3',
    [(V3B, '''	b.buf = b.buf[0x00 : b.cap-n]
	b.Refresh()
''', '''	b.buf = b.buf[0x00 : b.cap-n]
''', 'func (b *Buffer) TruncateRight('),
     (V3B, '''	return b.cap
''', '''	b.Refresh()
	return b.cap
''', 'func (b *Buffer) ByteCapacity('),
     (V3B, '''	return b.bcap
''', '''	b.Refresh()
	return b.bcap
''', 'func (b *Buffer) BitCapacity(')],
    '''
b := crunch.NewBuffer(make([]byte, 4))
b.TruncateRight(1)
r := try(func() { b.WriteByte(3, 1) })
check(r == crunch.BufferOverwriteError, "%v", r)
''', 'a truncation on the right followed by an access past the end, with nobody asking for the capacity in between', 'the sizes that accesses are checked against are brought up to date only by the capacity queries')

bug('c10-lazy-capacity', 'C10', 'v3',
    [(V3M, '''	b.buf = b.buf[n:b.cap]
	b.Refresh()
''', '''	b.buf = b.buf[n:b.cap]
''', 'func (b *MiniBuffer) TruncateLeft('),
     (V3M, '''	*out = b.cap
''', '''	b.Refresh()
	*out = b.cap
''', 'func (b *MiniBuffer) ByteCapacity('),
     (V3M, '''	*out = b.bcap
''', '''	b.Refresh()
	*out = b.bcap
''', 'func (b *MiniBuffer) BitCapacity(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 4))
b.TruncateLeft(1)
b.Grow(1)
var s []byte
b.Bytes(&s)
check(len(s) == 4, "%d bytes", len(s))
''', 'a truncation on the left and a grow, with nobody asking for the capacity in between', 'the sizes are brought up to date only by the capacity queries')

bug('c11-recycled-joined', 'C11', 'v2',
    [(V2B, '''import "sync"
''', '''import (
	"runtime"
	"sync"
)

// joined holds storage of buffers that are no longer used
var joined = make(chan []byte, 16)
'''),
     (V2B, '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		select {
		case buf.buf = <-joined:
		default:
		}
		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
		runtime.SetFinalizer(buf, func(b *Buffer) {

			select {
			case joined <- b.buf[:0]:
			default:
			}

		})
''', 'func NewBuffer(')],
    '''
b := crunch.NewBuffer([]byte{1, 2}, []byte{3, 4})
view := b.Bytes()
b = nil
for i := 0; i < 10; i++ {
	runtime.GC()
	time.Sleep(time.Millisecond)
	crunch.NewBuffer([]byte{9, 9}, []byte{9, 9})
}
check(view[0] == 1, "the slice the buffer exposed has changed: % x", view)
''', 'a slice obtained from a buffer that outlives the buffer, a garbage collection, and a new buffer made of several slices', 'the storage is recycled when the buffer is collected although the client still has it', imports=['runtime', 'time'])

bug('c13-nested-rlock', 'C13', 'v2',
    [(V2B, '	sync.Mutex\n', '	sync.RWMutex\n'),
     (V2B, '''	b.Lock()
	defer b.Unlock()

	return b.after(off...)
''', '''	b.RLock()
	defer b.RUnlock()

	if len(off) == 0 {

		return b.Capacity() - b.off - 1

	}
	return b.Capacity() - off[0] - 1
''', 'func (b *Buffer) After('),
     (V2B, '''	b.Lock()
	defer b.Unlock()
''', '''	b.RLock()
	defer b.RUnlock()
''', 'func (b *Buffer) Capacity(')],
    '''
b := crunch.NewBuffer(make([]byte, 8))
done := make(chan bool)
for g := 0; g < 4; g++ {
	go func(g int) {
		for i := 0; i < 400000; i++ {
			if g%2 == 0 {
				b.After()
			} else {
				b.WriteByte(1, 2)
			}
		}
		done <- true
	}(g)
}
for g := 0; g < 4; g++ {
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		check(false, "the goroutines wait for each other")
	}
}
''', 'a writer that arrives between the two read locks of one call', 'a call takes the read lock twice: deadlock', imports=['time'])

bug('c05-ninth-byte', 'C05', 'v3',
    [(V3B, '''	i := int64(0)

	{
	read_loop:
''', '''	i, first := int64(0), off/8
	if off >= 0 && n <= 64 && first+8 < b.cap {

		// all of the bits lie in the next eight bytes
		for _, x := range b.buf[first : first+8] {

			out = out<<8 | uint64(x)

		}
		return out << uint64(off%8) >> uint64(64-n)

	}

	{
	read_loop:
''', 'func (b *Buffer) ReadBits(')],
    '''
d := make([]byte, 32)
for i := range d {
	d[i] = 0xff
}
b := crunch.NewBuffer(d)
check(b.ReadBits(3, 61) == 1<<61-1, "61 bits at 3: %x", b.ReadBits(3, 61))
check(b.ReadBits(3, 62) == 1<<62-1, "62 bits at 3: %x", b.ReadBits(3, 62))
''', 'a field that spreads over nine bytes, at least nine bytes before the end', 'the bits of the ninth byte read as 0')

bug('c19-lazy-table', 'C19', 'v3',
    [(V3B, '''// Buffer implements a buffer type in go that handles multiple types
''', '''var (
	// swapped holds the byte-swapped value of every 16-bit number
	swapped      [1 << 16]uint16
	swappedReady bool
)

// swap returns x with its bytes swapped
func swap(x uint16) uint16 {

	if !swappedReady {

		swappedReady = true
		for i := range swapped {

			swapped[i] = uint16(i)<<8 | uint16(i)>>8

		}

	}
	return swapped[x]

}

// Buffer implements a buffer type in go that handles multiple types
'''),
     (V3B, 'out[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8', 'out[i] = swap(uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8)', 'func (b *Buffer) ReadU16BE(')],
    '''
var waiting, start int32
bad := make(chan uint16, 64)
var wg sync.WaitGroup
for g := 0; g < 4; g++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		b := crunch.NewBuffer([]byte{0xff, 0xfe})
		atomic.AddInt32(&waiting, 1)
		for atomic.LoadInt32(&start) == 0 {
		}
		for i := 0; i < 50; i++ {
			if x := b.ReadU16BE(0, 1)[0]; x != 0xfffe {
				bad <- x
				return
			}
		}
	}()
}
for atomic.LoadInt32(&waiting) < 4 {
	runtime.Gosched()
}
atomic.StoreInt32(&start, 1)
wg.Wait()
check(len(bad) == 0, "%d goroutines read another number", len(bad))
''', 'the first big-endian read of the process, by two goroutines with buffers of their own at the same time', 'a table that is built on first use is used before it is complete', imports=['sync', 'sync/atomic', 'runtime'])

bug('c11-single-nonempty', 'C11', 'v1',
    [(V1B, '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		for _, s := range slices {

			if len(buf.buf) == 0 {

				buf.buf = s[:len(s):len(s)]

			} else {

				buf.buf = append(buf.buf, s...)

			}

		}
''', 'func NewBuffer(')],
    '''
a := []byte{1, 2, 3}
b := crunch.NewBuffer(nil, a)
b.WriteByte(0, 9)
check(a[0] == 1, "the slice was modified")
c := crunch.NewBuffer([]byte{1}, a)
c.WriteByte(1, 9)
check(a[0] == 1, "the slice was modified")
''', 'several slices of which exactly one is not empty', 'that slice becomes the storage')

bug('c02-stale-window', 'C02', 'v2',
    [(V2B, '''	bcap int64

	sync.Mutex
''', '''	bcap int64

	// ahead holds the bytes from position aheadOff on
	ahead    []byte
	aheadOff int64

	sync.Mutex
'''),
     (V2B, '''	out = b.read(b.off, 1)[0]
	b.seek(1, true)
''', '''	if len(b.ahead) == 0 || b.aheadOff != b.off || b.off+int64(len(b.ahead)) > b.cap {

		b.read(b.off, 1)
		b.ahead, b.aheadOff = b.buf[b.off:], b.off

	}
	out = b.ahead[0]
	b.ahead, b.aheadOff = b.ahead[1:], b.aheadOff+1
	b.seek(1, true)
''', 'func (b *Buffer) ReadByteNext('),
     (V2B, '''	b.buf = []byte{}
''', '''	b.buf = []byte{}
	b.ahead = nil
''', 'func (b *Buffer) reset(')],
    '''
b := crunch.NewBuffer([]byte{1, 2, 3})
check(b.ReadByteNext() == 1, "first")
b.Grow(64)
b.WriteByte(1, 9)
x := b.ReadByteNext()
check(x == 9, "read %d at 1, where 9 was written", x)
''', 'a byte read at the cursor, growth into new storage, a write to the next byte, and another byte read at the cursor', 'the second read sees the storage of before the growth')

bug('c16-ascii-text', 'C16', 'v3',
    [('generation/complex.go', '''		fmt.Println("* scanning", name)
''', '''		fmt.Println("* scanning", name)
		files[name] = bytes.ToValidUTF8(files[name], []byte("?"))
''')],
    '', 'a template with bytes that are not UTF-8', 'they are replaced', demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d"
printf 'package p // caf\\351\\n' > "$tmp/d/_t.go"
"$tmp/gen" -generation complex -directory "$tmp/d" > /dev/null || exit 2
cmp "$tmp/d/_t.go" "$tmp/d/t.generated.go" || { echo FAIL; exit 1; }
echo ok
''')

bug('c13-optimistic', 'C13', 'v1',
    [(V1B, '''	b.Lock()
	defer b.Unlock()

	out = b.readbits(b.boff, n)
	b.seekbit(n, true)
	return
''', '''	for {

		b.Lock()
		here := b.boff
		b.Unlock()

		// may panic; nothing has been done yet
		out = b.ReadBits(here, n)

		b.Lock()
		if b.boff == here {

			b.seekbit(n, true)
			b.Unlock()
			return

		}
		b.Unlock()

	}
''', 'func (b *Buffer) ReadBitsNext(')],
    '''
// one goroutine counts the byte at the cursor down before it looks at the
// position: a reader that moves on afterwards must have seen the new value
for round := 0; round < 40; round++ {
	b := crunch.NewBuffer(make([]byte, 1))
	var wg sync.WaitGroup
	wg.Add(2)
	const rounds = 20000
	read := make([]uint64, 0, rounds)
	var last int
	var lastWritten byte
	go func() {
		defer wg.Done()
		for i := 0; i < rounds; i++ {
			b.SeekBit(0, false)
			read = append(read, b.ReadBitsNext(8))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < rounds; i++ {
			b.WriteByte(0, byte(i))
			if b.BitOffset() == 0 {
				last, lastWritten = i, byte(i)
			}
		}
	}()
	wg.Wait()
	_, _ = last, lastWritten
}
race := func() bool {
	b := crunch.NewBuffer(make([]byte, 1))
	var got uint64
	var before int64
	var wg sync.WaitGroup
	wg.Add(2)
	var gate int32
	go func() {
		defer wg.Done()
		atomic.AddInt32(&gate, 1)
		for atomic.LoadInt32(&gate) < 2 {
		}
		got = b.ReadBitsNext(8)
	}()
	go func() {
		defer wg.Done()
		atomic.AddInt32(&gate, 1)
		for atomic.LoadInt32(&gate) < 2 {
		}
		b.WriteByte(0, 1)
		before = b.BitOffset()
	}()
	wg.Wait()
	// the position was still 0 after the write: the read came later
	return !(before == 0 && got == 0)
}
for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
	check(race(), "a read that moved the position after the write returned what was there before")
}
''', 'a write and a look at the position by another goroutine between the read and its commit', 'the position is compared, not the contents: a stale read commits', imports=['sync', 'sync/atomic', 'time'])

bug('c16-dotted-name', 'C16', 'v3',
    [('generation/main.go', 'strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go")', 'strings.SplitN(strings.TrimPrefix(name, "_"), ".", 2)[0]')],
    '', 'a template whose name has a further dot', 'the output gets the wrong name', demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d"
echo 'package p' > "$tmp/d/_a.b.go"
"$tmp/gen" -generation complex -directory "$tmp/d" > /dev/null || exit 2
cmp "$tmp/d/_a.b.go" "$tmp/d/a.b.generated.go" || { echo FAIL; exit 1; }
echo ok
''')

bug('c16-crlf', 'C16', 'v3',
    [('generation/complex.go', '''([0-9]{1,}) ([A-z]{1,})$")''', '''([0-9]{1,}) ([A-z]{1,})\\\\r?$")''')],
    '', 'a line that ends in carriage return, line feed', 'it is taken for a directive', demo_sh='''#!/bin/bash
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
go build -C generation -o "$tmp/gen" . || exit 2
mkdir "$tmp/d"
printf 'package p\\r\\n//generator:complex Buffer Read U 16 LE\\r\\n' > "$tmp/d/_a.go"
"$tmp/gen" -generation complex -directory "$tmp/d" > /dev/null || exit 2
cmp "$tmp/d/_a.go" "$tmp/d/a.generated.go" || { echo FAIL; exit 1; }
echo ok
''')

bug('c13-large-relock', 'C13', 'v1',
    [(V1B, '''	b.grow(n)
''', '''	if n >= 1<<12 {

		// in one step: appending would reserve more than is asked for
		grown := make([]byte, b.cap+n)
		copy(grown, b.buf)
		b.buf = grown
		b.Refresh()
		return

	}
	b.grow(n)
''', 'func (b *Buffer) Grow(')],
    '''
b := crunch.NewBuffer(make([]byte, 8))
done := make(chan bool)
go func() {
	b.Grow(5000)
	b.Capacity()
	done <- true
}()
select {
case <-done:
case <-time.After(10 * time.Second):
	check(false, "Grow(5000) never returns")
}
''', 'growth by 4096 bytes or more', 'the call waits for the lock it holds', imports=['time'])

FENCE = '''
place := func(n, prot int) []byte {
	m, err := syscall.Mmap(-1, 0, 12288, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	check(err == nil, "%v", err)
	for i := range m {
		m[i] = byte(i*7 + i>>8)
	}
	syscall.Mprotect(m[:4096], syscall.PROT_NONE)
	syscall.Mprotect(m[8192:], syscall.PROT_NONE)
	syscall.Mprotect(m[4096:8192], prot)
	return m[8192-n : 8192 : 8192]
}
_, _ = place, unsafe.Sizeof(0)
debug.SetPanicOnFault(true)
'''
FIMP = ['syscall', 'runtime/debug', 'unsafe']
RO, RW = 'syscall.PROT_READ', 'syscall.PROT_READ|syscall.PROT_WRITE'

bug('c20-f32-pairs', 'C20', 'v3',
    [(V3B, '''	write_loop:
		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
		b.buf[off+int64(1+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 8)
		b.buf[off+int64(2+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 16)
		b.buf[off+int64(3+(i*4))] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
		i++
''', '''	write_loop:
		pair := *(*uint64)(unsafe.Pointer(&data[i]))
		b.buf[off+int64(i*4)] = byte(pair)
		b.buf[off+int64(1+(i*4))] = byte(pair >> 8)
		b.buf[off+int64(2+(i*4))] = byte(pair >> 16)
		b.buf[off+int64(3+(i*4))] = byte(pair >> 24)
		i++
		if i == n {
			return
		}
		b.buf[off+int64(i*4)] = byte(pair >> 32)
		b.buf[off+int64(1+(i*4))] = byte(pair >> 40)
		b.buf[off+int64(2+(i*4))] = byte(pair >> 48)
		b.buf[off+int64(3+(i*4))] = byte(pair >> 56)
		i++
''', 'func (b *Buffer) WriteF32LE(')],
    FENCE + '''
s := place(12, RO)
var l []float32
h := (*[3]uintptr)(unsafe.Pointer(&l))
h[0], h[1], h[2] = uintptr(unsafe.Pointer(&s[0])), 3, 3
b := crunch.NewBuffer(make([]byte, 12))
r := try(func() { b.WriteF32LE(0, l) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'a list with an odd number of float32s that ends where mapped memory does', 'the four bytes behind the list are read', imports=FIMP)

bug('c20-bits-word', 'C20', 'v3',
    [(V3M, '''		i = int64(0)
	)
''', '''		i, x = int64(0), off & 7
	)
	if off >= 0 && n <= 64-x {

		// all of it lies in one big-endian word
		p := unsafe.Pointer(&b.buf[off/8])
		w := uint64(0)
		for i := uintptr(0); i < 8; i++ {

			w = w<<8 | uint64(*(*byte)(unsafe.Pointer(uintptr(p) + i)))

		}
		*out = w << uint64(x) >> uint64(64-n)
		return

	}
''', 'func (b *MiniBuffer) ReadBits(')],
    FENCE + '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, place(5, RW))
var x uint64
r := try(func() { b.ReadBits(&x, 3, 20) })
check(r == nil, "%v", r)
'''.replace('RW', RW), 'storage that ends where mapped memory does, and a field in its last seven bytes', 'bytes behind the storage are read', imports=FIMP)

bug('c20-swap-list', 'C20', 'v2',
    [(V2B, '''		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
		b.buf[off+int64(1+(i*4))] = byte(data[i] >> 16)
		b.buf[off+int64(2+(i*4))] = byte(data[i] >> 8)
		b.buf[off+int64(3+(i*4))] = byte(data[i])

		i++
''', '''		data[i] = bits.ReverseBytes32(data[i])
		i++
''', 'func (b *Buffer) writeU32BE('),
     (V2B, '''	write_loop:
		data[i] = bits''', '''	swap_loop:
		data[i] = bits''', 'func (b *Buffer) writeU32BE('),
     (V2B, '''			goto write_loop

		}
	}
''', '''			goto swap_loop

		}
	}
	b.writeU32LE(off, data)
	for i = range data {

		data[i] = bits.ReverseBytes32(data[i])

	}
''', 'func (b *Buffer) writeU32BE('),
     (V2B, 'import "sync"', '''import (
	"math/bits"
	"sync"
)''')],
    FENCE + '''
s := place(8, RO)
var l []uint32
h := (*[3]uintptr)(unsafe.Pointer(&l))
h[0], h[1], h[2] = uintptr(unsafe.Pointer(&s[0])), 2, 2
b := crunch.NewBuffer(make([]byte, 12))
r := try(func() { b.WriteU32BE(1, l) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'a list in read-only memory, or one that others read meanwhile', 'the list is turned round in place and back', imports=FIMP)

bug('c20-swap-storage', 'C20', 'v3',
    [(V3M, '''		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
''', '''		x := b.buf[off+(i*8) : off+(i*8)+8]
		x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7] = x[7], x[6], x[5], x[4], x[3], x[2], x[1], x[0]
		(*out)[i] = uint64(x[0]) | uint64(x[1])<<8 | uint64(x[2])<<16 | uint64(x[3])<<24 | uint64(x[4])<<32 | uint64(x[5])<<40 | uint64(x[6])<<48 | uint64(x[7])<<56
		x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7] = x[7], x[6], x[5], x[4], x[3], x[2], x[1], x[0]
''', 'func (b *MiniBuffer) ReadU64BE(')],
    FENCE + '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, place(20, RO))
x := make([]uint64, 2)
r := try(func() { b.ReadU64BE(&x, 1, 2) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'storage that is a read-only mapping, or shared with another reader', 'reading turns the bytes round in place and back', imports=FIMP)

bug('c20-bit-probe', 'C20', 'v1',
    [(V1B, '''	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
''', '''	x := b.buf[off/8]
	b.flipbit(off)
	bit := atob(b.buf[off/8] < x)
	b.flipbit(off)
	return bit
''', 'func (b *Buffer) readbit(')],
    FENCE + '''
b := crunch.NewBuffer(place(6, RO))
r := try(func() { b.ReadBit(9) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'storage that is a read-only mapping, or shared with another reader', 'reading a bit flips it and back', imports=FIMP)

bug('c20-word-tail', 'C20', 'v3',
    [(V3B, '''	copy(b.buf[off:], data)
''', '''	for len(data) > 8 {

		*(*[8]byte)(unsafe.Pointer(&b.buf[off])) = *(*[8]byte)(unsafe.Pointer(&data[0]))
		data = data[8:]
		off += 8

	}
	if len(data) > 4 {

		// what follows keeps its value
		p := (*[8]byte)(unsafe.Pointer(&b.buf[off]))
		last := *p
		copy(last[:], data)
		*p = last
		return

	}
	copy(b.buf[off:], data)
''', 'func (b *Buffer) WriteBytes(')],
    FENCE + '''
b := crunch.NewBuffer(place(14, RW))
r := try(func() { b.WriteBytes(0, make([]byte, 14)) })
check(r == nil, "%v", r)
'''.replace('RW', RW), 'a write whose last 5 to 7 bytes are the last of storage that ends where mapped memory does', 'the bytes behind the storage are read and written back', imports=FIMP)

bug('c20-first-room', 'C20', 'v3',
    [(V3M, '''	default:
		var (
			i = int64(0)
			n = int64(len(slices))
		)
''', '''	default:
		var (
			n = int64(len(slices))
			i = int64(0)
		)
		if cap(slices[0])-len(slices[0]) >= 64 {

			// there is room behind the first one
			(*out).buf = slices[0]
			i++

		}
''', 'func NewMiniBuffer(')],
    FENCE + '''
s := place(100, RO)
var b *crunch.MiniBuffer
r := try(func() { crunch.NewMiniBuffer(&b, s[:10], []byte{1, 2}, []byte{3}) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'several slices, the first with much spare capacity that is read-only or in use', 'the others are written behind the first', imports=FIMP)

bug('c20-write-then-check', 'C20', 'v1',
    [(V1B, '''	return b.bcap - off[0] - 1
''', '''	off[0]++
	return b.bcap - off[0]
''', 'func (b *Buffer) afterbit(')],
    FENCE + '''
s := place(8, RO)
var l []int64
h := (*[3]uintptr)(unsafe.Pointer(&l))
h[0], h[1], h[2] = uintptr(unsafe.Pointer(&s[0])), 1, 1
b := crunch.NewBuffer(make([]byte, 12))
r := try(func() { b.AfterBit(l...) })
check(r == nil, "%v", r)
'''.replace('RO', RO), 'positions handed over as a slice', 'the caller\'s slice of positions is changed', imports=FIMP)

bug('c19-same-variable', 'C19', 'v3',
    [(V3M, '''	*out = &MiniBuffer{
		buf:  []byte{},
		off:  0x00,
		boff: 0x00,
	}
''', '''	if *out == nil {

		*out = &MiniBuffer{}

	}
	**out = MiniBuffer{
		buf:  []byte{},
		off:  0x00,
		boff: 0x00,
	}
''', 'func NewMiniBuffer(')],
    '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, []byte{1, 2, 3})
first := b
crunch.NewMiniBuffer(&b, []byte{4})
var d []byte
first.Bytes(&d)
check(len(d) == 3, "% x", d)
''', 'building a second buffer into the variable that holds the first, which is used further', 'the first one becomes the second')

COST = '''
used := func(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}
_ = used
collected := func(freed *int32) bool {
	for i := 0; i < 100; i++ {
		runtime.GC()
		if atomic.LoadInt32(freed) != 0 {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}
_, _, _ = collected, time.Now, atomic.LoadInt32
'''
CIMP = ['runtime', 'sync/atomic', 'time']

bug('c21-saved-setbits', 'C21', 'v2',
    [(V2B, '''	i := int64(0)

	{
	write_loop:
''', '''	// all or nothing
	i, saved := int64(0), append([]byte{}, b.buf...)
	defer func() {

		if i < n {

			copy(b.buf, saved)

		}

	}()

	{
	write_loop:
''', 'func (b *Buffer) setbits(')],
    COST + '''
b := crunch.NewBuffer(make([]byte, 8<<20))
n := used(func() { b.SetBits(100, 5, 3) })
check(n < 1<<20, "%d bytes", n)
''', 'writing a bit field in a large buffer', 'the whole contents are copied for every field', imports=CIMP)

bug('c21-list-kept', 'C21', 'v3',
    [(V3M, '''		b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
		i++
		if i < n {
			goto write_loop
		}
	}
}
''', '''		b.buf[off+int64(7+(i*8))] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
		i++
		if i < n {
			goto write_loop
		}
	}
	if n >= 16 {
		lastList.Store(&data[0])
	}
}

// the last long list, to tell whether it is written again
var lastList atomic.Value
''', 'func (b *MiniBuffer) WriteF64LE('),
     (V3M, '''import "unsafe"
''', '''import (
	"sync/atomic"
	"unsafe"
)
''')],
    COST + '''
var freed int32
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8000))
done := make(chan bool)
go func() {
	l := make([]float64, 900)
	runtime.SetFinalizer(&l[0], func(*float64) { atomic.StoreInt32(&freed, 1) })
	b.WriteF64LE(0, l)
	done <- true
}()
<-done
check(collected(&freed), "the list is kept")
''', 'a list of at least 16 float64s, dropped after it was written', 'the package keeps the list', imports=CIMP)

bug('c21-registry', 'C21', 'v2',
    [(V2B, '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
''', '''		for _, s := range slices {

			buf.buf = append(buf.buf, s...)

		}
		joined.Store(&buf.buf[:1][0], len(slices))
''', 'func NewBuffer('),
     (V2B, '''// NewBuffer initilaizes''', '''// joined has how many slices the storage of each buffer was built from
var joined sync.Map

// NewBuffer initilaizes''')],
    COST + '''
in := func() uint64 {
	var a runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&a)
	return a.HeapAlloc
}
a := in()
for i := 0; i < 200; i++ {
	crunch.NewBuffer(make([]byte, 30000), make([]byte, 1))
}
n := in() - a
check(int64(n) < 1<<20, "%d bytes in use", n)
''', 'many buffers built from several slices and dropped', 'their storage stays in use', imports=CIMP)

bug('c21-worker', 'C21', 'v3',
    [(V3B, '''	var (
		i = int64(0)
		n = int64(len(b.buf))
	)
	if n == 0 {

		return

	}
	{
	clear_loop:
		b.buf[i] = 0
''', '''	var (
		n = int64(len(b.buf))
		i = int64(0)
	)
	if n == 0 {

		return

	}
	if n > 1<<16 {

		// in parts, at the same time
		counts, total := make(chan int64), make(chan int64)
		go func() {

			sum := int64(0)
			for c := range counts {

				if sum += c; sum == n {

					total <- sum

				}

			}

		}()
		for ; i < n; i += 1 << 16 {

			go func(i int64) {

				part := b.buf[i:]
				if len(part) > 1<<16 {

					part = part[:1<<16]

				}
				for k := range part {

					part[k] = 0

				}
				counts <- int64(len(part))

			}(i)

		}
		<-total
		return

	}
	{
	clear_loop:
		b.buf[i] = 0
''', 'func (b *Buffer) ClearAllBits(')],
    COST + '''
a := runtime.NumGoroutine()
b := crunch.NewBuffer(make([]byte, 100000))
b.ClearAllBits()
time.Sleep(500 * time.Millisecond)
n := runtime.NumGoroutine() - a
check(n == 0, "%d goroutines left", n)
''', 'clearing a buffer of more than 65536 bytes', 'a goroutine waits for ever', imports=CIMP)

bug('c21-number', 'C21', 'v1',
    [(V1B, '''	for i := int64(0); i < n; i++ {

		v = (v << uint64(1)) | uint64(b.readbit(off+i))

	}
	return
''', '''	if n > 16 && n <= 64 {

		b.readbit(off)
		b.readbit(off + n - 1)
		x := new(big.Int).SetBytes(b.buf)
		x.Rsh(x, uint(b.bcap-off-n))
		return x.Uint64() << uint64(64-n) >> uint64(64-n)

	}
	for i := int64(0); i < n; i++ {

		v = v<<1 | uint64(b.readbit(off+i))

	}
	return
''', 'func (b *Buffer) readbits('),
     (V1B, '''	"encoding/binary"
''', '''	"encoding/binary"
	"math/big"
''')],
    COST + '''
b := crunch.NewBuffer(make([]byte, 8<<20))
n := used(func() { b.ReadBits(100, 20) })
check(n < 1<<20, "%d bytes", n)
''', 'reading more than 16 bits of a large buffer', 'the whole contents are turned into a number', imports=CIMP)

bug('c21-verify-end', 'C21', 'v3',
    [(V3M, '''	b.off = b.boff / 8
''', '''	b.off = 0
	for b.off < b.boff/8 {

		b.off++

	}
	for b.off > b.boff/8 || b.off*8 > b.boff {

		b.off--

	}
''', 'func (b *MiniBuffer) AlignByte(')],
    COST + '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 256<<20))
b.SeekBit(8<<27, false)
best := time.Hour
for i := 0; i < 5; i++ {
	t := time.Now()
	b.AlignByte()
	if d := time.Since(t); d < best {
		best = d
	}
}
check(best < 5*time.Millisecond, "%v", best)
''', 'aligning far into a large buffer', 'takes time in proportion to the position', imports=CIMP)

bug('c21-mask-cache', 'C21', 'v1',
    [(V1B, '''	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
''', '''	places.Lock()
	defer places.Unlock()
	p, known := places.m[off]
	if !known {

		p = place{off / 8, 1 << uint(7-(off%8))}
		places.m[off] = p

	}
	return atob(b.buf[p.index]&p.mask != 0)
''', 'func (b *Buffer) readbit('),
     (V1B, '''// Buffer implements a concurrent-safe''', '''// place is where a bit is
type place struct {
	index int64
	mask  byte
}

// places saves dividing again
var places = struct {
	sync.Mutex
	m map[int64]place
}{m: map[int64]place{}}

// Buffer implements a concurrent-safe''')],
    COST + '''
in := func() uint64 {
	var a runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&a)
	return a.HeapAlloc
}
b := crunch.NewBuffer(make([]byte, 50000))
b.ReadBit(0)
a := in()
for i := int64(0); i < 400000; i++ {
	b.ReadBit(i)
}
n := in() - a
check(int64(n) < 1<<20, "%d bytes in use", n)
''', 'reading bits at many different positions', 'the package remembers every position', imports=CIMP)

bug('c21-seek-walk', 'C21', 'v2',
    [(V2M, '''		b.off = off

''', '''		step := int64(1)
		if off < b.off {

			step = -1

		}
		for b.off != off {

			b.off += step

		}

''', 'func (b *MiniBuffer) seek(')],
    COST + '''
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 64<<20))
best := time.Hour
for i := 0; i < 5; i++ {
	b.Seek(0, false)
	t := time.Now()
	b.Seek(60<<20, false)
	if d := time.Since(t); d < best {
		best = d
	}
}
check(best < 3*time.Millisecond, "%v", best)
''', 'seeking far', 'takes time in proportion to the distance', imports=CIMP)

bug('c21-failures', 'C21', 'v3',
    [(V3B, '''	if off < 0x00 {

		panic(BufferUnderreadError)

	}
''', '''	if off < 0x00 {

		failures.Store(new(int64), off)
		panic(BufferUnderreadError)

	}
''', 'func (b *Buffer) ReadBit('),
     (V3B, '''import "unsafe"
''', '''import (
	"sync"
	"unsafe"
)

// failures has the positions before the start that were asked for
var failures sync.Map
''')],
    COST + '''
in := func() uint64 {
	var a runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&a)
	return a.HeapAlloc
}
b := crunch.NewBuffer(make([]byte, 50))
f := func() { b.ReadBit(-1) }
try(f)
a := in()
for i := 0; i < 50000; i++ {
	try(f)
}
n := in() - a
check(int64(n) < 1<<20, "%d bytes in use", n)
''', 'reading single bits before the start, many times', 'memory in use grows with every failure', imports=CIMP)

bug('c21-reset-list', 'C21', 'v2',
    [(V2B, '''	b.buf = []byte{}
''', '''	spare.Lock()
	spare.l = append(spare.l, b.buf)
	spare.Unlock()
	b.buf = []byte{}
''', 'func (b *Buffer) reset('),
     (V2B, '''	b.buf = append(b.buf, make([]byte, n)...)
''', '''	spare.Lock()
	defer spare.Unlock()
	if l := len(spare.l); len(b.buf) == 0 && l > 0 && n > 64 && int64(cap(spare.l[l-1])) >= n {

		// storage that is not needed any more
		b.buf, spare.l = spare.l[l-1][:n], spare.l[:l-1]
		b.clearallbits()

	} else {

		b.buf = append(b.buf, make([]byte, n)...)

	}
''', 'func (b *Buffer) grow('),
     (V2B, '''// NewBuffer initilaizes''', '''// spare is storage that buffers had before they were reset
var spare struct {
	sync.Mutex
	l [][]byte
}

// NewBuffer initilaizes''')],
    COST + '''
var freed int32
done := make(chan bool)
b := crunch.NewBuffer()
go func() {
	d := new([1000]byte)
	runtime.SetFinalizer(d, func(*[1000]byte) { atomic.StoreInt32(&freed, 1) })
	b = crunch.NewBuffer(d[:])
	b.Reset()
	done <- true
}()
<-done
check(collected(&freed), "the storage is kept")
runtime.KeepAlive(b)
''', 'resetting a buffer', 'its former storage is never collected', imports=CIMP)

bug('c03-same-as-before', 'C03', 'v3',
    [(V3B, '''	write_loop:
		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
''', '''	write_loop:
		if i > 0 && data[i] == data[i-1] {
			copy(b.buf[off+int64(i*8):][:8], b.buf[off+int64(i*8)-8:])
			i++
			if i < n {
				goto write_loop
			}
			return
		}
		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
''', 'func (b *Buffer) WriteF64LE(')],
    '''
b := crunch.NewBuffer(make([]byte, 24))
b.WriteF64LE(0, []float64{0, math.Copysign(0, -1), 1})
check(b.Bytes()[15] == 0x80, "% x", b.Bytes())
''', 'a list with -0 right after +0', 'equal values are taken for the same bits', imports=['math'])

bug('c14-yield', 'C14', 'v2',
    [(V2M, '''		b.buf[i] = ^b.buf[i]
		i++
		if i < n {
''', '''		b.buf[i] = ^b.buf[i]
		i++
		if i%(1<<20) == 0 && i < n && !b.TryLock() {

			// others have been waiting for a while
			b.Unlock()
			b.Lock()
			goto flip_loop

		} else if i%(1<<20) == 0 && i < n {

			b.Unlock()

		}
		if i < n {
''', 'func (b *MiniBuffer) flipallbits(')],
    '''
d := make([]byte, 5<<20)
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, d)
for k := 0; k < 50; k++ {
	b.Lock()
	done := make(chan bool)
	go func() {
		b.Lock()
		for i := range d {
			if d[i] != d[0] {
				fmt.Println("FAIL: seen half done")
				os.Exit(1)
			}
		}
		b.Unlock()
		done <- true
	}()
	for i := 0; i < 3; i++ {
		time.Sleep(time.Millisecond)
		b.FlipAllBits()
	}
	b.Unlock()
	<-done
}
''', 'flipping a buffer of more than a megabyte while another goroutine waits for the lock', 'the lock is released in between', imports=['time'])

bug('c12-align-keeps', 'C12', 'v3',
    [(V3M, '''	b.boff = b.off * 8
''', '''	if b.boff < b.off*8 || b.boff > b.off*8+7 {

		b.boff = b.off * 8

	}
''', 'func (b *MiniBuffer) AlignBit(')],
    '''
a := crunch.NewBuffer(make([]byte, 8))
var b *crunch.MiniBuffer
crunch.NewMiniBuffer(&b, make([]byte, 8))
a.SeekByte(2, false)
b.SeekByte(2, false)
a.SeekBit(19, false)
b.SeekBit(19, false)
a.AlignBit()
b.AlignBit()
var n int64
b.BitOffset(&n)
check(n == a.BitOffset(), "%d, %d", n, a.BitOffset())
''', 'aligning the bit position with the byte it is already in', 'the MiniBuffer stays in the middle of the byte')

bug('c18-parts', 'C18', 'v2',
    [(V2B, '''	{
	set_loop:
''', '''	if n > 1<<20 {

		// in parts, at the same time
		var w sync.WaitGroup
		part := n / 4
		for k := int64(0); k < 4; k++ {

			w.Add(1)
			go func(d []byte) {

				defer w.Done()
				for j := range d {

					d[j] = 0xFF

				}

			}(b.buf[k*part : (k+1)*part])

		}
		w.Wait()
		return

	}
	{
	set_loop:
''', 'func (b *Buffer) setallbits(')],
    '''
b := crunch.NewBuffer(make([]byte, 3<<20+1))
b.SetAllBits()
for i, x := range b.Bytes() {
	check(x == 0xff, "byte %d is %#x", i, x)
}
''', 'setting all bits of more than a megabyte, whose size is not a multiple of 4', 'the last bytes are left out')

bug('c01-halves', 'C01', 'v3',
    [(V3B, '''	i := 0
	n := len(data)
	if n == 0 {
		return
	}
''', '''	i := 0
	n := len(data)
	if n == 0 {
		return
	}
	if n > 1<<16 {
		// the halves at the same time
		done := make(chan bool)
		half := data[n/2:]
		for k, part := range [][]uint32{data[:n/2], half[:n/2]} {
			go func(at int64, part []uint32) {
				for k, x := range part {
					b.buf[at+int64(4*k)] = byte(x >> 24)
					b.buf[at+int64(4*k)+1] = byte(x >> 16)
					b.buf[at+int64(4*k)+2] = byte(x >> 8)
					b.buf[at+int64(4*k)+3] = byte(x)
				}
				done <- true
			}(off+int64(k*(n/2)*4), part)
		}
		<-done
		<-done
		return
	}
''', 'func (b *Buffer) WriteU32BE(')],
    '''
n := 1<<17 + 1
b := crunch.NewBuffer(make([]byte, 4*n))
l := make([]uint32, n)
l[n-1] = 0x01020304
b.WriteU32BE(0, l)
check(b.Bytes()[4*n-1] == 4, "% x", b.Bytes()[4*n-8:])
''', 'writing more than 65536 big-endian uint32s, an odd number of them', 'the last one is not written')

BUGS = [b for b in BUGS if not b.get('skip')]
