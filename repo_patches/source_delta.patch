From 380280658bdfecdde23f3f3c54911c40f9e94cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 01/10] fix: hold the lock for the whole of every v1/v2 Buffer
 call

Buffer is documented as concurrent-safe, but its methods read the
positions and cached capacities outside the lock, ...Next methods used
one critical section for the access and another one for the seek (so
that two goroutines could consume the same position), and a panic in a
write or in Grow left the lock held for good. Take the lock once, in
the public methods, and release it with defer.
---
 v1/buffer.go | 158 +++++++++++++++++++++---------
 v2/buffer.go | 265 ++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 291 insertions(+), 132 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index da17ecf..8c2299b 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -77,9 +77,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -111,9 +108,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -155,9 +149,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -165,9 +156,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0
@@ -179,9 +167,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = 0xFF
@@ -193,9 +178,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	for i := range b.buf {
 
 		b.buf[i] = ^b.buf[i]
@@ -207,9 +189,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -251,8 +230,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	i := int64(0)
 	n := int64(len(data))
 
@@ -267,8 +244,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeComplex writes a slice of bytes to the buffer at the specified offset with the specified endianness and integer type
@@ -355,9 +330,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -412,9 +384,6 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -444,12 +413,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -457,9 +422,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -468,9 +430,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -478,9 +437,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -490,6 +446,9 @@ func (b *Buffer) alignbyte() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.buf
 
 }
@@ -497,6 +456,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.cap
 
 }
@@ -504,6 +466,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.bcap
 
 }
@@ -511,6 +476,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.off
 
 }
@@ -518,6 +486,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.boff
 
 }
@@ -525,6 +496,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -532,6 +506,9 @@ func (b *Buffer) Refresh() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -539,6 +516,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -546,6 +526,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -553,6 +536,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -560,6 +546,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -567,6 +556,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.after(off...)
 
 }
@@ -574,6 +566,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -581,6 +576,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -588,6 +586,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -595,6 +596,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadComplex returns the next n uint8/uint16/uint32/uint64-s from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readComplex(off, n, size, endian)
 
 }
@@ -602,6 +606,9 @@ func (b *Buffer) ReadComplex(off, n int64, size IntegerSize, endian binary.ByteO
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -611,6 +618,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -620,6 +630,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadComplexNext returns the next n uint8/uint16/uint32/uint64-s from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOrder) (out interface{}) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readComplex(b.off, n, size, endian)
 	b.seek(n*int64(size), true)
 	return
@@ -629,6 +642,9 @@ func (b *Buffer) ReadComplexNext(n int64, size IntegerSize, endian binary.ByteOr
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -636,6 +652,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -643,6 +662,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteComplex writes a uint8/uint16/uint32/uint64 to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(off, data, size, endian)
 
 }
@@ -650,6 +672,9 @@ func (b *Buffer) WriteComplex(off int64, data interface{}, size IntegerSize, end
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -658,6 +683,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -666,6 +694,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteComplexNext writes a uint8/uint16/uint32/uint64 to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian binary.ByteOrder) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeComplex(b.off, data, size, endian)
 
 	switch size {
@@ -689,6 +720,9 @@ func (b *Buffer) WriteComplexNext(data interface{}, size IntegerSize, endian bin
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -696,6 +730,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -703,6 +740,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -712,6 +752,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -721,6 +764,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -728,6 +774,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -735,6 +784,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -743,6 +795,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -751,6 +806,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -758,6 +816,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -766,6 +827,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -773,6 +837,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -780,6 +847,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
diff --git a/v2/buffer.go b/v2/buffer.go
index b248125..dc293dc 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -74,9 +74,6 @@ func (b *Buffer) readbit(off int64) byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return atob((b.buf[off/8] & (1 << uint(7-(off%8)))) != 0)
 
 }
@@ -116,9 +113,6 @@ func (b *Buffer) setbit(off int64, data byte) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	switch data {
 
 	case 0:
@@ -167,9 +161,6 @@ func (b *Buffer) flipbit(off int64) {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf[off/8] ^= (1 << uint(7-(off%8)))
 
 }
@@ -177,9 +168,6 @@ func (b *Buffer) flipbit(off int64) {
 // clearallbits sets all of the buffer's bits to 0
 func (b *Buffer) clearallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -200,9 +188,6 @@ func (b *Buffer) clearallbits() {
 // setallbits sets all of the buffer's bits to 1
 func (b *Buffer) setallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -223,9 +208,6 @@ func (b *Buffer) setallbits() {
 // flipallbits flips all of the buffer's bits
 func (b *Buffer) flipallbits() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	var (
 		i = int64(0)
 		n = int64(len(b.buf))
@@ -247,9 +229,6 @@ func (b *Buffer) flipallbits() {
 // seekbit seeks to position off of the bitfield relative to the current position or exact
 func (b *Buffer) seekbit(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.boff += off
@@ -291,8 +270,6 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = int64(0)
 		n = int64(len(data))
@@ -308,8 +285,6 @@ func (b *Buffer) write(off int64, data []byte) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
@@ -327,8 +302,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -346,8 +319,6 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
@@ -365,8 +336,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -384,8 +353,6 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
@@ -403,8 +370,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -424,8 +389,6 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
@@ -443,8 +406,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -464,8 +425,6 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
@@ -483,8 +442,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -508,8 +465,6 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
@@ -527,8 +482,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
 	}
 
-	b.Lock()
-
 	var (
 		i = 0
 		n = len(data)
@@ -552,8 +505,6 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		}
 	}
 
-	b.Unlock()
-
 }
 
 // read reads n bytes from the buffer at the specified offset
@@ -571,9 +522,6 @@ func (b *Buffer) read(off, n int64) []byte {
 
 	}
 
-	b.Lock()
-	defer b.Unlock()
-
 	return b.buf[off : off+n]
 
 }
@@ -595,9 +543,6 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -633,9 +578,6 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -671,9 +613,6 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -711,9 +650,6 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -751,9 +687,6 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
-
 	i := int64(0)
 	{
 	read_loop:
@@ -795,8 +728,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
-	b.Lock()
-	defer b.Unlock()
 	i := int64(0)
 	{
 	read_loop:
@@ -824,9 +755,6 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 // seek seeks to position off of the byte buffer relative to the current position or exact
 func (b *Buffer) seek(off int64, relative bool) {
 
-	b.Lock()
-	defer b.Unlock()
-
 	if relative {
 
 		b.off += off
@@ -856,12 +784,8 @@ func (b *Buffer) after(off ...int64) int64 {
 // grow grows the buffer by n bytes
 func (b *Buffer) grow(n int64) {
 
-	b.Lock()
-
 	b.buf = append(b.buf, make([]byte, n)...)
 
-	b.Unlock()
-
 	b.refresh()
 
 }
@@ -869,9 +793,6 @@ func (b *Buffer) grow(n int64) {
 // refresh updates the internal statistics of the byte buffer forcefully
 func (b *Buffer) refresh() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.cap = int64(len(b.buf))
 	b.bcap = b.cap * 8
 
@@ -880,9 +801,6 @@ func (b *Buffer) refresh() {
 // alignbit aligns the bit offset to the byte offset
 func (b *Buffer) alignbit() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.boff = b.off * 8
 
 }
@@ -890,9 +808,6 @@ func (b *Buffer) alignbit() {
 // alignbyte aligns the byte offset to the bit offset
 func (b *Buffer) alignbyte() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.off = b.boff / 8
 
 }
@@ -900,9 +815,6 @@ func (b *Buffer) alignbyte() {
 // reset resets the buffer
 func (b *Buffer) reset() {
 
-	b.Lock()
-	defer b.Unlock()
-
 	b.buf = []byte{}
 	b.off = 0x00
 	b.boff = 0x00
@@ -916,6 +828,9 @@ func (b *Buffer) reset() {
 // Bytes returns the internal byte slice of the buffer
 func (b *Buffer) Bytes() []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.buf
 
 }
@@ -923,6 +838,9 @@ func (b *Buffer) Bytes() []byte {
 // Capacity returns the capacity of the buffer
 func (b *Buffer) Capacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.cap
 
 }
@@ -930,6 +848,9 @@ func (b *Buffer) Capacity() int64 {
 // BitCapacity returns the bit capacity of the buffer
 func (b *Buffer) BitCapacity() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.bcap
 
 }
@@ -937,6 +858,9 @@ func (b *Buffer) BitCapacity() int64 {
 // Offset returns the current offset of the buffer
 func (b *Buffer) Offset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.off
 
 }
@@ -944,6 +868,9 @@ func (b *Buffer) Offset() int64 {
 // BitOffset returns the current bit offset of the buffer
 func (b *Buffer) BitOffset() int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.boff
 
 }
@@ -951,6 +878,9 @@ func (b *Buffer) BitOffset() int64 {
 // Refresh updates the cached internal statistics of the buffer forcefully
 func (b *Buffer) Refresh() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.refresh()
 
 }
@@ -958,6 +888,9 @@ func (b *Buffer) Refresh() {
 // Reset resets the entire buffer
 func (b *Buffer) Reset() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.reset()
 
 }
@@ -965,6 +898,9 @@ func (b *Buffer) Reset() {
 // Grow makes the buffer's capacity bigger by n bytes
 func (b *Buffer) Grow(n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.grow(n)
 
 }
@@ -972,6 +908,9 @@ func (b *Buffer) Grow(n int64) {
 // Seek seeks to position off of the buffer relative to the current position or exact
 func (b *Buffer) Seek(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seek(off, relative)
 
 }
@@ -979,6 +918,9 @@ func (b *Buffer) Seek(off int64, relative bool) {
 // SeekBit seeks to bit position off of the the buffer relative to the current position or exact
 func (b *Buffer) SeekBit(off int64, relative bool) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.seekbit(off, relative)
 
 }
@@ -986,6 +928,9 @@ func (b *Buffer) SeekBit(off int64, relative bool) {
 // AlignBit aligns the bit offset to the byte offset
 func (b *Buffer) AlignBit() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbit()
 
 }
@@ -993,6 +938,9 @@ func (b *Buffer) AlignBit() {
 // AlignByte aligns the byte offset to the bit offset
 func (b *Buffer) AlignByte() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.alignbyte()
 
 }
@@ -1000,6 +948,9 @@ func (b *Buffer) AlignByte() {
 // After returns the amount of bytes located after the current position or the specified one
 func (b *Buffer) After(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.after(off...)
 
 }
@@ -1007,6 +958,9 @@ func (b *Buffer) After(off ...int64) int64 {
 // AfterBit returns the amount of bits located after the current bit position or the specified one
 func (b *Buffer) AfterBit(off ...int64) int64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.afterbit(off...)
 
 }
@@ -1014,6 +968,9 @@ func (b *Buffer) AfterBit(off ...int64) int64 {
 // ReadByte returns the next byte from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadByte(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, 1)[0]
 
 }
@@ -1021,6 +978,9 @@ func (b *Buffer) ReadByte(off int64) byte {
 // ReadBytes returns the next n bytes from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.read(off, n)
 
 }
@@ -1028,6 +988,9 @@ func (b *Buffer) ReadBytes(off, n int64) []byte {
 // ReadU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16LE(off, n)
 
 }
@@ -1035,6 +998,9 @@ func (b *Buffer) ReadU16LE(off, n int64) []uint16 {
 // ReadU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU16BE(off, n)
 
 }
@@ -1042,6 +1008,9 @@ func (b *Buffer) ReadU16BE(off, n int64) []uint16 {
 // ReadU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32LE(off, n)
 
 }
@@ -1049,6 +1018,9 @@ func (b *Buffer) ReadU32LE(off, n int64) []uint32 {
 // ReadU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU32BE(off, n)
 
 }
@@ -1056,6 +1028,9 @@ func (b *Buffer) ReadU32BE(off, n int64) []uint32 {
 // ReadU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64LE(off, n)
 
 }
@@ -1063,6 +1038,9 @@ func (b *Buffer) ReadU64LE(off, n int64) []uint64 {
 // ReadU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readU64BE(off, n)
 
 }
@@ -1070,6 +1048,9 @@ func (b *Buffer) ReadU64BE(off, n int64) []uint64 {
 // ReadByteNext returns the next byte from the current offset and moves the offset forward a byte
 func (b *Buffer) ReadByteNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, 1)[0]
 	b.seek(1, true)
 	return
@@ -1079,6 +1060,9 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // ReadBytesNext returns the next n bytes from the current offset and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.read(b.off, n)
 	b.seek(n, true)
 	return
@@ -1088,6 +1072,9 @@ func (b *Buffer) ReadBytesNext(n int64) (out []byte) {
 // ReadU16LENext reads a slice of uint16s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16LE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1097,6 +1084,9 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // ReadU16BENext reads a slice of uint16s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU16BE(b.off, n)
 	b.seek(n*2, true)
 	return
@@ -1106,6 +1096,9 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // ReadU32LENext reads a slice of uint32s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32LE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1115,6 +1108,9 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // ReadU32BENext reads a slice of uint32s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU32BE(b.off, n)
 	b.seek(n*4, true)
 	return
@@ -1124,6 +1120,9 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // ReadU64LENext reads a slice of uint64s from the buffer at the current offset in little-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64LE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1133,6 +1132,9 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // ReadU64BENext reads a slice of uint64s from the buffer at the current offset in big-endian and moves the offset forward the amount of bytes read
 func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readU64BE(b.off, n)
 	b.seek(n*8, true)
 	return
@@ -1142,6 +1144,9 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // WriteByte writes a byte to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteByte(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, []byte{data})
 
 }
@@ -1149,6 +1154,9 @@ func (b *Buffer) WriteByte(off int64, data byte) {
 // WriteBytes writes bytes to the buffer at the specified offset without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(off, data)
 
 }
@@ -1156,6 +1164,9 @@ func (b *Buffer) WriteBytes(off int64, data []byte) {
 // WriteU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(off, data)
 
 }
@@ -1163,6 +1174,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 // WriteU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(off, data)
 
 }
@@ -1170,6 +1184,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 // WriteU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(off, data)
 
 }
@@ -1177,6 +1194,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 // WriteU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(off, data)
 
 }
@@ -1184,6 +1204,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 // WriteU64LE writes a slice of uint64s to the buffer at the specfied offset in little-endian without modifying the internal offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(off, data)
 
 }
@@ -1191,6 +1214,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 // WriteU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian without modifying the internal offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(off, data)
 
 }
@@ -1198,6 +1224,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 // WriteByteNext writes a byte to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteByteNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, []byte{data})
 	b.seek(1, true)
 
@@ -1206,6 +1235,9 @@ func (b *Buffer) WriteByteNext(data byte) {
 // WriteBytesNext writes bytes to the buffer at the current offset and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteBytesNext(data []byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.write(b.off, data)
 	b.seek(int64(len(data)), true)
 
@@ -1214,6 +1246,9 @@ func (b *Buffer) WriteBytesNext(data []byte) {
 // WriteU16LENext writes a slice of uint16s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16LENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16LE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1222,6 +1257,9 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // WriteU16BENext writes a slice of uint16s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU16BENext(data []uint16) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU16BE(b.off, data)
 	b.seek(int64(len(data))*2, true)
 
@@ -1230,6 +1268,9 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // WriteU32LENext writes a slice of uint32s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32LENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32LE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1238,6 +1279,9 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // WriteU32BENext writes a slice of uint32s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU32BENext(data []uint32) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU32BE(b.off, data)
 	b.seek(int64(len(data))*4, true)
 
@@ -1246,6 +1290,9 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // WriteU64LENext writes a slice of uint64s to the buffer at the current offset in little-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64LENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64LE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1254,6 +1301,9 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // WriteU64BENext writes a slice of uint64s to the buffer at the current offset in big-endian and moves the offset forward the amount of bytes written
 func (b *Buffer) WriteU64BENext(data []uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.writeU64BE(b.off, data)
 	b.seek(int64(len(data))*8, true)
 
@@ -1262,6 +1312,9 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // ReadBit returns the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBit(off int64) byte {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbit(off)
 
 }
@@ -1269,6 +1322,9 @@ func (b *Buffer) ReadBit(off int64) byte {
 // ReadBits returns the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) uint64 {
 
+	b.Lock()
+	defer b.Unlock()
+
 	return b.readbits(off, n)
 
 }
@@ -1276,6 +1332,9 @@ func (b *Buffer) ReadBits(off, n int64) uint64 {
 // ReadBitNext returns the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) ReadBitNext() (out byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbit(b.boff)
 	b.seekbit(1, true)
 	return
@@ -1285,6 +1344,9 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // ReadBitsNext returns the next n bits from the current offset and moves the offset forward the amount of bits read
 func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	out = b.readbits(b.boff, n)
 	b.seekbit(n, true)
 	return
@@ -1294,6 +1356,9 @@ func (b *Buffer) ReadBitsNext(n int64) (out uint64) {
 // SetBit sets the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) SetBit(off int64, data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(off, data)
 
 }
@@ -1301,6 +1366,9 @@ func (b *Buffer) SetBit(off int64, data byte) {
 // SetBits sets the next n bits from the specified offset without modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(off, data, n)
 
 }
@@ -1308,6 +1376,9 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 // SetBitNext sets the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) SetBitNext(data byte) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbit(b.boff, data)
 	b.seekbit(1, true)
 
@@ -1316,6 +1387,9 @@ func (b *Buffer) SetBitNext(data byte) {
 // SetBitsNext sets the next n bits from the current offset and moves the offset forward the amount of bits set
 func (b *Buffer) SetBitsNext(data uint64, n int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setbits(b.boff, data, n)
 	b.seekbit(n, true)
 
@@ -1324,6 +1398,9 @@ func (b *Buffer) SetBitsNext(data uint64, n int64) {
 // FlipBit flips the bit located at the specified offset without modifying the internal offset value
 func (b *Buffer) FlipBit(off int64) {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(off)
 
 }
@@ -1331,6 +1408,9 @@ func (b *Buffer) FlipBit(off int64) {
 // FlipBitNext flips the next bit from the current offset and moves the offset forward a bit
 func (b *Buffer) FlipBitNext() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipbit(b.boff)
 	b.seekbit(1, true)
 
@@ -1339,6 +1419,9 @@ func (b *Buffer) FlipBitNext() {
 // ClearAllBits sets all of the buffer's bits to 0
 func (b *Buffer) ClearAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.clearallbits()
 
 }
@@ -1346,6 +1429,9 @@ func (b *Buffer) ClearAllBits() {
 // SetAllBits sets all of the buffer's bits to 1
 func (b *Buffer) SetAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.setallbits()
 
 }
@@ -1353,6 +1439,9 @@ func (b *Buffer) SetAllBits() {
 // FlipAllBits flips all of the buffer's bits
 func (b *Buffer) FlipAllBits() {
 
+	b.Lock()
+	defer b.Unlock()
+
 	b.flipallbits()
 
 }
-- 
2.43.0


From 891e9f75702bab1d038f4810815ef7e1a3aff019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 02/10] fix: bounds-check the whole range in v1
 Buffer.ReadComplex

ReadComplex checked n bytes where n*size bytes are read: a 16/32/64-bit
read past the end either returned bytes from behind the buffer's
contents (spare capacity) or died with a runtime error instead of
BufferOverreadError.
---
 v1/buffer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index 8c2299b..3653f67 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -337,7 +337,17 @@ func (b *Buffer) read(off, n int64) []byte {
 // readComplex reads a slice of bytes from the buffer at the specified offset with the specified endianness and integer type
 func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteOrder) interface{} {
 
-	data := b.read(off, n)
+	switch size {
+
+	case Unsigned8, Unsigned16, Unsigned32, Unsigned64:
+		break
+
+	default:
+		panic(BufferInvalidIntegerSizeError)
+
+	}
+
+	data := b.read(off, n*int64(size))
 
 	switch size {
 
-- 
2.43.0


From 7151999eac295398b412c1390a9ef33abf7bc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 03/10] fix: accept zero-length operations

The goto loops run their body at least once: writing an empty list,
reading zero values, or a whole-buffer bit operation on an empty buffer
died with an index error, reading zero bits read one, and writing zero
bits cleared one. Do nothing when there is nothing to do. (v3 generated
files regenerated.)
---
 generation/complex.go   |   4 ++
 v1/buffer.go            |   5 ++
 v1/minibuf.go           |   5 ++
 v2/buffer.go            |  98 ++++++++++++++++++++++++++++++++
 v2/minibuf.go           |  98 ++++++++++++++++++++++++++++++++
 v3/_buffer.go           |  27 +++++++++
 v3/_minibuf.go          |  27 +++++++++
 v3/buffer.generated.go  | 123 ++++++++++++++++++++++++++++++++++++++++
 v3/minibuf.generated.go | 123 ++++++++++++++++++++++++++++++++++++++++
 9 files changed, 510 insertions(+)

diff --git a/generation/complex.go b/generation/complex.go
index c493a25..d5dda83 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -210,6 +210,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					}
 					body.Id("i").Op(":=").Id("int64").
 						Call(jen.Lit(0))
+					body.If(jen.Id("n").Op("==").Lit(0)).
+						Block(jen.Return())
 
 					if arguments[2] == "F" {
 						body.Var().Id("u").Id(strings.Join([]string{"uint", arguments[3]}, ""))
@@ -309,6 +311,8 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 					// write generation code
 					body.Id("i").Op(":=").Lit(0)
 					body.Id("n").Op(":=").Len(jen.Id("data"))
+					body.If(jen.Id("n").Op("==").Lit(0)).
+						Block(jen.Return())
 					body.BlockFunc(func(loop *jen.Group) {
 						loop.Id("write_loop:")
 						if arguments[4] == "BE" {
diff --git a/v1/buffer.go b/v1/buffer.go
index 3653f67..5b0c682 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -232,6 +232,11 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	i := int64(0)
 	n := int64(len(data))
+	if n == 0 {
+
+		return
+
+	}
 
 	{
 	write_loop:
diff --git a/v1/minibuf.go b/v1/minibuf.go
index 959d9f7..0666d19 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -187,6 +187,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 
 	i := int64(0)
 	n := int64(len(data))
+	if n == 0 {
+
+		return
+
+	}
 
 	{
 	write_loop:
diff --git a/v2/buffer.go b/v2/buffer.go
index dc293dc..a00c0aa 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -81,6 +81,12 @@ func (b *Buffer) readbit(off int64) byte {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *Buffer) readbits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -131,6 +137,12 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -172,6 +184,11 @@ func (b *Buffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -192,6 +209,11 @@ func (b *Buffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -212,6 +234,11 @@ func (b *Buffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -274,6 +301,11 @@ func (b *Buffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -306,6 +338,11 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -340,6 +377,11 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -374,6 +416,11 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -410,6 +457,11 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -446,6 +498,11 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -486,6 +543,11 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -543,6 +605,12 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -578,6 +646,12 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
 	out = make([]uint16, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -613,6 +687,12 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -650,6 +730,12 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
 	out = make([]uint32, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -687,6 +773,12 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -728,6 +820,12 @@ func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
 	out = make([]uint64, n)
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
diff --git a/v2/minibuf.go b/v2/minibuf.go
index f1fc45d..3196937 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,12 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -110,6 +116,12 @@ func (b *MiniBuffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *MiniBuffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -139,6 +151,11 @@ func (b *MiniBuffer) clearallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -159,6 +176,11 @@ func (b *MiniBuffer) setallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -179,6 +201,11 @@ func (b *MiniBuffer) flipallbits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -230,6 +257,11 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 		i = int64(0)
 		n = int64(len(data))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+i] = data[i]
@@ -250,6 +282,11 @@ func (b *MiniBuffer) writeU16LE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -272,6 +309,11 @@ func (b *MiniBuffer) writeU16BE(off int64, data []uint16) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -294,6 +336,11 @@ func (b *MiniBuffer) writeU32LE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -318,6 +365,11 @@ func (b *MiniBuffer) writeU32BE(off int64, data []uint32) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -342,6 +394,11 @@ func (b *MiniBuffer) writeU64LE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -370,6 +427,11 @@ func (b *MiniBuffer) writeU64BE(off int64, data []uint64) {
 		i = 0
 		n = len(data)
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -401,6 +463,12 @@ func (b *MiniBuffer) read(out *[]byte, off, n int64) {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -420,6 +488,12 @@ func (b *MiniBuffer) readU16LE(out *[]uint16, off, n int64) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -439,6 +513,12 @@ func (b *MiniBuffer) readU16BE(out *[]uint16, off, n int64) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -460,6 +540,12 @@ func (b *MiniBuffer) readU32LE(out *[]uint32, off, n int64) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -481,6 +567,12 @@ func (b *MiniBuffer) readU32BE(out *[]uint32, off, n int64) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
@@ -506,6 +598,12 @@ func (b *MiniBuffer) readU64LE(out *[]uint64, off, n int64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *MiniBuffer) readU64BE(out *[]uint64, off, n int64) {
 
+	if n == 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 	{
 	read_loop:
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 4878780..630674d 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +197,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -259,6 +271,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +296,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +321,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index a5b4cc2..15671b5 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,12 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +159,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -209,6 +221,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +246,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +271,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 9a08306..f518c12 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -102,6 +102,12 @@ func (b *Buffer) ReadBitNext() (out byte) {
 // modifying the internal offset value
 func (b *Buffer) ReadBits(off, n int64) (out uint64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -191,6 +197,12 @@ func (b *Buffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -259,6 +271,11 @@ func (b *Buffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -279,6 +296,11 @@ func (b *Buffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -299,6 +321,11 @@ func (b *Buffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -409,6 +436,9 @@ func (b *Buffer) WriteU16LE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -440,6 +470,9 @@ func (b *Buffer) WriteU16BE(off int64, data []uint16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -471,6 +504,9 @@ func (b *Buffer) WriteU32LE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -504,6 +540,9 @@ func (b *Buffer) WriteU32BE(off int64, data []uint32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -537,6 +576,9 @@ func (b *Buffer) WriteU64LE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -574,6 +616,9 @@ func (b *Buffer) WriteU64BE(off int64, data []uint64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -611,6 +656,9 @@ func (b *Buffer) WriteI16LE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -642,6 +690,9 @@ func (b *Buffer) WriteI16BE(off int64, data []int16) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -673,6 +724,9 @@ func (b *Buffer) WriteI32LE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -706,6 +760,9 @@ func (b *Buffer) WriteI32BE(off int64, data []int32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -739,6 +796,9 @@ func (b *Buffer) WriteI64LE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -776,6 +836,9 @@ func (b *Buffer) WriteI64BE(off int64, data []int64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -813,6 +876,9 @@ func (b *Buffer) WriteF32LE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -846,6 +912,9 @@ func (b *Buffer) WriteF32BE(off int64, data []float32) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -879,6 +948,9 @@ func (b *Buffer) WriteF64LE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -916,6 +988,9 @@ func (b *Buffer) WriteF64BE(off int64, data []float64) {
 	}
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -1001,6 +1076,9 @@ func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -1033,6 +1111,9 @@ func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
 	}
 	out = make([]uint16, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -1065,6 +1146,9 @@ func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -1097,6 +1181,9 @@ func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
 	}
 	out = make([]uint32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -1129,6 +1216,9 @@ func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -1161,6 +1251,9 @@ func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
 	}
 	out = make([]uint64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -1193,6 +1286,9 @@ func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -1225,6 +1321,9 @@ func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
 	}
 	out = make([]int16, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -1257,6 +1356,9 @@ func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -1289,6 +1391,9 @@ func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
 	}
 	out = make([]int32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1321,6 +1426,9 @@ func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1353,6 +1461,9 @@ func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
 	}
 	out = make([]int64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		out[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1385,6 +1496,9 @@ func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
 	}
 	out = make([]float32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint32
 	{
 	read_loop:
@@ -1419,6 +1533,9 @@ func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
 	}
 	out = make([]float32, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint32
 	{
 	read_loop:
@@ -1453,6 +1570,9 @@ func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
 	}
 	out = make([]float64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint64
 	{
 	read_loop:
@@ -1487,6 +1607,9 @@ func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
 	}
 	out = make([]float64, n)
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint64
 	{
 	read_loop:
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 1f87c45..232e407 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,12 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	var (
 		bout byte
 
@@ -153,6 +159,12 @@ func (b *MiniBuffer) ClearBitNext() {
 // modifying the internal offset value
 func (b *MiniBuffer) SetBits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
 	i := int64(0)
 
 	{
@@ -209,6 +221,11 @@ func (b *MiniBuffer) ClearAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	clear_loop:
 		b.buf[i] = 0
@@ -229,6 +246,11 @@ func (b *MiniBuffer) SetAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	set_loop:
 		b.buf[i] = 0xFF
@@ -249,6 +271,11 @@ func (b *MiniBuffer) FlipAllBits() {
 		i = int64(0)
 		n = int64(len(b.buf))
 	)
+	if n == 0 {
+
+		return
+
+	}
 	{
 	flip_loop:
 		b.buf[i] = ^b.buf[i]
@@ -325,6 +352,9 @@ func (b *MiniBuffer) WriteBytesNext(data []byte) {
 func (b *MiniBuffer) WriteU16LE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -350,6 +380,9 @@ func (b *MiniBuffer) WriteU16LENext(data []uint16) {
 func (b *MiniBuffer) WriteU16BE(off int64, data []uint16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -375,6 +408,9 @@ func (b *MiniBuffer) WriteU16BENext(data []uint16) {
 func (b *MiniBuffer) WriteU32LE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -402,6 +438,9 @@ func (b *MiniBuffer) WriteU32LENext(data []uint32) {
 func (b *MiniBuffer) WriteU32BE(off int64, data []uint32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -429,6 +468,9 @@ func (b *MiniBuffer) WriteU32BENext(data []uint32) {
 func (b *MiniBuffer) WriteU64LE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -460,6 +502,9 @@ func (b *MiniBuffer) WriteU64LENext(data []uint64) {
 func (b *MiniBuffer) WriteU64BE(off int64, data []uint64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -491,6 +536,9 @@ func (b *MiniBuffer) WriteU64BENext(data []uint64) {
 func (b *MiniBuffer) WriteI16LE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i])
@@ -516,6 +564,9 @@ func (b *MiniBuffer) WriteI16LENext(data []int16) {
 func (b *MiniBuffer) WriteI16BE(off int64, data []int16) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*2)] = byte(data[i] >> 8)
@@ -541,6 +592,9 @@ func (b *MiniBuffer) WriteI16BENext(data []int16) {
 func (b *MiniBuffer) WriteI32LE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i])
@@ -568,6 +622,9 @@ func (b *MiniBuffer) WriteI32LENext(data []int32) {
 func (b *MiniBuffer) WriteI32BE(off int64, data []int32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(data[i] >> 24)
@@ -595,6 +652,9 @@ func (b *MiniBuffer) WriteI32BENext(data []int32) {
 func (b *MiniBuffer) WriteI64LE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i])
@@ -626,6 +686,9 @@ func (b *MiniBuffer) WriteI64LENext(data []int64) {
 func (b *MiniBuffer) WriteI64BE(off int64, data []int64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(data[i] >> 56)
@@ -657,6 +720,9 @@ func (b *MiniBuffer) WriteI64BENext(data []int64) {
 func (b *MiniBuffer) WriteF32LE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])))
@@ -684,6 +750,9 @@ func (b *MiniBuffer) WriteF32LENext(data []float32) {
 func (b *MiniBuffer) WriteF32BE(off int64, data []float32) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*4)] = byte(*(*uint32)(unsafe.Pointer(&data[i])) >> 24)
@@ -711,6 +780,9 @@ func (b *MiniBuffer) WriteF32BENext(data []float32) {
 func (b *MiniBuffer) WriteF64LE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])))
@@ -742,6 +814,9 @@ func (b *MiniBuffer) WriteF64LENext(data []float64) {
 func (b *MiniBuffer) WriteF64BE(off int64, data []float64) {
 	i := 0
 	n := len(data)
+	if n == 0 {
+		return
+	}
 	{
 	write_loop:
 		b.buf[off+int64(i*8)] = byte(*(*uint64)(unsafe.Pointer(&data[i])) >> 56)
@@ -789,6 +864,9 @@ func (b *MiniBuffer) ReadBytesNext(out *[]byte, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16LE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(i*2)]) | uint16(b.buf[off+(1+(i*2))])<<8
@@ -812,6 +890,9 @@ func (b *MiniBuffer) ReadU16LENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU16BE(out *[]uint16, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint16(b.buf[off+(1+(i*2))]) | uint16(b.buf[off+(i*2)])<<8
@@ -835,6 +916,9 @@ func (b *MiniBuffer) ReadU16BENext(out *[]uint16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32LE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(i*4)]) | uint32(b.buf[off+(1+(i*4))])<<8 | uint32(b.buf[off+(2+(i*4))])<<16 | uint32(b.buf[off+(3+(i*4))])<<24
@@ -858,6 +942,9 @@ func (b *MiniBuffer) ReadU32LENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU32BE(out *[]uint32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint32(b.buf[off+(3+(i*4))]) | uint32(b.buf[off+(2+(i*4))])<<8 | uint32(b.buf[off+(1+(i*4))])<<16 | uint32(b.buf[off+(i*4)])<<24
@@ -881,6 +968,9 @@ func (b *MiniBuffer) ReadU32BENext(out *[]uint32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64LE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(i*8)]) | uint64(b.buf[off+(1+(i*8))])<<8 | uint64(b.buf[off+(2+(i*8))])<<16 | uint64(b.buf[off+(3+(i*8))])<<24 | uint64(b.buf[off+(4+(i*8))])<<32 | uint64(b.buf[off+(5+(i*8))])<<40 | uint64(b.buf[off+(6+(i*8))])<<48 | uint64(b.buf[off+(7+(i*8))])<<56
@@ -904,6 +994,9 @@ func (b *MiniBuffer) ReadU64LENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadU64BE(out *[]uint64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = uint64(b.buf[off+(7+(i*8))]) | uint64(b.buf[off+(6+(i*8))])<<8 | uint64(b.buf[off+(5+(i*8))])<<16 | uint64(b.buf[off+(4+(i*8))])<<24 | uint64(b.buf[off+(3+(i*8))])<<32 | uint64(b.buf[off+(2+(i*8))])<<40 | uint64(b.buf[off+(1+(i*8))])<<48 | uint64(b.buf[off+(i*8)])<<56
@@ -927,6 +1020,9 @@ func (b *MiniBuffer) ReadU64BENext(out *[]uint64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16LE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(i*2)]) | int16(b.buf[off+(1+(i*2))])<<8
@@ -950,6 +1046,9 @@ func (b *MiniBuffer) ReadI16LENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI16BE(out *[]int16, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int16(b.buf[off+(1+(i*2))]) | int16(b.buf[off+(i*2)])<<8
@@ -973,6 +1072,9 @@ func (b *MiniBuffer) ReadI16BENext(out *[]int16, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32LE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(i*4)]) | int32(b.buf[off+(1+(i*4))])<<8 | int32(b.buf[off+(2+(i*4))])<<16 | int32(b.buf[off+(3+(i*4))])<<24
@@ -996,6 +1098,9 @@ func (b *MiniBuffer) ReadI32LENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI32BE(out *[]int32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int32(b.buf[off+(3+(i*4))]) | int32(b.buf[off+(2+(i*4))])<<8 | int32(b.buf[off+(1+(i*4))])<<16 | int32(b.buf[off+(i*4)])<<24
@@ -1019,6 +1124,9 @@ func (b *MiniBuffer) ReadI32BENext(out *[]int32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64LE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(i*8)]) | int64(b.buf[off+(1+(i*8))])<<8 | int64(b.buf[off+(2+(i*8))])<<16 | int64(b.buf[off+(3+(i*8))])<<24 | int64(b.buf[off+(4+(i*8))])<<32 | int64(b.buf[off+(5+(i*8))])<<40 | int64(b.buf[off+(6+(i*8))])<<48 | int64(b.buf[off+(7+(i*8))])<<56
@@ -1042,6 +1150,9 @@ func (b *MiniBuffer) ReadI64LENext(out *[]int64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadI64BE(out *[]int64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	{
 	read_loop:
 		(*out)[i] = int64(b.buf[off+(7+(i*8))]) | int64(b.buf[off+(6+(i*8))])<<8 | int64(b.buf[off+(5+(i*8))])<<16 | int64(b.buf[off+(4+(i*8))])<<24 | int64(b.buf[off+(3+(i*8))])<<32 | int64(b.buf[off+(2+(i*8))])<<40 | int64(b.buf[off+(1+(i*8))])<<48 | int64(b.buf[off+(i*8)])<<56
@@ -1065,6 +1176,9 @@ func (b *MiniBuffer) ReadI64BENext(out *[]int64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadF32LE(out *[]float32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint32
 	{
 	read_loop:
@@ -1090,6 +1204,9 @@ func (b *MiniBuffer) ReadF32LENext(out *[]float32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadF32BE(out *[]float32, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint32
 	{
 	read_loop:
@@ -1115,6 +1232,9 @@ func (b *MiniBuffer) ReadF32BENext(out *[]float32, n int64) {
 // offset value
 func (b *MiniBuffer) ReadF64LE(out *[]float64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint64
 	{
 	read_loop:
@@ -1140,6 +1260,9 @@ func (b *MiniBuffer) ReadF64LENext(out *[]float64, n int64) {
 // offset value
 func (b *MiniBuffer) ReadF64BE(out *[]float64, off, n int64) {
 	i := int64(0)
+	if n == 0 {
+		return
+	}
 	var u uint64
 	{
 	read_loop:
-- 
2.43.0


From f66fc4bbfd0e5b227e724d5f8624db88056db9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 04/10] fix: MiniBuffer.ReadBits must not mix in the old value
 of its result

ReadBits stores the bits it reads in *out, but it shifted them into
whatever *out held before, so a reused result variable gave a wrong
number.
---
 v1/minibuf.go           | 2 ++
 v2/minibuf.go           | 2 ++
 v3/_minibuf.go          | 2 ++
 v3/minibuf.generated.go | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/v1/minibuf.go b/v1/minibuf.go
index 0666d19..ed6c0c2 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -73,6 +73,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	var bout byte
 	for i := int64(0); i < n; i++ {
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 3196937..554d246 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -70,6 +70,8 @@ func (b *MiniBuffer) readbit(out *byte, off int64) {
 // readbits reads n bits from the bitfield at the specified offset
 func (b *MiniBuffer) readbits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 15671b5..6ada964 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 232e407..2403019 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -87,6 +87,8 @@ func (b *MiniBuffer) ReadBitNext(out *byte) {
 // modifying the internal offset value in out
 func (b *MiniBuffer) ReadBits(out *uint64, off, n int64) {
 
+	*out = 0
+
 	if n <= 0 {
 
 		return
-- 
2.43.0


From f36ae19e9f03d8df1ea58e3b871841be47794206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 05/10] fix: v3 Grow must append zero bytes when it grows in
 place

Growing into retained storage (after Reset or TruncateRight) exposed
the old bytes, so a grown buffer had zero bytes or leftovers depending
on its history. v1 and v2 always append zero bytes, and so does v3
when it reallocates.
---
 v3/_buffer.go           | 5 +++++
 v3/_minibuf.go          | 5 +++++
 v3/buffer.generated.go  | 5 +++++
 v3/minibuf.generated.go | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/v3/_buffer.go b/v3/_buffer.go
index 630674d..ac20f25 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -614,6 +614,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/_minibuf.go b/v3/_minibuf.go
index 6ada964..07070fb 100644
--- a/v3/_minibuf.go
+++ b/v3/_minibuf.go
@@ -490,6 +490,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index f518c12..ff28efa 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -1710,6 +1710,11 @@ func (b *Buffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
diff --git a/v3/minibuf.generated.go b/v3/minibuf.generated.go
index 2403019..a3aeff1 100644
--- a/v3/minibuf.generated.go
+++ b/v3/minibuf.generated.go
@@ -1346,6 +1346,11 @@ func (b *MiniBuffer) Grow(n int64) {
 	if n <= int64(cap(b.buf))-b.cap {
 
 		b.buf = b.buf[0 : b.cap+n]
+		for i := b.cap; i < b.cap+n; i++ {
+
+			b.buf[i] = 0
+
+		}
 		b.Refresh()
 		return
 
-- 
2.43.0


From efa44c072f9957b0deb6a36c09559f8e36fe822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:32 +0000
Subject: [PATCH 06/10] fix: Buffer.SetBits must not write part of a rejected
 field

SetBits checked each bit just before writing it, so a field that runs
past the end of the buffer panicked with BufferOverwriteError after
having overwritten the bits up to the end. Check the whole range first,
as the byte and integer writes do.
---
 v1/buffer.go           | 18 ++++++++++++++++++
 v2/buffer.go           | 12 ++++++++++++
 v3/_buffer.go          | 12 ++++++++++++
 v3/buffer.generated.go | 12 ++++++++++++
 4 files changed, 54 insertions(+)

diff --git a/v1/buffer.go b/v1/buffer.go
index 5b0c682..1535084 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -126,6 +126,24 @@ func (b *Buffer) setbit(off int64, data byte) {
 // setbits sets n bits in the bitfield to the specified value at the specified offset
 func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
+	if n <= 0 {
+
+		return
+
+	}
+
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	for i := int64(0); i < n; i++ {
 
 		b.setbit(off+i, byte((data>>uint64(n-i-1))&1))
diff --git a/v2/buffer.go b/v2/buffer.go
index a00c0aa..4d97327 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -143,6 +143,18 @@ func (b *Buffer) setbits(off int64, data uint64, n int64) {
 
 	}
 
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/_buffer.go b/v3/_buffer.go
index ac20f25..700ece5 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -203,6 +203,18 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	}
 
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index ff28efa..15ae3b2 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -203,6 +203,18 @@ func (b *Buffer) SetBits(off int64, data uint64, n int64) {
 
 	}
 
+	if off > (b.bcap - n) {
+
+		panic(BufferOverwriteError)
+
+	}
+
+	if off < 0x00 {
+
+		panic(BufferUnderwriteError)
+
+	}
+
 	i := int64(0)
 
 	{
-- 
2.43.0


From 151d7292bb8b7fadb6d67a1a45b2becc2c9bef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:46 +0000
Subject: [PATCH 07/10] fix: bounds checks must not be defeated by integer
 overflow

off+n and off+n*size wrap around for huge offsets and counts, so such
requests passed the check and died with a runtime error instead of the
documented BufferOverreadError/BufferOverwriteError. Compare without
overflowing.
---
 generation/complex.go  |  8 +++--
 v1/buffer.go           | 10 +++++--
 v2/buffer.go           | 28 ++++++++---------
 v3/_buffer.go          |  4 +--
 v3/buffer.generated.go | 68 +++++++++++++++++++++---------------------
 5 files changed, 63 insertions(+), 55 deletions(-)

diff --git a/generation/complex.go b/generation/complex.go
index d5dda83..de11987 100644
--- a/generation/complex.go
+++ b/generation/complex.go
@@ -187,13 +187,15 @@ func GenerateComplex(oldFiles map[string][]byte) (files map[string][]byte, e err
 			function.BlockFunc(func(body *jen.Group) {
 				if arguments[0] == "Buffer" {
 					if arguments[1] == "Read" {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("n").Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Parens(jen.Id("off").Op(">=").Lit(0x00).Op("&&").
+							Id("n").Op(">").Parens(jen.Id("b").Dot("cap").Op("/").Lit(intBytes))).Op("||").
+							Id("off").Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("n").Op("*").Lit(intBytes))).
 							Block(jen.Panic(jen.Id("BufferOverreadError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderreadError")))
 					} else {
-						body.If(jen.Parens(jen.Id("off").Op("+").Id("int64").
-							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes)).Op(">").Id("b").Dot("cap")).
+						body.If(jen.Id("off").Op(">").Parens(jen.Id("b").Dot("cap").Op("-").Id("int64").
+							Call(jen.Len(jen.Id("data"))).Op("*").Lit(intBytes))).
 							Block(jen.Panic(jen.Id("BufferOverwriteError")))
 						body.If(jen.Id("off").Op("<").Lit(0x00)).
 							Block(jen.Panic(jen.Id("BufferUnderwriteError")))
diff --git a/v1/buffer.go b/v1/buffer.go
index 1535084..d1a899f 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -236,7 +236,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -341,7 +341,7 @@ func (b *Buffer) writeComplex(off int64, idata interface{}, size IntegerSize, en
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
@@ -370,6 +370,12 @@ func (b *Buffer) readComplex(off, n int64, size IntegerSize, endian binary.ByteO
 
 	}
 
+	if off >= 0 && n > (b.cap/int64(size)) {
+
+		panic(BufferOverreadError)
+
+	}
+
 	data := b.read(off, n*int64(size))
 
 	switch size {
diff --git a/v2/buffer.go b/v2/buffer.go
index 4d97327..e993119 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -297,7 +297,7 @@ func (b *Buffer) afterbit(off ...int64) int64 {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *Buffer) write(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -334,7 +334,7 @@ func (b *Buffer) write(off int64, data []byte) {
 // writeU16LE writes a slice of uint16s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU16LE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 
 		panic(BufferOverwriteError)
 
@@ -373,7 +373,7 @@ func (b *Buffer) writeU16LE(off int64, data []uint16) {
 // writeU16BE writes a slice of uint16s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU16BE(off int64, data []uint16) {
 
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 
 		panic(BufferOverwriteError)
 
@@ -412,7 +412,7 @@ func (b *Buffer) writeU16BE(off int64, data []uint16) {
 // writeU32LE writes a slice of uint32s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU32LE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 
 		panic(BufferOverwriteError)
 
@@ -453,7 +453,7 @@ func (b *Buffer) writeU32LE(off int64, data []uint32) {
 // writeU32BE writes a slice of uint32s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU32BE(off int64, data []uint32) {
 
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 
 		panic(BufferOverwriteError)
 
@@ -494,7 +494,7 @@ func (b *Buffer) writeU32BE(off int64, data []uint32) {
 // writeU64LE writes a slice of uint64s to the buffer at the specified offset in little-endian
 func (b *Buffer) writeU64LE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 
 		panic(BufferOverwriteError)
 
@@ -539,7 +539,7 @@ func (b *Buffer) writeU64LE(off int64, data []uint64) {
 // writeU64BE writes a slice of uint64s to the buffer at the specified offset in big-endian
 func (b *Buffer) writeU64BE(off int64, data []uint64) {
 
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 
 		panic(BufferOverwriteError)
 
@@ -584,7 +584,7 @@ func (b *Buffer) writeU64BE(off int64, data []uint64) {
 // read reads n bytes from the buffer at the specified offset
 func (b *Buffer) read(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
@@ -603,7 +603,7 @@ func (b *Buffer) read(off, n int64) []byte {
 // readU16LE reads a slice of uint16s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 
 		panic(BufferOverreadError)
 
@@ -644,7 +644,7 @@ func (b *Buffer) readU16LE(off, n int64) (out []uint16) {
 // readU16BE reads a slice of uint16s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 
 		panic(BufferOverreadError)
 
@@ -685,7 +685,7 @@ func (b *Buffer) readU16BE(off, n int64) (out []uint16) {
 // readU32LE reads a slice of uint32s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 
 		panic(BufferOverreadError)
 
@@ -728,7 +728,7 @@ func (b *Buffer) readU32LE(off, n int64) (out []uint32) {
 // readU32BE reads a slice of uint32s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 
 		panic(BufferOverreadError)
 
@@ -771,7 +771,7 @@ func (b *Buffer) readU32BE(off, n int64) (out []uint32) {
 // readU64LE reads a slice of uint64s from the buffer at the specified offset in little-endian
 func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 
 		panic(BufferOverreadError)
 
@@ -818,7 +818,7 @@ func (b *Buffer) readU64LE(off, n int64) (out []uint64) {
 // readU64BE reads a slice of uint64s from the buffer at the specified offset in big-endian
 func (b *Buffer) readU64BE(off, n int64) (out []uint64) {
 
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/_buffer.go b/v3/_buffer.go
index 700ece5..1e8969f 100644
--- a/v3/_buffer.go
+++ b/v3/_buffer.go
@@ -394,7 +394,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -472,7 +472,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
diff --git a/v3/buffer.generated.go b/v3/buffer.generated.go
index 15ae3b2..c5cd3f3 100644
--- a/v3/buffer.generated.go
+++ b/v3/buffer.generated.go
@@ -394,7 +394,7 @@ func (b *Buffer) AlignBit() {
 // without modifying the internal offset value
 func (b *Buffer) WriteBytes(off int64, data []byte) {
 
-	if (off + int64(len(data))) > b.cap {
+	if off > (b.cap - int64(len(data))) {
 
 		panic(BufferOverwriteError)
 
@@ -440,7 +440,7 @@ func (b *Buffer) WriteByteNext(data byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16LE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -474,7 +474,7 @@ func (b *Buffer) WriteU16LENext(data []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU16BE(off int64, data []uint16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -508,7 +508,7 @@ func (b *Buffer) WriteU16BENext(data []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32LE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -544,7 +544,7 @@ func (b *Buffer) WriteU32LENext(data []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU32BE(off int64, data []uint32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -580,7 +580,7 @@ func (b *Buffer) WriteU32BENext(data []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64LE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -620,7 +620,7 @@ func (b *Buffer) WriteU64LENext(data []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteU64BE(off int64, data []uint64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -660,7 +660,7 @@ func (b *Buffer) WriteU64BENext(data []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16LE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -694,7 +694,7 @@ func (b *Buffer) WriteI16LENext(data []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI16BE(off int64, data []int16) {
-	if (off + int64(len(data))*2) > b.cap {
+	if off > (b.cap - int64(len(data))*2) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -728,7 +728,7 @@ func (b *Buffer) WriteI16BENext(data []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32LE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -764,7 +764,7 @@ func (b *Buffer) WriteI32LENext(data []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI32BE(off int64, data []int32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -800,7 +800,7 @@ func (b *Buffer) WriteI32BENext(data []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64LE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -840,7 +840,7 @@ func (b *Buffer) WriteI64LENext(data []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteI64BE(off int64, data []int64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -880,7 +880,7 @@ func (b *Buffer) WriteI64BENext(data []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32LE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -916,7 +916,7 @@ func (b *Buffer) WriteF32LENext(data []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF32BE(off int64, data []float32) {
-	if (off + int64(len(data))*4) > b.cap {
+	if off > (b.cap - int64(len(data))*4) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -952,7 +952,7 @@ func (b *Buffer) WriteF32BENext(data []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64LE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -992,7 +992,7 @@ func (b *Buffer) WriteF64LENext(data []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) WriteF64BE(off int64, data []float64) {
-	if (off + int64(len(data))*8) > b.cap {
+	if off > (b.cap - int64(len(data))*8) {
 		panic(BufferOverwriteError)
 	}
 	if off < 0 {
@@ -1032,7 +1032,7 @@ func (b *Buffer) WriteF64BENext(data []float64) {
 // without modifying the internal offset value
 func (b *Buffer) ReadBytes(off, n int64) []byte {
 
-	if (off + n) > b.cap {
+	if off > (b.cap - n) {
 
 		panic(BufferOverreadError)
 
@@ -1080,7 +1080,7 @@ func (b *Buffer) ReadByteNext() (out byte) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16LE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1115,7 +1115,7 @@ func (b *Buffer) ReadU16LENext(n int64) (out []uint16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU16BE(off, n int64) (out []uint16) {
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1150,7 +1150,7 @@ func (b *Buffer) ReadU16BENext(n int64) (out []uint16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32LE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1185,7 +1185,7 @@ func (b *Buffer) ReadU32LENext(n int64) (out []uint32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU32BE(off, n int64) (out []uint32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1220,7 +1220,7 @@ func (b *Buffer) ReadU32BENext(n int64) (out []uint32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64LE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1255,7 +1255,7 @@ func (b *Buffer) ReadU64LENext(n int64) (out []uint64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadU64BE(off, n int64) (out []uint64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1290,7 +1290,7 @@ func (b *Buffer) ReadU64BENext(n int64) (out []uint64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16LE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1325,7 +1325,7 @@ func (b *Buffer) ReadI16LENext(n int64) (out []int16) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI16BE(off, n int64) (out []int16) {
-	if (off + n*2) > b.cap {
+	if (off >= 0 && n > (b.cap/2)) || off > (b.cap-n*2) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1360,7 +1360,7 @@ func (b *Buffer) ReadI16BENext(n int64) (out []int16) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32LE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1395,7 +1395,7 @@ func (b *Buffer) ReadI32LENext(n int64) (out []int32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI32BE(off, n int64) (out []int32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1430,7 +1430,7 @@ func (b *Buffer) ReadI32BENext(n int64) (out []int32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64LE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1465,7 +1465,7 @@ func (b *Buffer) ReadI64LENext(n int64) (out []int64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadI64BE(off, n int64) (out []int64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1500,7 +1500,7 @@ func (b *Buffer) ReadI64BENext(n int64) (out []int64) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32LE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1537,7 +1537,7 @@ func (b *Buffer) ReadF32LENext(n int64) (out []float32) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF32BE(off, n int64) (out []float32) {
-	if (off + n*4) > b.cap {
+	if (off >= 0 && n > (b.cap/4)) || off > (b.cap-n*4) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1574,7 +1574,7 @@ func (b *Buffer) ReadF32BENext(n int64) (out []float32) {
 // specified offset in little-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64LE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
@@ -1611,7 +1611,7 @@ func (b *Buffer) ReadF64LENext(n int64) (out []float64) {
 // specified offset in big-endian without modifying the internal
 // offset value
 func (b *Buffer) ReadF64BE(off, n int64) (out []float64) {
-	if (off + n*8) > b.cap {
+	if (off >= 0 && n > (b.cap/8)) || off > (b.cap-n*8) {
 		panic(BufferOverreadError)
 	}
 	if off < 0 {
-- 
2.43.0


From ec6c4d918317d7e30d327a4f1a69e777a4351bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:48 +0000
Subject: [PATCH 08/10] fix: generator must truncate the files it rewrites

A shorter output written over a longer existing file left the tail of
the old contents behind, which corrupts the generated source.
---
 generation/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generation/main.go b/generation/main.go
index d1f4e87..429e31a 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -103,7 +103,7 @@ func main() {
 	}
 
 	for name, contents := range generated {
-		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE, 0644)
+		file, err := os.OpenFile(strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, ""), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 		if err != nil {
 			fmt.Printf("! unable to open source file. (%v)\n", err)
 			continue
-- 
2.43.0


From 7e380c4b2c8c124abdc2f78b965af81507e148ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 09/10] fix: v1/v2 byte writes must store data that overlaps
 the buffer as it was

---
 v1/buffer.go  | 19 +------------------
 v1/minibuf.go | 13 ++-----------
 v2/buffer.go  | 20 +-------------------
 v2/minibuf.go | 16 +++-------------
 4 files changed, 7 insertions(+), 61 deletions(-)

diff --git a/v1/buffer.go b/v1/buffer.go
index d1a899f..0f22908 100644
--- a/v1/buffer.go
+++ b/v1/buffer.go
@@ -248,24 +248,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	i := int64(0)
-	n := int64(len(data))
-	if n == 0 {
-
-		return
-
-	}
-
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v1/minibuf.go b/v1/minibuf.go
index ed6c0c2..9d9f073 100644
--- a/v1/minibuf.go
+++ b/v1/minibuf.go
@@ -187,7 +187,6 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	i := int64(0)
 	n := int64(len(data))
 	if n == 0 {
 
@@ -195,16 +194,8 @@ func (b *MiniBuffer) write(off int64, data []byte) {
 
 	}
 
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	_ = b.buf[off+n-1]
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/buffer.go b/v2/buffer.go
index e993119..5e63f04 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -309,25 +309,7 @@ func (b *Buffer) write(off int64, data []byte) {
 
 	}
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
-	if n == 0 {
-
-		return
-
-	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
-
-		}
-	}
+	copy(b.buf[off:], data)
 
 }
 
diff --git a/v2/minibuf.go b/v2/minibuf.go
index 554d246..f45e608 100644
--- a/v2/minibuf.go
+++ b/v2/minibuf.go
@@ -255,25 +255,15 @@ func (b *MiniBuffer) afterbit(out *int64, off ...int64) {
 // write writes a slice of bytes to the buffer at the specified offset
 func (b *MiniBuffer) write(off int64, data []byte) {
 
-	var (
-		i = int64(0)
-		n = int64(len(data))
-	)
+	n := int64(len(data))
 	if n == 0 {
 
 		return
 
 	}
-	{
-	write_loop:
-		b.buf[off+i] = data[i]
-		i++
-		if i < n {
-
-			goto write_loop
 
-		}
-	}
+	_ = b.buf[off+n-1]
+	copy(b.buf[off:], data)
 
 }
 
-- 
2.43.0


From 82616733ce7a57c9d861ee2521b6aaca9e4896c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 10/10] fix: generator: leave out a template that cannot be
 read

A template whose contents could not be read completely (a link to a
directory, an I/O error) stayed in the list of files with whatever had been
read, and its output was overwritten with the expansion of that.
---
 generation/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generation/main.go b/generation/main.go
index 429e31a..070185f 100644
--- a/generation/main.go
+++ b/generation/main.go
@@ -81,6 +81,7 @@ func main() {
 			files[fileInfo.Name()], err = ioutil.ReadAll(file)
 			if err != nil {
 				fmt.Printf("! unable to read file contents. (%v)\n", err)
+				delete(files, fileInfo.Name())
 				continue
 			}
 
-- 
2.43.0

