------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Bytes, bits and byte order.                                             *)
(*                                                                         *)
(* A byte is an integer 0..255, contents are sequences of bytes.  An        *)
(* integer or float of w bytes is represented canonically by the sequence  *)
(* of its w bytes, most significant first (two's complement, IEEE-754):    *)
(* TLC's own integers have 32 bits only, and what the library guarantees   *)
(* about values is exactly where their bytes go.                           *)
(*                                                                         *)
(* Offsets are 0-based, as in the library; TLA+ sequences are 1-based.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Byte == 0 .. 255

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

Rev(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]

Fill(n, x) == [i \in 1 .. n |-> x]

\* The bytes off .. off+n-1 of d.
Slice(d, off, n) == SubSeq(d, off + 1, off + n)

\* d with the bytes off .. off+Len(x)-1 replaced by x.
Overlay(d, off, x) ==
  SubSeq(d, 1, off) \o x \o SubSeq(d, off + Len(x) + 1, Len(d))

\* The stored bytes of a list of canonical w-byte values in byte order e.
Encode(vals, w, e) ==
  [i \in 1 .. Len(vals) * w |->
     LET q == (i - 1) \div w
         r == (i - 1) % w
     IN  vals[q + 1][IF e = "BE" THEN r + 1 ELSE w - r]]

\* The n canonical values stored in order e from offset off of d.
Decode(d, off, n, w, e) ==
  [q \in 1 .. n |->
     [r \in 1 .. w |->
        d[off + (q - 1) * w + (IF e = "BE" THEN r ELSE w + 1 - r)]]]

(***************************************************************************)
(* Bits: bit i of contents d is the bit of weight 2^(7 - i mod 8) of byte  *)
(* i div 8.                                                                *)
(***************************************************************************)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>      \* Pow2[k+1] = 2^k

BitOf(byte, k) == (byte \div Pow2[8 - k]) % 2     \* k = 0 is the top bit

Bit(d, i) == BitOf(d[(i \div 8) + 1], i % 8)

WithBit(d, i, v) ==
  LET j == (i \div 8) + 1
  IN  [d EXCEPT ![j] = @ + (v - BitOf(d[j], i % 8)) * Pow2[8 - (i % 8)]]

\* All bits of a byte sequence, as a sequence.
Bits(d) == [i \in 1 .. 8 * Len(d) |-> Bit(d, i - 1)]

\* The byte made of eight bits given as a function of 0..7.
ByteOfBits(f(_)) ==
  f(0) * 128 + f(1) * 64 + f(2) * 32 + f(3) * 16 + f(4) * 8 + f(5) * 4 + f(6) * 2 + f(7)

\* The 64-bit number (canonical, 8 bytes) whose low n bits are the bits
\* off .. off+n-1 of d, first one most significant (for n > 64, the last 64).
Field(d, off, n) ==
  [j \in 1 .. 8 |->
     ByteOfBits(LAMBDA k :
        LET p == off + n - 64 + 8 * (j - 1) + k      \* bit index in d
        IN  IF p < off THEN 0 ELSE Bit(d, p))]

\* d with the bits off .. off+n-1 replaced by the n low-order bits of the
\* 64-bit number val (canonical, 8 bytes), most significant first; digits
\* beyond the 64th are zero.
WithField(d, off, n, val) ==
  IF n = 0 THEN d ELSE
  LET first == off \div 8
      last  == (off + n - 1) \div 8
      newbyte(j) ==
        ByteOfBits(LAMBDA k :
          LET i == 8 * j + k
              w == off + n - 1 - i                   \* weight of bit i in val
          IN  IF i < off \/ i > off + n - 1 THEN Bit(d, i)
              ELSE IF w > 63 THEN 0
              ELSE Bit(val, 63 - w))
  IN  Overlay(d, first, [j \in 1 .. last - first + 1 |-> newbyte(first + j - 1)])

Complement(d) == [i \in 1 .. Len(d) |-> 255 - d[i]]

=============================================================================
