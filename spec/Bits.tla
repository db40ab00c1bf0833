-------------------------------- MODULE Bits --------------------------------
(* Reading the codestream: bit fields, the variable-length integer codes and *)
(* half-precision numbers.  b is the sequence of bytes, p a position in bits. *)
(* Bytes past the end read as zero; whoever cares compares p with the length. *)
(* Numbers of up to 32 bits that need not fit TLC's integers are pairs        *)
(* <<high 16 bits, low 16 bits>>.                                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144,
        524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>
Pow2(n) == P2[n + 1]
Byte(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
Small(b, p, n) ==  \* n <= 16
  LET i == p \div 8 IN
  IF n = 0 THEN 0
  ELSE ((Byte(b, i) + 256 * Byte(b, i + 1) + 65536 * Byte(b, i + 2)) \div Pow2(p % 8)) % Pow2(n)
Bits(b, p, n) ==   \* n <= 30
  IF n <= 16 THEN Small(b, p, n) ELSE Small(b, p, 16) + 65536 * Small(b, p + 16, n - 16)
Word(b, p) == <<Small(b, p + 16, 16), Small(b, p, 16)>>
Bit(b, p) == Small(b, p, 1) = 1
Align(p) == ((p + 7) \div 8) * 8
Idx(n) == [k \in 1..n |-> k]
MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, d) == (a + d - 1) \div d
RECURSIVE CeilLog2(_), FloorLog2(_)
FloorLog2(x) == IF x <= 1 THEN 0 ELSE 1 + FloorLog2(x \div 2)
CeilLog2(x) == IF x <= 1 THEN 0 ELSE FloorLog2(x - 1) + 1
Unpack(v) == IF v % 2 = 0 THEN v \div 2 ELSE -(v \div 2) - 1

(* Results are records: v, the value, and p, the position after it. *)
Res(v, p) == [v |-> v, p |-> p]
\* U32: a two-bit selector of one of four <<bits, offset>> distributions.
U32(b, p, arms) ==
  LET a == arms[Small(b, p, 2) + 1] IN Res(a[2] + Bits(b, p + 2, a[1]), p + 2 + a[1])
EnumArms == <<<<0, 0>>, <<0, 1>>, <<4, 2>>, <<6, 18>>>>
Enum(b, p) == U32(b, p, EnumArms)
\* U64, as the set of the numbers of its bits (the format uses it for masks), with its position.
RECURSIVE U64More(_, _, _, _)
BitSet(v, at, n) == {at + k : k \in {j \in 0..(n - 1) : (v \div Pow2(j)) % 2 = 1}}
U64More(b, p, at, acc) ==
  IF ~Bit(b, p) THEN Res(acc, p + 1)
  ELSE IF at = 60 THEN Res(acc \cup BitSet(Small(b, p + 1, 4), 60, 4), p + 5)
  ELSE U64More(b, p + 9, at + 8, acc \cup BitSet(Small(b, p + 1, 8), at, 8))
U64Set(b, p) ==
  LET s == Small(b, p, 2)
      v == IF s = 1 THEN 1 + Small(b, p + 2, 4) ELSE 17 + Small(b, p + 2, 8)
  IN CASE s = 0 -> Res({}, p + 2)
       [] s = 1 -> Res(BitSet(v, 0, 5), p + 6)
       [] s = 2 -> Res(BitSet(v, 0, 9), p + 10)
       [] OTHER -> U64More(b, p + 14, 12, BitSet(Small(b, p + 2, 12), 0, 12))
\* The value, when it fits.
U64(b, p) ==
  LET r == U64Set(b, p)
  IN Res(FoldLeft(LAMBDA a, k : a + (IF k \in r.v THEN Pow2(k) ELSE 0), 0, [k \in 1..30 |-> k - 1]), r.p)
\* Half precision, as the bits of the single-precision number of the same value.
RECURSIVE Norm(_, _)
Norm(m, e) == IF m >= 1024 THEN <<m - 1024, e>> ELSE Norm(2 * m, e - 1)
Half(b, p) ==
  LET h == Small(b, p, 16)
      sg == h \div 32768
      ex == (h \div 1024) % 32
      m == h % 1024
      n == IF ex = 0 THEN Norm(m, 113) ELSE <<m, ex + 112>>
  IN IF ex = 0 /\ m = 0 THEN Res(<<32768 * sg, 0>>, p + 16)
     ELSE Res(<<32768 * sg + 128 * n[2] + n[1] \div 8, (n[1] % 8) * 8192>>, p + 16)
=============================================================================
