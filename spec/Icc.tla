-------------------------------- MODULE Icc ---------------------------------
(* Colour profiles: how the encoded bytes of the ICC stream become the bytes  *)
(* of a profile.  s is the sequence of encoded bytes, positions count from 0. *)
(* The encoding is a size, a list of commands and the data they consume.      *)
EXTENDS Bits

\* A number in groups of seven bits, low ones first; values beyond 2^29 are not told apart.
\* odd: it goes on for more groups than any number needs.
RECURSIVE VarMore(_, _, _, _, _)
VarMore(s, p, end, k, v) ==
  IF p >= end THEN [ok |-> FALSE, odd |-> FALSE, v |-> 0, p |-> p]
  ELSE LET g == s[p + 1] % 128
           w == IF k < 4 THEN v + g * Pow2(7 * k)
                ELSE IF k = 4 /\ g = 1 /\ v < Pow2(28) THEN v + Pow2(28)
                ELSE IF g = 0 THEN v ELSE Pow2(29)
       IN IF s[p + 1] < 128 THEN [ok |-> TRUE, odd |-> FALSE, v |-> w, p |-> p + 1]
          ELSE IF k = 8 THEN [ok |-> FALSE, odd |-> TRUE, v |-> 0, p |-> p + 1]
          ELSE VarMore(s, p + 1, end, k + 1, w)
Var(s, p, end) == VarMore(s, p, end, 0, 0)

Big4(v) == <<v \div 16777216, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
Zeros(n) == [k \in 1..n |-> 0]
Mntr == <<109, 110, 116, 114, 82, 71, 66, 32, 88, 89, 90, 32>>       \* "mntrRGB XYZ "
Acsp == <<97, 99, 115, 112>>
\* What byte i of the header is expected to be, given those before it (h).
Expected(i, size, h) ==
  CASE i < 4 -> Big4(size)[i + 1]
    [] i = 8 -> 4
    [] i \in 12..23 -> Mntr[i - 11]
    [] i \in 36..39 -> Acsp[i - 35]
    [] i \in 41..43 /\ h[41] = 65 -> <<80, 80, 76>>[i - 40]              \* APPL
    [] i \in 41..43 /\ h[41] = 77 -> <<83, 70, 84>>[i - 40]              \* MSFT
    [] i \in 42..43 /\ h[41] = 83 /\ h[42] = 71 -> <<73, 32>>[i - 41]    \* SGI
    [] i \in 42..43 /\ h[41] = 83 /\ h[42] = 85 -> <<78, 87>>[i - 41]    \* SUNW
    [] i = 70 -> 246
    [] i = 71 -> 214
    [] i = 73 -> 1
    [] i = 78 -> 211
    [] i = 79 -> 45
    [] i \in 80..83 -> h[i - 75]
    [] OTHER -> 0
Header(s, p, n, size) ==
  FoldLeft(LAMBDA h, k : Append(h, (s[p + k] + Expected(k - 1, size, h)) % 256), <<>>, Idx(n))

T(a, b, c, d) == <<a, b, c, d>>
rTRC == T(114, 84, 82, 67)
gTRC == T(103, 84, 82, 67)
bTRC == T(98, 84, 82, 67)
kTRC == T(107, 84, 82, 67)
rXYZ == T(114, 88, 89, 90)
gXYZ == T(103, 88, 89, 90)
bXYZ == T(98, 88, 89, 90)
kXYZ == T(107, 88, 89, 90)
cprt == T(99, 112, 114, 116)
wtpt == T(119, 116, 112, 116)
bkpt == T(98, 107, 112, 116)
chad == T(99, 104, 97, 100)
desc == T(100, 101, 115, 99)
chrm == T(99, 104, 114, 109)
dmnd == T(100, 109, 110, 100)
dmdd == T(100, 109, 100, 100)
lumi == T(108, 117, 109, 105)
\* tag codes 2..20
TagNames == <<rTRC, rXYZ, cprt, wtpt, bkpt, rXYZ, gXYZ, bXYZ, kXYZ, rTRC, gTRC, bTRC, kTRC, chad, desc, chrm, dmnd,
              dmdd, lumi>>
Tag20 == {rXYZ, gXYZ, bXYZ, kXYZ, wtpt, bkpt, lumi}
\* commands 16..23
TypeNames == <<T(88, 89, 90, 32), desc, T(116, 101, 120, 116), T(109, 108, 117, 99), T(112, 97, 114, 97),
               T(99, 117, 114, 118), T(115, 102, 51, 50), T(103, 98, 100, 32)>>

\* The bytes fill a matrix of w rows row by row, the last cells of the last column being absent;
\* they are taken out column by column.
Shuffled(x, w) ==
  LET n == Len(x)
      full == n \div w
      extra == n % w
      from(r) == r * full + MinOf(r, extra)
  IN [i \in 1..n |-> x[from((i - 1) % w) + ((i - 1) \div w) + 1]]

\* st: [c: position in the commands, d: position in the data, out, ok, odd]
Fail(st) == [st EXCEPT !.ok = FALSE]
Odd(st, r) == [st EXCEPT !.ok = FALSE, !.odd = r.odd]
Emit(st, c, d, x, size) ==
  IF Len(st.out) + Len(x) > size THEN Fail(st) ELSE [st EXCEPT !.c = c, !.d = d, !.out = @ \o x]

\* --- the list of tags ----------------------------------------------------------
RECURSIVE Tags(_, _, _, _, _, _)
Tags(s, st, cend, size, ps, pz) ==   \* ps, pz: start and size of the tag before
  IF ~st.ok \/ st.c >= cend THEN st
  ELSE
  LET cmd == s[st.c + 1]
      code == cmd % 64
      name == IF code = 1 THEN SubSeq(s, st.d + 1, st.d + 4) ELSE TagNames[code - 1]
      d == IF code = 1 THEN st.d + 4 ELSE st.d
      a == IF (cmd \div 64) % 2 = 1 THEN Var(s, st.c + 1, cend) ELSE [ok |-> TRUE, odd |-> FALSE, v |-> ps + pz, p |-> st.c + 1]
      z == IF cmd \div 128 = 1 THEN Var(s, a.p, cend)
           ELSE [ok |-> TRUE, odd |-> FALSE, v |-> IF name \in Tag20 THEN 20 ELSE pz, p |-> a.p]
      e(n, at) == n \o Big4(at) \o Big4(z.v)
      x == e(name, a.v)
           \o (IF code = 2 THEN e(gTRC, a.v) \o e(bTRC, a.v)
               ELSE IF code = 3 THEN e(gXYZ, a.v + z.v) \o e(bXYZ, a.v + 2 * z.v) ELSE <<>>)
  IN IF code = 0 THEN [st EXCEPT !.c = @ + 1]
     ELSE IF code > 20 \/ (code = 1 /\ st.d + 4 > Len(s)) THEN Fail(st)
     ELSE IF ~a.ok THEN Odd(st, a)
     ELSE IF ~z.ok THEN Odd(st, z)
     ELSE IF a.v + z.v > size THEN Fail(st)
     ELSE Tags(s, TLCEval(Emit(st, z.p, d, x, size)), cend, size, a.v, z.v)

\* --- the rest ------------------------------------------------------------------
\* Numbers of w bytes, modulo 2^16 pairs where w = 4, first byte first; the n-th element before the end of out.
Back(out, stride, w, n) == [k \in 1..w |-> out[Len(out) - stride * n + k]]
\* a - b and a + b on byte strings of equal length, dropping the carry out of the first byte
Add(a, b) ==
  LET r == FoldLeft(LAMBDA x, k : LET t == a[k] + b[k] + x.c IN [c |-> t \div 256, v |-> <<t % 256>> \o x.v],
                    [c |-> 0, v |-> <<>>], Reverse(Idx(Len(a))))
  IN r.v
Neg(a) == Add([k \in DOMAIN a |-> 255 - a[k]], [k \in DOMAIN a |-> IF k = Len(a) THEN 1 ELSE 0])
Predicted(out, stride, w, order) ==
  LET e(n) == Back(out, stride, w, n)
      d == Add(e(1), Neg(e(2)))
  IN CASE order = 0 -> e(1)
       [] order = 1 -> Add(e(1), d)
       [] OTHER -> Add(Add(d, Add(d, d)), e(3))
RECURSIVE Run(_, _, _, _, _)
Run(out, x, stride, w, order) ==   \* x: the residuals still to come
  IF x = <<>> THEN out
  ELSE LET p == Predicted(out, stride, w, order)
           n == MinOf(w, Len(x))
       IN Run(TLCEval(out \o [k \in 1..n |-> (x[k] + p[k]) % 256]), SubSeq(x, n + 1, Len(x)), stride, w, order)

RECURSIVE Commands(_, _, _, _)
Commands(s, st, cend, size) ==
  IF ~st.ok \/ st.c >= cend THEN st
  ELSE
  LET cmd == s[st.c + 1]
      num == Var(s, st.c + 1, cend)
      take(n, d) == SubSeq(s, d + 1, d + n)
      plain == IF ~num.ok THEN Odd(st, num)
               ELSE IF num.v > Len(s) - st.d THEN Fail(st)
               ELSE LET x == take(num.v, st.d)
                    IN Emit(st, num.p, st.d + num.v, CASE cmd = 1 -> x [] cmd = 2 -> Shuffled(x, 2) [] OTHER -> Shuffled(x, 4), size)
      fl == s[st.c + 2]
      w == (fl % 4) + 1
      order == (fl \div 4) % 4
      stride == IF (fl \div 16) % 2 = 1 THEN Var(s, st.c + 2, cend) ELSE [ok |-> TRUE, odd |-> FALSE, v |-> w, p |-> st.c + 2]
      len == Var(s, stride.p, cend)
      run == IF st.c + 1 >= cend THEN Fail(st)
             ELSE IF w = 3 \/ order = 3 THEN Fail(st)
             ELSE IF ~stride.ok THEN Odd(st, stride)
             ELSE IF stride.v < w \/ stride.v > Len(st.out) \/ 4 * stride.v >= Len(st.out) THEN Fail(st)
             ELSE IF ~len.ok THEN Odd(st, len)
             ELSE IF len.v > Len(s) - st.d THEN Fail(st)
             ELSE IF Len(st.out) + len.v > size THEN Fail(st)
             ELSE LET x == take(len.v, st.d)
                  IN [st EXCEPT !.c = len.p, !.d = @ + len.v,
                                !.out = Run(@, IF w = 1 THEN x ELSE Shuffled(x, w), stride.v, w, order)]
      nx == CASE cmd \in 1..3 -> plain
              [] cmd = 4 -> run
              [] cmd = 10 -> IF st.d + 12 > Len(s) THEN Fail(st)
                             ELSE Emit(st, st.c + 1, st.d + 12, TypeNames[1] \o Zeros(4) \o take(12, st.d), size)
              [] cmd \in 16..23 -> Emit(st, st.c + 1, st.d, TypeNames[cmd - 15] \o Zeros(4), size)
              [] OTHER -> Fail(st)
  IN Commands(s, TLCEval(nx), cend, size)

Failed == [ok |-> FALSE, odd |-> FALSE, v |-> <<>>]
Profile(s) ==
  LET a == Var(s, 0, Len(s))
      c == Var(s, a.p, Len(s))
      size == a.v
      cend == c.p + c.v
      n == MinOf(size, 128)
      hd == Header(s, cend, n, size)
      t == Var(s, c.p, cend)
      tags == t.v - 1
      st0 == [c |-> t.p, d |-> cend + 128, out |-> hd, ok |-> TRUE, odd |-> FALSE]
      st1 == IF t.v = 0 THEN st0
             ELSE Tags(s, Emit(st0, t.p, cend + 128, Big4(tags), size), cend, size, 12 * tags + 128, 0)
      st2 == Commands(s, st1, cend, size)
  IN IF ~a.ok \/ ~c.ok THEN [Failed EXCEPT !.odd = a.odd \/ (a.ok /\ c.odd)]
     ELSE IF c.v > Len(s) - c.p \/ size > Pow2(28) \/ size + 65536 < Len(s) THEN Failed
     ELSE IF n > Len(s) - cend THEN Failed
     ELSE IF size <= 128 THEN (IF cend + n = Len(s) THEN [ok |-> TRUE, odd |-> FALSE, v |-> hd] ELSE Failed)
     ELSE IF ~t.ok THEN [Failed EXCEPT !.odd = t.odd]
     ELSE IF t.v > 0 /\ (size - 128) \div 12 < tags THEN Failed
     ELSE IF ~st2.ok THEN [Failed EXCEPT !.odd = st2.odd]
     ELSE IF Len(st2.out) # size \/ st2.d # Len(s) THEN Failed
     ELSE [ok |-> TRUE, odd |-> FALSE, v |-> st2.out]
=============================================================================
