-------------------------------- MODULE Output --------------------------------
(* How a picture is laid out in the caller's buffers: channels, sample formats,*)
(* byte order, rows, orientation, alpha, spot colours.  Samples are fractions  *)
(* <<n, d>>; a format gives the codes a decoder may write for such a fraction. *)
EXTENDS Canvas

Unknown == <<0, 0>>
\* --- codes -------------------------------------------------------------------
\* <<floor(n * k / d), remainder>> without large products; n <= d < 2^29, k < 2^17
MulDiv(n, k, d) ==
  FoldLeft(LAMBDA a, j : LET t == 2 * a[2] + (IF (k \div Pow2(j)) % 2 = 1 THEN n ELSE 0)
                         IN <<2 * a[1] + t \div d, t % d>>, <<0, 0>>, <<16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0>>)
\* n / d > 0 as 2^e * m, 2^23 <= m < 2^24 (truncated)
RECURSIVE Normal(_, _, _)
Normal(n, d, e) == IF n < d THEN Normal(2 * n, d, e - 1) ELSE IF n >= 2 * d THEN Normal(n, 2 * d, e + 1) ELSE <<n, d, e>>
Float(n, d) ==
  LET z == Normal(n, d, 0)
      m == FoldLeft(LAMBDA a, j : LET r == 2 * a[2] IN IF r >= z[2] THEN <<2 * a[1] + 1, r - z[2]>> ELSE <<2 * a[1], r>>,
                    <<1, z[1] - z[2]>>, Idx(23))
  IN [m |-> m[1], e |-> z[3] - 23]
\* A float given by its code c, or -1 - c if negative: <<n, d, v>>, n / d exact or as close as 2^-28
FromFloat(v) ==
  LET c == IF v < 0 THEN -1 - v ELSE v
      e == (c \div 8388608) - 150
      m == (c % 8388608) + 8388608
      n == IF e >= -28 THEN m ELSE IF e < -52 THEN 0 ELSE m \div Pow2(-28 - e)
      s(k) == IF v < 0 THEN -k ELSE k
  IN IF e >= -18 THEN <<0, 0, v>>
     ELSE IF e > -23 THEN <<s(m * Pow2(e + 23)), 8388608, v>>
     ELSE <<s(n), IF e >= -28 THEN Pow2(-e) ELSE 268435456, v>>
\* The codes allowed, as a range (without the sign bit of floats); any: no restriction.
\* fm: [kind, bits, le], kinds 0 bytes, 1 words, 2 half floats, 3 floats.  loose: x was computed with rounding.
AnyCode == [any |-> TRUE, lo |-> 0, hi |-> 0, neg |-> FALSE]
Codes(fm, x, vague) ==
  LET n == Abs(x[1])
      d == x[2]
      given == Len(x) = 3
      loose == vague \/ (given /\ n < d \div 32)
      neg == x[1] < 0
      top == Pow2(fm.bits) - 1
      q == MulDiv(n, top, d)
      span(a, b) == [any |-> FALSE, lo |-> a, hi |-> b, neg |-> neg /\ n # 0]
      fl == Float(n, d)
      \* a half float counts in units of 2^-24 below 2^-14
      drop == IF fl.e + 23 < -14 THEN -24 - fl.e ELSE 13
      g == IF drop > 24 THEN 0 ELSE fl.m \div Pow2(drop)
      rem == IF drop > 24 THEN 0 ELSE fl.m % Pow2(drop)
      half == IF drop > 24 THEN 0 ELSE Pow2(drop - 1)
      base == IF drop # 13 THEN g ELSE (fl.e + 23 + 15) * 1024 + g - 1024
  IN IF given /\ fm.kind = 3 THEN LET c == IF x[3] < 0 THEN -1 - x[3] ELSE x[3] IN [any |-> FALSE, lo |-> c, hi |-> c, neg |-> x[3] < 0]
     ELSE IF d = 0 \/ (fm.kind = 3 /\ loose /\ n < d \div 16) THEN AnyCode
     ELSE CASE fm.kind < 2 /\ (neg \/ n = 0) -> [span(0, 0) EXCEPT !.neg = FALSE]
            [] fm.kind < 2 /\ n >= d -> [span(top, top) EXCEPT !.neg = FALSE]
            \* bytes may be dithered
            [] fm.kind = 0 -> span(q[1], IF q[2] = 0 THEN q[1] ELSE q[1] + 1)
            [] fm.kind = 1 -> LET s == d \div (IF loose THEN 4 ELSE 50) + 1
                              IN span(IF q[2] > d - q[2] /\ q[2] - (d - q[2]) > s THEN q[1] + 1 ELSE q[1],
                                      IF d - q[2] > q[2] /\ (d - q[2]) - q[2] > s THEN q[1] ELSE q[1] + 1)
            [] n = 0 -> span(0, IF loose THEN 8 ELSE 0)
            [] fm.kind = 2 -> LET s == IF loose THEN half ELSE 8
                                  up == IF rem >= half + s THEN 1 ELSE 0
                              IN span(base + up - (IF loose THEN 1 ELSE 0), base + (IF rem + s > half THEN 1 ELSE 0) + (IF loose THEN 1 ELSE 0))
            [] OTHER -> LET c == (fl.e + 23 + 126) * 8388608 + fl.m
                            t == IF loose THEN 1024 ELSE 8
                        IN span(c - t, c + t)
Width(fm) == <<1, 2, 2, 4>>[fm.kind + 1]
\* The sample from byte k (1-based) of m: <<sign, code>>
Sample(fm, m, k) ==
  LET w == Width(fm)
      at(j) == m[k + (IF fm.le THEN j ELSE w - 1 - j)]
      top == at(w - 1)
      c == FoldLeft(LAMBDA a, j : IF j = 1 /\ fm.kind >= 2 THEN top % 128 ELSE a * 256 + at(w - j), 0, Idx(w))
  IN <<fm.kind >= 2 /\ top >= 128, c>>
Allowed(r, s) == r.any \/ (s[2] >= r.lo /\ s[2] <= r.hi /\ (s[1] = r.neg \/ s[2] = 0))

\* --- channels ----------------------------------------------------------------
\* colour types: 0 gray, 1 gray + alpha, 2 RGB, 3 RGBA, 4 BGR, 5 BGRA
IsGray(t) == t < 2
HasAlpha(t) == t \in {1, 3, 5}
FirstAlpha(h) == LET s == {k \in DOMAIN h.ecs : h.ecs[k].ty = 0} IN IF s = {} THEN 0 ELSE CHOOSE k \in s : \A j \in s : k <= j
Frac(v, one) == IF v \in {Odd, Faint} THEN Unknown ELSE <<v, one>>
\* The picture's planes as fractions, spot colour mixed in and colour multiplied with alpha where asked for.
Spots(h) == {k \in DOMAIN h.ecs : h.ecs[k].ty = 2}
\* The halves of a spot colour in quarters, or -1.
Quarters(f) == CASE f = <<0, 0>> -> 0 [] f = <<16000, 0>> -> 1 [] f = <<16128, 0>> -> 2 [] f = <<16192, 0>> -> 3 [] f = <<16256, 0>> -> 4 [] OTHER -> -1
Mixed(h, one, pic, c) ==      \* colour component c after spot colours
  LET s == CHOOSE x \in Spots(h) : TRUE
      sp == [j \in 1..4 |-> Quarters(h.ecs[s].spot[j])]
      nc == NumColor(h)
      v == pic[IF nc = 1 THEN 1 ELSE c].px
      f(x, m) == IF x \in {Odd, Faint} \/ m \in {Odd, Faint} \/ Abs(x) > one \/ m < 0 \/ m > one THEN Unknown
                 ELSE LET a == m * sp[4] IN <<a * sp[c] * one + 4 * (4 * one - a) * x, 16 * one * one>>
  IN IF Spots(h) = {} THEN [i \in DOMAIN v |-> Frac(v[i], one)]
     ELSE IF Cardinality(Spots(h)) > 1 \/ one > 4096 \/ \E j \in 1..4 : sp[j] < 0 THEN [i \in DOMAIN v |-> Unknown]
     ELSE [i \in DOMAIN v |-> f(v[i], pic[nc + s].px[i])]
Times2(x, y) == IF x[2] = 0 \/ y[2] = 0 \/ Abs(x[1]) > Limit \/ Abs(y[1]) > Limit \/ x[2] > 16384 THEN Unknown
                ELSE IF y[1] = y[2] THEN x ELSE <<x[1] * y[1], x[2] * y[2]>>
\* What buffers can ask for: components 1 to 3 are the colour (a gray picture's three times), then the extra channels.
Fractions(h, one, pic, spot, premul, ty) ==
  LET nc == NumColor(h)
      raw(k) == [i \in DOMAIN pic[k].px |-> Frac(pic[k].px[i], one)]
      fr == [k \in 1..(3 + Len(h.ecs)) |->
               TLCEval(IF k > 3 THEN raw(nc + k - 3) ELSE IF spot THEN Mixed(h, one, pic, k) ELSE raw(IF nc = 1 THEN 1 ELSE k))]
      a == FirstAlpha(h)
  IN IF premul /\ HasAlpha(ty) /\ a # 0 /\ ~h.ecs[a].assoc
     THEN [k \in DOMAIN fr |-> IF k > 3 THEN fr[k] ELSE TLCEval([i \in DOMAIN fr[k] |-> Times2(fr[k][i], fr[3 + a][i])])]
     ELSE fr
\* The same from a decoding with floats and without options.
FromBase(h, base, spot, premul, ty) ==
  LET fr == [k \in DOMAIN base |-> TLCEval([i \in DOMAIN base[k] |-> IF spot /\ k <= 3 /\ Spots(h) # {} THEN Unknown ELSE FromFloat(base[k][i])])]
      a == FirstAlpha(h)
  IN IF premul /\ HasAlpha(ty) /\ a # 0 /\ ~h.ecs[a].assoc
     THEN [k \in DOMAIN fr |-> IF k > 3 THEN fr[k]
                               ELSE TLCEval([i \in DOMAIN fr[k] |-> IF base[3 + a][i] = 1065353216 THEN fr[k][i] ELSE Unknown])]
     ELSE fr
\* The components of a buffer's pixels in order, 0 for opaque alpha.
ColorPlanes(h, ty) ==
  LET a == FirstAlpha(h)
      c == IF IsGray(ty) THEN <<1>> ELSE IF ty >= 4 THEN <<3, 2, 1>> ELSE <<1, 2, 3>>
  IN IF HasAlpha(ty) THEN c \o <<IF a = 0 THEN 0 ELSE 3 + a>> ELSE c
\* All buffers, colour first: [fm, planes]
Buffers(h, fmt) ==
  (IF fmt.data = <<>> THEN <<>> ELSE <<[fm |-> fmt.data[1], planes |-> ColorPlanes(h, fmt.color)]>>)
  \o FoldLeft(LAMBDA a, k : IF fmt.ec[k] = <<>> THEN a ELSE Append(a, [fm |-> fmt.ec[k][1], planes |-> <<3 + k>>]),
              <<>>, Idx(Len(h.ecs)))
OutSize(h) == IF h.o >= 4 THEN <<h.size[2], h.size[1]>> ELSE h.size
\* Where the pixel displayed at (x, y) is in the picture.
Source(h, x, y) ==
  LET w == h.size[1]
      hh == h.size[2]
      q == CASE h.o = 0 -> <<x, y>>
             [] h.o = 1 -> <<w - 1 - x, y>>
             [] h.o = 2 -> <<w - 1 - x, hh - 1 - y>>
             [] h.o = 3 -> <<x, hh - 1 - y>>
             [] h.o = 4 -> <<y, x>>
             [] h.o = 5 -> <<y, hh - 1 - x>>
             [] h.o = 6 -> <<w - 1 - y, hh - 1 - x>>
             [] OTHER -> <<w - 1 - y, x>>
  IN q[2] * w + q[1] + 1
\* A buffer as given: rows of row bytes, stride apart, the first at byte at (from 0) of m.
Fits(h, bf, g) == g.rows = OutSize(h)[2] /\ g.row = OutSize(h)[1] * Len(bf.planes) * Width(bf.fm)
\* What is wrong with a filled buffer, "" if nothing is.
Outside(g, k) == k <= g.at \/ k > g.at + g.rows * g.stride \/ (k - 1 - g.at) % g.stride >= g.row
BufferDiffers(h, bf, fr, loose, g, guard) ==
  LET w == Width(bf.fm)
      n == Len(bf.planes)
      of(p) == IF p = 0 THEN {<<1, 1>>} ELSE {fr[p][i] : i \in DOMAIN fr[p]}
      vals == UNION {of(bf.planes[c]) : c \in 1..n}
      tab == TLCEval([x \in vals |-> Codes(bf.fm, x, loose /\ x # <<1, 1>>)])
      wrong(x, y, c) ==
        LET p == bf.planes[c]
            v == IF p = 0 THEN <<1, 1>> ELSE fr[p][Source(h, x, y)]
        IN ~Allowed(tab[v], Sample(bf.fm, g.m, g.at + y * g.stride + (x * n + c - 1) * w + 1))
      bad == {p \in (0..(OutSize(h)[1] - 1)) \X (0..(OutSize(h)[2] - 1)) : \E c \in 1..n : wrong(p[1], p[2], c)}
      out == {k \in DOMAIN g.m : Outside(g, k) /\ g.m[k] # guard}
  IN IF out # {} THEN "writes outside its rows"
     ELSE IF bad = {} THEN ""
     ELSE LET p == CHOOSE q \in bad : \A r \in bad : q[2] < r[2] \/ (q[2] = r[2] /\ q[1] <= r[1])
          IN "pixel " \o ToString(p) \o " is wrong"
===============================================================================
