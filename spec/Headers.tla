------------------------------- MODULE Headers ------------------------------
(* The file header (size, image metadata, transform data), frame headers and *)
(* tables of contents, read from the bytes of a codestream.                  *)
EXTENDS Entropy

\* A reading in progress: p, the position, and e, the fields read so far.
Put(s, name, r) == [p |-> r.p, e |-> (name :> r.v) @@ s.e]
Def(s, name, v) == [s EXCEPT !.e = (name :> v) @@ @]
U(b, s, name, n) == Put(s, name, Res(Bits(b, s.p, n), s.p + n))
UIf(b, s, c, name, n, d) == IF c THEN U(b, s, name, n) ELSE Def(s, name, d)
B(b, s, name) == Put(s, name, Res(Bit(b, s.p), s.p + 1))
BIf(b, s, c, name, d) == IF c THEN B(b, s, name) ELSE Def(s, name, d)
V(b, s, name, arms) == Put(s, name, U32(b, s.p, arms))
VIf(b, s, c, name, arms, d) == IF c THEN V(b, s, name, arms) ELSE Def(s, name, d)
E(b, s, name) == V(b, s, name, EnumArms)
EIf(b, s, c, name, d) == VIf(b, s, c, name, EnumArms, d)
Halves(b, p, n) == Res([k \in 1..n |-> Half(b, p + 16 * (k - 1)).v], p + 16 * n)
\* f(p) n times in a row
Times(f(_), p, n) == FoldLeft(LAMBDA a, k : LET r == f(a.p) IN Res(Append(a.v, r.v), r.p), Res(<<>>, p), Idx(n))

Fraction(h, n, d) == IF h > 536870912 THEN 0 ELSE (h \div d) * n + ((h % d) * n) \div d
Ratios == <<<<1, 1>>, <<12, 10>>, <<4, 3>>, <<3, 2>>, <<16, 9>>, <<5, 4>>, <<2, 1>>>>
SizeArms == <<<<9, 1>>, <<13, 1>>, <<18, 1>>, <<30, 1>>>>
ReadSize(b, p) ==
  LET small == Bit(b, p)
      h == IF small THEN Res(8 * (Small(b, p + 1, 5) + 1), p + 6) ELSE U32(b, p + 1, SizeArms)
      r == Small(b, h.p, 3)
      w == IF small THEN Res(8 * (Small(b, h.p + 3, 5) + 1), h.p + 8) ELSE U32(b, h.p + 3, SizeArms)
  IN IF r = 0 THEN Res(<<w.v, h.v>>, w.p) ELSE Res(<<Fraction(h.v, Ratios[r][1], Ratios[r][2]), h.v>>, h.p + 3)
ReadPreview(b, p) ==
  LET d8 == Bit(b, p)
      A == <<<<0, 16>>, <<0, 32>>, <<5, 1>>, <<9, 33>>>>
      C == <<<<6, 1>>, <<8, 65>>, <<10, 321>>, <<12, 1345>>>>
      f(q) == IF d8 THEN LET r == U32(b, q, A) IN Res(8 * r.v, r.p) ELSE U32(b, q, C)
      h == f(p + 1)
      r == Small(b, h.p, 3)
      w == f(h.p + 3)
  IN IF r = 0 THEN Res(<<w.v, h.v>>, w.p) ELSE Res(<<Fraction(h.v, Ratios[r][1], Ratios[r][2]), h.v>>, h.p + 3)
ReadAnim(b, p) ==
  LET s1 == V(b, [p |-> p, e |-> <<>>], "num", <<<<0, 100>>, <<0, 1000>>, <<10, 1>>, <<30, 1>>>>)
      s2 == V(b, s1, "den", <<<<0, 1>>, <<0, 1001>>, <<8, 1>>, <<10, 1>>>>)
      sel == Small(b, s2.p, 2)
      n == <<0, 3, 16, 32>>[sel + 1]
      lp == IF sel = 3 THEN Word(b, s2.p + 2) ELSE <<0, Small(b, s2.p + 2, n)>>
      s3 == Put(s2, "loops", Res(lp, s2.p + 2 + n))
      s4 == B(b, s3, "tc")
  IN Res(s4.e, s4.p)
ReadDepth(b, p) ==
  LET fl == Bit(b, p)
      n == U32(b, p + 1, IF fl THEN <<<<0, 32>>, <<0, 16>>, <<0, 24>>, <<6, 1>>>> ELSE <<<<0, 8>>, <<0, 10>>, <<0, 12>>, <<6, 1>>>>)
  IN IF fl THEN Res([fl |-> TRUE, bits |-> n.v, exp |-> Small(b, n.p, 4) + 1], n.p + 4)
     ELSE Res([fl |-> FALSE, bits |-> n.v, exp |-> 0], n.p)
Depth8 == [fl |-> FALSE, bits |-> 8, exp |-> 0]
ReadName(b, p) ==
  LET n == U32(b, p, <<<<0, 0>>, <<4, 0>>, <<5, 16>>, <<10, 48>>>>)
  IN Res([k \in 1..n.v |-> Small(b, n.p + 8 * (k - 1), 8)], n.p + 8 * n.v)
ReadExtensions(b, p) ==
  LET s == U64Set(b, p)
      \* lengths beyond any file are cut off
      len(r) == IF \E k \in r.v : k >= 24 THEN 16777216 ELSE FoldLeft(LAMBDA a, k : a + Pow2(k), 0, SetToSeq(r.v))
      n == FoldLeft(LAMBDA a, k : IF k \notin s.v THEN a
                                  ELSE LET r == U64Set(b, a.p) IN Res(MinOf(a.v + len(r), 268435456), r.p),
                    Res(0, s.p), [k \in 1..64 |-> k - 1])
  IN n.p + n.v
Alpha8 == [ty |-> 0, depth |-> Depth8, shift |-> 0, name |-> <<>>, assoc |-> FALSE, spot |-> <<>>, cfa |-> 1]
ReadEc(b, p) ==
  LET s1 == E(b, [p |-> p + 1, e |-> <<>>], "ty")
      s2 == Put(s1, "depth", ReadDepth(b, s1.p))
      s3 == V(b, s2, "shift", <<<<0, 0>>, <<0, 3>>, <<0, 4>>, <<3, 1>>>>)
      s4 == Put(s3, "name", ReadName(b, s3.p))
      s5 == BIf(b, s4, s4.e.ty = 0, "assoc", FALSE)
      s6 == IF s5.e.ty = 2 THEN Put(s5, "spot", Halves(b, s5.p, 4)) ELSE Def(s5, "spot", <<>>)
      s7 == VIf(b, s6, s6.e.ty = 5, "cfa", <<<<0, 1>>, <<2, 0>>, <<4, 3>>, <<8, 19>>>>, 1)
  IN IF Bit(b, p) THEN Res(Alpha8, p + 1) ELSE Res(s7.e, s7.p)
XyArms == <<<<19, 0>>, <<19, 524288>>, <<20, 1048576>>, <<21, 2097152>>>>
ReadXy(b, p) ==
  LET x == U32(b, p, XyArms)
      y == U32(b, x.p, XyArms)
  IN Res(<<Unpack(x.v), Unpack(y.v)>>, y.p)
ReadColor(b, p) ==
  LET s0 == B(b, [p |-> p, e |-> <<>>], "def")
      full == ~s0.e.def
      s1 == BIf(b, s0, full, "icc", FALSE)
      s2 == EIf(b, s1, full, "space", 0)
      enc == full /\ ~s2.e.icc
      s3 == EIf(b, s2, enc /\ s2.e.space # 2, "white", 1)
      s4 == IF s3.e.white = 2 THEN Put(s3, "wxy", ReadXy(b, s3.p)) ELSE Def(s3, "wxy", <<0, 0>>)
      s5 == EIf(b, s4, enc /\ s4.e.space \notin {1, 2}, "prim", 1)
      f(q) == ReadXy(b, q)
      s6 == IF s5.e.prim = 2 THEN Put(s5, "pxy", Times(f, s5.p, 3)) ELSE Def(s5, "pxy", <<>>)
      s7 == BIf(b, s6, enc /\ s6.e.space # 2, "hasg", FALSE)
      s8 == UIf(b, s7, s7.e.hasg, "gamma", 24, 3333333)
      s9 == EIf(b, s8, enc /\ ~s8.e.hasg /\ s8.e.space # 2, "tf", 13)
      s10 == EIf(b, s9, enc, "intent", 1)
  IN Res(s10.e, s10.p)
Tone0 == [target |-> <<17279, 0>>, min |-> <<0, 0>>, rel |-> FALSE, below |-> <<0, 0>>]  \* 255.0, 0, false, 0
ReadTone(b, p) ==
  IF Bit(b, p) THEN Res(Tone0, p + 1)
  ELSE LET a == Half(b, p + 1)
           c == Half(b, a.p)
           d == Half(b, c.p + 1)
       IN Res([target |-> a.v, min |-> c.v, rel |-> Bit(b, c.p), below |-> d.v], d.p)
None == <<>>
ReadMetadata(b, p) ==
  LET s0 == B(b, [p |-> p, e |-> <<>>], "def")
      full == ~s0.e.def
      s1 == BIf(b, s0, full, "extra", FALSE)
      x == s1.e.extra
      s2 == UIf(b, s1, x, "o", 3, 0)
      s3 == BIf(b, s2, x, "hasi", FALSE)
      s4 == IF s3.e.hasi THEN Put(s3, "intrinsic", ReadSize(b, s3.p)) ELSE Def(s3, "intrinsic", None)
      s5 == BIf(b, s4, x, "hasp", FALSE)
      s6 == IF s5.e.hasp THEN Put(s5, "preview", ReadPreview(b, s5.p)) ELSE Def(s5, "preview", None)
      s7 == BIf(b, s6, x, "hasa", FALSE)
      s8 == IF s7.e.hasa THEN Put(s7, "anim", ReadAnim(b, s7.p)) ELSE Def(s7, "anim", None)
      s9 == IF full THEN Put(s8, "depth", ReadDepth(b, s8.p)) ELSE Def(s8, "depth", Depth8)
      s10 == BIf(b, s9, full, "m16", TRUE)
      nec == IF full THEN U32(b, s10.p, <<<<0, 0>>, <<0, 1>>, <<4, 2>>, <<12, 1>>>>) ELSE Res(0, s10.p)
      f(q) == ReadEc(b, q)
      s11 == Put(Def(s10, "nec", nec.v), "ecs", Times(f, nec.p, IF nec.v > 256 THEN 0 ELSE nec.v))
      s12 == BIf(b, s11, full, "xyb", TRUE)
      s13 == IF full THEN Put(s12, "color", ReadColor(b, s12.p))
             ELSE Def(s12, "color", ReadColor(<<1>>, 0).v)
      s14 == IF x THEN Put(s13, "tone", ReadTone(b, s13.p)) ELSE Def(s13, "tone", Tone0)
  IN [p |-> IF full THEN ReadExtensions(b, s14.p) ELSE s14.p, v |-> s14.e]
\* Only the extent of the transform data matters here.
SkipTransformData(b, p, xyb) ==
  LET o == IF ~xyb THEN p + 1 ELSE IF Bit(b, p + 1) THEN p + 2 ELSE p + 2 + 16 * 16
      m == Small(b, o, 3)
  IN IF Bit(b, p) THEN p + 1
     ELSE o + 3 + 16 * ((IF m % 2 = 1 THEN 15 ELSE 0) + (IF (m \div 2) % 2 = 1 THEN 55 ELSE 0) + (IF m \div 4 = 1 THEN 210 ELSE 0))
\* The position is that of the ICC stream, if there is one, or of the padding before the first frame.
ReadFileHeader(b) ==
  LET sz == ReadSize(b, 16)
      m == ReadMetadata(b, sz.p)
  IN [v |-> ("size" :> sz.v) @@ ("tp" :> m.p) @@ m.v, p |-> SkipTransformData(b, m.p, m.v.xyb),
      ok |-> Small(b, 0, 16) = 2815]

\* --- frames ------------------------------------------------------------------
Regular(t) == t \in {0, 3}
Passes1 == [num |-> 1, ds |-> <<>>, last |-> <<>>]
ReadPasses(b, p) ==
  LET n == U32(b, p, <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<3, 4>>>>)
      d == U32(b, n.p, <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 3>>>>)
      q == d.p + 2 * (n.v - 1)
      f(x) == U32(b, x, <<<<0, 1>>, <<0, 2>>, <<0, 4>>, <<0, 8>>>>)
      g(x) == U32(b, x, <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<3, 0>>>>)
      ds == Times(f, q, d.v)
      la == Times(g, ds.p, d.v)
  IN IF n.v = 1 THEN Res(Passes1, n.p) ELSE Res([num |-> n.v, ds |-> ds.v, last |-> la.v], la.p)
Replace == [mode |-> 0, alpha |-> 0, clamp |-> FALSE, src |-> 0]
ReadBlend(b, p, nec, full) ==
  LET s1 == V(b, [p |-> p, e |-> <<>>], "mode", <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<2, 3>>>>)
      ua == nec > 0 /\ s1.e.mode \in {2, 3}
      s2 == VIf(b, s1, ua, "alpha", <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<3, 3>>>>, 0)
      s3 == BIf(b, s2, ua \/ s2.e.mode = 4, "clamp", FALSE)
      s4 == UIf(b, s3, ~(full /\ s3.e.mode = 0), "src", 2, 0)
  IN Res(s4.e, s4.p)
Finite(b, p, n) == \A k \in 0..(n - 1) : (Small(b, p + 16 * k, 16) \div 1024) % 32 # 31
\* restoration filter: which filters run, and where it ends
ReadFilter(b, p, modular) ==
  LET gab == Bit(b, p + 1)
      p1 == IF ~gab THEN p + 2 ELSE IF Bit(b, p + 2) THEN p + 3 + 96 ELSE p + 3
      epf == Small(b, p1, 2)
      p2 == p1 + 2
      p3 == IF modular THEN p2 ELSE IF Bit(b, p2) THEN p2 + 1 + 128 ELSE p2 + 1
      p4 == IF Bit(b, p3) THEN p3 + 1 + 80 ELSE p3 + 1
      p5 == IF Bit(b, p4) THEN p4 + 1 + (IF modular THEN 48 ELSE 64) ELSE p4 + 1
      p6 == IF modular THEN p5 + 16 ELSE p5
      fin == /\ gab => Finite(b, p + 3, (p1 - p - 3) \div 16)
             /\ epf > 0 => /\ Finite(b, p2 + 1, (p3 - p2 - 1) \div 16) /\ Finite(b, p3 + 1, (p4 - p3 - 1) \div 16)
                           /\ Finite(b, p4 + 1, (p6 - p4 - 1) \div 16)
  IN IF Bit(b, p) THEN Res([gab |-> TRUE, epf |-> 2, finite |-> TRUE], p + 1)
     ELSE Res([gab |-> gab, epf |-> epf, finite |-> fin], ReadExtensions(b, IF epf > 0 THEN p6 ELSE p2))
CropArms == <<<<8, 0>>, <<11, 256>>, <<14, 2304>>, <<30, 18688>>>>
\* h: the image metadata, img: the size of the image (or of the preview) the frame belongs to.
ReadFrameHeader(b, p, h, img) ==
  LET nec == Len(h.ecs)
      s0 == B(b, [p |-> p, e |-> <<>>], "def")
      full == ~s0.e.def
      s1 == UIf(b, s0, full, "type", 2, 0)
      s2 == UIf(b, s1, full, "enc", 1, 0)
      s3 == IF full THEN Put(s2, "flags", U64Set(b, s2.p)) ELSE Def(s2, "flags", {})
      lf == 5 \in s3.e.flags
      s4 == BIf(b, s3, full /\ ~h.xyb, "ycbcr", FALSE)
      s5 == UIf(b, s4, s4.e.ycbcr /\ ~lf, "jpeg", 6, 0)
      Up == <<<<0, 1>>, <<0, 2>>, <<0, 4>>, <<0, 8>>>>
      s6 == VIf(b, s5, full /\ ~lf, "ups", Up, 1)
      f(q) == U32(b, q, Up)
      s7 == IF full /\ ~lf THEN Put(s6, "ecups", Times(f, s6.p, nec)) ELSE Def(s6, "ecups", [k \in 1..nec |-> 1])
      mod == s7.e.enc = 1
      s8 == UIf(b, s7, full /\ mod, "gshift", 2, 1)
      s9 == UIf(b, s8, full /\ ~mod /\ h.xyb, "xqm", 3, 3)
      s10 == UIf(b, s9, full /\ ~mod /\ h.xyb, "bqm", 3, 2)
      t == s10.e.type
      s11 == IF full /\ t # 2 THEN Put(s10, "passes", ReadPasses(b, s10.p)) ELSE Def(s10, "passes", Passes1)
      s12 == VIf(b, s11, full /\ t = 1, "lflevel", <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 4>>>>, 0)
      s13 == BIf(b, s12, full /\ t # 1, "crop", FALSE)
      c == s13.e.crop
      s14 == VIf(b, s13, c /\ t # 2, "ux0", CropArms, 0)
      s15 == VIf(b, s14, c /\ t # 2, "uy0", CropArms, 0)
      s16 == VIf(b, s15, c, "fw", CropArms, 0)
      s17 == VIf(b, s16, c, "fh", CropArms, 0)
      x0 == Unpack(s17.e.ux0)
      y0 == Unpack(s17.e.uy0)
      whole == ~c \/ (x0 <= 0 /\ y0 <= 0 /\ s17.e.fw + x0 >= img[1] /\ s17.e.fh + y0 >= img[2])
      g(q) == ReadBlend(b, q, nec, whole)
      s18 == IF full /\ Regular(t) THEN Put(s17, "blend", g(s17.p)) ELSE Def(s17, "blend", Replace)
      s19 == IF full /\ Regular(t) THEN Put(s18, "ecblend", Times(g, s18.p, nec)) ELSE Def(s18, "ecblend", [k \in 1..nec |-> Replace])
      dsel == Small(b, s19.p, 2)
      s20 == IF ~(full /\ Regular(t) /\ h.anim # None) THEN Def(s19, "dur", <<0, 0>>)
             ELSE IF dsel < 2 THEN Put(s19, "dur", Res(<<0, dsel>>, s19.p + 2))
             ELSE IF dsel = 2 THEN Put(s19, "dur", Res(<<0, Small(b, s19.p + 2, 8)>>, s19.p + 10))
             ELSE Put(s19, "dur", Res(Word(b, s19.p + 2), s19.p + 34))
      tc == h.anim # None /\ h.anim.tc
      s21 == IF full /\ Regular(t) /\ tc THEN Put(s20, "tc", Res(Word(b, s20.p), s20.p + 32)) ELSE Def(s20, "tc", <<0, 0>>)
      s22 == BIf(b, s21, full /\ Regular(t), "last", t = 0)
      s23 == UIf(b, s22, full /\ t # 1 /\ ~s22.e.last, "save", 2, 0)
      ref == ~s23.e.last /\ t # 1 /\ (s23.e.dur = <<0, 0>> \/ s23.e.save # 0)
      early == ref /\ s23.e.blend.mode = 0 /\ whole /\ Regular(t)
      s24 == BIf(b, s23, full /\ (t = 2 \/ early), "before", t = 1)
      s25 == IF full THEN Put(s24, "name", ReadName(b, s24.p)) ELSE Def(s24, "name", <<>>)
      s26 == IF full THEN Put(s25, "filter", ReadFilter(b, s25.p, mod)) ELSE Def(s25, "filter", [gab |-> TRUE, epf |-> 2, finite |-> TRUE])
      q == IF full THEN ReadExtensions(b, s26.p) ELSE s26.p
      w == IF s26.e.fw = 0 THEN img[1] ELSE s26.e.fw
      hh == IF s26.e.fh = 0 THEN img[2] ELSE s26.e.fh
      d == Pow2(3 * s26.e.lflevel)
      up == <<CeilDiv(w, d), CeilDiv(hh, d)>>
  IN Res(("x0" :> x0) @@ ("y0" :> y0) @@ ("whole" :> whole) @@ ("ref" :> ref) @@ ("size" :> <<w, hh>>)
         @@ ("upsize" :> up) @@ ("coded" :> <<CeilDiv(up[1], s26.e.ups), CeilDiv(up[2], s26.e.ups)>>) @@ s26.e, q)
Visible(f) == Regular(f.type) /\ (f.last \/ f.dur # <<0, 0>>)

\* --- table of contents -------------------------------------------------------
GroupDim(f) == Pow2(7 + f.gshift)
HS == <<0, 1, 1, 0>>
VS == <<0, 1, 0, 1>>
JpegShift(f, tab) == MaxOf(tab[(f.jpeg % 4) + 1], MaxOf(tab[((f.jpeg \div 4) % 4) + 1], tab[f.jpeg \div 16 + 1]))
Groups(f) == <<CeilDiv(f.coded[1], GroupDim(f)), CeilDiv(f.coded[2], GroupDim(f))>>
LfGroups(f) ==
  LET mh == JpegShift(f, HS)
      mv == JpegShift(f, VS)
      bw == CeilDiv(f.coded[1], 8 * Pow2(mh)) * Pow2(mh)
      bh == CeilDiv(f.coded[2], 8 * Pow2(mv)) * Pow2(mv)
  IN <<CeilDiv(bw, GroupDim(f)), CeilDiv(bh, GroupDim(f))>>
NumSections(f) ==
  LET g == Groups(f)
      l == LfGroups(f)
  IN IF g[1] * g[2] = 1 /\ f.passes.num = 1 THEN 1 ELSE 2 + l[1] * l[2] + g[1] * g[2] * f.passes.num
PermCtx(x) == MinOf(7, CeilLog2(x + 1))
\* the permutation, 0-based, from its Lehmer code
Perm(n, lehmer) ==
  LET r == FoldLeft(LAMBDA a, k :
             LET j == (IF k <= Len(lehmer) THEN lehmer[k] ELSE 0) + 1
             IN [left |-> SubSeq(a.left, 1, j - 1) \o SubSeq(a.left, j + 1, Len(a.left)), v |-> Append(a.v, a.left[j])],
             [left |-> [k \in 1..n |-> k - 1], v |-> <<>>], Idx(n))
  IN r.v
ReadPerm(b, p, n) ==
  LET c == ReadCode(b, p, 8, TRUE)
      e == Read(b, Start(b, c.p, c), c, PermCtx(n), 0)
      r == FoldLeft(LAMBDA a, k : LET t == Read(b, a.st, c, PermCtx(a.prev), 0)
                                  IN [st |-> t, prev |-> t.v, v |-> Append(a.v, t.v)],
                    [st |-> e, prev |-> 0, v |-> <<>>], Idx(e.v))
      fine == e.v <= n /\ \A k \in DOMAIN r.v : r.v[k] < n - k + 1
  IN IF ~c.ok \/ e.v > n \/ ~fine \/ ~Finished(r.st, c) THEN ResOk([k \in 1..n |-> k - 1], c.p, FALSE)
     ELSE ResOk(Perm(n, r.v), r.st.p, TRUE)
\* Where each section lies: sequence of <<byte offset, bytes>> by logical index; p is the end (bits).
ReadToc(b, p, f) ==
  LET n == NumSections(f)
      perm == IF Bit(b, p) THEN ReadPerm(b, p + 1, n) ELSE ResOk([k \in 1..n |-> k - 1], p + 1, TRUE)
      g(q) == U32(b, q, <<<<10, 0>>, <<14, 1024>>, <<22, 17408>>, <<30, 4211712>>>>)
      sz == Times(g, Align(perm.p), n)
      start == Align(sz.p) \div 8
      off == FoldLeft(LAMBDA a, k : Append(a, MinOf(a[Len(a)] + sz.v[k], 536870912)), <<start>>, Idx(n))
  IN [sec |-> [k \in 1..n |-> <<off[perm.v[k] + 1], sz.v[perm.v[k] + 1]>>], end |-> off[n + 1], start |-> start,
      permuted |-> Bit(b, p), ok |-> perm.ok,
      pad |-> Small(b, perm.p, Align(perm.p) - perm.p) = 0 /\ Small(b, sz.p, Align(sz.p) - sz.p) = 0]
=============================================================================
