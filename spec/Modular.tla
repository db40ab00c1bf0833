------------------------------- MODULE Modular ------------------------------
(* Modular image data: decision trees, predictors (including the weighted    *)
(* one), transforms, and channels.  Samples are integers; the specification  *)
(* is meant for samples of magnitude below 2^20 so that TLC can compute.      *)
EXTENDS Headers

\* A channel: w, h, hs, vs (shifts; -1 for meta channels), px (row by row).
Chan(w, h, hs, vs) == [w |-> w, h |-> h, hs |-> hs, vs |-> vs, px |-> <<>>]
Gradient(l, t, tl) ==
  LET mn == MinOf(l, t)
      mx == MaxOf(l, t)
  IN IF tl > mx THEN mn ELSE IF tl < mn THEN mx ELSE l + t - tl
Half2(v) == IF v >= 0 THEN v \div 2 ELSE -((-v) \div 2)   \* division rounding towards zero
Div(v, d) == IF v >= 0 THEN v \div d ELSE -((-v) \div d)

\* --- decision trees ----------------------------------------------------------
\* Nodes: <<property, value, left, right>>, left when the property exceeds the value, or
\* <<-1, predictor, offset, multiplier, context>>.  Breadth first.
RECURSIVE ReadNodes(_, _, _, _, _, _)
ReadNodes(b, st, c, left, nodes, leaves) ==
  IF left = 0 THEN [v |-> nodes, st |-> st]
  ELSE LET k == Read(b, st, c, 1, 0) IN
       IF k.v > 0
       THEN LET s == Read(b, k, c, 0, 0)
                nx == Len(nodes) + left   \* children come after everything already queued
            IN ReadNodes(b, s, c, left + 1, Append(nodes, <<k.v - 1, Unpack(s.v), nx + 1, nx + 2>>), leaves)
       ELSE LET pr == Read(b, k, c, 2, 0)
                of == Read(b, pr, c, 3, 0)
                ml == Read(b, of, c, 4, 0)
                mb == Read(b, ml, c, 5, 0)
            IN ReadNodes(b, mb, c, left - 1,
                         Append(nodes, <<-1, pr.v, Unpack(of.v), (mb.v + 1) * Pow2(ml.v), leaves>>), leaves + 1)
\* tree, the code of the residuals, and the position after both
ReadTree(b, p) ==
  LET c == ReadCode(b, p, 6, TRUE)
      t == ReadNodes(b, Start(b, c.p, c), c, 1, <<>>, 0)
      code == ReadCode(b, t.st.p, (Len(t.v) + 1) \div 2, TRUE)
  IN IF ~c.ok THEN [tree |-> <<<<-1, 0, 0, 1, 0>>>>, code |-> c, p |-> c.p, ok |-> FALSE]
     ELSE [tree |-> t.v, code |-> code, p |-> code.p, ok |-> Finished(t.st, c) /\ code.ok]
UsesWp(tree) == \E k \in DOMAIN tree : tree[k][1] = 15 \/ (tree[k][1] = -1 /\ tree[k][2] = 6)

\* --- weighted predictor ------------------------------------------------------
Wp0 == [p1 |-> 16, p2 |-> 10, p3 |-> <<7, 7, 7, 0, 0>>, w |-> <<13, 12, 12, 12>>]
ReadWp(b, p) ==
  IF Bit(b, p) THEN Res(Wp0, p + 1)
  ELSE LET f(k) == Small(b, p + 1 + 5 * k, 5)
       IN Res([p1 |-> f(0), p2 |-> f(1), p3 |-> [k \in 1..5 |-> f(k + 1)],
               w |-> [k \in 1..4 |-> Small(b, p + 36 + 4 * (k - 1), 4)]], p + 52)
\* floor(a * d / 2^24), 0 <= d <= 2^20
MulShift(a, d) ==
  LET a2 == a \div 1048576
      a1 == (a \div 1024) % 1024
      a0 == a % 1024
      d1 == d \div 1024
      d0 == d % 1024
      c1 == a1 * d0 + a0 * d1 + (a0 * d0) \div 1024
      c2 == a2 * d0 + a1 * d1 + c1 \div 1024
  IN a2 * d1 * 64 + c2 \div 16
Weight(s, wk) ==
  LET sh == MaxOf(0, FloorLog2(s + 1) - 5)
      d == 16777216 \div (s \div Pow2(sh) + 1)
  IN 4 + (wk * d) \div Pow2(sh)
\* te: true errors so far, pe: errors of the four sub-predictors so far (row by row).
\* n: the neighbours.  Result: prediction (in eighths), property, sub-predictions.
WpPredict(wp, w, x, y, n, te, pe) ==
  LET i == y * w + x + 1
      teW == IF x > 0 THEN te[i - 1] ELSE 0
      teN == IF y > 0 THEN te[i - w] ELSE 0
      teNW == IF x > 0 /\ y > 0 THEN te[i - w - 1] ELSE IF x > 0 THEN 0 ELSE teN
      teNE == IF x + 1 < w /\ y > 0 THEN te[i - w + 1] ELSE IF x + 1 < w THEN 0 ELSE teN
      Z == <<0, 0, 0, 0>>
      pN == IF y > 0 THEN pe[i - w] ELSE Z
      pW == IF x > 0 THEN pe[i - 1] ELSE Z
      pNW == IF x > 0 /\ y > 0 THEN pe[i - w - 1] ELSE Z
      pWW == IF x > 1 THEN pe[i - 2] ELSE Z
      pNE == IF x + 1 < w /\ y > 0 THEN pe[i - w + 1] ELSE Z
      sum == [k \in 1..4 |-> LET nn == pN[k] + pW[k]
                                 nw == IF x > 0 THEN pNW[k] + pWW[k] ELSE nn
                                 ne == IF x + 1 < w THEN pNE[k] ELSE nn
                             IN nn + nw + ne]
      w0 == [k \in 1..4 |-> Weight(sum[k], wp.w[k])]
      lg == FloorLog2(w0[1] + w0[2] + w0[3] + w0[4])
      wt == TLCEval([k \in 1..4 |-> w0[k] \div Pow2(lg - 4)])
      ws == wt[1] + wt[2] + wt[3] + wt[4]
      pick(a, c) == IF Abs(c) > Abs(a) THEN c ELSE a
      prop == pick(pick(pick(teW, teN), teNW), teNE)
      L8 == 8 * n.l
      T8 == 8 * n.t
      TR8 == 8 * n.tr
      sub == <<L8 + TR8 - T8,
               T8 - ((teW + teN + teNE) * wp.p1) \div 32,
               L8 - ((teW + teN + teNW) * wp.p2) \div 32,
               T8 - (teNW * wp.p3[1] + teN * wp.p3[2] + teNE * wp.p3[3]
                     + (8 * n.tt - T8) * wp.p3[4] + (8 * n.tl - L8) * wp.p3[5]) \div 32>>
      tot == ws \div 2 - 1 + sub[1] * wt[1] + sub[2] * wt[2] + sub[3] * wt[3] + sub[4] * wt[4]
      raw == MulShift(tot, 16777216 \div ws)
      same == (teN < 0) = (teW < 0) /\ (teN < 0) = (teNW < 0) /\ ~(teN = teW /\ teN = teNW)
      mx == MaxOf(MaxOf(L8, TR8), T8)
      mn == MinOf(MinOf(L8, TR8), T8)
      pred == IF same THEN raw ELSE MinOf(MaxOf(raw, mn), mx)
  IN [pred |-> pred, prop |-> prop, sub |-> sub]
WpErr(r, v) == <<r.pred - 8 * v, TLCEval([k \in 1..4 |-> (Abs(r.sub[k] - 8 * v) + 3) \div 8])>>

\* --- prediction --------------------------------------------------------------
Nb(px, w, x, y) ==
  LET i == y * w + x + 1
      l == IF x > 0 THEN px[i - 1] ELSE IF y > 0 THEN px[i - w] ELSE 0
      t == IF y > 0 THEN px[i - w] ELSE l
      tl == IF x > 0 /\ y > 0 THEN px[i - w - 1] ELSE l
      tr == IF x + 1 < w /\ y > 0 THEN px[i - w + 1] ELSE t
  IN [l |-> l, t |-> t, tl |-> tl, tr |-> tr,
      ll |-> IF x > 1 THEN px[i - 2] ELSE l,
      tt |-> IF y > 1 THEN px[i - 2 * w] ELSE t,
      trr |-> IF x + 2 < w /\ y > 0 THEN px[i - w + 2] ELSE tr]
Predict(k, n, wpred) ==
  CASE k = 0 -> 0
    [] k = 1 -> n.l
    [] k = 2 -> n.t
    [] k = 3 -> Half2(n.l + n.t)
    [] k = 4 -> LET g == n.l + n.t - n.tl IN IF Abs(g - n.l) < Abs(g - n.t) THEN n.l ELSE n.t
    [] k = 5 -> Gradient(n.l, n.t, n.tl)
    [] k = 6 -> (wpred + 3) \div 8
    [] k = 7 -> n.tr
    [] k = 8 -> n.tl
    [] k = 9 -> n.ll
    [] k = 10 -> Half2(n.l + n.tl)
    [] k = 11 -> Half2(n.t + n.tl)
    [] k = 12 -> Half2(n.t + n.tr)
    [] OTHER -> Div(6 * n.t - 2 * n.tt + 7 * n.l + n.ll + n.trr + 3 * n.tr + 8, 16)
\* refs: the earlier channels of the same shape, nearest first
RefProp(refs, w, x, y, k) ==
  LET j == (k - 16) \div 4 + 1
      px == refs[j]
      i == y * w + x + 1
      v == px[i]
      l == IF x > 0 THEN px[i - 1] ELSE 0
      t == IF y > 0 THEN px[i - w] ELSE l
      tl == IF x > 0 /\ y > 0 THEN px[i - w - 1] ELSE l
      g == Gradient(l, t, tl)
      m == (k - 16) % 4
  IN IF j > Len(refs) THEN 0
     ELSE CASE m = 0 -> Abs(v) [] m = 1 -> v [] m = 2 -> Abs(v - g) [] OTHER -> v - g
Property(k, ci, sid, x, y, w, n, px, wprop, refs) ==
  CASE k = 0 -> ci
    [] k = 1 -> sid
    [] k = 2 -> y
    [] k = 3 -> x
    [] k = 4 -> Abs(n.t)
    [] k = 5 -> Abs(n.l)
    [] k = 6 -> n.t
    [] k = 7 -> n.l
    [] k = 8 -> n.l - (IF x = 0 THEN 0 ELSE LET m == Nb(px, w, x - 1, y) IN m.l + m.t - m.tl)
    [] k = 9 -> n.l + n.t - n.tl
    [] k = 10 -> n.l - n.tl
    [] k = 11 -> n.tl - n.t
    [] k = 12 -> n.t - n.tr
    [] k = 13 -> n.t - n.tt
    [] k = 14 -> n.l - n.ll
    [] k = 15 -> wprop
    [] OTHER -> RefProp(refs, w, x, y, k)

\* One channel: d is [st, chs] with the channels decoded so far; mult the distance multiplier.
DecodeChannel(b, d, code, tree, wp, useWp, sid, mult, ci) ==
  LET c == d.chs[ci]
      w == c.w
      refs == FoldLeft(LAMBDA a, j : IF d.chs[j].w = w /\ d.chs[j].h = c.h /\ d.chs[j].hs = c.hs /\ d.chs[j].vs = c.vs
                                     THEN <<d.chs[j].px>> \o a ELSE a, <<>>, Idx(ci - 1))
      step(a, i) ==
        LET x == (i - 1) % w
            y == (i - 1) \div w
            n == Nb(a.px, w, x, y)
            r == IF useWp THEN WpPredict(wp, w, x, y, n, a.te, a.pe) ELSE [pred |-> 0, prop |-> 0, sub |-> <<0, 0, 0, 0>>]
            walk[k \in DOMAIN tree] ==
              IF tree[k][1] = -1 THEN k
              ELSE IF Property(tree[k][1], ci - 1, sid, x, y, w, n, a.px, r.prop, refs) > tree[k][2]
              THEN walk[tree[k][3]] ELSE walk[tree[k][4]]
            leaf == tree[walk[1]]
            s == Read(b, a.st, code, leaf[5], mult)
            v == Predict(leaf[2], n, r.pred) + leaf[3] + leaf[4] * Unpack(s.v)
            e == IF useWp THEN WpErr(r, v) ELSE <<0, 0>>
        IN [st |-> s, px |-> Append(a.px, v), te |-> IF useWp THEN Append(a.te, e[1]) ELSE <<>>,
            pe |-> IF useWp THEN Append(a.pe, e[2]) ELSE <<>>]
      r == FoldLeft(step, [st |-> d.st, px |-> <<>>, te |-> <<>>, pe |-> <<>>], Idx(w * c.h))
  IN [st |-> r.st, chs |-> [d.chs EXCEPT ![ci].px = r.px]]
\* All channels of a stream, in order.
DecodeChannels(b, p, code, tree, wp, sid, chs) ==
  LET mult == FoldLeft(LAMBDA a, c : IF c.w > 0 /\ c.h > 0 THEN MaxOf(a, c.w) ELSE a, 0, chs)
      u == UsesWp(tree)
      r == FoldLeft(LAMBDA d, ci : IF chs[ci].w = 0 \/ chs[ci].h = 0 THEN d
                                   ELSE DecodeChannel(b, d, code, tree, wp, u, sid, mult, ci),
                    [st |-> Start(b, p, code), chs |-> chs], Idx(Len(chs)))
  IN [chs |-> r.chs, p |-> r.st.p, ok |-> Finished(r.st, code)]

\* --- transforms --------------------------------------------------------------
BcArms == <<<<3, 0>>, <<6, 8>>, <<10, 72>>, <<13, 1096>>>>
ReadSqueeze(b, p) ==
  LET g == U32(b, p + 2, BcArms)
      n == U32(b, g.p, <<<<0, 1>>, <<0, 2>>, <<0, 3>>, <<4, 4>>>>)
  IN Res([hor |-> Bit(b, p), inp |-> Bit(b, p + 1), begin |-> g.v, num |-> n.v], n.p)
ReadTransform(b, p) ==
  LET id == Small(b, p, 2)
      c == U32(b, p + 2, BcArms)
      r == U32(b, c.p, <<<<0, 6>>, <<2, 0>>, <<4, 2>>, <<6, 10>>>>)
      n == U32(b, c.p, <<<<0, 1>>, <<0, 3>>, <<0, 4>>, <<13, 1>>>>)
      k == U32(b, n.p, <<<<8, 0>>, <<10, 256>>, <<12, 1280>>, <<16, 5376>>>>)
      d == U32(b, k.p, <<<<0, 0>>, <<8, 1>>, <<10, 257>>, <<16, 1281>>>>)
      q == U32(b, p + 2, <<<<0, 0>>, <<4, 1>>, <<6, 9>>, <<8, 41>>>>)
      f(x) == ReadSqueeze(b, x)
      s == Times(f, q.p, q.v)
  IN CASE id = 0 -> Res([id |-> "rct", begin |-> c.v, ty |-> r.v], r.p)
       [] id = 1 -> Res([id |-> "pal", begin |-> c.v, num |-> n.v, colors |-> k.v, deltas |-> d.v, pred |-> Small(b, d.p, 4)], d.p + 4)
       [] OTHER -> Res([id |-> "sqz", steps |-> s.v], s.p)
NumMeta(chs) == Len(SelectSeq(chs, LAMBDA c : c.hs < 0))
DefaultSqueeze(chs) ==
  LET nm == NumMeta(chs)
      nc == Len(chs) - nm
      w == chs[nm + 1].w
      h == chs[nm + 1].h
      sub == nc > 2 /\ chs[nm + 2].w = w /\ chs[nm + 2].h = h
      S(hor, inp, bg, n) == [hor |-> hor, inp |-> inp, begin |-> bg, num |-> n]
      ch == (IF sub /\ w > 1 THEN <<S(TRUE, FALSE, nm + 1, 2)>> ELSE <<>>)
            \o (IF sub /\ h > 1 THEN <<S(FALSE, FALSE, nm + 1, 2)>> ELSE <<>>)
      tall == w <= h /\ h > 8
      more[x \in 0..w, y \in 0..h] ==
        IF x <= 8 /\ y <= 8 THEN <<>>
        ELSE (IF x > 8 THEN <<S(TRUE, TRUE, nm, nc)>> ELSE <<>>) \o (IF y > 8 THEN <<S(FALSE, TRUE, nm, nc)>> ELSE <<>>)
             \o more[IF x > 8 THEN (x + 1) \div 2 ELSE x, IF y > 8 THEN (y + 1) \div 2 ELSE y]
  IN ch \o (IF tall THEN <<S(FALSE, TRUE, nm, nc)>> ELSE <<>>) \o more[w, IF tall THEN (h + 1) \div 2 ELSE h]
InsertAll(s, at, t) == SubSeq(s, 1, at) \o t \o SubSeq(s, at + 1, Len(s))
SqueezeMeta(chs, q) ==
  LET at == IF q.inp THEN q.begin + q.num ELSE Len(chs)
      cut(c) == IF q.hor THEN [c EXCEPT !.w = (c.w + 1) \div 2, !.hs = IF c.hs < 0 THEN c.hs ELSE c.hs + 1]
                ELSE [c EXCEPT !.h = (c.h + 1) \div 2, !.vs = IF c.vs < 0 THEN c.vs ELSE c.vs + 1]
      res(c) == IF q.hor THEN [cut(c) EXCEPT !.w = c.w \div 2] ELSE [cut(c) EXCEPT !.h = c.h \div 2]
      avg == [k \in 1..Len(chs) |-> IF k > q.begin /\ k <= q.begin + q.num THEN cut(chs[k]) ELSE chs[k]]
  IN InsertAll(avg, at, [k \in 1..q.num |-> res(chs[q.begin + k])])
\* The channel list the transform leaves to be coded, and the transform with defaults made explicit.
Meta(chs, t) ==
  CASE t.id = "rct" -> [chs |-> chs, t |-> t]
    [] t.id = "pal" -> [chs |-> <<Chan(t.colors + t.deltas, t.num, -1, -1)>> \o SubSeq(chs, 1, t.begin + 1)
                                \o SubSeq(chs, t.begin + t.num + 1, Len(chs)), t |-> t]
    [] OTHER -> LET st == IF t.steps = <<>> THEN DefaultSqueeze(chs) ELSE t.steps
                IN [chs |-> FoldLeft(SqueezeMeta, chs, st), t |-> [t EXCEPT !.steps = st]]
\* Number of transforms, then each, applied as they are read.
ReadTransforms(b, p, chs) ==
  LET n == U32(b, p, <<<<0, 0>>, <<0, 1>>, <<4, 2>>, <<8, 18>>>>)
  IN FoldLeft(LAMBDA a, k : LET r == ReadTransform(b, a.p)
                                m == Meta(a.chs, r.v)
                            IN [chs |-> m.chs, ts |-> Append(a.ts, m.t), p |-> r.p],
              [chs |-> chs, ts |-> <<>>, p |-> n.p], Idx(n.v))

RctPerm == <<<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<1, 3, 2>>, <<2, 1, 3>>, <<3, 2, 1>>>>
Rct(op, a, c, d) ==
  CASE op = 0 -> <<a, c, d>>
    [] op = 1 -> <<a, c, d + a>>
    [] op = 2 -> <<a, c + a, d>>
    [] op = 3 -> <<a, c + a, d + a>>
    [] op = 4 -> <<a, c + (a + d) \div 2, d>>
    [] op = 5 -> <<a, c + (2 * a + d) \div 2, d + a>>
    [] OTHER -> LET t == a - d \div 2
                    g == d + t
                    bl == t - c \div 2
                IN <<bl + c, g, bl>>
UnRct(chs, t) ==
  LET m == t.begin + 1
      o == RctPerm[t.ty \div 7 + 1]
      v == TLCEval([i \in 1..Len(chs[m].px) |-> Rct(t.ty % 7, chs[m].px[i], chs[m + 1].px[i], chs[m + 2].px[i])])
      out(k) == TLCEval([i \in 1..Len(v) |-> v[i][k]])
      src(j) == CHOOSE k \in 1..3 : o[k] = j
  IN [j \in 1..Len(chs) |-> IF j < m \/ j > m + 2 THEN chs[j] ELSE [chs[j] EXCEPT !.px = out(src(j - m + 1))]]

Delta == <<
  <<0,0,0>>,<<4,4,4>>,<<11,0,0>>,<<0,0,-13>>,<<0,-12,0>>,<<-10,-10,-10>>,<<-18,-18,-18>>,<<-27,-27,-27>>,
  <<-18,-18,0>>,<<0,0,-32>>,<<-32,0,0>>,<<-37,-37,-37>>,<<0,-32,-32>>,<<24,24,45>>,<<50,50,50>>,<<-45,-24,-24>>,
  <<-24,-45,-45>>,<<0,-24,-24>>,<<-34,-34,0>>,<<-24,0,-24>>,<<-45,-45,-24>>,<<64,64,64>>,<<-32,0,-32>>,<<0,-32,0>>,
  <<-32,0,32>>,<<-24,-45,-24>>,<<45,24,45>>,<<24,-24,-45>>,<<-45,-24,24>>,<<80,80,80>>,<<64,0,0>>,<<0,0,-64>>,
  <<0,-64,-64>>,<<-24,-24,45>>,<<96,96,96>>,<<64,64,0>>,<<45,-24,-24>>,<<34,-34,0>>,<<112,112,112>>,<<24,-45,-45>>,
  <<45,45,-24>>,<<0,-32,32>>,<<24,-24,45>>,<<0,96,96>>,<<45,-24,24>>,<<24,-45,-24>>,<<-24,-45,24>>,<<0,-64,0>>,
  <<96,0,0>>,<<128,128,128>>,<<64,0,64>>,<<144,144,144>>,<<96,96,0>>,<<-36,-36,36>>,<<45,-24,-45>>,<<45,-45,-24>>,
  <<0,0,-96>>,<<0,128,128>>,<<0,96,0>>,<<45,24,-45>>,<<-128,0,0>>,<<24,-45,24>>,<<-45,24,-45>>,<<64,0,-64>>,
  <<64,-64,-64>>,<<96,0,96>>,<<45,-45,24>>,<<24,45,-45>>,<<64,64,-64>>,<<128,128,0>>,<<0,0,-128>>,<<-24,45,-45>>>>
PalValue(pal, size, i, c, depth) ==    \* c counts from 0
  IF i >= 0 /\ i < size THEN pal.px[c * pal.w + i + 1]
  ELSE IF c >= 3 THEN 0
  ELSE IF i < 0
  THEN LET k == (-(i + 1)) % 143
           v == Delta[(k + 1) \div 2 + 1][c + 1] * (IF k % 2 = 1 THEN 1 ELSE -1)
       IN IF depth > 8 THEN v * Pow2(depth - 8) ELSE v
  ELSE IF i < size + 64
  THEN LET k == (i - size) \div Pow2(2 * c)
       IN ((k % 4) * (Pow2(depth) - 1)) \div 4 + Pow2(MaxOf(0, depth - 3))
  ELSE LET k == (i - size - 64) \div <<1, 5, 25>>[c + 1]
       IN ((k % 5) * (Pow2(depth) - 1)) \div 4
UnPal(chs, t, wp, depth) ==
  LET pal == chs[1]
      idx == chs[t.begin + 2]
      w == idx.w
      size == t.colors + t.deltas
      dp == MinOf(depth, 24)
      plane(c) ==
        LET step(a, i) ==
              LET x == (i - 1) % w
                  y == (i - 1) \div w
                  k == idx.px[i]
                  n == Nb(a.px, w, x, y)
                  r == IF t.pred = 6 THEN WpPredict(wp, w, x, y, n, a.te, a.pe)
                       ELSE [pred |-> 0, prop |-> 0, sub |-> <<0, 0, 0, 0>>]
                  v == PalValue(pal, size, k, c, dp) + (IF k < t.deltas THEN Predict(t.pred, n, r.pred) ELSE 0)
                  e == IF t.pred = 6 THEN WpErr(r, v) ELSE <<0, 0>>
              IN [px |-> Append(a.px, v), te |-> IF t.pred = 6 THEN Append(a.te, e[1]) ELSE <<>>,
                  pe |-> IF t.pred = 6 THEN Append(a.pe, e[2]) ELSE <<>>]
        IN FoldLeft(step, [px |-> <<>>, te |-> <<>>, pe |-> <<>>], Idx(w * idx.h)).px
  IN SubSeq(chs, 2, t.begin + 1) \o [k \in 1..t.num |-> [idx EXCEPT !.px = plane(k - 1)]] \o SubSeq(chs, t.begin + 3, Len(chs))

Tendency(p, a, n) ==
  LET up == (4 * p - 3 * n - a + 6) \div 12
      u1 == IF up - (up % 2) > 2 * (p - a) THEN 2 * (p - a) + 1 ELSE up
      u2 == IF u1 + (u1 % 2) > 2 * (a - n) THEN 2 * (a - n) ELSE u1
      dn == Div(4 * p - 3 * n - a - 6, 12)
      d1 == IF dn + (dn % 2) < 2 * (p - a) THEN 2 * (p - a) - 1 ELSE dn
      d2 == IF d1 - (d1 % 2) < 2 * (a - n) THEN 2 * (a - n) ELSE d1
  IN IF p >= a /\ a >= n THEN u2 ELSE IF p <= a /\ a <= n THEN d2 ELSE 0
\* one row or column from averages and residuals
UnsqLine(av, rs) ==
  LET step(o, i) ==
        LET a == av[i]
            nx == IF i < Len(av) THEN av[i + 1] ELSE a
            pv == IF i > 1 THEN o[Len(o)] ELSE a
            d == rs[i] + Tendency(pv, a, nx)
            x == a + Half2(d)
        IN o \o <<x, x - d>>
      r == FoldLeft(step, <<>>, Idx(Len(rs)))
  IN IF Len(av) > Len(rs) THEN Append(r, av[Len(av)]) ELSE r
Row(c, y) == SubSeq(c.px, y * c.w + 1, (y + 1) * c.w)
Col(c, x) == [y \in 1..c.h |-> c.px[(y - 1) * c.w + x + 1]]
Unsq(a, r, hor) ==
  IF hor
  THEN [a EXCEPT !.w = a.w + r.w, !.hs = IF @ < 0 THEN @ ELSE @ - 1,
                 !.px = FoldLeft(LAMBDA acc, y : acc \o UnsqLine(Row(a, y - 1), Row(r, y - 1)), <<>>, Idx(a.h))]
  ELSE LET cs == TLCEval([x \in 1..a.w |-> UnsqLine(Col(a, x - 1), Col(r, x - 1))])
       IN [a EXCEPT !.h = a.h + r.h, !.vs = IF @ < 0 THEN @ ELSE @ - 1,
                    !.px = TLCEval([i \in 1..(a.w * (a.h + r.h)) |-> cs[((i - 1) % a.w) + 1][(i - 1) \div a.w + 1]])]
UnsqStep(chs, q) ==
  LET at == IF q.inp THEN q.begin + q.num ELSE Len(chs) - q.num
      m == TLCEval([k \in 1..q.num |-> Unsq(chs[q.begin + k], chs[at + k], q.hor)])
      avg == [k \in 1..Len(chs) |-> IF k > q.begin /\ k <= q.begin + q.num THEN m[k - q.begin] ELSE chs[k]]
  IN SubSeq(avg, 1, at) \o SubSeq(avg, at + q.num + 1, Len(avg))
Undo(chs, t, wp, depth) ==
  CASE t.id = "rct" -> UnRct(chs, t)
    [] t.id = "pal" -> UnPal(chs, t, wp, depth)
    [] OTHER -> FoldLeft(UnsqStep, chs, Reverse(t.steps))
UndoAll(chs, ts, wp, depth) == FoldLeft(LAMBDA c, t : Undo(c, t, wp, depth), chs, Reverse(ts))
=============================================================================
