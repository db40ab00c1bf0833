----------------------------- MODULE Codestream ------------------------------
(* A whole codestream of modular frames, from its bytes to the samples of    *)
(* every channel of every frame: sections, groups, passes and the transforms  *)
(* local to a group.  The physical layout (groups, passes, order of the       *)
(* sections) is confined to this module.                                      *)
EXTENDS Modular

Log2Of(u) == CASE u = 1 -> 0 [] u = 2 -> 1 [] u = 4 -> 2 [] OTHER -> 3
NumColor(h) == IF h.xyb \/ h.color.space # 1 THEN 3 ELSE 1
\* The channels a frame is made of: colour, then extra channels.
EcUp(f, h, k) == IF f.ups > 1 THEN f.ecups[k] * Pow2(h.ecs[k].shift) ELSE f.ecups[k]
FrameChannels(f, h) ==
  [k \in 1..NumColor(h) |-> Chan(f.coded[1], f.coded[2], 0, 0)]
  \o [k \in 1..Len(h.ecs) |-> LET u == EcUp(f, h, k)
                                  s == Log2Of(u) - Log2Of(f.ups)
                              IN Chan(CeilDiv(f.upsize[1], u), CeilDiv(f.upsize[2], u), s, s)]

\* The shifts a pass carries: <<least, greatest>>.
Bracket(ps, pass) ==
  FoldLeft(LAMBDA a, i :
      LET hit == {k \in DOMAIN ps.ds : ps.last[k] = i}
          m1 == IF hit = {} THEN a[1] ELSE Log2Of(ps.ds[CHOOSE k \in hit : \A j \in hit : j <= k])
          m2 == IF i + 1 = ps.num THEN 0 ELSE m1
      IN IF i # pass THEN <<m2, m2 - 1>> ELSE <<m2, a[2]>>,
    <<3, 2>>, [k \in 1..(pass + 1) |-> k - 1])

\* The part of channel c in the tile number g of a row of n, tiles of dim pixels.
Part(c, g, n, dim) ==
  LET dx == dim \div Pow2(c.hs)   \* 0: nothing of the channel is coded
      dy == dim \div Pow2(c.vs)
      x0 == (g % n) * dx
      y0 == (g \div n) * dy
      w == MinOf(MaxOf(c.w - x0, 0), dx)
      hh == MinOf(MaxOf(c.h - y0, 0), dy)
  IN IF w = 0 \/ hh = 0 THEN [w |-> 0, h |-> 0] ELSE [w |-> w, h |-> hh]

\* One sub-bitstream: its header, tree if it has its own, channels; own transforms undone.
ReadStream(b, p, glob, sid, chs, depth) ==
  LET wp == ReadWp(b, p + 1)
      tr == ReadTransforms(b, wp.p, chs)
      own == IF Bit(b, p) THEN [glob EXCEPT !.p = tr.p] ELSE ReadTree(b, tr.p)
      d == DecodeChannels(b, own.p, own.code, own.tree, wp.v, sid, tr.chs)
  IN IF ~own.ok THEN [chs |-> chs, p |-> own.p, ok |-> FALSE]
     ELSE [chs |-> UndoAll(d.chs, tr.ts, wp.v, depth), p |-> d.p, ok |-> d.ok]

\* The decoder computes transforms tile by tile.  It refuses pictures where the tiles of the
\* channels of one transform differ or are smaller than a sample (a known limitation).
\* kinds of the coded channels: 0 whole, 1 tiles of an LF group, 2 tiles of a group.
TilesFit(chs, kinds, ts, gd) ==
  LET fits(c, k) == k = 0 \/ c.w = 0 \/ c.h = 0
                    \/ LET d == IF k = 1 THEN 8 * gd ELSE gd IN d \div Pow2(c.hs) > 0 /\ d \div Pow2(c.vs) > 0
      allfit(cs, ks) == \A j \in DOMAIN cs : fits(cs[j], ks[j])
      unsq(a, q) ==
        LET at == IF q.inp THEN q.begin + q.num ELSE Len(a.chs) - q.num
            out(k) == LET x == a.chs[q.begin + k] y == a.chs[at + k]
                      IN IF q.hor THEN [x EXCEPT !.w = x.w + y.w, !.hs = IF @ < 0 THEN @ ELSE @ - 1]
                         ELSE [x EXCEPT !.h = x.h + y.h, !.vs = IF @ < 0 THEN @ ELSE @ - 1]
            kind(k) == LET m == MaxOf(a.ks[q.begin + k], a.ks[at + k])
                       IN IF m = 0 /\ out(k).hs >= 0 /\ (out(k).w > gd \/ out(k).h > gd) THEN 2 ELSE m
            put(s, v(_)) == LET t == [j \in 1..Len(s) |-> IF j > q.begin /\ j <= q.begin + q.num THEN v(j - q.begin) ELSE s[j]]
                            IN SubSeq(t, 1, at) \o SubSeq(t, at + q.num + 1, Len(t))
            c2 == TLCEval(put(a.chs, out))
            k2 == TLCEval(put(a.ks, kind))
        IN [chs |-> c2, ks |-> k2, ok |-> a.ok /\ allfit(c2, k2)]
      undo(a, t) ==
        CASE t.id = "rct" -> [a EXCEPT !.ok = @ /\ a.ks[t.begin + 1] = a.ks[t.begin + 2] /\ a.ks[t.begin + 1] = a.ks[t.begin + 3]]
          [] t.id = "pal" -> LET put(s) == SubSeq(s, 2, t.begin + 1) \o [j \in 1..t.num |-> s[t.begin + 2]]
                                           \o SubSeq(s, t.begin + 3, Len(s))
                             IN [chs |-> put(a.chs), ks |-> put(a.ks), ok |-> a.ok]
          [] OTHER -> FoldLeft(unsq, a, Reverse(t.steps))
  IN FoldLeft(undo, [chs |-> chs, ks |-> kinds, ok |-> allfit(chs, kinds)], Reverse(ts)).ok

\* --- patches -----------------------------------------------------------------
ReadPatches(b, p, nec) ==
  LET c == ReadCode(b, p, 10, TRUE)
      n == Read(b, Start(b, c.p, c), c, 0, 0)
      blend(a, k) ==
        LET m == Read(b, a.st, c, 5, 0)
            ua == m.v \in 4..7
            al == IF ua /\ nec > 1 THEN Read(b, m, c, 8, 0) ELSE [m EXCEPT !.v = 0]
            cl == IF ua \/ m.v = 3 THEN Read(b, al, c, 9, 0) ELSE [al EXCEPT !.v = 0]
        IN [st |-> cl, v |-> Append(a.v, [mode |-> m.v, alpha |-> al.v, clamp |-> cl.v > 0])]
      place(a, k) ==
        LET x == Read(b, a.st, c, IF k = 1 THEN 4 ELSE 6, 0)
            y == Read(b, x, c, IF k = 1 THEN 4 ELSE 6, 0)
            px == IF k = 1 THEN x.v ELSE a.x + Unpack(x.v)
            py == IF k = 1 THEN y.v ELSE a.y + Unpack(y.v)
            bl == FoldLeft(blend, [st |-> y, v |-> <<>>], Idx(1 + nec))
        IN [st |-> bl.st, x |-> px, y |-> py, v |-> Append(a.v, [x |-> px, y |-> py, blend |-> bl.v])]
      one(a, k) ==
        LET r == Read(b, a.st, c, 1, 0)
            x == Read(b, r, c, 3, 0)
            y == Read(b, x, c, 3, 0)
            w == Read(b, y, c, 2, 0)
            hh == Read(b, w, c, 2, 0)
            m == Read(b, hh, c, 7, 0)
            at == FoldLeft(place, [st |-> m, x |-> 0, y |-> 0, v |-> <<>>], Idx(m.v + 1))
        IN [st |-> at.st, v |-> Append(a.v, [slot |-> r.v, x0 |-> x.v, y0 |-> y.v, w |-> w.v + 1, h |-> hh.v + 1,
                                             at |-> at.v])]
      r == FoldLeft(one, [st |-> n, v |-> <<>>], Idx(n.v))
  IN IF ~c.ok THEN [v |-> <<>>, p |-> c.p, ok |-> FALSE] ELSE [v |-> r.v, p |-> r.st.p, ok |-> Finished(r.st, c)]

\* --- frames ------------------------------------------------------------------
\* Everything of a frame up to its first coded channel, and how the channels are stored.
\* p: the position of the frame header (byte aligned).
Plan(b, p, h, img) ==
  LET fh == ReadFrameHeader(b, p, h, img)
      f == TLCEval(fh.v)
      toc == TLCEval(ReadToc(b, fh.p, f))
      gd == GroupDim(f)
      pat == IF 1 \in f.flags THEN ReadPatches(b, 8 * toc.sec[1][1], Len(h.ecs))
             ELSE [v |-> <<>>, p |-> 8 * toc.sec[1][1], ok |-> TRUE]
      q == IF Bit(b, pat.p) THEN pat.p + 1 ELSE pat.p + 1 + 48
      glob == TLCEval(IF Bit(b, q) THEN ReadTree(b, q + 1) ELSE [tree |-> <<>>, code |-> <<>>, p |-> q + 1, ok |-> TRUE])
      wp == ReadWp(b, glob.p + 1)
      tr == TLCEval(ReadTransforms(b, wp.p, FrameChannels(f, h)))
      N == Len(tr.chs)
      lead == LET big == {k \in 1..N : tr.chs[k].hs >= 0 /\ (tr.chs[k].w > gd \/ tr.chs[k].h > gd)}
              IN IF big = {} THEN N ELSE (CHOOSE k \in big : \A j \in big : k <= j) - 1
      kinds == [k \in 1..N |-> IF k <= lead THEN 0 ELSE IF MinOf(tr.chs[k].hs, tr.chs[k].vs) >= 3 THEN 1 ELSE 2]
  IN TLCEval([f |-> f, toc |-> toc, pat |-> pat, glob |-> glob, wp |-> wp, tr |-> tr, lead |-> lead, kinds |-> kinds,
              fit |-> TilesFit(tr.chs, kinds, tr.ts, gd)])
ReadFrame(b, p, h, img) ==
  LET pl == Plan(b, p, h, img)
      f == pl.f
      toc == pl.toc
      pat == pl.pat
      glob == pl.glob
      wp == pl.wp
      tr == pl.tr
      lead == pl.lead
      gd == GroupDim(f)
      ng == Groups(f)
      nl == LfGroups(f)
      NG == ng[1] * ng[2]
      NL == nl[1] * nl[2]
      one == NumSections(f) = 1
      at(s, prev) == IF one THEN prev ELSE 8 * toc.sec[s + 1][1]
      N == Len(tr.chs)
      first == SubSeq(tr.chs, 1, lead)
      some == \E k \in 1..lead : first[k].w > 0 /\ first[k].h > 0
      own == IF Bit(b, glob.p) THEN [glob EXCEPT !.p = tr.p] ELSE ReadTree(b, tr.p)
      d0 == IF some /\ ~own.ok THEN [chs |-> first, p |-> own.p, ok |-> FALSE]
            ELSE IF some THEN DecodeChannels(b, own.p, own.code, own.tree, wp.v, 0, first)
            ELSE [chs |-> first, p |-> tr.p, ok |-> TRUE]
      mins(k) == MinOf(tr.chs[k].hs, tr.chs[k].vs)
      \* a: [p, ok, m: what has been decoded by channel and tile]
      tile(a, sec, sid, g, n, dim, set) ==
        LET ks == SelectSeq(SelectSeq(Idx(N), LAMBDA k : k \in set), LAMBDA k : Part(tr.chs[k], g, n, dim).w > 0)
            chs == [j \in 1..Len(ks) |-> LET r == Part(tr.chs[ks[j]], g, n, dim)
                                         IN Chan(r.w, r.h, tr.chs[ks[j]].hs, tr.chs[ks[j]].vs)]
            r == TLCEval(ReadStream(b, at(sec, a.p), glob, sid, chs, h.depth.bits))
        IN IF ks = <<>> THEN a
           ELSE [p |-> r.p, ok |-> a.ok /\ r.ok,
                 m |-> TLCEval([x \in {<<ks[j], g>> : j \in 1..Len(ks)} |->
                                  r.chs[CHOOSE j \in 1..Len(ks) : ks[j] = x[1]]] @@ a.m)]
      rest == (lead + 1)..N
      lfset == {k \in rest : pl.kinds[k] = 1}
      r1 == FoldLeft(LAMBDA a, g : tile(a, 1 + g, 1 + NL + g, g, nl[1], 8 * gd, lfset),
                     [p |-> d0.p, ok |-> d0.ok, m |-> <<>>], [k \in 1..NL |-> k - 1])
      r2 == FoldLeft(LAMBDA a, i :
              LET pass == i \div NG
                  g == i % NG
                  br == Bracket(f.passes, pass)
              IN tile(a, 2 + NL + i, 18 + 3 * NL + i, g, ng[1], gd, {k \in rest : mins(k) >= br[1] /\ mins(k) <= br[2]}),
            r1, [k \in 1..(NG * f.passes.num) |-> k - 1])
      whole(k) ==
        LET c == tr.chs[k]
            dim == IF k \in lfset THEN 8 * gd ELSE gd
            n == IF k \in lfset THEN nl[1] ELSE ng[1]
            dx == dim \div Pow2(c.hs)
            dy == dim \div Pow2(c.vs)
        IN [c EXCEPT !.px = [i \in 1..(c.w * c.h) |->
             IF dx = 0 \/ dy = 0 THEN 0 ELSE
             LET x == (i - 1) % c.w
                 y == (i - 1) \div c.w
                 t == r2.m[<<k, (y \div dy) * n + x \div dx>>]
             IN t.px[((y % dy) * t.w) + (x % dx) + 1]]]
      chs == TLCEval([k \in 1..N |-> IF k <= lead THEN d0.chs[k] ELSE whole(k)])
  IN IF ~(glob.ok /\ pat.ok /\ toc.ok)
     THEN [f |-> f, patches |-> <<>>, chs |-> <<>>, end |-> toc.end, start |-> p \div 8, ok |-> FALSE]
     ELSE
     [f |-> f, patches |-> pat.v, chs |-> UndoAll(chs, tr.ts, wp.v, h.depth.bits), end |-> toc.end, start |-> p \div 8,
      ok |-> r2.ok /\ glob.ok /\ pat.ok]

RECURSIVE ReadFrames(_, _, _, _)
ReadFrames(b, p, h, acc) ==
  LET r == TLCEval(ReadFrame(b, p, h, h.size))
  IN IF r.f.last THEN Append(acc, r) ELSE ReadFrames(b, 8 * r.end, h, Append(acc, r))

\* --- the ICC stream ------------------------------------------------------------
Letter(v) == v \in 97..122 \/ v \in 65..90
Digit(v) == v \in 48..57 \/ v = 46 \/ v = 44
IccContext(i, b1, b2) ==   \* i counts from 0
  IF i <= 128 THEN 0
  ELSE 1 + (IF Letter(b1) THEN 0 ELSE IF Digit(b1) THEN 1 ELSE IF b1 <= 1 THEN 2 + b1 ELSE IF b1 <= 15 THEN 4
            ELSE IF b1 = 255 THEN 6 ELSE IF b1 >= 241 THEN 5 ELSE 7)
         + 8 * (IF Letter(b2) THEN 0 ELSE IF Digit(b2) THEN 1 ELSE IF b2 <= 15 THEN 2 ELSE IF b2 >= 241 THEN 3 ELSE 4)
ReadIccStream(b, p) ==
  LET n == U64(b, p)
      c == ReadCode(b, n.p, 41, TRUE)
      r == FoldLeft(LAMBDA a, i :
             LET k == Len(a.v)
                 t == Read(b, a.st, c, IccContext(k, IF k > 0 THEN a.v[k] ELSE 0, IF k > 1 THEN a.v[k - 1] ELSE 0), 0)
             IN [st |-> t, v |-> Append(a.v, t.v)], [st |-> Start(b, c.p, c), v |-> <<>>], Idx(n.v))
  IN IF ~c.ok THEN [v |-> <<>>, p |-> c.p, ok |-> FALSE, q |-> FALSE, code |-> c]
     ELSE [v |-> r.v, p |-> r.st.p, ok |-> Finished(r.st, c) /\ \A k \in DOMAIN r.v : r.v[k] < 256, q |-> r.st.q, code |-> c]

\* Everything before the first frame: header fields, encoded profile, position of the first frame.
ReadPreamble(b) ==
  LET fh == ReadFileHeader(b)
      i == IF fh.v.color.icc THEN ReadIccStream(b, fh.p) ELSE [v |-> <<>>, p |-> fh.p, ok |-> TRUE]
  IN [h |-> TLCEval(fh.v), icc |-> i.v, p |-> Align(i.p), ok |-> fh.ok /\ i.ok]
ReadImage(b) ==
  LET pre == TLCEval(ReadPreamble(b))
      pv == IF pre.h.preview = None THEN pre.p ELSE 8 * ReadFrame(b, pre.p, pre.h, pre.h.preview).end
  IN [h |-> pre.h, icc |-> pre.icc, ok |-> pre.ok, frames |-> ReadFrames(b, pv, pre.h, <<>>)]
=============================================================================
