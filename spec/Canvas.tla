-------------------------------- MODULE Canvas --------------------------------
(* Composition of frames: patches, blending onto the saved canvases, the four *)
(* slots, and the picture shown for each visible frame.                       *)
(* Samples are exact fractions v / one, where one depends on the sample type; *)
(* a sample that is no such fraction (or is too large) is Odd: not specified. *)
EXTENDS Codestream

(* A decoder computes with rounding.  A sum that cancels to zero can come out  *)
(* as a tiny number, which matters when an alpha is divided by: such a zero is *)
(* Faint.  Large samples over a small alpha, where the rounding is magnified,  *)
(* are Odd.                                                                    *)
Odd == 1073741824
Faint == 1073741825
Limit == 46340            \* products of two samples stay below 2^31
Fix(v) == IF Abs(v) >= 536870912 THEN Odd ELSE v
Plus(a, b) ==
  IF a = Odd \/ b = Odd THEN Odd
  ELSE IF a = Faint THEN (IF b = 0 THEN Faint ELSE b)
  ELSE IF b = Faint THEN (IF a = 0 THEN Faint ELSE a)
  ELSE IF a + b = 0 /\ a # 0 THEN Faint ELSE Fix(a + b)
Neg(a) == IF a = Odd \/ a = Faint THEN a ELSE -a
Minus(a, b) == Plus(a, Neg(b))
Prod(one, a, b) ==
  IF a = Odd \/ b = Odd THEN Odd
  ELSE IF a = 0 \/ b = 0 THEN 0
  ELSE IF a = Faint \/ b = Faint THEN Faint
  ELSE IF Abs(a) > Limit \/ Abs(b) > Limit THEN Odd
  ELSE IF (a * b) % one # 0 THEN Odd ELSE Fix((a * b) \div one)
Over(one, a, d) ==        \* a / d
  IF a = Odd \/ d = Odd \/ d = Faint THEN Odd
  ELSE IF a = Faint THEN Faint
  ELSE IF Abs(a) > 2147483647 \div one THEN Odd
  ELSE IF d < 0 THEN IF (-a * one) % (-d) # 0 THEN Odd ELSE Fix((-a * one) \div (-d))
  ELSE IF (a * one) % d # 0 THEN Odd ELSE Fix((a * one) \div d)
Clamped(one, v, c) == IF ~c \/ v \in {Odd, Faint} THEN v ELSE MinOf(MaxOf(v, 0), one)
Tame(one, v) == v = Faint \/ (v >= -one /\ v <= one)

\* --- samples -----------------------------------------------------------------
\* the unit of a sample type
OneOf(d) == IF d.fl THEN 4096 ELSE Pow2(d.bits) - 1
\* 2^e * m in units of 1/4096
Scaled(m, e) ==
  LET k == e + 12
  IN IF m = 0 THEN 0
     ELSE IF k >= 0 THEN (IF k > 16 \/ m * Pow2(k) > Limit THEN Odd ELSE m * Pow2(k))
     ELSE IF -k > 30 \/ m % Pow2(-k) # 0 THEN Odd ELSE m \div Pow2(-k)
\* the value of a sample of the given type, from its integer
Value(d, v) ==
  IF ~d.fl THEN Fix(v)
  ELSE LET mb == d.bits - d.exp - 1
           bias == Pow2(d.exp - 1) - 1
           u == v % Pow2(d.bits - 1)
           ex == u \div Pow2(mb)
           m == u % Pow2(mb)
           a == IF ex = 0 THEN Scaled(m, 1 - bias - mb) ELSE Scaled(m + Pow2(mb), ex - bias - mb)
       IN IF a = Odd THEN Odd ELSE IF v >= Pow2(d.bits - 1) THEN -a ELSE a
Planes(h, chs) ==
  LET nc == NumColor(h)
  IN [k \in 1..Len(chs) |-> [w |-> chs[k].w, h |-> chs[k].h,
        px |-> TLCEval([i \in DOMAIN chs[k].px |-> Value(IF k <= nc THEN h.depth ELSE h.ecs[k - nc].depth, chs[k].px[i])])]]

\* --- one pixel ---------------------------------------------------------------
(* Ways to combine an old and a new sample, numbered as for patches:           *)
(* 0 old, 1 new, 2 sum, 3 product, 4 new over old, 5 old over new,             *)
(* 6 old + new * new alpha, 7 new + old * old alpha.                           *)
\* x over y, given their alphas; the alpha of the result
OverAlpha(one, xa, ya) == IF xa = 0 /\ ya = 0 THEN 0 ELSE Minus(one, Prod(one, Minus(one, xa), Minus(one, ya)))
OverSample(one, x, xa, y, ya, assoc) ==
  IF assoc THEN Plus(x, Prod(one, y, Minus(one, xa)))
  ELSE LET na == OverAlpha(one, xa, ya)
       IN IF na = Odd THEN Odd
          ELSE IF na = Faint THEN Odd
          ELSE IF na <= 0 THEN 0
          ELSE IF Abs(na) < 16 /\ ~(Tame(one, x) /\ Tame(one, y) /\ Tame(one, xa) /\ Tame(one, ya)) THEN Odd
          ELSE Over(one, Plus(Prod(one, x, xa), Prod(one, Prod(one, y, ya), Minus(one, xa))), na)
\* bl: [mode, alpha, clamp]; old, new: samples of the channel; oa, na: of the alpha channel it names
Mix(one, bl, old, new, oa, na, assoc, isalpha) ==
  CASE bl.mode = 0 -> old
    [] bl.mode = 1 -> new
    [] bl.mode = 2 -> Plus(old, new)
    [] bl.mode = 3 -> Prod(one, old, Clamped(one, new, bl.clamp))
    [] bl.mode = 4 -> IF isalpha THEN OverAlpha(one, Clamped(one, na, bl.clamp), oa)
                      ELSE OverSample(one, new, Clamped(one, na, bl.clamp), old, oa, assoc)
    [] bl.mode = 5 -> IF isalpha THEN OverAlpha(one, Clamped(one, oa, bl.clamp), na)
                      ELSE OverSample(one, old, Clamped(one, oa, bl.clamp), new, na, assoc)
    [] bl.mode = 6 -> IF isalpha THEN old ELSE Plus(old, Prod(one, new, Clamped(one, na, bl.clamp)))
    [] OTHER -> IF isalpha THEN new ELSE Plus(new, Prod(one, old, Clamped(one, oa, bl.clamp)))
\* Channel k of the combination of two pixels.  old(j), new(j): their samples; blends: colour's, then
\* one for each extra channel.
Pixel(h, one, blends, k, old(_), new(_)) ==
  LET nc == NumColor(h)
      alpha == \E j \in DOMAIN h.ecs : h.ecs[j].ty = 0
      cb == blends[1]
      bl == IF k <= nc THEN cb ELSE blends[k - nc + 1]
      a == nc + bl.alpha + 1
      uses == bl.mode >= 4
      mode == IF k > nc \/ ~uses \/ alpha THEN bl.mode ELSE <<1, 0, 2, 2>>[bl.mode - 3]
      ca == nc + cb.alpha + 1
  IN IF k > nc /\ cb.mode \in {4, 5} /\ alpha /\ k = ca
     \* the colour's blending decides about its alpha channel
     THEN Mix(one, cb, old(k), new(k), old(ca), new(ca), FALSE, TRUE)
     ELSE IF mode < 4 THEN Mix(one, [bl EXCEPT !.mode = mode], old(k), new(k), 0, 0, FALSE, FALSE)
     ELSE Mix(one, bl, old(k), new(k), old(a), new(a), h.ecs[bl.alpha + 1].assoc, k = a)

\* --- patches -----------------------------------------------------------------
\* slots: <<[set, pre, pic]>> by number; pre: saved before the colour transform
PatchesValid(ps, slots, w, hh, nec) ==
  \A i \in DOMAIN ps :
    LET p == ps[i]
    IN /\ p.slot \in 0..3
       /\ LET s == slots[p.slot + 1]
          IN s.set /\ s.pre /\ p.w <= s.pic[1].w - p.x0 /\ p.h <= s.pic[1].h - p.y0
       /\ \A j \in DOMAIN p.at :
            LET q == p.at[j]
            IN /\ q.x >= 0 /\ q.y >= 0 /\ p.w <= w - q.x /\ p.h <= hh - q.y
               /\ \A m \in DOMAIN q.blend : q.blend[m].mode \in 0..7 /\ (nec > 1 => q.blend[m].alpha < nec)
\* One pixel (its samples of all channels) with a patch drawn over it.
DrawPixel(h, one, v, e, x, y) ==
  LET s == (e.p.y0 + y - e.q.y) * e.src[1].w + e.p.x0 + x - e.q.x + 1
  IN TLCEval([k \in 1..Len(v) |-> Pixel(h, one, e.q.blend, k, LAMBDA j : v[j], LAMBDA j : e.src[j].px[s])])
\* The picture with all patches drawn in order.
Draw(h, one, pic, slots, ps) ==
  LET w == pic[1].w
      all == FoldLeft(LAMBDA a, p : a \o [j \in DOMAIN p.at |-> [p |-> p, q |-> p.at[j], src |-> slots[p.slot + 1].pic]], <<>>, ps)
      rows == TLCEval([y \in 0..(pic[1].h - 1) |-> SelectSeq(all, LAMBDA e : y >= e.q.y /\ y < e.q.y + e.p.h)])
      pixel(i) ==
        LET x == (i - 1) % w
            y == (i - 1) \div w
        IN FoldLeft(LAMBDA v, e : IF x >= e.q.x /\ x < e.q.x + e.p.w THEN DrawPixel(h, one, v, e, x, y) ELSE v,
                    [k \in 1..Len(pic) |-> pic[k].px[i]], rows[y])
      drawn == TLCEval([i \in 1..(w * pic[1].h) |-> TLCEval(pixel(i))])
  IN IF ps = <<>> THEN pic ELSE [k \in 1..Len(pic) |-> [pic[k] EXCEPT !.px = [i \in DOMAIN drawn |-> drawn[i][k]]]]

\* --- frames ------------------------------------------------------------------
Empty == [set |-> FALSE, pre |-> FALSE, pic |-> <<>>]
Slots0 == <<Empty, Empty, Empty, Empty>>
FrameMode(bl) == [mode |-> <<1, 2, 4, 6, 3>>[bl.mode + 1], alpha |-> bl.alpha, clamp |-> bl.clamp]
\* The picture a frame leaves on the canvas.
Compose(h, one, f, fg, slots) ==
  LET iw == h.size[1]
      ih == h.size[2]
      nc == NumColor(h)
      of(k) == IF k <= nc THEN f.blend ELSE f.ecblend[k - nc]
      old(k, i) == LET s == slots[of(k).src + 1]
                   IN IF ~s.set THEN 0 ELSE s.pic[k].px[((i - 1) \div iw) * s.pic[k].w + ((i - 1) % iw) + 1]
      bls == <<FrameMode(f.blend)>> \o [k \in 1..Len(f.ecblend) |-> FrameMode(f.ecblend[k])]
      px(k, i) ==
        LET x == ((i - 1) % iw) - f.x0
            y == ((i - 1) \div iw) - f.y0
        IN IF x < 0 \/ y < 0 \/ x >= fg[1].w \/ y >= fg[1].h THEN old(k, i)
           ELSE Pixel(h, one, bls, k, LAMBDA j : old(j, i), LAMBDA j : fg[j].px[y * fg[j].w + x + 1])
  IN [k \in 1..Len(fg) |-> [w |-> iw, h |-> ih, px |-> TLCEval([i \in 1..(iw * ih) |-> px(k, i)])]]
Blends(f) == f.crop \/ f.blend.mode # 0 \/ \E k \in DOMAIN f.ecblend : f.ecblend[k].mode # 0
Sources(f) == {f.blend.src} \cup {f.ecblend[k].src : k \in DOMAIN f.ecblend}
\* a: [slots, shown, ok]; r: a frame as ReadFrame yields it
StepFrame(h, one, a, r) ==
  LET f == r.f
      raw == TLCEval(Planes(h, r.chs))
      good == r.ok /\ PatchesValid(r.patches, a.slots, raw[1].w, raw[1].h, Len(h.ecs))
      fg == TLCEval(Draw(h, one, raw, a.slots, r.patches))
      small == \E s \in Sources(f) : LET x == a.slots[s + 1]
                                     IN x.set /\ (x.pic[1].w < h.size[1] \/ x.pic[1].h < h.size[2])
      canvas == TLCEval(IF Regular(f.type) /\ Blends(f) THEN Compose(h, one, f, fg, a.slots) ELSE fg)
      saved == IF ~f.ref THEN a.slots
               ELSE [a.slots EXCEPT ![f.save + 1] = [set |-> TRUE, pre |-> f.before, pic |-> IF f.before THEN fg ELSE canvas]]
  IN IF ~a.ok THEN a
     ELSE IF f.type = 1 THEN [a EXCEPT !.ok = r.ok]
     ELSE IF ~good \/ (Regular(f.type) /\ Blends(f) /\ small) THEN [a EXCEPT !.ok = FALSE]
     ELSE [slots |-> saved, ok |-> TRUE, shown |-> IF Visible(f) THEN Append(a.shown, canvas) ELSE a.shown]
\* The pictures of all visible frames; ok = FALSE: a frame after the last of them cannot be decoded.
Show(img) ==
  FoldLeft(LAMBDA a, r : TLCEval(StepFrame(img.h, OneOf(img.h.depth), a, r)), [slots |-> Slots0, shown |-> <<>>, ok |-> TRUE],
           img.frames)

\* --- orientation -------------------------------------------------------------
\* The plane as it is displayed; o counts from 0, as coded.
Orient(p, o) ==
  LET w == IF o >= 4 THEN p.h ELSE p.w
      hh == IF o >= 4 THEN p.w ELSE p.h
      at(x, y) ==
        CASE o = 0 -> <<x, y>>
          [] o = 1 -> <<p.w - 1 - x, y>>
          [] o = 2 -> <<p.w - 1 - x, p.h - 1 - y>>
          [] o = 3 -> <<x, p.h - 1 - y>>
          [] o = 4 -> <<y, x>>
          [] o = 5 -> <<y, p.h - 1 - x>>
          [] o = 6 -> <<p.w - 1 - y, p.h - 1 - x>>
          [] OTHER -> <<p.w - 1 - y, x>>
  IN [w |-> w, h |-> hh, px |-> [i \in 1..(w * hh) |-> LET q == at((i - 1) % w, (i - 1) \div w)
                                                      IN p.px[q[2] * p.w + q[1] + 1]]]
===============================================================================
