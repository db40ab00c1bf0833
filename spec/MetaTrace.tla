------------------------------ MODULE MetaTrace -------------------------------
(* Judges what the decoder says about an image before its pixels: the image   *)
(* header and, for files walked without decoding, the frames.  A record: b    *)
(* the file, out what came of opening it ("info", "more" or the error), got   *)
(* the information reported.  With frames: end, how the walk ended, heads and *)
(* scans, the frames announced and listed.  must: the file is undamaged,      *)
(* though perhaps cut.                                                        *)
EXTENDS Codestream, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]

\* --- what the format allows in an image header --------------------------------
FiniteF(x) == x[1] % 32768 < 18304
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])   \* of floats that are not negative
Negative(x) == x[1] > 32768 \/ (x[1] = 32768 /\ x[2] > 0)
DepthOk(d) == IF d.fl THEN d.exp \in 2..8 /\ d.bits - d.exp - 1 \in 2..23 ELSE d.bits <= 31
EcOk(e) == e.ty <= 16 /\ DepthOk(e.depth) /\ e.shift <= 3 /\ \A k \in DOMAIN e.spot : FiniteF(e.spot[k])
ToneOk(t) == /\ FiniteF(t.target) /\ FiniteF(t.min) /\ FiniteF(t.below)
             /\ ~Negative(t.target) /\ t.target # <<0, 0>>
             /\ ~Negative(t.min) /\ (t.min = <<32768, 0>> \/ ~Less(t.target, t.min))
             /\ ~Negative(t.below) /\ (t.rel /\ t.below # <<32768, 0>> => ~Less(<<16256, 0>>, t.below))
ColorOk(c) == /\ c.space <= 3 /\ c.white \in {1, 2, 10, 11} /\ c.prim \in {1, 2, 9, 11}
              /\ c.tf \in {1, 8, 13, 16, 17, 18} /\ c.intent <= 3
              /\ c.hasg => c.gamma >= 1221 /\ c.gamma <= 10000000
HeaderOk(h) == h.nec <= 256 /\ DepthOk(h.depth) /\ (\A k \in DOMAIN h.ecs : EcOk(h.ecs[k])) /\ ToneOk(h.tone) /\ ColorOk(h.color)
\* Well-formed UTF-8.  Names that are not are open.
RECURSIVE Utf8(_, _)
Utf8(s, k) ==
  LET c(j) == IF k + j <= Len(s) THEN s[k + j] ELSE 0
      tail(n) == \A j \in 1..n : c(j) \in 128..191
  IN IF k > Len(s) THEN TRUE
     ELSE CASE s[k] < 128 -> Utf8(s, k + 1)
            [] s[k] \in 194..223 -> tail(1) /\ Utf8(s, k + 2)
            [] s[k] \in 224..239 -> /\ tail(2) /\ Utf8(s, k + 3)
                                    /\ ~(s[k] = 224 /\ c(1) < 160) /\ ~(s[k] = 237 /\ c(1) >= 160)
            [] s[k] \in 240..244 -> /\ tail(3) /\ Utf8(s, k + 4)
                                    /\ ~(s[k] = 240 /\ c(1) < 144) /\ ~(s[k] = 244 /\ c(1) >= 144)
            [] OTHER -> FALSE
Text(s) == Utf8(s, 1)
\* Headers the format leaves open, or the decoder does not undertake to read.
HeaderOpen(h) == \/ \E k \in DOMAIN h.ecs : h.ecs[k].ty \in 7..14 \/ ~Text(h.ecs[k].name)
                 \/ h.color.space \in {2, 3}
                 \/ h.color.hasg /\ h.color.gamma = 10000000
                 \/ <<32768, 0>> \in {h.tone.min, h.tone.below}
                 \/ h.size[2] > 536870912

\* --- what is reported ---------------------------------------------------------
Oriented(s, o) == IF o >= 4 THEN <<s[2], s[1]>> ELSE s
Differs(h, g) ==
  LET c == h.color
      p == g.prof
  IN CASE g.size # Oriented(h.size, h.o) -> "image size"
       [] g.o # h.o + 1 -> "orientation"
       [] g.depth # h.depth -> "bit depth"
       [] g.ecs # [k \in DOMAIN h.ecs |-> [ty |-> h.ecs[k].ty, assoc |-> h.ecs[k].assoc]] -> "extra channels"
       [] (g.anim = None) # (h.anim = None) -> "animation"
       [] g.anim # None /\ g.anim # h.anim -> "animation parameters"
       [] g.orig # ~h.xyb -> "use of the original profile"
       [] g.tone # h.tone -> "tone mapping"
       [] g.preview # h.preview -> "preview size"
       [] p.icc # c.icc -> "kind of colour profile"
       [] p.icc -> ""
       [] p.space # c.space -> "colour space"
       [] p.white # c.white \/ p.wxy # c.wxy -> "white point"
       [] p.prim # c.prim \/ p.pxy # c.pxy -> "primaries"
       [] p.tf # (IF c.hasg THEN 0 ELSE c.tf) -> "transfer function"
       [] c.hasg /\ Abs(p.gamma - c.gamma) > 1 -> "gamma"
       [] p.intent # c.intent -> "rendering intent"
       [] OTHER -> ""
\* The transform data are not reported; with values of their own they may be refused.
Custom(h) == ~Bit(Rec.b, h.tp)
Opened(fh) ==
  LET h == fh.v
      refuse(why) == IF Rec.out = "info" THEN why ELSE ""
  IN IF ~fh.ok THEN refuse("a file without signature is opened")
     ELSE IF h.nec > 256 THEN refuse("too many extra channels are accepted")
     ELSE IF fh.p > 8 * Len(Rec.b)
     THEN (IF Rec.must /\ Rec.out # "more" THEN "part of a valid header is answered with " \o Rec.out
           ELSE refuse("an incomplete header is accepted"))
     ELSE IF ~HeaderOk(h) THEN refuse("a header the format does not allow is accepted")
     ELSE IF HeaderOpen(h) THEN ""
     ELSE IF h.color.icc \/ Custom(h) THEN (IF Rec.out = "info" THEN Differs(h, Rec.got) ELSE "")
     ELSE IF Small(Rec.b, fh.p, Align(fh.p) - fh.p) # 0 THEN refuse("padding that is not zero is accepted")
     ELSE IF Rec.out # "info" THEN "a valid header is answered with " \o Rec.out
     ELSE Differs(h, Rec.got)

\* --- frames -------------------------------------------------------------------
UsesAlpha(bl) == bl.mode \in {2, 3}
PassesOk(ps) == /\ Len(ps.ds) < ps.num \/ ps.num = 1
                /\ \A k \in 2..Len(ps.ds) : ps.ds[k] < ps.ds[k - 1] /\ ps.last[k] > ps.last[k - 1]
                /\ \A k \in DOMAIN ps.last : ps.last[k] < ps.num
FrameOk(f, h) ==
  LET nec == Len(h.ecs)
      bls == <<f.blend>> \o f.ecblend
  IN /\ \A k \in DOMAIN bls : bls[k].mode <= 4 /\ (UsesAlpha(bls[k]) /\ nec > 0 => bls[k].alpha < nec)
     /\ f.ups > 1 => \A k \in 1..nec : LET u == f.ecups[k] * Pow2(h.ecs[k].shift) IN u >= f.ups /\ u <= 8
     /\ ~(5 \in f.flags /\ f.lflevel >= 4)
     /\ PassesOk(f.passes)
     /\ ~(f.type = 2 /\ ~f.before /\ ~f.whole)
     /\ f.filter.finite
FrameOpen(f, h) == \/ ~Text(f.name)
                   \/ 1 \in f.flags /\ f.ups # 1 /\ \E k \in DOMAIN f.ecups : f.ecups[k] # f.ups
                   \/ f.coded[1] > 16384 \/ f.coded[2] > 16384
                   \/ NumSections(f) > 400
\* The frames from p on.  st: "end", "short" (more bytes are needed), "stop" (something is wrong), "open".
RECURSIVE Walk(_, _, _, _, _)
Walk(b, p, h, pv, acc) ==
  LET fh == TLCEval(ReadFrameHeader(b, p, h, IF pv THEN h.preview ELSE h.size))
      f == fh.v
      toc == TLCEval(ReadToc(b, fh.p, f))
      here == IF Visible(f) /\ ~pv
              THEN [acc EXCEPT !.v = Append(@, [name |-> f.name, dur |-> f.dur, at |-> p \div 8, last |-> f.last])]
              ELSE acc
      N == Len(b)
  IN IF fh.p > 8 * N THEN [acc EXCEPT !.st = "short"]
     ELSE IF ~FrameOk(f, h) THEN [acc EXCEPT !.st = "stop"]
     ELSE IF FrameOpen(f, h) THEN [acc EXCEPT !.st = "open"]
     ELSE IF ~toc.ok THEN [acc EXCEPT !.st = IF toc.start > N THEN "short" ELSE "stop"]
     ELSE IF toc.start > N THEN [acc EXCEPT !.st = "short"]
     ELSE IF ~toc.pad THEN [acc EXCEPT !.st = "stop"]
     ELSE IF toc.end > N THEN [here EXCEPT !.st = "short"]
     ELSE IF f.last /\ ~pv THEN [here EXCEPT !.st = "end"]
     ELSE Walk(b, 8 * toc.end, h, pv /\ ~f.last, here)
Announced(h) == [k \in DOMAIN Rec.heads |-> [name |-> Rec.heads[k].name,
                                              dur |-> IF h.anim = None THEN <<0, 0>> ELSE Rec.heads[k].dur]]
Listed == [k \in DOMAIN Rec.scans |-> [name |-> Rec.scans[k].name, dur |-> Rec.scans[k].dur, at |-> Rec.scans[k].at,
                                        last |-> Rec.scans[k].last]]
Walked(h, p) ==
  LET w == TLCEval(Walk(Rec.b, p, h, h.preview # None, [v |-> <<>>, st |-> ""]))
      want == [k \in DOMAIN w.v |-> [name |-> w.v[k].name, dur |-> w.v[k].dur]]
      open == w.st = "open"
      prefix(a, c) == Len(a) <= Len(c) /\ SubSeq(c, 1, Len(a)) = a
  IN CASE open /\ (~prefix(want, Announced(h)) \/ ~prefix(w.v, Listed)) -> "frames are not reported as coded"
       [] open -> ""
       [] w.st = "end" /\ Rec.end # "end" -> "a valid file is answered with " \o Rec.end
       [] w.st # "end" /\ Rec.end = "end" -> "a damaged or incomplete frame is accepted"
       [] w.st = "short" /\ Rec.must /\ Rec.end # "more" -> "an incomplete file is answered with " \o Rec.end
       [] Announced(h) # want -> "frame headers differ"
       [] Listed # w.v -> "the list of frames differs"
       [] \E k \in DOMAIN Rec.heads : Rec.heads[k].size # Oriented(h.size, h.o) -> "frame size"
       [] \E k \in DOMAIN Rec.scans : Rec.scans[k].ms # Rec.scans[k].dur -> "frame duration in milliseconds"
       [] \E k \in DOMAIN Rec.heads : (Rec.heads[k].dur = None) # (h.anim = None) -> "frame duration"
       [] OTHER -> ""
Verdict ==
  LET fh == TLCEval(ReadFileHeader(Rec.b))
      v == Opened(fh)
  IN IF Rec.out = "panic" THEN "panic"
     ELSE IF v # "" \/ ~Rec.frames \/ Rec.out # "info" THEN v
     ELSE IF fh.v.color.icc \/ fh.v.nec > 256 \/ HeaderOpen(fh.v) \/ Custom(fh.v) \/ ~HeaderOk(fh.v) \/ fh.p > 8 * Len(Rec.b)
     THEN "" ELSE Walked(fh.v, Align(fh.p))
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
