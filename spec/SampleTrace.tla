----------------------------- MODULE SampleTrace -----------------------------
(* Judges recorded decodings of single-frame images: every sample the decoder *)
(* delivered is the one the specification computes from the same bytes.       *)
(* A record: b the codestream, err whether decoding failed, ch the samples of *)
(* each channel (integers).                                                   *)
EXTENDS Codestream, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]
Samples(img) == img.frames[Len(img.frames)].chs
Differs(img) ==
  LET s == Samples(img) IN
  IF Len(s) # Len(Rec.ch) THEN "channels"
  ELSE LET bad == {k \in 1..Len(s) : s[k].px # Rec.ch[k]}
       IN IF bad = {} THEN ""
          ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
                   j == CHOOSE x \in 1..Len(s[k].px) : s[k].px[x] # Rec.ch[k][x] /\ \A y \in 1..(x - 1) : s[k].px[y] = Rec.ch[k][y]
               IN "sample " \o ToString(j - 1) \o " of channel " \o ToString(k - 1) \o " should be "
                  \o ToString(s[k].px[j]) \o ", not " \o ToString(Rec.ch[k][j])
\* Large images that failed are only read up to their plan: header, sections, trees and transforms.
Big == LET pre == TLCEval(ReadPreamble(Rec.b)) IN pre.h.size[1] * pre.h.size[2] > 20000
Planned == LET pre == TLCEval(ReadPreamble(Rec.b)) IN pre.ok /\ LET pl == Plan(Rec.b, pre.p, pre.h, pre.h.size) IN pl.toc.ok /\ pl.pat.ok /\ pl.glob.ok
Exact ==
  IF Rec.err # "" /\ Big
  THEN IF Planned THEN "a valid image is rejected: " \o Rec.err ELSE "UNSOUND the specification cannot read this file"
  ELSE
  LET img == TLCEval(ReadImage(Rec.b))
      ok == img.ok /\ \A k \in DOMAIN img.frames : img.frames[k].ok
  IN IF ~ok THEN "UNSOUND the specification cannot read this file"
     ELSE IF Rec.err # "" THEN "a valid image is rejected: " \o Rec.err
     ELSE Differs(img)
Fits == LET pre == TLCEval(ReadPreamble(Rec.b)) IN Plan(Rec.b, pre.p, pre.h, pre.h.size).fit
Verdict == IF Rec.err = "UnsupportedTransformGrid" /\ ~Fits THEN "FINDING transform-grid" ELSE Exact
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
