------------------------------ MODULE CanvasTrace ------------------------------
(* Judges recorded decodings of films (several frames, blending, patches):     *)
(* every picture delivered is the one the specification composes from the same *)
(* bytes.  A record: b the codestream, err why decoding stopped ("" if it did  *)
(* not), shown the pictures delivered: for each, for each channel, w, h and px *)
(* in units of the sample type (Odd: not such a number).                       *)
EXTENDS Canvas, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]
PlaneDiffers(want, got) ==
  IF want.w # got.w \/ want.h # got.h THEN "size"
  ELSE LET bad == {j \in DOMAIN want.px : want.px[j] # Odd /\ want.px[j] # got.px[j] /\ ~(want.px[j] = Faint /\ got.px[j] = 0)}
       IN IF bad = {} THEN ""
          ELSE LET j == CHOOSE x \in bad : \A y \in bad : x <= y
               IN "sample " \o ToString(j - 1) \o " should be " \o ToString(want.px[j]) \o ", not " \o ToString(got.px[j])
PicDiffers(h, want, got) ==
  IF Len(want) # Len(got) THEN "channels"
  ELSE LET bad == {k \in DOMAIN want : PlaneDiffers(Orient(want[k], h.o), got[k]) # ""}
       IN IF bad = {} THEN ""
          ELSE LET k == CHOOSE x \in bad : \A y \in bad : x <= y
               IN "channel " \o ToString(k - 1) \o " " \o PlaneDiffers(Orient(want[k], h.o), got[k])
Verdict ==
  LET img == TLCEval(ReadImage(Rec.b))
      sh == TLCEval(Show(img))
      n == Len(sh.shown)
      m == MinOf(n, Len(Rec.shown))
      bad == {k \in 1..m : PicDiffers(img.h, sh.shown[k], Rec.shown[k]) # ""}
  IN IF Rec.err = "panic" THEN "panic"
     ELSE IF ~img.ok THEN "UNSOUND the specification cannot read this file"
     ELSE IF bad # {}
     THEN LET k == CHOOSE x \in bad : \A y \in bad : x <= y
          IN "picture " \o ToString(k - 1) \o " " \o PicDiffers(img.h, sh.shown[k], Rec.shown[k])
     ELSE IF sh.ok /\ Rec.err # "" THEN "a valid film is rejected: " \o Rec.err
     ELSE IF ~sh.ok /\ Rec.err = "" THEN "a film with a frame that cannot be drawn is accepted"
     ELSE IF sh.ok /\ Len(Rec.shown) # n THEN "wrong number of pictures"
     ELSE IF Len(Rec.shown) > n THEN "a picture that cannot be drawn is delivered"
     ELSE ""
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
