------------------------------ MODULE OutputTrace ------------------------------
(* Judges what recorded decodings wrote into their buffers.  A record: b the   *)
(* codestream, fmt the formats asked for, spot and premul the options, err why *)
(* decoding stopped, frames for each call to decode a frame the buffers given  *)
(* to it (the last one may have failed), as they were afterwards.  With eff    *)
(* the specification does not compute the picture (filters, upsampling, noise) *)
(* but takes it from base: the floats the same file without its orientation    *)
(* was decoded to.                                                             *)
EXTENDS Output, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]
Guard == 165
Verdict ==
  LET img == TLCEval(IF Rec.eff THEN [ok |-> TRUE, h |-> ReadFileHeader(Rec.b).v, frames |-> <<>>] ELSE ReadImage(Rec.b))
      h == img.h
      sh == TLCEval(IF Rec.eff THEN [ok |-> Rec.base # <<>>, shown |-> Rec.base] ELSE Show(img))
      one == OneOf(h.depth)
      want == Buffers(h, Rec.fmt)
      vis == SelectSeq(img.frames, LAMBDA r : r.f.type # 1 /\ Visible(r.f))
      loose(k) == IF Rec.eff THEN FALSE ELSE Blends(vis[k].f) \/ vis[k].patches # <<>> \/ (Rec.spot /\ Spots(h) # {})
      fits(fr) == Len(fr) = Len(want) /\ \A j \in DOMAIN fr : Fits(h, want[j], fr[j])
      misfit == \E k \in DOMAIN Rec.frames : ~fits(Rec.frames[k])
      refuse == Rec.fmt.data # <<>> /\ IsGray(Rec.fmt.color) /\ NumColor(h) = 3
      open == Rec.fmt.data = <<>> /\ IsGray(Rec.fmt.color) /\ NumColor(h) = 3
      a == FirstAlpha(h)
      \* the same alpha in two buffers, not both with floats
      twice == /\ Rec.fmt.data # <<>> /\ HasAlpha(Rec.fmt.color) /\ a # 0 /\ Rec.fmt.ec[a] # <<>>
               /\ ~(Rec.fmt.data[1].kind = 3 /\ Rec.fmt.ec[a][1].kind = 3)
      done == IF Rec.err = "" THEN Len(Rec.frames) ELSE Len(Rec.frames) - 1
      outside == \E k \in DOMAIN Rec.frames : \E j \in DOMAIN Rec.frames[k] :
                   LET g == Rec.frames[k][j] IN \E q \in DOMAIN g.m : Outside(g, q) /\ g.m[q] # Guard
      bad(k) ==
        LET fr == TLCEval(IF Rec.eff THEN FromBase(h, Rec.base[k], Rec.spot, Rec.premul, Rec.fmt.color)
                           ELSE Fractions(h, one, sh.shown[k], Rec.spot, Rec.premul, Rec.fmt.color))
            why == [j \in DOMAIN want |-> BufferDiffers(h, want[j], fr, loose(k), Rec.frames[k][j], Guard)]
            js == {j \in DOMAIN want : why[j] # ""}
        IN IF js = {} THEN "" ELSE LET j == CHOOSE x \in js : \A y \in js : x <= y IN "buffer " \o ToString(j - 1) \o ": " \o why[j]
      ks == {k \in 1..MinOf(done, Len(sh.shown)) : bad(k) # ""}
  IN CASE Rec.err = "panic" -> "panic"
       [] ~img.ok -> "UNSOUND the specification cannot read this file"
       [] outside -> "bytes outside the rows of a buffer are written"
       [] misfit /\ Rec.err = "" -> "buffers of the wrong size or number are accepted"
       [] refuse /\ Rec.err = "" -> "gray output of a colour image"
       [] twice /\ Rec.why = "PipelineChannelTypeMismatch" -> "FINDING alpha-twice"
       [] Rec.err # "" -> (IF misfit \/ refuse \/ open \/ ~sh.ok THEN "" ELSE "refused: " \o Rec.err)
       [] ks # {} -> LET k == CHOOSE x \in ks : \A y \in ks : x <= y IN "frame " \o ToString(k - 1) \o " " \o bad(k)
       [] Len(Rec.frames) # Len(sh.shown) /\ ~(Rec.eff /\ Rec.base = <<>>) -> "number of frames"
       [] OTHER -> ""
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
