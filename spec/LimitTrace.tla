------------------------------ MODULE LimitTrace ------------------------------
(* Judges recorded decodings under a sample limit.  A record: b the file,      *)
(* limit, deep: its frames were decoded too (and not only its header), out how *)
(* decoding ended ("size" for a refusal because of the limit), heads the       *)
(* number of visible frames announced, mem the most memory used, in KiB.       *)
EXTENDS Codestream, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]

Huge == 2147483647
Sat(a, b) == IF a # 0 /\ b > Huge \div a THEN Huge ELSE a * b
Samples(s, nec) == Sat(Sat(s[1], s[2]), 3 + nec)
(* A decoder may count rows as if they had 16 samples at least, and a frame at *)
(* the size it is shown with: between the smallest and the largest count a     *)
(* refusal is open.                                                            *)
Padded(s, nec) == Samples(<<MaxOf(s[1], 16), s[2]>>, nec)
Class(least, most, nec) ==
  IF Samples(least, nec) > Rec.limit THEN "over" ELSE IF Padded(most, nec) > Rec.limit THEN "near" ELSE "in"
\* The first frame that is not within the limit; vis: the visible frames before it.
RECURSIVE Walk(_, _, _, _, _)
Walk(b, p, h, pv, vis) ==
  LET fh == TLCEval(ReadFrameHeader(b, p, h, IF pv THEN h.preview ELSE h.size))
      f == fh.v
      c == Class(f.coded, f.size, Len(h.ecs))
  IN IF fh.p > 8 * Len(b) THEN [st |-> "short", vis |-> vis]
     ELSE IF c # "in" THEN [st |-> c, vis |-> vis]
     ELSE LET toc == TLCEval(ReadToc(b, fh.p, f))
              v == IF Visible(f) /\ ~pv THEN vis + 1 ELSE vis
          IN IF ~toc.ok \/ toc.end > Len(b) THEN [st |-> "short", vis |-> v]
             ELSE IF f.last /\ ~pv THEN [st |-> "end", vis |-> v]
             ELSE Walk(b, 8 * toc.end, h, pv /\ ~f.last, v)
\* Memory grows with the limit, the file and the tables of a decoder, not with what the file announces.
Budget == IF Rec.limit = Huge THEN Huge
          ELSE IF ~Rec.deep THEN 256 + Len(Rec.b) \div 4
          ELSE 6144 + Len(Rec.b) \div 4 + Rec.limit \div 4
Refused(vis) == IF Rec.heads > vis THEN "a frame above the limit is announced"
                ELSE IF Rec.out = "size" /\ Rec.heads < vis THEN "a frame within the limit is refused because of it"
                ELSE IF Rec.out \in {"end", "more", "stop"} THEN "a frame above the limit is not refused"
                ELSE ""
Verdict ==
  LET fh == TLCEval(ReadFileHeader(Rec.b))
      h == fh.v
      nec == Len(h.ecs)
      img == Class(h.size, h.size, nec)
      pre == IF h.preview = <<>> THEN "in" ELSE Class(h.preview, h.preview, nec)
      w == TLCEval(Walk(Rec.b, Align(fh.p), h, h.preview # <<>>, 0))
  IN CASE Rec.out = "panic" -> "panic"
       [] ~fh.ok \/ h.nec > 256 -> "UNSOUND the specification cannot read this header"
       [] Rec.mem > Budget -> "memory beyond what the limit allows: " \o ToString(Rec.mem) \o " KiB"
       [] "over" \in {img, pre} -> (IF Rec.out = "size" /\ Rec.heads = 0 THEN "" ELSE "an image above the limit is answered with " \o Rec.out)
       [] "near" \in {img, pre} -> ""
       [] ~Rec.deep -> (IF Rec.out = "size" THEN "an image within the limit is refused because of it" ELSE "")
       [] w.st = "over" -> Refused(w.vis)
       [] w.st = "near" -> (IF Rec.out = "size" /\ Rec.heads < w.vis THEN "a frame within the limit is refused because of it" ELSE "")
       [] Rec.out = "size" -> "a file within the limit is refused because of it"
       [] OTHER -> ""
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
