------------------------------ MODULE IccTrace -------------------------------
(* Judges what the decoder made of embedded colour profiles.  A record: b the *)
(* codestream, out what came of it before the first frame ("icc", "more", or  *)
(* the error), icc the profile's bytes.  Streams the format does not allow    *)
(* (tables, symbols, commands) must be refused; the others must yield exactly *)
(* the profile the specification computes.                                    *)
EXTENDS Codestream, Icc, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l
Rec == Cases[i]
FirstDiff(x, y) == CHOOSE k \in 1..(MinOf(Len(x), Len(y)) + 1) : (k > Len(x) \/ k > Len(y) \/ x[k] # y[k]) /\ \A j \in 1..(k - 1) : x[j] = y[j]
Want(pr, got) ==
  IF pr.odd THEN ""
  ELSE IF ~pr.ok THEN (IF got = "icc" THEN "a profile the format does not allow is accepted" ELSE "")
  ELSE IF got # "icc" THEN "a valid profile is rejected: " \o got
  ELSE IF pr.v = Rec.icc THEN ""
  ELSE "profile differs at byte " \o ToString(FirstDiff(pr.v, Rec.icc) - 1) \o " (" \o ToString(Len(Rec.icc)) \o " of "
       \o ToString(Len(pr.v)) \o " bytes)"
Verdict ==
  LET fh == TLCEval(ReadFileHeader(Rec.b))
      len == U64Set(Rec.b, fh.p)
      st == TLCEval(ReadIccStream(Rec.b, fh.p))
      refuse(why) == IF Rec.out = "icc" THEN why ELSE ""
  IN IF Rec.out = "panic" THEN "panic"
     ELSE IF ~fh.v.color.icc THEN "UNSOUND no profile"
     ELSE IF \E k \in len.v : k > 11
     THEN (IF \E k \in len.v : k > 28 THEN refuse("a profile of more than 2^28 bytes is accepted") ELSE "")
     ELSE IF st.code.q THEN ""
     ELSE IF ~st.code.ok THEN refuse("a code the format does not allow is accepted")
     ELSE IF st.q THEN ""
     ELSE IF st.p > 8 * Len(Rec.b) THEN refuse("a truncated profile is accepted")
     ELSE IF Small(Rec.b, st.p, Align(st.p) - st.p) # 0 THEN refuse("padding that is not zero is accepted")
     ELSE IF ~st.ok THEN refuse("a damaged profile stream is accepted")
     ELSE Want(TLCEval(Profile(st.v)), Rec.out)
Init == i \in 1..Len(Cases) /\ l = 0
Next ==
  /\ l = 0
  /\ l' = 1
  /\ LET v == Verdict IN IF v = "" THEN TRUE ELSE PrintT(<<"BAD", i, 1, v>>)
  /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, l>>
=============================================================================
