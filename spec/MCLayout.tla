------------------------------ MODULE MCLayout ------------------------------
(* The physical layout of given files: for every frame where it starts, where *)
(* its table of contents starts (a bit) and which bytes each of its sections  *)
(* occupies.  The harness lays the same sections out in other orders: what a  *)
(* picture is must not depend on it (and its deliveries can be cut anywhere). *)
(* Invariant: a layout can be moved -- the sections tile the frame, so that   *)
(* every permutation of them is a frame of the same length.                   *)
EXTENDS Codestream, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, p, head, frames, st
vars == <<i, p, head, frames, st>>
Init ==
  /\ i \in 1..Len(Cases)
  /\ frames = <<>>
  /\ head = TLCEval(ReadPreamble(Cases[i].b))
  /\ p = head.p
  /\ st = IF head.ok /\ head.h.preview = <<>> /\ head.h.nec <= 256 THEN "walk" ELSE "not understood"
Frame(b, h) ==
  LET fh == TLCEval(ReadFrameHeader(b, p, h, h.size))
      toc == TLCEval(ReadToc(b, fh.p, fh.v))
  IN [start |-> p \div 8, bit |-> fh.p, sec |-> toc.sec, end |-> toc.end, first |-> toc.start, last |-> fh.v.last,
      vis |-> Visible(fh.v), fits |-> fh.p <= 8 * Len(b) /\ toc.ok /\ toc.end <= Len(b)]
Next ==
  /\ st = "walk"
  /\ LET b == Cases[i].b
         f == TLCEval(Frame(b, head.h))
         v == [file |-> Cases[i].name, info |-> head.p \div 8, frames |-> Append(frames, f)]
     IN IF ~f.fits THEN st' = "not understood" /\ UNCHANGED <<p, frames>>
        ELSE /\ frames' = Append(frames, f)
             /\ p' = 8 * f.end
             /\ st' = IF f.last THEN "done" ELSE "walk"
             /\ IF f.last THEN PrintT(<<"CASE", ToJson(v)>>) ELSE TRUE
  /\ UNCHANGED <<i, head>>
Spec == Init /\ [][Next]_vars
Span(s) == s[1]..(s[1] + s[2] - 1)
Tiles(f) ==
  LET n == Len(f.sec)
      ends == {f.sec[k][1] + f.sec[k][2] : k \in 1..n}
  IN /\ FoldLeft(LAMBDA a, s : a + s[2], 0, f.sec) = f.end - f.first
     /\ \A k \in 1..n : f.sec[k][1] \in ends \cup {f.first}
Movable == frames # <<>> => Tiles(frames[Len(frames)])
=============================================================================
