---------------------------- MODULE MCSchedule ----------------------------
(* All ways in which the sections of a frame can arrive: their order in the *)
(* file, where the deliveries are cut, whether the picture is flushed after *)
(* a delivery, and in which order the tasks of a call are started.  Every   *)
(* complete script is printed and replayed on the decoder.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NG, NP, MaxRounds, Orders
VARIABLES rest, rounds, cur
vars == <<rest, rounds, cur>>
Sections == (0..NP-1) \X (0..NG-1)
Init == rest = Sections /\ rounds = <<>> /\ cur = <<>>
Arrive(x) == rest' = rest \ {x} /\ cur' = Append(cur, x) /\ UNCHANGED rounds
EndRound(fl, o) == /\ cur # <<>> /\ (Len(rounds) + 1 < MaxRounds \/ rest = {})
                   /\ rest = {} => ~fl
                   /\ rounds' = Append(rounds, [secs |-> cur, flush |-> fl, order |-> o])
                   /\ cur' = <<>> /\ UNCHANGED rest
Next == (\E x \in rest : Arrive(x)) \/ (\E fl \in BOOLEAN, o \in Orders : EndRound(fl, o))
Spec == Init /\ [][Next]_vars
Complete == rest = {} /\ cur = <<>>

\* The passes of a group are decoded in order: a pass waits for the ones before it.
Arrived(n) == UNION {{rounds[i].secs[j] : j \in 1..Len(rounds[i].secs)} : i \in 1..n}
Passes(n, g) == LET A == Arrived(n) IN
  CHOOSE p \in 0..NP : (\A q \in 0..p-1 : <<q, g>> \in A) /\ (p = NP \/ <<p, g>> \notin A)
\* Groups whose pixels a flush after delivery n may show in their final form, and the set that is
\* newly decoded by it: every group gets complete exactly once.
Final(n) == {g \in 0..NG-1 : Passes(n, g) = NP}
Monotone == \A n \in 1..Len(rounds) : Final(n-1) \subseteq Final(n) /\ \A g \in 0..NG-1 : Passes(n-1, g) <= Passes(n, g)
AllDone == Complete => Final(Len(rounds)) = 0..NG-1
Emit == Complete => PrintT(<<"CASE", ToJson(rounds)>>)
=============================================================================
