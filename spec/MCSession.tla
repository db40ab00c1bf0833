----------------------------- MODULE MCSession -----------------------------
(* All short films over an alphabet of frame kinds, and what a caller does   *)
(* with each visible frame.  Checked here: the dataflow of reference slots   *)
(* makes decoding in order exact, and two rules for where to start decoding  *)
(* when seeking are sound.  Every film is printed and replayed.              *)
EXTENDS Session, TLC, Json, SequencesExt
CONSTANTS MaxFrames,   \* frames of a film
          UsedSlots,   \* slots that occur
          Acts         \* what is done with a visible frame: "d" decode, "s" skip
VARIABLES frames, acts, kinds
vars == <<frames, acts, kinds>>

None == -1
\* A frame: ty 0 regular, 2 reference only; vis; saves; blend source; patch source.
Kinds(last, before) ==
  LET src == {None} \cup UsedSlots
      pat == {None} \cup before
      reg(vis, s) == {[ty |-> 0, vis |-> vis, saves |-> s, blend |-> b, patch |-> p] : b \in src, p \in pat}
  IN IF last THEN reg(TRUE, None)
     ELSE reg(TRUE, None) \cup UNION {reg(TRUE, s) : s \in UsedSlots \ {0}}
          \cup UNION {reg(FALSE, s) : s \in UsedSlots}
          \cup {[ty |-> 2, vis |-> FALSE, saves |-> s, blend |-> None, patch |-> None] : s \in UsedSlots}
\* Slots holding a picture patches can be taken from: saved by a reference-only frame.
Before == {s \in UsedSlots : \E i \in DOMAIN kinds : kinds[i].saves = s /\ kinds[i].ty = 2
                                                     /\ \A j \in (i+1)..Len(kinds) : kinds[j].saves # s}
Flow(k, last) == [vis |-> k.vis, last |-> last, saves |-> k.saves, preads |-> SetToSeq({k.patch} \ {None}),
                  reads |-> SetToSeq({k.blend, k.patch} \ {None})]
F == [opaque |-> FALSE, frames |-> frames]

Init == frames = <<>> /\ acts = <<>> /\ kinds = <<>>
Finished == frames # <<>> /\ frames[Len(frames)].last
Add(k, last, a) == /\ frames' = Append(frames, Flow(k, last))
                   /\ kinds' = Append(kinds, k)
                   /\ acts' = IF k.vis THEN Append(acts, a) ELSE acts
Next == /\ ~Finished
        /\ \E last \in BOOLEAN : (Len(frames) + 1 = MaxFrames => last)
           /\ \E k \in Kinds(last, Before) : \E a \in (IF k.vis THEN Acts ELSE {"d"}) : Add(k, last, a)
Spec == Init /\ [][Next]_vars

N == Len(frames)
InOrder == ~AnyInexact(F, EmptySlots, 1, N)
\* The rule of this specification.
SeekSound == \A i \in 1..N : SoundStart(F, SeekStart(F, i), i)
\* The rule the decoder uses: for every slot the earliest frame its contents depend on (patches
\* count as using every slot), and ranges of frames that cannot be entered in the middle.
RECURSIVE Rule(_)
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
Rule(n) ==
  IF n = 0 THEN [slots |-> [s \in Slots |-> 0], ranges |-> {}, start |-> <<>>]
  ELSE LET p == Rule(n - 1)
           f == frames[n]
           used == IF f.preads # <<>> THEN Slots ELSE Rng(f.reads)
           d == MinOf({n} \cup ({p.slots[s] : s \in used} \ {0}))
           \* a frame from the start on that must not be entered in the middle moves the start
           inside == {r \in p.ranges : r[2] >= d}
           st == MinOf({d} \cup {r[1] : r \in inside})
       IN [slots |-> IF f.saves = None THEN p.slots ELSE [p.slots EXCEPT ![f.saves] = st],
           ranges |-> IF f.preads = <<>> THEN p.ranges ELSE (p.ranges \ inside) \cup {<<st, n>>},
           start |-> Append(p.start, st)]
RuleSound == LET r == Rule(N).start IN \A i \in 1..N : SoundStart(F, r[i], i)
Emit == Finished => PrintT(<<"CASE", ToJson([frames |-> kinds, acts |-> acts])>>)
=============================================================================
