----------------------------- MODULE Scheduler -----------------------------
(* How the picture is put together from groups that finish in any order and *)
(* at the same time.                                                        *)
(*                                                                          *)
(* The picture of W x H groups is cut into (2W+1) x (2H+1) cells: the inner *)
(* part of every group (odd, odd), the strips along the edges between two   *)
(* groups, and the corners between four.  The last of the groups around a   *)
(* cell to be ready draws it, from its own samples and from copies of the   *)
(* others' border samples.  A frame is drawn in rounds (a round is a call   *)
(* with new bytes, or a flush); a group may take part in several rounds as  *)
(* its passes arrive, and is complete after the last one.                   *)
(*                                                                          *)
(* Every transition below is one shared-memory access of a worker.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, H, MaxRounds,
          Fine,        \* TRUE: the eight counters are visited one at a time
          Whole        \* TRUE: every round contains all incomplete groups
Groups == (0..W-1) \X (0..H-1)
Cells  == (0..2*W) \X (0..2*H)
Centre(g) == <<2*g[1]+1, 2*g[2]+1>>
Near(d) == d \in {-1, 0, 1}
Around(g) == {c \in Cells : Near(c[1] - Centre(g)[1]) /\ Near(c[2] - Centre(g)[2])}
Owners(c) == {g \in Groups : c \in Around(g)}
Edge(g) == Around(g) \ {Centre(g)}
\* The order in which the counters of a group are visited.
Order(g) == LET x == Centre(g)[1] y == Centre(g)[2] IN
  << <<x-1,y-1>>, <<x,y-1>>, <<x+1,y-1>>, <<x-1,y>>, <<x+1,y>>, <<x-1,y+1>>, <<x,y+1>>, <<x+1,y+1>> >>
Clamp(v, m) == IF v < 0 THEN 0 ELSE IF v > m THEN m ELSE v
\* The nine groups (with repetitions at the edges) that are told that g is complete.
Told(g) == [k \in 1..9 |-> <<Clamp(g[1] - 1 + ((k-1) % 3), W-1), Clamp(g[2] - 1 + ((k-1) \div 3), H-1)>>]

VARIABLES round, pc, k, mine, ready, left, told, ver, data, border, bver, complete, todo, image, drawn
vars == <<round, pc, k, mine, ready, left, told, ver, data, border, bver, complete, todo, image, drawn>>

Init == /\ round = 0
        /\ pc = [g \in Groups |-> "idle"] /\ k = [g \in Groups |-> 0] /\ mine = [g \in Groups |-> {}]
        /\ ready = [g \in Groups |-> FALSE]
        /\ left = [c \in Cells |-> Cardinality(Owners(c))]       \* owners that are not ready yet
        /\ told = [g \in Groups |-> 0]
        /\ ver = [g \in Groups |-> 0] /\ data = [g \in Groups |-> 0]
        /\ border = [g \in Groups |-> "none"] /\ bver = [g \in Groups |-> 0]
        /\ complete = [g \in Groups |-> FALSE] /\ todo = {}
        /\ image = [c \in Cells |-> <<>>] /\ drawn = [c \in Cells |-> 0]

Quiet == todo = {} /\ \A g \in Groups : pc[g] = "idle"
\* A new round: the groups of S get new passes, those of F their last one.  The groups that were
\* ready become not ready again, before any worker starts.
Round(S, F) ==
  /\ Quiet /\ round < MaxRounds /\ S # {} /\ F \subseteq S
  /\ \A g \in S : ~complete[g]
  /\ Whole => S = {g \in Groups : ~complete[g]}
  /\ round + 1 = MaxRounds => F = S /\ S = {g \in Groups : ~complete[g]}
  /\ round' = round + 1 /\ todo' = S
  /\ complete' = [g \in Groups |-> complete[g] \/ g \in F]
  /\ LET again == {g \in S : ready[g]} IN
     /\ ready' = [g \in Groups |-> ready[g] /\ g \notin S]
     /\ left' = [c \in Cells |-> left[c] + IF \E g \in again : c = Centre(g) THEN 0 ELSE Cardinality(Owners(c) \cap again)]
  /\ drawn' = [c \in Cells |-> 0]
  /\ UNCHANGED <<pc, k, mine, told, ver, data, border, bver, image>>

Start(g) == /\ g \in todo /\ pc[g] = "idle"
            /\ todo' = todo \ {g} /\ pc' = [pc EXCEPT ![g] = "write"]
            /\ ver' = [ver EXCEPT ![g] = @ + 1] /\ data' = [data EXCEPT ![g] = ver[g] + 1]
            /\ border' = [border EXCEPT ![g] = "writing"]
            /\ UNCHANGED <<round, k, mine, ready, left, told, bver, complete, image, drawn>>
Wrote(g) == /\ pc[g] = "write"
            /\ border' = [border EXCEPT ![g] = "there"] /\ bver' = [bver EXCEPT ![g] = ver[g]]
            /\ ready' = [ready EXCEPT ![g] = TRUE]
            /\ pc' = [pc EXCEPT ![g] = "mark"] /\ k' = [k EXCEPT ![g] = 1]
            /\ mine' = [mine EXCEPT ![g] = {Centre(g)}]
            /\ UNCHANGED <<round, left, told, ver, data, complete, todo, image, drawn>>
Mark(g) == /\ pc[g] = "mark"
           /\ IF Fine
              THEN LET c == Order(g)[k[g]] IN
                   /\ left' = [left EXCEPT ![c] = @ - 1]
                   /\ mine' = [mine EXCEPT ![g] = @ \cup IF left[c] = 1 THEN {c} ELSE {}]
                   /\ k' = [k EXCEPT ![g] = @ + 1]
                   /\ pc' = [pc EXCEPT ![g] = IF k[g] = 8 THEN "draw" ELSE "mark"]
              ELSE /\ left' = [c \in Cells |-> IF c \in Edge(g) THEN left[c] - 1 ELSE left[c]]
                   /\ mine' = [mine EXCEPT ![g] = @ \cup {c \in Edge(g) : left[c] = 1}]
                   /\ k' = k /\ pc' = [pc EXCEPT ![g] = "draw"]
           /\ UNCHANGED <<round, ready, told, ver, data, border, bver, complete, todo, image, drawn>>
Draw(g) == /\ pc[g] = "draw"
           /\ image' = [c \in Cells |-> IF c \in mine[g]
                          THEN [o \in Owners(c) |-> IF o = g THEN data[g] ELSE bver[o]] ELSE image[c]]
           /\ drawn' = [c \in Cells |-> drawn[c] + IF c \in mine[g] THEN 1 ELSE 0]
           /\ data' = [data EXCEPT ![g] = 0]
           /\ pc' = [pc EXCEPT ![g] = IF complete[g] THEN "tell" ELSE "idle"]
           /\ k' = [k EXCEPT ![g] = 1]
           /\ UNCHANGED <<round, mine, ready, left, told, ver, border, bver, complete, todo>>
\* A complete group tells its neighbourhood; whoever was told nine times lets its borders go.
TellAll(g) == /\ pc[g] = "tell" /\ ~Fine
              /\ LET n(o) == Cardinality({j \in 1..9 : Told(g)[j] = o}) IN
                 /\ told' = [o \in Groups |-> told[o] + n(o)]
                 /\ border' = [o \in Groups |-> IF told[o] < 9 /\ told[o] + n(o) >= 9 THEN "none" ELSE border[o]]
              /\ pc' = [pc EXCEPT ![g] = "idle"]
              /\ UNCHANGED <<round, k, mine, ready, left, ver, data, bver, complete, todo, image, drawn>>
Tell(g) == /\ pc[g] = "tell" /\ Fine
           /\ LET o == Told(g)[k[g]] IN
              /\ told' = [told EXCEPT ![o] = @ + 1]
              /\ border' = [border EXCEPT ![o] = IF told[o] = 8 THEN "none" ELSE @]
           /\ k' = [k EXCEPT ![g] = @ + 1]
           /\ pc' = [pc EXCEPT ![g] = IF k[g] = 9 THEN "idle" ELSE "tell"]
           /\ UNCHANGED <<round, mine, ready, left, ver, data, bver, complete, todo, image, drawn>>

Next == \/ \E S \in SUBSET Groups : \E F \in SUBSET S : Round(S, F)
        \/ \E g \in Groups : Start(g) \/ Wrote(g) \/ Mark(g) \/ Draw(g) \/ Tell(g) \/ TellAll(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E g \in Groups : Start(g) \/ Wrote(g) \/ Mark(g) \/ Draw(g) \/ Tell(g) \/ TellAll(g))

----------------------------------------------------------------------------
\* What is read while drawing exists and is not being written; it stays until it was read.
SafeReads == \A g \in Groups : pc[g] = "draw" =>
  /\ data[g] = ver[g]
  /\ \A c \in mine[g] : \A o \in Owners(c) : border[o] = "there" /\ bver[o] = ver[o]
\* No two workers draw the same cell, not even one after the other in the same round.
NoOverlap == /\ \A c \in Cells : drawn[c] <= 1
             /\ \A g, h \in Groups : g # h /\ pc[g] = "draw" /\ pc[h] = "draw" => mine[g] \cap mine[h] = {}
             /\ \A g \in Groups : pc[g] \in {"mark", "draw"} => \A c \in mine[g] : drawn[c] = 0
\* Between the rounds the picture does not depend on the schedule: every cell whose groups are all
\* there shows exactly their newest data; the other cells have not been touched.
Settled == Quiet =>
  /\ \A c \in Cells : image[c] = IF \A g \in Owners(c) : ver[g] > 0 THEN [g \in Owners(c) |-> ver[g]] ELSE <<>>
  /\ \A c \in Cells : left[c] = Cardinality({g \in Owners(c) : ~ready[g] /\ c # Centre(g)}) \/ c \in {Centre(g) : g \in Groups}
\* Memory: nothing is kept once everything is complete.
Released == (Quiet /\ \A g \in Groups : complete[g]) => \A g \in Groups : border[g] = "none" /\ data[g] = 0
Counts == \A c \in Cells : left[c] \in 0..4
Finishes == <>[]Quiet
=============================================================================
