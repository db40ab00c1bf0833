------------------------------- MODULE Areas -------------------------------
(* Which samples belong to a cell of Scheduler.tla.  Along one side of the  *)
(* picture (Size samples, groups of G, every output depends on samples up to *)
(* B away), cell 2k+1 is the inner part of group k, cell 2k the part around *)
(* the boundary of the groups k-1 and k.  Samples past the end of a line    *)
(* mirror those before it; while a line is drawn only in part they are not  *)
(* there, whereas whole rows past the end always are (Wide = FALSE).        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxSize, Gs, MaxB
VARIABLES Size, G, B, Wide
Init == Size \in 1..MaxSize /\ G \in Gs /\ B \in 0..MaxB /\ Wide \in BOOLEAN /\ 2 * B <= G
Next == UNCHANGED <<Size, G, B, Wide>>
Spec == Init /\ [][Next]_<<Size, G, B, Wide>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
N == (Size + G - 1) \div G
O(k) == k * G                                \* where group k starts
E(k) == Min((k + 1) * G, Size)                \* and ends
Last(k) == k = N - 1
\* The end of the part that group k shares with its predecessor, and the start of the one it
\* shares with its successor.
Lo(k) == IF Wide /\ Last(k) /\ E(k) - O(k) < 2 * B THEN E(k) ELSE Min(O(k) + B, E(k))
Hi(k) == Max(E(k) - B, Lo(k))
Start(c) == IF c % 2 = 1 THEN Lo(c \div 2) ELSE IF c = 0 THEN 0 ELSE Hi(c \div 2 - 1)
End(c)   == IF c % 2 = 1 THEN Hi(c \div 2) ELSE IF c = 2 * N THEN Size ELSE Lo(c \div 2)
Owners(c) == IF c % 2 = 1 THEN {c \div 2} ELSE {c \div 2 - 1, c \div 2} \cap (0..N-1)
Mirror(x) == IF x < 0 THEN -1 - x ELSE IF x >= Size THEN 2 * Size - 1 - x ELSE x
\* Pictures narrower than the border mirror more than once.
RECURSIVE M(_)
M(x) == IF x \in 0..Size-1 THEN x ELSE M(Mirror(x))

Partition == /\ Start(0) = 0 /\ End(2 * N) = Size
             /\ \A c \in 0..2*N : Start(c) <= End(c) /\ (c > 0 => Start(c) = End(c - 1))
\* Everything that is read belongs to a group that is ready when the cell is drawn, and is among
\* the 2B samples at the side of that group which are kept, or in the group that draws.
Reads(c) == {M(x) : x \in (Start(c) - B)..(End(c) - 1 + B)}
OwnersOnly == \A c \in 0..2*N : Start(c) < End(c) => \A x \in Reads(c) :
                (x \div G) \in Owners(c)
Kept == \A c \in 0..2*N : Start(c) < End(c) => \A x \in Reads(c) : \A d \in Owners(c) :
          LET k == x \div G IN k # d => (x < O(k) + 2 * B \/ x >= E(k) - 2 * B)
\* Areas that do not reach the end of a line read nothing past it.
NothingMissing == Wide => \A c \in 0..2*N : Start(c) < End(c) /\ End(c) < Size => End(c) - 1 + B < Size
=============================================================================
