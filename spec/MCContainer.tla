---------------------------- MODULE MCContainer ----------------------------
(* Exhaustive exploration of box sequences; each maximal sequence is printed *)
(* so that it can be replayed on the decoder.                               *)
EXTENDS Container, TLC, Json, IOUtils
CONSTANTS MaxBoxes, MaxIdx
VARIABLES s, hist

PieceLen == 10
B(t, len, idx, last, good, ver) ==
  [t |-> t, hdr |-> IF t = "ftyp" THEN 16 ELSE IF t = "jxlp" THEN 12 ELSE 8,
   len |-> len, idx |-> idx, last |-> last, good |-> good, ver |-> ver]
Alphabet ==
  {B("ftyp", 4, -1, FALSE, TRUE, v) : v \in {-1, 0, 1, 2}}
  \cup {B("ftyp", 0, -1, FALSE, FALSE, 0)}
  \cup {B("jxlc", l, -1, FALSE, TRUE, 0) : l \in {0, PieceLen, Eof}}
  \cup {B("jxlp", l, i, last, TRUE, 0) : l \in {0, PieceLen, Eof}, i \in 0..MaxIdx, last \in BOOLEAN}
  \cup {B("skip", l, -1, FALSE, TRUE, 0) : l \in {0, PieceLen, Eof}}
  \cup {B("jxlp", 0, 0, FALSE, FALSE, 0), B("skip", 0, -1, FALSE, FALSE, 0), B("jxlc", 0, -1, FALSE, FALSE, 0)}

Init == s = Init0 /\ hist = <<>>
Add(b) == s.st = "box" /\ Len(hist) < MaxBoxes /\ s' = Step(s, b) /\ hist' = Append(hist, b)
Next == \E b \in Alphabet : Add(b)
Spec == Init /\ [][Next]_<<s, hist>>

Emit == (s.st # "box" \/ Len(hist) = MaxBoxes) => PrintT(<<"CASE", ToJson(hist)>>)

----------------------------------------------------------------------------
\* Segments partition the delivered codestream and become available in file order.
Contiguous == \A k \in 1..Len(s.segs) :
                /\ s.segs[k].cs = IF k = 1 THEN 0 ELSE s.segs[k-1].cs + s.segs[k-1].n
                /\ k > 1 => s.segs[k].at >= s.segs[k-1].at
Boxes(t) == {k \in 1..Len(hist) : hist[k].t = t}
NoMixing == s.st # "bad" => ~(Boxes("jxlc") # {} /\ s.cur.k = "jxlp")
\* Nothing is ever held by a version 0 file, and nothing held is also delivered.
HeldOk == /\ s.held # {} => s.ver = 1
          /\ \A h \in s.held : h.idx > s.cur.idx
          /\ \A a, b \in s.held : a.idx = b.idx => a = b
\* The parts are delivered in index order, each once.
InOrder == s.cur.k = "jxlp" => Len(s.segs) = s.cur.idx + 1
\* A complete set of well-formed parts in any order (version 1) or in order (version 0) is
\* delivered completely.
WellFormed ==
  LET P == Boxes("jxlp") IN
  /\ Len(hist) > 0 /\ hist[1].t = "ftyp" /\ hist[1].ver \in {0, 1} /\ hist[1].good
  /\ Boxes("ftyp") = {1} /\ Boxes("jxlc") = {}
  /\ \A k \in 1..Len(hist) : hist[k].good /\ hist[k].len # Eof
  /\ P # {} /\ {hist[k].idx : k \in P} = 0..(Cardinality(P) - 1)
  /\ \A k \in P : hist[k].last <=> hist[k].idx = Cardinality(P) - 1
  /\ hist[1].ver = 0 => \A j, k \in P : j < k => hist[j].idx < hist[k].idx
Delivered == WellFormed => s.st = "done" /\ Len(s.segs) = Cardinality(Boxes("jxlp"))
\* Need is monotone: a longer prefix of the codestream never needs fewer bytes.
NeedMonotone == \A c \in 1..(s.cs - 1) : Need(s, c) <= Need(s, c + 1)
\* A frame start is allowed exactly in boxes that saw all predecessors and no successor.
StartRule == \A c \in 0..(s.cs - 1) :
  StartAllowed(s, c) <=>
    LET g == s.segs[SegOf(s, c)] IN ~g.inj /\ FilePos(s, c) = g.at + c - g.cs
        /\ \A j \in 1..Len(hist) : (hist[j].t = "jxlp" /\ hist[j].idx >= SegOf(s, c)) =>
             \* a later part must be positioned after this one in the file
             LET before == {i \in 1..(j-1) : hist[i].t = "jxlp" /\ hist[i].idx = SegOf(s, c) - 1} IN before # {}
=============================================================================
