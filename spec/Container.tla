----------------------------- MODULE Container -----------------------------
(***************************************************************************)
(* The container layer of a JPEG XL file.                                  *)
(*                                                                         *)
(* A file is either a bare codestream or a signature followed by boxes.    *)
(* The parser state machine below consumes one box header per step and     *)
(* produces the list of segments in which the codestream becomes           *)
(* available.  Everything a caller can observe about a container (which    *)
(* codestream bytes exist once v bytes of the file are present, where a    *)
(* codestream byte sits in the file, when a file is at fault) is derived   *)
(* from that list.                                                         *)
(*                                                                         *)
(* A box is a record                                                       *)
(*   t    "ftyp" | "jxlc" | "jxlp" | "skip"                                *)
(*   hdr  bytes from the start of the box to its content                   *)
(*   len  bytes of content, or Eof: the content extends to the file's end  *)
(*   good FALSE: the declared size is smaller than the header              *)
(*   ver  ftyp: version; -1: wrong brand                                   *)
(*   idx, last  jxlp: sequence number and last flag                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Eof == -1
Inf == 2000000000
SignatureLen == 12
NoBox == [k |-> "none", idx |-> -1, last |-> FALSE]

Init0 == [ver |-> -1,          \* version announced by ftyp; -1: no ftyp seen
          cur |-> NoBox,       \* latest codestream box that became current
          held |-> {},         \* out-of-order jxlp boxes waiting: [idx, last, len]
          segs |-> <<>>,       \* delivered segments of the codestream
          cs |-> 0,            \* codestream bytes delivered by complete segments
          pos |-> SignatureLen,\* file position of the next box
          st |-> "box",        \* "box" | "done" | "open" | "bad"
          bad |-> [from |-> Inf, to |-> Inf]]

\* A bare codestream is one open segment starting at the first byte.
Bare == [Init0 EXCEPT !.st = "open", !.cur = [NoBox EXCEPT !.k = "jxlc"],
                      !.segs = <<[cs |-> 0, n |-> Inf, at |-> 0, inj |-> FALSE, ok |-> TRUE]>>]

Fault(s, from, to) == [s EXCEPT !.st = "bad", !.bad = [from |-> from, to |-> to]]

\* Codestream boxes that can follow the one just completed without reading further.
RECURSIVE Inject(_)
Inject(s) ==
  IF s.cur.k = "jxlc" \/ s.cur.last THEN [s EXCEPT !.st = "done"]
  ELSE LET nxt == {h \in s.held : h.idx = s.cur.idx + 1}
       IN IF nxt = {} THEN s
          ELSE LET h == CHOOSE x \in nxt : TRUE
               IN Inject([s EXCEPT !.cur = [k |-> "jxlp", idx |-> h.idx, last |-> h.last],
                                   !.held = s.held \ {h},
                                   !.segs = Append(s.segs, [cs |-> s.cs, n |-> h.len, at |-> s.pos,
                                                            inj |-> TRUE, ok |-> FALSE]),
                                   !.cs = s.cs + h.len])

\* A codestream box read in order becomes current.
Current(s, b, cur) ==
  LET seg == [cs |-> s.cs, n |-> IF b.len = Eof THEN Inf ELSE b.len, at |-> s.pos + b.hdr,
              inj |-> FALSE, ok |-> s.held = {}]
      t == [s EXCEPT !.cur = cur, !.segs = Append(s.segs, seg)]
  IN IF b.len = Eof THEN [t EXCEPT !.st = "open"]
     ELSE Inject([t EXCEPT !.cs = s.cs + b.len, !.pos = s.pos + b.hdr + b.len])

Pass(s, b) == IF b.len = Eof THEN [s EXCEPT !.st = "open"]
              ELSE [s EXCEPT !.pos = s.pos + b.hdr + b.len]

Hold(s, b) == [Pass(s, b) EXCEPT !.held = s.held \cup {[idx |-> b.idx, last |-> b.last, len |-> b.len]}]

\* One box header is read.  Only defined while s.st = "box".
Step(s, b) ==
  LET bad == Fault(s, s.pos + 8, s.pos + b.hdr)
      want == s.cur.idx + 1
  IN IF b.t # "ftyp" /\ s.ver = -1 THEN bad
     ELSE IF ~b.good THEN bad
     ELSE CASE b.t = "ftyp" -> IF s.ver # -1 \/ b.ver \notin {0, 1} THEN bad
                               ELSE Pass([s EXCEPT !.ver = b.ver], b)
            [] b.t = "jxlc" -> IF s.cur.k = "jxlp" THEN bad
                               ELSE Current(s, b, [k |-> "jxlc", idx |-> -1, last |-> TRUE])
            [] b.t = "jxlp" -> IF b.idx < want THEN bad
                               ELSE IF b.idx = want
                                    THEN Current(s, b, [k |-> "jxlp", idx |-> b.idx, last |-> b.last])
                               ELSE IF s.ver # 1 \/ b.len = Eof \/ \E h \in s.held : h.idx = b.idx
                                    THEN bad
                               ELSE Hold(s, b)
            [] OTHER -> Pass(s, b)

RECURSIVE Run(_, _)
Run(s, bs) == IF bs = <<>> \/ s.st # "box" THEN s ELSE Run(Step(s, Head(bs)), Tail(bs))

(***************************************************************************)
(* What the segments mean.                                                 *)
(***************************************************************************)
Holding(s, c) == {k \in 1..Len(s.segs) : s.segs[k].cs < c /\ c <= s.segs[k].cs + s.segs[k].n}

\* The number of file bytes that must be present for c bytes of codestream to be available.
Need(s, c) ==
  LET K == Holding(s, c)
  IN IF c = 0 THEN 0
     ELSE IF K = {} THEN Inf
     ELSE LET g == s.segs[CHOOSE k \in K : TRUE]
          IN IF g.inj THEN g.at ELSE g.at + (c - g.cs)

\* Segment in which the codestream byte at offset c lies; 0: none (yet).
SegOf(s, c) == LET K == Holding(s, c + 1) IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
\* Position in the file of the codestream byte at offset c (not meaningful if injected).
FilePos(s, c) == LET g == s.segs[SegOf(s, c)] IN g.at + (c - g.cs)
\* A frame may start at offset c only in a box read in order, all of whose predecessors and none
\* of whose successors have been seen.
StartAllowed(s, c) == SegOf(s, c) # 0 /\ s.segs[SegOf(s, c)].ok
\* Length of the file up to the last byte needed for c bytes of codestream.
FileLen(s, c) == Need(s, c)
=============================================================================
