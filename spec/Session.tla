------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A session with the decoder: the sequence of public calls a caller makes *)
(* on one file and what each must answer.                                  *)
(*                                                                         *)
(* File record F:                                                          *)
(*   c       container state (Container!Run over its boxes, or Bare)       *)
(*   flen    number of bytes of the file that exist                        *)
(*   info    codestream bytes of the image header                          *)
(*   pre     preview frames [start, toc, end] (codestream offsets)         *)
(*   frames  frames in file order: [start, toc, end, vis, last, reads,     *)
(*           saves, name, dur, ticks, ms, pix]                             *)
(*   scan    the decoder only scans frames                                 *)
(*                                                                         *)
(* Session state q:                                                        *)
(*   ph     "init"   no header yet          "image" between frames         *)
(*          "frame"  a frame was announced  "fin"   all frames done        *)
(*          "dead"   an error was reported                                 *)
(*   k      next frame (file order) whose header is to be read             *)
(*   cur    announced frame                                                *)
(*   sk     visible frames still to be passed over silently (after a seek) *)
(*   slots  reference slots: writer frame (0: never written since the      *)
(*          start of decoding) and whether its contents are the sequential *)
(*          ones                                                           *)
(*   seen   frames whose headers were read before any seek                 *)
(*   sought, target: a seek happened; frame it aims at (0: reached)        *)
(*   prevw  the preview still has to be passed                             *)
(*   done   the end of the file was reached once                           *)
(***************************************************************************)
EXTENDS Container

NumSlots == 4
Slots == 0..(NumSlots - 1)
EmptySlots == [s \in Slots |-> [w |-> 0, x |-> TRUE]]
Rng(t) == {t[i] : i \in DOMAIN t}

Start0 == [ph |-> "init", k |-> 1, cur |-> 0, sk |-> 0, slots |-> EmptySlots, seen |-> 0,
           sought |-> FALSE, target |-> 0, prevw |-> TRUE, done |-> FALSE]

\* --- reference slots -----------------------------------------------------
\* Last frame before i that is saved into slot s when everything is decoded in order.
RECURSIVE Writer(_, _, _)
Writer(F, i, s) == IF i <= 1 THEN 0
                   ELSE IF F.frames[i-1].saves = s THEN i - 1 ELSE Writer(F, i - 1, s)
\* The contents of slots suffice to reproduce frame i exactly.
\* (For a file whose structure was only measured, F.opaque, frame i depends on everything since
\* frame dep; slot 0 then holds the frame decoding started at.)
Exact(F, slots, i) == IF F.opaque THEN slots[0].w <= F.frames[i].dep ELSE \A s \in Rng(F.frames[i].reads) : slots[s] = [w |-> Writer(F, i, s), x |-> TRUE]
Save(F, slots, i) == IF F.opaque \/ F.frames[i].saves = -1 THEN slots
                     ELSE [slots EXCEPT ![F.frames[i].saves] = [w |-> i, x |-> Exact(F, slots, i)]]
RECURSIVE SaveAll(_, _, _, _)
SaveAll(F, slots, a, b) == IF a > b THEN slots ELSE SaveAll(F, Save(F, slots, a), a + 1, b)
\* Some frame in a..b cannot be reproduced exactly when decoding a..b from these slots.
RECURSIVE AnyInexact(_, _, _, _)
AnyInexact(F, slots, a, b) == IF a > b THEN FALSE
                              ELSE ~Exact(F, slots, a) \/ AnyInexact(F, Save(F, slots, a), a + 1, b)

\* --- which frame is announced next ---------------------------------------
RECURSIVE Announced(_, _, _)
Announced(F, k, sk) == IF k > Len(F.frames) THEN 0
                       ELSE IF F.frames[k].vis /\ sk = 0 THEN k
                       ELSE Announced(F, k + 1, IF F.frames[k].vis THEN sk - 1 ELSE sk)
VisibleUpTo(F, i) == {j \in 1..i : F.frames[j].vis}
VisIndex(F, i) == Cardinality(VisibleUpTo(F, i - 1))
NthVisible(F, n) == CHOOSE i \in 1..Len(F.frames) : F.frames[i].vis /\ VisIndex(F, i) = n

\* --- the bytes a call needs ----------------------------------------------
\* First frame in a..b whose start the container forbids (0: none).
Forbidden(F, a, b) == LET S == {i \in a..b : SegOf(F.c, F.frames[i].start) # 0
                                             /\ ~StartAllowed(F.c, F.frames[i].start)}
                      IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
PreForbidden(F) == \E i \in DOMAIN F.pre : SegOf(F.c, F.pre[i].start) # 0 /\ ~StartAllowed(F.c, F.pre[i].start)
PreEnd(F) == IF F.pre = <<>> THEN 0 ELSE F.pre[Len(F.pre)].end

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* What a call must wait for: goal = codestream offset, and the frame headers it parses.
Goal(F, q, op) ==
  CASE op = "init" -> F.info
    [] op = "next" -> LET j == Announced(F, q.k, q.sk) IN IF j = 0 THEN Inf ELSE F.frames[j].toc
    [] OTHER -> F.frames[q.cur].end
\* File bytes after which the call completes; Inf: never.
Ready(F, q, op) ==
  LET j == Announced(F, q.k, q.sk)
      g == Goal(F, q, op)
  IN IF g = Inf THEN Inf
     ELSE IF op = "next" /\ ((q.prevw /\ PreForbidden(F)) \/ Forbidden(F, q.k, j) # 0) THEN Inf
     ELSE Need(F.c, g)

\* An error may be reported once v bytes are present ...
MayFail(F, q, op, v) ==
  \/ F.c.st = "bad" /\ v >= F.c.bad.from
  \/ op = "next" /\ LET j == Announced(F, q.k, q.sk)
                        f == Forbidden(F, q.k, IF j = 0 THEN Len(F.frames) ELSE j)
                    IN f # 0 /\ v >= Need(F.c, F.frames[f].start)
  \/ op = "next" /\ q.prevw /\ PreForbidden(F)
\* ... and must be once this holds (the call cannot complete nor wait).
MustFail(F, q, op, v) ==
  /\ v < Ready(F, q, op)
  /\ \/ F.c.st = "bad" /\ v >= F.c.bad.to
     \/ op = "next" /\ LET j == Announced(F, q.k, q.sk)
                           f == Forbidden(F, q.k, IF j = 0 THEN Len(F.frames) ELSE j)
                       IN f # 0 /\ v >= Need(F.c, F.frames[f].start + 1)
     \/ op = "next" /\ q.prevw /\ PreForbidden(F) /\ v >= Need(F.c, F.pre[1].start + 1)
\* The call that fails in a file whose measured decode fails.
FailHere(F, q, op) ==
  /\ F.fail.op = op
  /\ CASE op = "init" -> TRUE
       [] op = "next" -> Announced(F, q.k, q.sk) = 0
       [] OTHER -> q.cur = F.fail.k
\* After a seek, frames that need pictures from before its start are not promised anything.
Unpromised(F, q, op) ==
  /\ q.target = 0 /\ q.sought /\ ~F.scan
  /\ IF op = "next" THEN LET j == Announced(F, q.k, q.sk)
                         IN AnyInexact(F, q.slots, q.k, (IF j = 0 THEN Len(F.frames) ELSE j) - 1)
     ELSE ~Exact(F, q.slots, q.cur)

\* --- state after a completed call -----------------------------------------
AfterInit(q) == [q EXCEPT !.ph = "image"]
AfterNext(F, q) ==
  LET j == Announced(F, q.k, q.sk)
  IN [q EXCEPT !.ph = "frame", !.cur = j, !.k = j + 1, !.sk = 0, !.prevw = FALSE,
               !.slots = IF F.scan THEN q.slots ELSE SaveAll(F, q.slots, q.k, j - 1),
               !.seen = IF q.sought THEN q.seen ELSE j]
AfterFrame(F, q) ==
  [q EXCEPT !.ph = IF F.frames[q.cur].last THEN "fin" ELSE "image",
            !.slots = IF F.scan THEN q.slots ELSE Save(F, q.slots, q.cur),
            !.done = q.done \/ F.frames[q.cur].last,
            !.target = IF q.target = q.cur THEN 0 ELSE q.target]
AfterSeek(F, q, from, sk, tgt) ==
  [q EXCEPT !.ph = "image", !.k = from, !.cur = 0, !.sk = sk, !.slots = IF F.opaque THEN [EmptySlots EXCEPT ![0].w = from] ELSE EmptySlots,
            !.sought = TRUE, !.target = tgt, !.prevw = FALSE]

\* --- the scanned list -------------------------------------------------------
\* Decoding frame j from these slots cannot fail: the pictures its patches name exist.
Feasible(F, slots, j) == \A s \in Rng(F.frames[j].preads) : slots[s].w = Writer(F, j, s)
RECURSIVE AllFeasible(_, _, _, _)
AllFeasible(F, slots, a, b) == a > b \/ (Feasible(F, slots, a) /\ AllFeasible(F, Save(F, slots, a), a + 1, b))
\* Starting at frame f with empty slots reproduces frame i, and nothing on the way can fail.
SoundStart(F, f, i) == IF F.opaque THEN f = F.frames[i].dep ELSE
                       /\ f <= i
                       /\ Exact(F, SaveAll(F, EmptySlots, f, i - 1), i)
                       /\ AllFeasible(F, EmptySlots, f, i - 1)
Between(F, f, i) == Cardinality({j \in f..(i-1) : F.frames[j].vis})
FramesAt(F, off) == {f \in 1..Len(F.frames) : SegOf(F.c, F.frames[f].start) # 0
                                              /\ FilePos(F.c, F.frames[f].start) = off}
\* The earliest decode start the dependencies of frame i ask for, closed under the frames between
\* (one choice that is always sound; see SeekSound in MCSession).
RECURSIVE CloseStart(_, _, _)
DirectStart(F, i) == LET S == {Writer(F, i, s) : s \in Rng(F.frames[i].reads)} \ {0}
                     IN IF S = {} THEN i ELSE CHOOSE m \in S : \A n \in S : m <= n
CloseStart(F, lo, i) == LET S == {DirectStart(F, j) : j \in lo..i}
                            m == CHOOSE a \in S : \A b \in S : a <= b
                        IN IF m >= lo THEN lo ELSE CloseStart(F, m, i)
SeekStart(F, i) == CloseStart(F, i, i)

ScanOk(F, i, e) ==
  LET f == F.frames[i]
  IN /\ e.index = VisIndex(F, i)
     /\ e.ticks = f.ticks /\ e.ms = f.ms /\ e.name = f.name /\ e.last = f.last
     /\ e.off = FilePos(F.c, f.start)
     /\ e.key = (e.sskip = 0)
     /\ \E g \in FramesAt(F, e.soff) : SoundStart(F, g, i) /\ Between(F, g, i) = e.sskip
=============================================================================
