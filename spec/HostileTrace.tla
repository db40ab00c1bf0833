---------------------------- MODULE HostileTrace ----------------------------
(* Sessions on damaged files.  Whatever the bytes, a call returns a result,  *)
(* asks for more or reports an error; the sequence of calls stays a path of  *)
(* the session automaton and memory stays within a bound.  For files that    *)
(* were measured ("strict") every delivery must give the answers of Session. *)
EXTENDS SessionTrace

\* Phases only: which answers may follow which.
FreeNext(ph, e) ==
  IF e.r = "err" THEN "dead"
  ELSE IF e.r = "need" \/ e.op = "flush" THEN ph
  ELSE CASE e.op = "init" -> "image"
         [] e.op = "next" -> "frame"
         [] e.op \in {"decode", "skip"} -> IF e.more THEN "image" ELSE "fin"
         [] e.op = "seek" -> "image"
\* KiB: working memory for the largest picture the limit admits (samples of four bytes, a
\* handful of copies: reference slots, transform and output buffers) and some per input byte.
MemBound(c) == 65536 + (c.limit \div 1024) * 4 * 24 + (c.flen \div 1024 + 1) * 512
FreeVerdict(c, t, e) ==
  IF e.op = "panic" THEN "panic"
  ELSE IF t.ph \notin ExpectedPhase(e.op) THEN "call sequence"
  ELSE IF e.r = "err" \/ e.op = "flush" THEN "ok"
  ELSE IF e.r = "need" /\ l # Len(c.log) THEN "call sequence"
  ELSE IF e.n < t.seen THEN "scanned frames lost"
  ELSE "ok"
FreeApply(t, e) == [t EXCEPT !.ph = FreeNext(t.ph, e), !.seen = IF e.r = "err" \/ e.op = "flush" THEN t.seen ELSE e.n]

HNext == /\ bad = "ok" /\ l <= Len(Cases[i].log)
         /\ LET c == Cases[i]
                e == c.log[l]
                F == FileOf(c)
                v1 == IF c.strict THEN Verdict(F, q, e) ELSE FreeVerdict(c, q, e)
                \* A damaged header may be refused at once or waited for: how many bytes it
                \* lacks is only meaningful in an undamaged one.
                v0 == IF /\ c.strict /\ v1 = "unexpected error" /\ e.op \in {"init", "next"}
                         /\ Ready(F, q, e.op) > e.v
                      THEN "ok" ELSE v1
                v == IF l = 1 /\ c.mem > MemBound(c) THEN "memory" ELSE v0
            IN /\ bad' = v
               /\ q' = IF v # "ok" THEN q ELSE IF c.strict THEN Apply(FileOf(c), q, e) ELSE FreeApply(q, e)
               /\ v \notin {"ok", "undescribed"} => PrintT(<<"BAD", i, l, v>>)
         /\ l' = l + 1 /\ i' = i
HSpec == Init /\ [][HNext]_vars
=============================================================================
