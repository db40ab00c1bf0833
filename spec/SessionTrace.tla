---------------------------- MODULE SessionTrace ----------------------------
(* Validates recorded sessions: every call's answer must be the one Session  *)
(* prescribes.  One TLC behaviour per recorded session; the state is the     *)
(* session state and the position in the log.                                *)
EXTENDS Session, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, l, q, bad
vars == <<i, l, q, bad>>

\* Codestream bytes, from its start, whose contents the record describes: the parts of a
\* malformed container may not join up to the codestream the frames were taken from.
RECURSIVE Genuine(_, _, _)
Genuine(segs, src, k) ==
  IF k > Len(segs) THEN Inf
  ELSE LET b == src[k] IN
       IF segs[k].n = 0 THEN Genuine(segs, src, k + 1)
       ELSE IF b.src # segs[k].cs THEN segs[k].cs
       ELSE IF b.g < segs[k].n THEN segs[k].cs + b.g
       ELSE Genuine(segs, src, k + 1)
\* The boxes from which the segments come.
RECURSIVE SegBoxes(_, _)
CodeBoxes(c) == SelectSeq(c.boxes, LAMBDA b : b.t \in {"jxlc", "jxlp"})
SegBoxes(c, n) ==
  IF n = 0 THEN <<>>
  ELSE LET S == {k \in DOMAIN CodeBoxes(c) : CodeBoxes(c)[k].t = "jxlc" \/ CodeBoxes(c)[k].idx = n - 1}
           m == CHOOSE a \in S : \A b \in S : a <= b
       IN Append(SegBoxes(c, n - 1), CodeBoxes(c)[m])
Described(c, C) == IF c.bare THEN Inf ELSE Genuine(C.segs, SegBoxes(c, Len(C.segs)), 1)

FileOf(c) == [c |-> IF c.bare THEN Bare ELSE Run(Init0, c.boxes), flen |-> c.flen, info |-> c.info,
              pre |-> c.pre, frames |-> c.frames, scan |-> c.scan,
              opaque |-> c.opaque, ih |-> c.ih, fail |-> c.fail,
              genuine |-> Described(c, IF c.bare THEN Bare ELSE Run(Init0, c.boxes))]

\* Constraints shared by every completed or waiting call.
Common(F, t, e) ==
  IF e.n # Cardinality(VisibleUpTo(F, t.seen)) THEN "number of scanned frames" ELSE "ok"
Scans(F, t, e) ==
  IF \A m \in 1..Len(e.sc) : ScanOk(F, NthVisible(F, m - 1), e.sc[m]) THEN "ok" ELSE "scanned frame record"

Timing(F, t, e, op) ==
  LET r == Ready(F, t, op)
  IN IF r > e.v THEN "completed before its bytes arrived"
     ELSE IF e.pv >= r THEN "asked for more input although all bytes had arrived"
     ELSE "ok"

First(ss) == IF \A k \in DOMAIN ss : ss[k] = "ok" THEN "ok"
             ELSE ss[CHOOSE k \in DOMAIN ss : ss[k] # "ok" /\ \A j \in 1..(k-1) : ss[j] = "ok"]

NextVerdict(F, t, e) ==
  LET tm == Timing(F, t, e, "next")
      u == AfterNext(F, t)
      f == F.frames[u.cur]
  IN IF tm # "ok" THEN tm
     ELSE IF f.name # e.name THEN "frame name"
     ELSE IF f.dur # e.dur THEN "frame duration"
     ELSE First(<<Common(F, u, e), Scans(F, u, e)>>)

DoneFrame(F, t, e, u) ==
  First(<<Common(F, u, e), Scans(F, u, e),
          IF e.more # (u.ph # "fin") THEN "has_more_frames" ELSE "ok",
          IF e.flen # (IF u.done THEN FileLen(F.c, F.frames[Len(F.frames)].end) ELSE -1)
          THEN "file_length" ELSE "ok">>)

DecodeVerdict(F, t, e) ==
  LET tm == Timing(F, t, e, "decode")
      ex == Exact(F, t.slots, t.cur)
  IN IF tm # "ok" THEN tm
     ELSE IF t.target # 0 /\ ~ex /\ ~F.scan THEN "seek target does not provide what the frame needs"
     ELSE IF ex /\ ~F.scan /\ F.frames[t.cur].pix \notin {"", e.pix} THEN "pixels"
     ELSE DoneFrame(F, t, e, AfterFrame(F, t))
SkipVerdict(F, t, e) ==
  LET tm == Timing(F, t, e, "skip")
  IN IF tm # "ok" THEN tm ELSE DoneFrame(F, t, e, AfterFrame(F, t))

\* Seeking is to a target reported in the list: its offset must be a frame start.
SeekFrom(F, e) == LET i0 == NthVisible(F, e.k)
                      S == {g \in FramesAt(F, e.off) : Between(F, g, i0) = e.skip /\ g <= i0}
                  IN IF S = {} THEN 0 ELSE CHOOSE g \in S : \A h \in S : g <= h
SeekVerdict(F, t, e) == IF SeekFrom(F, e) = 0 THEN "seek target offset"
                        ELSE First(<<Common(F, t, e), IF ~e.more THEN "has_more_frames after seeking" ELSE "ok">>)

ExpectedPhase(op) == CASE op = "init" -> {"init"} [] op = "next" -> {"image"}
                       [] op \in {"decode", "skip", "flush"} -> {"frame"} [] OTHER -> {"image", "fin"}

Verdict(F, t, e) ==
  IF e.op = "panic" THEN "panic"
  ELSE IF t.ph \notin ExpectedPhase(e.op) THEN "call sequence"
  ELSE IF e.op \in {"init", "next", "decode", "skip"} /\ Goal(F, t, e.op) > F.genuine THEN "undescribed"
  ELSE IF e.op \in {"init", "next", "decode", "skip"} /\ FailHere(F, t, e.op)
       THEN IF e.r = "done" \/ (e.r = "need" /\ e.v >= F.fail.v) THEN "fault not reported"
            ELSE IF e.r = "err" /\ e.v < F.fail.v THEN "unexpected error"
            ELSE "ok"
  ELSE IF e.r = "err"
       THEN IF e.e = "InvalidBox" /\ MayFail(F, t, e.op, e.v) THEN "ok"
            ELSE IF Unpromised(F, t, e.op) THEN "ok"
            ELSE "unexpected error"
  ELSE IF e.r = "need"
       THEN IF Ready(F, t, e.op) <= e.v THEN "asked for more input although all bytes had arrived"
            ELSE IF MustFail(F, t, e.op, e.v) THEN "fault not reported"
            ELSE Common(F, t, e)
  ELSE CASE e.op = "init" -> IF Timing(F, t, e, "init") # "ok" THEN Timing(F, t, e, "init") ELSE IF F.ih \notin {"", e.ih} THEN "image information" ELSE Common(F, t, e)
         [] e.op = "next" -> NextVerdict(F, t, e)
         [] e.op = "decode" -> DecodeVerdict(F, t, e)
         [] e.op = "skip" -> SkipVerdict(F, t, e)
         [] e.op = "flush" -> IF ~e.fl /\ e.ch THEN "flush reported nothing but changed the buffers" ELSE Common(F, t, e)
         [] e.op = "seek" -> SeekVerdict(F, t, e)

Apply(F, t, e) ==
  IF e.r = "err" THEN [t EXCEPT !.ph = "dead"]
  ELSE IF e.r = "need" \/ e.op = "flush" THEN t
  ELSE CASE e.op = "init" -> AfterInit(t)
         [] e.op = "next" -> AfterNext(F, t)
         [] e.op \in {"decode", "skip"} -> AfterFrame(F, t)
         [] e.op = "seek" -> AfterSeek(F, t, SeekFrom(F, e), e.skip, NthVisible(F, e.k))

\* A log must not stop while the decoder still owes an answer.
EndVerdict(F, t, c) ==
  IF c.log = <<>> THEN "empty log" ELSE "ok"

Init == i \in 1..Len(Cases) /\ l = 1 /\ q = Start0 /\ bad = "ok"
Next == /\ bad = "ok" /\ l <= Len(Cases[i].log)
        /\ LET F == FileOf(Cases[i])
               e == Cases[i].log[l]
               v == Verdict(F, q, e)
           IN /\ bad' = v
              /\ q' = IF v = "ok" THEN Apply(F, q, e) ELSE q
              /\ v \notin {"ok", "undescribed"} => PrintT(<<"BAD", i, l, v>>)
        /\ l' = l + 1 /\ i' = i
Spec == Init /\ [][Next]_vars
=============================================================================
