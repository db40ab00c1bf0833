------------------------------ MODULE Entropy -------------------------------
(* Entropy-coded integers: context maps, hybrid integer configurations,      *)
(* prefix codes, ANS, and LZ77 on top.                                        *)
(* Readers of tables also say whether the table is one the format allows (ok).*)
EXTENDS Bits, FiniteSets

ResOk(v, p, ok) == [v |-> v, p |-> p, ok |-> ok]

\* --- hybrid integers ---------------------------------------------------------
ReadCfg(b, p, la) ==
  LET n1 == CeilLog2(la + 1)
      split == Small(b, p, n1)
      n2 == CeilLog2(split + 1)
      msb == Small(b, p + n1, n2)
      n3 == CeilLog2(split - msb + 1)
      lsb == Small(b, p + n1 + n2, n3)
  IN IF split = la THEN ResOk(<<split, 0, 0>>, p + n1, TRUE)
     ELSE ResOk(<<split, msb, lsb>>, p + n1 + n2 + n3, msb + lsb <= split)
HybridBits(c, t) == c[1] - (c[2] + c[3]) + ((t - Pow2(c[1])) \div Pow2(c[2] + c[3]))
\* q: the value does not fit the 30 bits reckoned with here.
Hybrid(b, p, c, t) ==
  IF t < Pow2(c[1]) THEN [v |-> t, p |-> p, q |-> FALSE]
  ELSE LET n == HybridBits(c, t)
           low == t % Pow2(c[3])
           hi == ((t \div Pow2(c[3])) % Pow2(c[2])) + Pow2(c[2])
       IN IF n + c[2] + c[3] + 1 > 30 THEN [v |-> Pow2(30), p |-> p + n, q |-> TRUE]
          ELSE [v |-> ((hi * Pow2(n) + Bits(b, p, n)) * Pow2(c[3])) + low, p |-> p + n, q |-> FALSE]

\* --- prefix codes ------------------------------------------------------------
\* From the symbols that occur, ascending, each with its code length: symbols by length then value.
Prefix(used) ==
  LET by == TLCEval([l \in 1..15 |-> LET u == SelectSeq(used, LAMBDA s : s[2] = l) IN [k \in 1..Len(u) |-> u[k][1]]])
      first == FoldLeft(LAMBDA a, l : Append(a, IF l = 1 THEN 0 ELSE 2 * (a[l - 1] + Len(by[l - 1]))), <<>>, Idx(15))
  IN [one |-> IF Len(used) = 1 THEN used[1][1] ELSE -1, by |-> by, first |-> first]
OneSymbol(s) == [one |-> s, by |-> <<>>, first |-> <<>>]
RECURSIVE PrefixWalk(_, _, _, _, _)
PrefixWalk(b, p, t, l, code) ==
  LET c == 2 * code + Small(b, p, 1) IN
  IF c - t.first[l] < Len(t.by[l]) THEN Res(t.by[l][c - t.first[l] + 1], p + 1)
  ELSE PrefixWalk(b, p + 1, t, l + 1, c)
PrefixSym(b, p, t) == IF t.one >= 0 THEN Res(t.one, p) ELSE PrefixWalk(b, p, t, 1, 0)

ReadVar16(b, p) ==
  IF ~Bit(b, p) THEN Res(0, p + 1)
  ELSE LET n == Small(b, p + 1, 4) IN Res(Pow2(n) + Small(b, p + 5, n), p + 5 + n)
CodeOrder == <<1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15>>
\* code for the lengths 0..5 of the code length code: <<bits, value>>
LenCode == <<<<2, 0>>, <<4, 7>>, <<3, 3>>, <<2, 2>>, <<2, 1>>, <<4, 15>>>>
ReadLen(b, p) ==
  LET v == CHOOSE k \in 1..6 : Small(b, p, LenCode[k][1]) = LenCode[k][2] IN Res(v - 1, p + LenCode[v][1])
RECURSIVE CodeLengths(_, _, _, _, _), SymLengths(_, _, _, _)
CodeLengths(b, p, k, space, acc) ==
  IF k > 18 \/ space <= 0 THEN [v |-> acc, p |-> p, n |-> space]
  ELSE LET r == ReadLen(b, p)
       IN CodeLengths(b, r.p, k + 1, IF r.v = 0 THEN space ELSE space - (32 \div Pow2(r.v)),
                      [acc EXCEPT ![CodeOrder[k] + 1] = r.v])
\* s: [n: symbols dealt with, used: those that occur, prev, rep, rlen, space]
SymLengths(b, p, alpha, st) ==
  LET s == st IN
  IF s.n >= alpha \/ s.space <= 0 THEN ResOk(s.used, p, s.space = 0)
  ELSE LET r == PrefixSym(b, p, s.t) IN
       IF r.v < 16
       THEN SymLengths(b, r.p, alpha, [s EXCEPT !.n = @ + 1, !.used = IF r.v = 0 THEN @ ELSE Append(@, <<s.n, r.v>>), !.rep = 0,
                       !.prev = IF r.v # 0 THEN r.v ELSE @,
                       !.space = IF r.v # 0 THEN @ - (32768 \div Pow2(r.v)) ELSE @])
       ELSE LET ex == r.v - 14
                nl == IF r.v = 16 THEN s.prev ELSE 0
                old == IF s.rlen # nl THEN 0 ELSE s.rep
                rep == (IF old > 0 THEN (old - 2) * Pow2(ex) ELSE 0) + Small(b, r.p, ex) + 3
                d == rep - old
            IN IF s.n + d > alpha THEN ResOk(<<>>, r.p + ex, FALSE) ELSE
               SymLengths(b, r.p + ex, alpha, [s EXCEPT !.n = @ + d, !.rep = rep,
                          !.used = IF nl = 0 THEN @ ELSE @ \o [k \in 1..d |-> <<s.n + k - 1, nl>>],
                          !.rlen = nl, !.space = IF nl # 0 THEN @ - d * (32768 \div Pow2(nl)) ELSE @])
SortUp(s) == SortSeq(s, LAMBDA x, y : x < y)
ReadPrefix(b, p, alpha) ==
  LET skip == Small(b, p, 2)
      mb == CeilLog2(alpha)
      n == Small(b, p + 2, 2) + 1
      sym == TLCEval([k \in 1..n |-> Small(b, p + 4 + mb * (k - 1), mb)])
      q == p + 4 + mb * n
      sel == n = 4 /\ Bit(b, q)
      lens == [k \in 1..4 |-> CASE n = 2 -> 1
                               [] n = 3 -> (IF k = 1 THEN 1 ELSE 2)
                               [] OTHER -> IF sel THEN (IF k = 1 THEN 1 ELSE IF k = 2 THEN 2 ELSE 3) ELSE 2]
      simple == SortSeq([k \in 1..n |-> <<sym[k], lens[k]>>], LAMBDA x, y : x[1] < y[1])
      cl == CodeLengths(b, p + 2, skip + 1, 32, [k \in 1..18 |-> 0])
      sl == SymLengths(b, cl.p, alpha, [n |-> 0, used |-> <<>>, prev |-> 8, rep |-> 0, rlen |-> 0, space |-> 32768,
                                        t |-> Prefix(SelectSeq([k \in 1..18 |-> <<k - 1, cl.v[k]>>], LAMBDA x : x[2] > 0))])
      distinct == \A j, k \in 1..n : sym[k] < alpha /\ (j # k => sym[j] # sym[k])
      whole == cl.n = 0 \/ Cardinality({k \in 1..18 : cl.v[k] # 0}) = 1
  IN IF alpha = 1 THEN ResOk(OneSymbol(0), p, TRUE)
     ELSE IF skip = 1
     THEN IF ~distinct THEN ResOk(OneSymbol(0), q, FALSE)
          ELSE IF n = 1 THEN ResOk(OneSymbol(sym[1]), q, TRUE)
          ELSE ResOk(Prefix(TLCEval(simple)), IF n = 4 THEN q + 1 ELSE q, TRUE)
     ELSE IF ~whole THEN ResOk(OneSymbol(0), cl.p, FALSE)
     ELSE IF ~sl.ok THEN ResOk(OneSymbol(0), sl.p, FALSE)
     ELSE ResOk(Prefix(sl.v), sl.p, TRUE)

\* --- ANS ---------------------------------------------------------------------
ReadU8(b, p) ==
  IF ~Bit(b, p) THEN Res(0, p + 1)
  ELSE LET n == Small(b, p + 1, 3) IN Res(Pow2(n) + Small(b, p + 4, n), p + 4 + n)
LogCode == <<<<5, 17>>, <<4, 11>>, <<4, 15>>, <<4, 3>>, <<4, 9>>, <<4, 7>>, <<3, 4>>, <<3, 2>>, <<3, 5>>, <<3, 6>>,
             <<3, 0>>, <<6, 33>>, <<7, 1>>, <<7, 65>>>>
ReadLog(b, p) ==
  LET v == CHOOSE k \in 1..14 : Small(b, p, LogCode[k][1]) = LogCode[k][2] IN Res(v - 1, p + LogCode[v][1])
RECURSIVE Ones(_, _, _)
Ones(b, p, n) == IF n = 3 THEN Res(3, p) ELSE IF Bit(b, p) THEN Ones(b, p + 1, n + 1) ELSE Res(n, p + 1)
\* log counts: entries are the logarithm, or -1 inside a run that repeats the count before it
RECURSIVE LogCounts(_, _, _, _)
LogCounts(b, p, n, acc) ==
  IF Len(acc) >= n THEN ResOk(SubSeq(acc, 1, n), p, Len(acc) = n /\ \E k \in DOMAIN acc : acc[k] # -1)
  ELSE LET r == ReadLog(b, p) IN
       IF r.v < 13 THEN LogCounts(b, r.p, n, Append(acc, r.v))
       ELSE LET u == ReadU8(b, r.p) IN LogCounts(b, u.p, n, acc \o [k \in 1..(u.v + 4) |-> -1])
Precision(l, shift) == MaxOf(0, MinOf(l, shift - ((12 - l) \div 2)))
ReadDist(b, p, la) ==
  LET size == Pow2(la)
      a == ReadU8(b, p + 2)
      c == ReadU8(b, a.p)
      one == [v |-> [s \in 1..size |-> IF s - 1 = a.v THEN 4096 ELSE 0], p |-> a.p, ok |-> a.v < size]
      f == Bits(b, c.p, 12)
      two == [v |-> [s \in 1..size |-> IF s - 1 = a.v THEN f ELSE IF s - 1 = c.v THEN 4096 - f ELSE 0], p |-> c.p + 12,
              ok |-> a.v # c.v /\ a.v < size /\ c.v < size]
      flat == [v |-> [s \in 1..size |-> IF s > a.v + 1 THEN 0
                                        ELSE (4096 \div (a.v + 1)) + (IF s - 1 < 4096 % (a.v + 1) THEN 1 ELSE 0)], p |-> a.p,
               ok |-> a.v < size]
      o == Ones(b, p + 2, 0)
      shift == Small(b, o.p, o.v) + Pow2(o.v) - 1
      n == ReadU8(b, o.p + o.v)
      lc == LogCounts(b, n.p, n.v + 3, <<>>)
      omit == CHOOSE k \in DOMAIN lc.v : /\ \A j \in DOMAIN lc.v : lc.v[j] <= lc.v[k]
                                         /\ \A j \in 1..(k - 1) : lc.v[j] < lc.v[k]
      cnt == FoldLeft(LAMBDA s, k :
                LET l == lc.v[k]
                    e == Precision(l - 1, shift)
                IN IF l = -1 THEN [v |-> Append(s.v, IF k = 1 THEN 0 ELSE s.v[k - 1]), p |-> s.p]
                   ELSE IF k = omit \/ l = 0 THEN [v |-> Append(s.v, 0), p |-> s.p]
                   ELSE IF l = 1 THEN [v |-> Append(s.v, 1), p |-> s.p]
                   ELSE [v |-> Append(s.v, Pow2(l - 1) + Small(b, s.p, e) * Pow2(l - 1 - e)), p |-> s.p + e],
                [v |-> <<>>, p |-> lc.p], Idx(Len(lc.v)))
      tot == FoldLeft(LAMBDA x, y : x + y, 0, cnt.v)
      fine == shift <= 13 /\ n.v + 3 <= size /\ lc.ok /\ (omit + 1 \in DOMAIN lc.v => lc.v[omit + 1] # -1)
      full == IF ~fine THEN [v |-> <<>>, p |-> n.p, ok |-> FALSE]
              ELSE [v |-> [s \in 1..size |-> IF s = omit THEN 4096 - tot ELSE IF s <= Len(cnt.v) THEN cnt.v[s] ELSE 0],
                    p |-> cnt.p, ok |-> tot < 4096]
      r == IF Bit(b, p) THEN (IF Bit(b, p + 1) THEN two ELSE one)
           ELSE IF Bit(b, p + 1) THEN flat ELSE full
  IN IF r.ok THEN ResOk(TLCEval(r.v), r.p, TRUE)
     ELSE ResOk([s \in 1..size |-> IF s = 1 THEN 4096 ELSE 0], r.p, FALSE)
\* Alias table: for each bucket, cutoff, the other symbol and its offset.
RECURSIVE Fill(_)
Fill(s) ==
  IF s.over = <<>> THEN s
  ELSE LET o == s.over[Len(s.over)]
           u == s.under[Len(s.under)]
           left == s.cut[o] - (s.bs - s.cut[u])
           ov == SubSeq(s.over, 1, Len(s.over) - 1)
           un == SubSeq(s.under, 1, Len(s.under) - 1)
       IN Fill([s EXCEPT !.cut = [@ EXCEPT ![o] = left], !.sym = [@ EXCEPT ![u] = o], !.off = [@ EXCEPT ![u] = left],
                !.over = IF left > s.bs THEN Append(ov, o) ELSE ov,
                !.under = IF left < s.bs THEN Append(un, o) ELSE un])
Alias(d, la) ==
  LET bs == Pow2(12 - la)
      n == Len(d)
  IN IF \E s \in 1..n : d[s] = 4096
     THEN LET s == CHOOSE k \in 1..n : d[k] = 4096
          IN TLCEval([d |-> d, bs |-> bs, cut |-> [k \in 1..n |-> 0], sym |-> [k \in 1..n |-> s],
                      off |-> [k \in 1..n |-> bs * (k - 1)]])
     ELSE LET r == Fill([bs |-> bs, cut |-> d, sym |-> Idx(n), off |-> [k \in 1..n |-> 0],
                         over |-> SelectSeq(Idx(n), LAMBDA k : d[k] > bs),
                         under |-> SelectSeq(Idx(n), LAMBDA k : d[k] < bs)])
          IN TLCEval([d |-> d, bs |-> bs, cut |-> r.cut, sym |-> r.sym,
                      off |-> [k \in 1..n |-> r.off[k] - r.cut[k]]])
\* One symbol: x is the state as <<high, low>>.
AnsSym(b, p, x, t) ==
  LET res == x[2] % 4096
      k == res \div t.bs + 1
      pos == res % t.bs
      s == IF pos < t.cut[k] THEN k ELSE t.sym[k]
      o == IF pos < t.cut[k] THEN pos ELSE t.off[k] + pos
      q == x[1] * 16 + x[2] \div 4096
      A == t.d[s] * (q \div 1024)
      lo == (A % 64) * 1024 + t.d[s] * (q % 1024) + o
      hi == A \div 64 + lo \div 65536
  IN IF hi = 0 THEN [v |-> s - 1, p |-> p + 16, x |-> <<lo % 65536, Small(b, p, 16)>>]
     ELSE [v |-> s - 1, p |-> p, x |-> <<hi, lo % 65536>>]

\* --- codes -------------------------------------------------------------------
NoLz == [on |-> FALSE, sym |-> 0, len |-> 0, cfg |-> <<0, 0, 0>>]
ReadLz(b, p) ==
  LET s == U32(b, p + 1, <<<<0, 224>>, <<0, 512>>, <<0, 4096>>, <<15, 8>>>>)
      l == U32(b, s.p, <<<<0, 3>>, <<0, 4>>, <<2, 5>>, <<8, 9>>>>)
      c == ReadCfg(b, l.p, 8)
  IN IF Bit(b, p) THEN ResOk([on |-> TRUE, sym |-> s.v, len |-> l.v, cfg |-> c.v], c.p, c.ok)
     ELSE ResOk(NoLz, p + 1, TRUE)

Special == <<
 <<0,1>>,<<1,0>>,<<1,1>>,<<-1,1>>,<<0,2>>,<<2,0>>,<<1,2>>,<<-1,2>>,<<2,1>>,<<-2,1>>,<<2,2>>,<<-2,2>>,<<0,3>>,<<3,0>>,
 <<1,3>>,<<-1,3>>,<<3,1>>,<<-3,1>>,<<2,3>>,<<-2,3>>,<<3,2>>,<<-3,2>>,<<0,4>>,<<4,0>>,<<1,4>>,<<-1,4>>,<<4,1>>,<<-4,1>>,
 <<3,3>>,<<-3,3>>,<<2,4>>,<<-2,4>>,<<4,2>>,<<-4,2>>,<<0,5>>,<<3,4>>,<<-3,4>>,<<4,3>>,<<-4,3>>,<<5,0>>,<<1,5>>,<<-1,5>>,
 <<5,1>>,<<-5,1>>,<<2,5>>,<<-2,5>>,<<5,2>>,<<-5,2>>,<<4,4>>,<<-4,4>>,<<3,5>>,<<-3,5>>,<<5,3>>,<<-5,3>>,<<0,6>>,<<6,0>>,
 <<1,6>>,<<-1,6>>,<<6,1>>,<<-6,1>>,<<2,6>>,<<-2,6>>,<<6,2>>,<<-6,2>>,<<4,5>>,<<-4,5>>,<<5,4>>,<<-5,4>>,<<3,6>>,<<-3,6>>,
 <<6,3>>,<<-6,3>>,<<0,7>>,<<7,0>>,<<1,7>>,<<-1,7>>,<<5,5>>,<<-5,5>>,<<7,1>>,<<-7,1>>,<<4,6>>,<<-4,6>>,<<6,4>>,<<-6,4>>,
 <<2,7>>,<<-2,7>>,<<7,2>>,<<-7,2>>,<<3,7>>,<<-3,7>>,<<7,3>>,<<-7,3>>,<<5,6>>,<<-5,6>>,<<6,5>>,<<-6,5>>,<<8,0>>,<<4,7>>,
 <<-4,7>>,<<7,4>>,<<-7,4>>,<<8,1>>,<<8,2>>,<<6,6>>,<<-6,6>>,<<8,3>>,<<5,7>>,<<-5,7>>,<<7,5>>,<<-7,5>>,<<8,4>>,<<6,7>>,
 <<-6,7>>,<<7,6>>,<<-7,6>>,<<8,5>>,<<7,7>>,<<-7,7>>,<<8,6>>,<<8,7>>>>

\* Reader state: p, ANS state x, values read so far win (only kept with LZ77), copies left and
\* where the next one comes from; v is the value just read; q says that something was read whose
\* meaning is left open: a value of more than 30 bits, or a copy before any value.
Start(b, p, code) ==
  IF code.prefix THEN [p |-> p, x |-> <<0, 0>>, win |-> <<>>, cp |-> 0, at |-> 0, v |-> 0, q |-> FALSE]
  ELSE [p |-> p + 32, x |-> Word(b, p), win |-> <<>>, cp |-> 0, at |-> 0, v |-> 0, q |-> FALSE]
\* At the end of an ANS stream the state must have returned to its initial value.
Finished(st, code) == code.prefix \/ st.x = <<19, 0>>
Token(b, st, code, cl) ==
  IF code.prefix THEN LET r == PrefixSym(b, st.p, code.tabs[cl + 1]) IN [v |-> r.v, p |-> r.p, x |-> st.x]
  ELSE AnsSym(b, st.p, st.x, code.tabs[cl + 1])
Read(b, st, code, ctx, mult) ==
  IF st.cp > 0
  THEN LET v == st.win[st.at] IN [st EXCEPT !.win = Append(@, v), !.cp = @ - 1, !.at = @ + 1, !.v = v]
  ELSE LET cl == code.map[ctx + 1]
           t == Token(b, st, code, cl)
       IN IF ~code.lz.on
          THEN LET h == Hybrid(b, t.p, code.cfgs[cl + 1], t.v) IN [st EXCEPT !.p = h.p, !.x = t.x, !.v = h.v, !.q = @ \/ h.q]
          ELSE IF t.v < code.lz.sym
          THEN LET h == Hybrid(b, t.p, code.cfgs[cl + 1], t.v)
               IN [st EXCEPT !.p = h.p, !.x = t.x, !.v = h.v, !.win = Append(@, h.v), !.q = @ \/ h.q]
          ELSE LET n == Hybrid(b, t.p, code.lz.cfg, t.v - code.lz.sym)
                   dc == code.map[Len(code.map)]
                   u == Token(b, [st EXCEPT !.p = n.p, !.x = t.x], code, dc)
                   h == Hybrid(b, u.p, code.cfgs[dc + 1], u.v)
                   raw == IF mult = 0 THEN MinOf(h.v + 1, Pow2(20))
                          ELSE IF h.v < 120 THEN MaxOf(1, Special[h.v + 1][1] + mult * Special[h.v + 1][2])
                          ELSE MinOf(h.v - 119, Pow2(20))
                   d == MinOf(raw, Len(st.win))
                   at == Len(st.win) - d + 1
                   v == IF d = 0 THEN 0 ELSE st.win[at]
               IN [st EXCEPT !.p = h.p, !.x = u.x, !.win = Append(@, v), !.v = v,
                             !.cp = IF d = 0 THEN 0 ELSE n.v + code.lz.len - 1, !.at = at + 1, !.q = @ \/ n.q \/ h.q \/ d = 0]

\* A code for n contexts.
RECURSIVE ReadCode(_, _, _, _)
RECURSIVE Unmtf(_, _, _)
Unmtf(s, k, l) ==   \* inverse move to front of s[k..] with list l
  IF k > Len(s) THEN s
  ELSE LET x == l[s[k] + 1]
       IN Unmtf([s EXCEPT ![k] = x], k + 1, <<x>> \o SelectSeq(l, LAMBDA y : y # x))
\* Every cluster up to the highest is used.
NoHoles(m) == \A c \in 0..FoldLeft(MaxOf, 0, m) : \E k \in DOMAIN m : m[k] = c
\* q: the map is coded with numbers whose meaning is left open.
ReadMap(b, p, n) ==
  IF n = 1 THEN ResOk(<<0>>, p, TRUE)
  ELSE IF Bit(b, p)
  THEN LET e == Small(b, p + 1, 2)
           m == TLCEval([k \in 1..n |-> Small(b, p + 3 + e * (k - 1), e)])
       IN ResOk(m, p + 3 + e * n, NoHoles(m))
  ELSE LET c == ReadCode(b, p + 2, 1, n > 2)
           r == FoldLeft(LAMBDA a, k : LET t == Read(b, a.st, c, 0, 0) IN [st |-> t, s |-> Append(a.s, t.v)],
                         [st |-> Start(b, c.p, c), s |-> <<>>], Idx(n))
           fine == c.ok /\ Finished(r.st, c) /\ \A k \in DOMAIN r.s : r.s[k] < 256
           m == IF Bit(b, p + 1) THEN Unmtf(r.s, 1, [k \in 1..256 |-> k - 1]) ELSE r.s
       IN IF c.q \/ (c.ok /\ r.st.q) THEN [v |-> [k \in 1..n |-> 0], p |-> c.p, ok |-> FALSE, q |-> TRUE]
          ELSE IF ~c.ok THEN ResOk([k \in 1..n |-> 0], c.p, FALSE)
          ELSE IF ~fine THEN ResOk([k \in 1..n |-> 0], r.st.p, FALSE)
          ELSE ResOk(TLCEval(m), r.st.p, NoHoles(m))
ReadCode(b, p, n, lzok) ==
  LET lz == ReadLz(b, p)
      m == ReadMap(b, lz.p, IF lz.v.on THEN n + 1 ELSE n)
      nc == 1 + FoldLeft(MaxOf, 0, m.v)
      prefix == Bit(b, m.p)
      la == IF prefix THEN 15 ELSE 5 + Small(b, m.p + 1, 2)
      q == IF prefix THEN m.p + 1 ELSE m.p + 3
      \* one table after the other, until one of them is not allowed
      all(a, r) == IF ~a.ok THEN a ELSE [v |-> Append(a.v, r.v), p |-> r.p, ok |-> r.ok]
      cf == FoldLeft(LAMBDA a, k : all(a, ReadCfg(b, a.p, la)), [v |-> <<>>, p |-> q, ok |-> TRUE], Idx(nc))
      al == FoldLeft(LAMBDA a, k : LET r == ReadVar16(b, a.p) IN all(a, ResOk(r.v + 1, r.p, r.v < 32768)),
                     [v |-> <<>>, p |-> cf.p, ok |-> cf.ok], Idx(nc))
      pt == FoldLeft(LAMBDA a, k : all(a, ReadPrefix(b, a.p, al.v[k])), [v |-> <<>>, p |-> al.p, ok |-> al.ok], Idx(nc))
      at == FoldLeft(LAMBDA a, k : all(a, LET r == ReadDist(b, a.p, la) IN ResOk(Alias(r.v, la), r.p, r.ok)),
                     [v |-> <<>>, p |-> cf.p, ok |-> cf.ok], Idx(nc))
      t == IF prefix THEN pt ELSE at
      open == "q" \in DOMAIN m
      no(p0) == [lz |-> NoLz, map |-> <<>>, prefix |-> TRUE, cfgs |-> <<>>, tabs |-> <<>>, p |-> p0, ok |-> FALSE, q |-> open]
  IN IF ~lz.ok \/ (lz.v.on /\ ~lzok) THEN no(lz.p)
     ELSE IF ~m.ok THEN no(m.p)
     ELSE IF ~t.ok THEN no(t.p)
     ELSE [lz |-> lz.v, map |-> m.v, prefix |-> prefix, cfgs |-> cf.v, tabs |-> t.v, p |-> t.p, ok |-> TRUE, q |-> FALSE]

\* n values in the context given by a sequence of contexts.
ReadAll(b, p, code, ctxs, mult) ==
  FoldLeft(LAMBDA a, c : LET t == Read(b, a.st, code, c, mult) IN [st |-> t, v |-> Append(a.v, t.v)],
           [st |-> Start(b, p, code), v |-> <<>>], ctxs)
=============================================================================
