------------------------------- MODULE Rules --------------------------------
(* The consensus rules of the currency as pure functions of heights, timestamps, difficulties, sizes and amounts.
   Cfg is a record of parameters; amounts and difficulties are Big numbers. *)
EXTENDS Big, Integers, Sequences, SequencesExt, TLC
CONSTANT Cfg

(* ---- protocol versions: the version changes just after the upgrade height ---- *)
Ver(h) == IF h > Cfg.uh[5] THEN 8 ELSE IF h > Cfg.uh[4] THEN 7 ELSE IF h > Cfg.uh[3] THEN 4 ELSE IF h > Cfg.uh[2] THEN 3 ELSE IF h > Cfg.uh[1] THEN 2 ELSE 1

(* ---- sizes ---- *)
Sorted(s) == IF Len(s) <= 1 THEN s ELSE SortSeq(s, LAMBDA a, b : a < b)
Median(s) == IF s = <<>> THEN 0 ELSE LET q == Sorted(s) n == Len(s) IN IF n % 2 = 1 THEN q[n \div 2 + 1] ELSE (q[n \div 2] + q[n \div 2 + 1]) \div 2
LastN(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))
MaxBlockSize(h) == Add(OfInt(Cfg.maxinit), Div(Mul(OfInt(Cfg.num), OfInt(h)), OfInt(Cfg.den)))
(* effective median of the sizes of the preceding blocks *)
EffMedian(sizes) == MaxI(Median(LastN(sizes, Cfg.rbw)), Cfg.zone)
SizeLimit(sizes) == 2 * EffMedian(sizes)

(* ---- reward ---- *)
Supply == <<0, 0, 0, 200>>
FoundationTrust == <<0, 0, 0, 12>>
BaseReward(h, gen) == IF h = 1 THEN FoundationTrust
                      ELSE MinB(MinB(IF h > Cfg.uh[5] THEN OfInt(6000000) ELSE OfInt(5000000 + 250000 * (h \div 21900)), OfInt(15000000)), Sub(Supply, MinB(gen, Supply)))
Penalized(a, med, size) == IF size <= med THEN a ELSE Div(Mul(Mul(a, OfInt(size)), OfInt(2 * med - size)), Mul(OfInt(med), OfInt(med)))
(* what the miner gets and how much of it is new money (the latter given as what is added and what is subtracted) *)
Reward(med, size, gen, fee, h) ==
  LET base == Penalized(BaseReward(h, gen), med, size)
      pfee == Penalized(fee, med, size)
  IN [reward |-> Add(base, pfee), plus |-> Add(base, pfee), minus |-> fee]

(* ---- deposits ---- *)
DepositOk(amount, term, h) == term # 0 =>
    /\ IF h > Cfg.dh4 THEN term >= Cfg.minTerm3 /\ term <= Cfg.maxTerm3 /\ term % Cfg.minTerm3 = 0
                      ELSE term >= Cfg.minTerm /\ term <= Cfg.maxTerm1
    /\ Le(Cfg.dmin, amount)
EndMultiplier == 12750
(* lock height -1 stands for a number beyond every height (the unsigned difference of a term that is longer than the chain) *)
After(lock, h) == lock < 0 \/ lock > h
(* i3, i2: what the two monthly schedules (evaluated in single precision) give for this amount and term *)
Interest(amount, term, lock, i3, i2) ==
  LET t == MinI(term, Cfg.maxTerm1) IN
  IF t % Cfg.minTerm3 = 0 /\ After(lock, Cfg.dh3) THEN i3
  ELSE IF t % 64800 = 0 \/ t % 5040 = 0 THEN i2
  ELSE LET c == Div(Mul(amount, OfInt(4 * t)), OfInt(100 * Cfg.maxTerm)) IN IF After(lock, EndMultiplier) THEN c ELSE MulI(c, 100)
Huge == 1000000000 \* a height standing for 2^32-1
InterestAt(amount, term, h, i3, i2) ==
  IF term = 0 \/ term > Cfg.maxTerm1 THEN Zero
  ELSE Interest(amount, term, IF h >= Huge \/ h < term THEN -1 ELSE h - term, i3, i2)

(* ---- difficulty ---- *)
Target == 120
WindowOf(v) == IF v >= 4 THEN 60 ELSE IF v >= 2 THEN Cfg.win ELSE 720
CutOf(v) == IF v >= 2 THEN Cfg.cut ELSE 60
CountOf(v) == IF v >= 4 THEN 61 ELSE IF v >= 2 THEN Cfg.win + Cfg.lag ELSE 720 + Cfg.lag
Ints(a, b) == [i \in 1 .. b - a + 1 |-> a + i - 1]
OrderedTs(ts, i, prev) == IF ts[i] > prev THEN ts[i] ELSE prev + 1
(* original algorithm: work in the window over the time span, both after cutting outliers of the sorted timestamps *)
CutSpan(ts, cum, win, cut) ==
  LET n == Len(ts) keep == win - 2 * cut
      b == IF n <= keep THEN 0 ELSE (n - keep + 1) \div 2
      e == IF n <= keep THEN n ELSE b + keep
      q == Sorted(ts)
  IN [span |-> MaxI(1, q[e] - q[b + 1]), work |-> Sub(cum[e], cum[b + 1])]
Classic(v, index, ts0, cum0) ==
  IF index >= 12750 /\ index < 13500 THEN OfInt(2160)
  ELSE LET w == WindowOf(v)
           ts == IF Len(ts0) > w THEN SubSeq(ts0, 1, w) ELSE ts0
           cum == IF Len(cum0) > w THEN SubSeq(cum0, 1, w) ELSE cum0
       IN IF Len(ts) <= 1 THEN OfInt(1)
          ELSE LET c == CutSpan(ts, cum, w, CutOf(v))
                   low == MulI(c.work, Target)
                   over(l, s) == Le(TwoTo64, Add(l, OfInt(s - 1)))
               IN IF over(low, c.span) THEN Zero
                  ELSE IF Cfg.zawy2 /\ v >= 2 THEN Div(low, OfInt(c.span))
                  ELSE IF Cfg.zawyidx # 0 /\ Cfg.zawyidx <= index
                       THEN LET k == MinI(17, Len(ts)) IN
                            IF k <= 1 THEN OfInt(1)
                            ELSE LET d == CutSpan(LastN(ts0, k), LastN(cum0, k), 17, 0) l == MulI(d.work, Target) IN
                                 IF over(l, d.span) THEN Zero ELSE MaxB(Div(l, OfInt(d.span)), OfInt(100))
                       ELSE Div(Add(low, OfInt(c.span - 1)), OfInt(c.span))
Lwma3(ts, cum) ==
  IF Len(ts) <= 10 THEN OfInt(100)
  ELSE LET N == MinI(60, Len(ts) - 1)
           f == FoldLeft(LAMBDA a, i : LET t == OrderedTs(ts, i + 1, a.prev) st == MinI(720, t - a.prev) IN
                                       [prev |-> t, l |-> a.l + st * i, s3 |-> IF i > N - 3 THEN a.s3 + st ELSE a.s3],
                         [prev |-> ts[1], l |-> 0, s3 |-> 0], Ints(1, N))
           next == Div(MulI(MulI(MulI(Sub(cum[N + 1], cum[1]), 120), N + 1), 99), OfInt(200 * f.l))
           prevD == Sub(cum[N + 1], cum[N])
           lim == MaxB(DivI(MulI(prevD, 67), 100), MinB(next, DivI(MulI(prevD, 150), 100)))
       IN IF f.s3 < 96 THEN MaxB(lim, DivI(MulI(prevD, 108), 100)) ELSE lim
Rounders == <<1000000000, 100000000, 10000000, 1000000, 100000, 10000, 1000, 100, 10>>
RoundOff(d) == LET ks == SelectSeq(Rounders, LAMBDA i : Lt(MulI(OfInt(i), 100), d)) IN
               IF ks = <<>> THEN d ELSE Mul(Div(Add(d, OfInt(ks[1] \div 2)), OfInt(ks[1])), OfInt(ks[1]))
Lwma1(index, ts, cum) ==
  IF index >= Cfg.uh[5] /\ index < Cfg.uh[5] + 60 THEN OfInt(Cfg.guess)
  ELSE LET f == FoldLeft(LAMBDA a, i : LET t == OrderedTs(ts, i + 1, a.prev) IN [prev |-> t, l |-> a.l + i * MinI(720, t - a.prev)],
                         [prev |-> ts[1] - 120, l |-> 0], Ints(1, 60))
           l == MaxI(f.l, 21600)
           avg == DivI(Sub(cum[61], cum[1]), 60)
           k == OfInt(60 * 61 * 120 * 99)
       IN RoundOff(IF Lt(Mul(OfInt(2000000), OfInt(60 * 60 * 120)), avg) THEN Mul(Div(avg, OfInt(200 * l)), k) ELSE Div(Mul(avg, k), OfInt(200 * l)))
(* the difficulty of the block with index n on top of blocks with these timestamps and cumulative difficulties *)
ByAlgorithm(n, ts, cum) == LET w == Ver(n + 1) IN IF w >= 8 THEN Lwma1(n, ts, cum) ELSE IF w >= 4 THEN Lwma3(ts, cum) ELSE Classic(w, n, ts, cum)
NextDifficulty(ts, cum) ==
  LET n == Len(ts)
      off == n - MinI(n, CountOf(Ver(n)))
      first == (IF off = 0 THEN 1 ELSE off) + 1
  IN ByAlgorithm(n, SubSeq(ts, first, n), SubSeq(cum, first, n))

(* ---- timestamps ---- *)
MedianTs(ts) == Median(LastN(ts, Cfg.tcw))
=============================================================================
