--------------------------------- MODULE Node ----------------------------------
(* A full node: main chain, alternative blocks, transaction pool, checkpoints, restart and crash.
   The state is one record; every operation is an operator from a state to a record with the next state (field s) and
   everything the node must answer.  Transactions, blocks and amounts are numbers; what they contain is given by
   Txs, Blks (sequences of records) and Amts (sequence of Big).  Time is measured in seconds since genesis. *)
EXTENDS Rules, FiniteSets
CONSTANTS Txs, Blks, Amts, NKeys

None == 0
Upd(f, k, v) == [f EXCEPT ![k] = v]
Const(n, v) == TLCEval([i \in 1 .. n |-> v])
Fold(Op(_, _), base, s) == FoldLeft(Op, base, s)
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Plus(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
First(s) == IF s = <<>> THEN "" ELSE s[1]   \* first reason of a list

------------------------------------------------------------------------------
(* Transactions *)
OutSums == TLCEval([t \in 1 .. Len(Txs) |-> Sum([j \in DOMAIN Txs[t].outs |-> Amts[Txs[t].outs[j].a]])])
InBase == TLCEval([t \in 1 .. Len(Txs) |-> Sum([j \in DOMAIN Txs[t].ins |-> IF Txs[t].ins[j].k = 2 THEN Zero ELSE Amts[Txs[t].ins[j].a]])])
OutSum(t) == OutSums[t]
InterestOf(i, h) == IF i.k # 1 THEN Zero ELSE InterestAt(Amts[i.a], i.term, h, i.int3, Zero)
InterestSum(t, h) == Sum([j \in DOMAIN Txs[t].ins |-> InterestOf(Txs[t].ins[j], h)])
(* what the inputs are worth in a block of height h *)
InSum(t, h) == Add(InBase[t], InterestSum(t, h))
Overspends(t, h) == Lt(InSum(t, h), OutSum(t))
FeeAt(t, h) == IF Overspends(t, h) THEN (IF \E j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = 1 /\ Txs[t].ins[j].term # 0 THEN OfInt(10) ELSE Zero)
               ELSE Sub(InSum(t, h), OutSum(t))
Withdraws(t) == \E j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = 1
KeyImages(t) == {Txs[t].ins[j].ki : j \in {j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = 0}}
Deposits(t) == {<<Txs[t].ins[j].a, Txs[t].ins[j].idx>> : j \in {j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = 1}}
Count(t, k) == Cardinality({j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = k})
OutOk(t, o, h) == IF o.k = 0 THEN Amts[o.a] # Zero /\ o.ok
                  ELSE Txs[t].v >= 2 /\ DepositOk(Amts[o.a], o.term, h) /\ o.req <= o.nk /\ o.ok
OutputsOk(t, h) == \A j \in DOMAIN Txs[t].outs : OutOk(t, Txs[t].outs[j], h)
(* a lock by height (or time) has passed for the block that would follow n blocks (at time now) *)
Unlocked(t, n, now) == IF Txs[t].ulk = "h" THEN n >= Txs[t].uln ELSE now + 120 >= Txs[t].uln

------------------------------------------------------------------------------
(* Ledger: everything a chain of n blocks determines.  outs/mouts: per amount the list of outputs <<tx, position, height>>
   (multisignature outputs also whether they are used).  spent, txh: height + 1, or 0. *)
EmptyLedger == [n |-> 0, ts |-> <<>>, cum |-> <<>>, coins |-> <<>>, sz |-> <<>>, ntx |-> <<>>, dep |-> <<>>, int |-> <<>>,
                spent |-> Const(NKeys, 0), outs |-> Const(Len(Amts), <<>>), mouts |-> Const(Len(Amts), <<>>), txh |-> Const(Len(Txs), 0)]
LastOr0(s) == IF s = <<>> THEN Zero ELSE Last(s)
SpendInput(L, i) == IF i.k = 0 THEN [L EXCEPT !.spent[i.ki] = L.n + 1]
                    ELSE IF i.k = 1 THEN [L EXCEPT !.mouts[i.a][i.idx + 1][4] = TRUE] ELSE L
AddOutput(L, t, p) == LET o == Txs[t].outs[p] IN
                      IF o.k = 0 THEN [L EXCEPT !.outs[o.a] = Append(@, <<t, p, L.n>>)] ELSE [L EXCEPT !.mouts[o.a] = Append(@, <<t, p, L.n, FALSE>>)]
ApplyTx(L, t) == LET a == Fold(SpendInput, L, Txs[t].ins)
                     b == Fold(LAMBDA M, p : AddOutput(M, t, p), a, Ints(1, Len(Txs[t].outs)))
                 IN [b EXCEPT !.txh[t] = L.n + 1]
TermSum(s) == Sum([j \in DOMAIN s |-> IF s[j].k = 1 /\ s[j].term > 0 THEN Amts[s[j].a] ELSE Zero])
BlockTxs(b) == <<Blks[b].cb>> \o Blks[b].txs
BlockSize(b) == Plus([j \in DOMAIN BlockTxs(b) |-> Txs[BlockTxs(b)[j]].sz])
BlockFee(b, h) == Sum([j \in DOMAIN Blks[b].txs |-> FeeAt(Blks[b].txs[j], h)])
BlockInterest(b, h) == Sum([j \in DOMAIN Blks[b].txs |-> InterestSum(Blks[b].txs[j], h)])
BlockReward(L, b) == Reward(EffMedian(L.sz), BlockSize(b), LastOr0(L.coins), BlockFee(b, L.n), L.n)
Extend(L, b, diff) ==
  LET r == BlockReward(L, b)
      int == BlockInterest(b, L.n)
      M == Fold(ApplyTx, L, BlockTxs(b))
      all == BlockTxs(b)
      made == Sum([j \in DOMAIN all |-> TermSum(Txs[all[j]].outs)])
      gone == Sum([j \in DOMAIN all |-> TermSum(Txs[all[j]].ins)])
  IN TLCEval([M EXCEPT !.n = L.n + 1, !.ts = Append(@, Blks[b].ts), !.cum = Append(@, Add(LastOr0(@), diff)), !.sz = Append(@, BlockSize(b)),
              !.coins = Append(@, Sub(Add(Add(LastOr0(@), r.plus), int), r.minus)), !.ntx = Append(@, (IF @ = <<>> THEN 0 ELSE Last(@)) + Len(all)),
              !.dep = Append(@, Sub(Add(LastOr0(@), made), gone)), !.int = Append(@, Add(LastOr0(@), int))])
(* why the inputs of t are refused on top of ledger L at time now, with key images sp and deposits mu already taken ("" if they are fine) *)
KeyWhy(L, i, now, zone, sp) ==
  IF L.spent[i.ki] # 0 \/ i.ki \in sp THEN "spent"
  ELSE IF i.off = <<>> \/ \E j \in DOMAIN i.off : i.off[j] >= Len(L.outs[i.a]) THEN "missing"
  ELSE IF \E j \in DOMAIN i.off : ~Unlocked(L.outs[i.a][i.off[j] + 1][1], L.n, now) THEN "locked"
  ELSE IF zone \/ (i.ok /\ \A j \in DOMAIN i.off : LET r == L.outs[i.a][i.off[j] + 1] IN Txs[r[1]].outs[r[2]].key = i.want[j]) THEN "" ELSE "signature"
MultiWhy(L, i, now, zone, mu) ==
  IF i.idx >= Len(L.mouts[i.a]) THEN "missing"
  ELSE LET r == L.mouts[i.a][i.idx + 1] o == Txs[r[1]].outs[r[2]] IN
       IF r[4] \/ <<i.a, i.idx>> \in mu THEN "spent"
       ELSE IF ~Unlocked(r[1], L.n, now) THEN "locked"
       ELSE IF i.ns # o.req \/ i.term # o.term \/ (o.term # 0 /\ r[3] + o.term > L.n) THEN "term"
       ELSE IF zone \/ (i.ok /\ i.by = o.key) THEN "" ELSE "signature"
InputsWhy(L, t, now, zone, sp, mu) ==
  First(SelectSeq([j \in DOMAIN Txs[t].ins |-> LET i == Txs[t].ins[j] IN
                     IF i.k = 0 THEN KeyWhy(L, i, now, zone, sp) ELSE IF i.k = 1 THEN MultiWhy(L, i, now, zone, mu) ELSE "type"], LAMBDA w : w # ""))

------------------------------------------------------------------------------
(* State *)
Tip(S) == Last(S.chain)
Size(S) == Len(S.chain)
Led(S) == S.led[Tip(S)]
NextDiff(S) == S.pth[Tip(S)].nd
PathOf(L) == [n |-> L.n, ts |-> L.ts, cum |-> L.cum, nd |-> NextDifficulty(L.ts, L.cum)]
ExtendPath(p, b) == LET ts == Append(p.ts, Blks[b].ts) cum == Append(p.cum, Add(Last(p.cum), p.nd)) IN
                    TLCEval([n |-> p.n + 1, ts |-> ts, cum |-> cum, nd |-> NextDifficulty(ts, cum)])
Start == LET L == Extend(EmptyLedger, 1, OfInt(1)) IN
  [chain |-> <<1>>, led |-> Upd(Const(Len(Blks), <<>>), 1, L), pth |-> Upd(Const(Len(Blks), <<>>), 1, TLCEval(PathOf(L))),
   alts |-> {}, pool |-> {}, pa |-> Const(Len(Txs), <<>>), rec |-> {}, rect |-> Const(Len(Txs), 0),
   saved |-> [pool |-> {}, pa |-> <<>>, rec |-> {}, rect |-> <<>>], cks |-> {}, dns |-> <<>>, idle |-> -2000000000, undone |-> None, torn |-> FALSE]
InMain(S, b) == b # None /\ S.led[b] # <<>> /\ S.led[b].n <= Size(S) /\ S.chain[S.led[b].n] = b
(* checkpoints: set of <<height, block>> (block 0: some block never seen) *)
CkHeights(S) == {c[1] : c \in S.cks}
CkAt(S, h, b) == \A c \in S.cks : c[1] = h => c[2] = b
InZone(S, h) == \E c \in S.cks : h <= c[1]

------------------------------------------------------------------------------
(* Pool *)
PoolKeyImages(S) == UNION {KeyImages(u) : u \in S.pool}
PoolDeposits(S) == UNION {Deposits(u) : u \in {u \in S.pool : ~S.pa[u].kept}}
Conflicts(S, t) == KeyImages(t) \cap PoolKeyImages(S) # {} \/ Deposits(t) \cap PoolDeposits(S) # {}
(* height of the newest block that holds a ring member of t *)
NewestRing(L, t) == Fold(LAMBDA m, i : IF i.k # 0 THEN m ELSE Fold(LAMBDA q, o : MaxI(q, L.outs[i.a][o + 1][3]), m, i.off), 0, Txs[t].ins)
NoBlock == [h |-> -1, b |-> None]
(* the node remembers the newest block its inputs were checked against; checks again only when that block is gone *)
AddTx(S, t, kept, h, now) ==
  LET L == Led(S)
      fail(w) == [s |-> S, ret |-> FALSE, vf |-> TRUE, imp |-> FALSE, added |-> FALSE, rel |-> FALSE, why |-> w]
      fee == FeeAt(t, h)
      why == InputsWhy(L, t, now, InZone(S, L.n), {}, {})
      nr == IF why = "" THEN NewestRing(L, t) ELSE 0
      valid == why = "" /\ OutputsOk(t, nr)
      ttl == Txs[t].ttl
  IN IF Overspends(t, h) THEN fail("overspend")
     ELSE IF ~kept /\ ttl # 0 /\ (ttl <= now \/ ttl - now > Cfg.live + Cfg.ftl \/ fee # Zero) THEN fail("ttl")
     ELSE IF ~kept /\ Conflicts(S, t) THEN fail("conflict")
     ELSE IF ~kept /\ ~valid THEN fail(IF why = "" THEN "outputs" ELSE why)
     ELSE IF ~kept /\ Txs[t].sz >= SizeLimit(L.sz) - Cfg.reserved THEN fail("size")
     ELSE IF ~kept /\ t \in S.rec THEN [fail("recent") EXCEPT !.ret = TRUE, !.vf = FALSE]
     ELSE [s |-> [S EXCEPT !.pool = @ \cup {t}, !.pa[t] = [kept |-> kept, rt |-> now, mu |-> IF valid THEN [h |-> nr, b |-> S.chain[nr + 1]] ELSE NoBlock]],
           ret |-> TRUE, vf |-> FALSE, imp |-> ~valid, added |-> TRUE,
           rel |-> valid /\ (Txs[t].ttl # 0 \/ (fee = Zero /\ Txs[t].fus) \/ (IF h >= Cfg.uh[5] THEN fee = OfInt(1000) \/ Withdraws(t) ELSE fee # Zero)), why |-> ""]
(* transactions of a refused or undone block return to the pool *)
ReAdd(S, t, h, now) == LET r == AddTx(S, t, TRUE, h, now) IN IF r.ret THEN r.s ELSE [S EXCEPT !.torn = TRUE]
ReAddAll(S, ts, h, now) == Fold(LAMBDA Z, t : IF Z.torn THEN Z ELSE ReAdd(Z, t, h, now), S, Rev(ts))
Without(S, ts) == [S EXCEPT !.pool = @ \ ts]
(* would the pool transaction be accepted now? *)
Ready(S, t, now) ==
  LET L == Led(S) mu == S.pa[t].mu zone == InZone(S, L.n)
      full == InputsWhy(L, t, now, zone, {}, {}) = ""
      locked(i) == i.k = 0 /\ ((\E j \in DOMAIN i.off : i.off[j] >= Len(L.outs[i.a])) \/ (\E j \in DOMAIN i.off : ~Unlocked(L.outs[i.a][i.off[j] + 1][1], L.n, now)))
  IN /\ IF mu.b = None THEN full
        ELSE IF mu.h >= L.n THEN FALSE
        ELSE IF S.chain[mu.h + 1] # mu.b THEN full
        ELSE \A j \in DOMAIN Txs[t].ins : LET i == Txs[t].ins[j] IN IF i.k = 1 THEN MultiWhy(L, i, now, zone, {}) = "" ELSE ~locked(i)
     /\ \A k \in KeyImages(t) : L.spent[k] = 0
(* submission of a transaction *)
SemanticOk(t, h) ==
  /\ Txs[t].ins # <<>> /\ \A j \in DOMAIN Txs[t].ins : Txs[t].ins[j].k = 0 \/ (Txs[t].ins[j].k = 1 /\ Txs[t].v >= 2)
  /\ OutputsOk(t, h)
  /\ Lt(OutSum(t), TwoTo64)
  /\ Cardinality(KeyImages(t)) = Count(t, 0) /\ Cardinality(Deposits(t)) = Count(t, 1)
SubmitTxAt(S, t, kept, h, now) ==
  LET L == Led(S)
      inchain == L.txh[t] # 0
      other == IF h > EndMultiplier THEN 0 ELSE Huge
      fail(w) == [s |-> S, ret |-> FALSE, vf |-> TRUE, imp |-> FALSE, added |-> FALSE, rel |-> FALSE, why |-> w]
      retry == Overspends(t, h)
  IN IF ~SemanticOk(t, h) THEN fail("semantic")
     ELSE IF retry /\ (h > Cfg.dh4 \/ Overspends(t, other)) THEN fail("overspend")
     ELSE IF inchain \/ t \in S.pool THEN [fail("known") EXCEPT !.ret = TRUE, !.vf = FALSE]
     ELSE AddTx(S, t, kept, IF retry THEN other ELSE h, now)
SubmitTx(S, t, kept, now) == SubmitTxAt(S, t, kept, IF Led(S).txh[t] # 0 THEN Led(S).txh[t] - 1 ELSE Led(S).n, now)
(* removes what is too old *)
Expire(S, now) ==
  LET forget == {t \in S.rec : now - S.rect[t] > Cfg.periods * Cfg.live}
      gone == {t \in S.pool : \/ now - S.pa[t].rt > (IF S.pa[t].kept THEN Cfg.altlive ELSE Cfg.live)
                              \/ (Txs[t].ttl # 0 /\ Txs[t].ttl <= now)}
      rec1 == S.rec \ forget
  IN [s |-> [S EXCEPT !.pool = @ \ gone, !.rec = rec1 \cup gone, !.rect = [t \in DOMAIN @ |-> IF t \in gone /\ t \notin rec1 THEN now ELSE @[t]]], any |-> gone # {}]
Idle(S, now) == IF now - S.idle > 60 THEN LET r == Expire(S, now) IN [s |-> [r.s EXCEPT !.idle = now], any |-> r.any] ELSE [s |-> S, any |-> FALSE]

------------------------------------------------------------------------------
(* Blocks *)
CoinbaseOk(b, h) ==
  LET t == Blks[b].cb IN
  /\ Len(Txs[t].ins) = 1 /\ Txs[t].ins[1].k = 2 /\ Txs[t].nsig <= 1 /\ Txs[t].cbh = h
  /\ Txs[t].ulk = "h" /\ Txs[t].uln = h + Cfg.unlockw
  /\ OutputsOk(t, h) /\ Lt(OutSum(t), TwoTo64)
(* reason for the first bad transaction of block b on top of L *)
TxsWhy(L, b, now, zone) ==
  Fold(LAMBDA a, t : IF a.why # "" THEN a
                     ELSE LET w == IF Blks[b].v = 1 /\ Txs[t].v > 1 THEN "txversion"
                                   ELSE LET i == InputsWhy(L, t, now, zone, a.sp, a.mu) IN IF i # "" THEN i ELSE IF OutputsOk(t, L.n) THEN "" ELSE "outputs"
                          IN [why |-> w, sp |-> a.sp \cup KeyImages(t), mu |-> a.mu \cup Deposits(t)],
       [why |-> "", sp |-> {}, mu |-> {}], Blks[b].txs).why
RewardOk(L, b) ==
  LET r == BlockReward(L, b).reward paid == OutSum(Blks[b].cb) IN Le(r, paid) /\ Le(paid, Add(r, OfInt(10)))
(* why block b is refused on top of the main chain ("" if it is not); its transactions are at hand *)
BlockWhy(S, b, now) ==
  LET L == Led(S) n == L.n zone == InZone(S, n)
      tw == TxsWhy(L, b, now, zone)
  IN IF Blks[b].v # Ver(Blks[b].h) THEN "version"
     ELSE IF Blks[b].ts > now + Cfg.ftl THEN "future"
     ELSE IF n >= Cfg.tcw /\ Blks[b].ts < MedianTs(L.ts) THEN "median"
     ELSE IF NextDiff(S) = Zero THEN "overflow"
     ELSE IF zone /\ ~CkAt(S, n, b) THEN "checkpoint"
     ELSE IF ~zone /\ Lt(Blks[b].dmax, NextDiff(S)) THEN "work"
     ELSE IF ~CoinbaseOk(b, n) THEN "coinbase"
     ELSE IF tw # "" THEN tw
     ELSE IF Lt(MaxBlockSize(n), OfInt(BlockSize(b))) THEN "size"
     ELSE IF BlockSize(b) > SizeLimit(L.sz) THEN "penalty"
     ELSE IF ~RewardOk(L, b) THEN "reward"
     ELSE ""
(* first position whose transaction is not waiting in the pool, 0 if all are *)
Missing(S, b) == LET m == {j \in DOMAIN Blks[b].txs : Blks[b].txs[j] = None \/ Blks[b].txs[j] \notin S.pool \/ \E k \in 1 .. j - 1 : Blks[b].txs[k] = Blks[b].txs[j]}
                 IN IF m = {} THEN 0 ELSE CHOOSE j \in m : \A k \in m : j <= k
PushBlock(S, b, h, now) ==
  LET m == Missing(S, b) IN
  IF m # 0 THEN [s |-> ReAddAll(Without(S, {Blks[b].txs[k] : k \in 1 .. m - 1}), SubSeq(Blks[b].txs, 1, m - 1), h, now), ok |-> FALSE, vf |-> TRUE, why |-> "txs"]
  ELSE LET T == Without(S, Range(Blks[b].txs)) w == BlockWhy(T, b, now) IN
       IF w # "" THEN [s |-> ReAddAll(T, Blks[b].txs, h, now), ok |-> FALSE, vf |-> w # "overflow", why |-> w]
       ELSE [s |-> [T EXCEPT !.chain = Append(@, b), !.led[b] = IF @ # <<>> THEN @ ELSE Extend(Led(S), b, NextDiff(S)),
                             !.pth[b] = IF @ # <<>> THEN @ ELSE ExtendPath(S.pth[Tip(S)], b), !.undone = None],
             ok |-> TRUE, vf |-> FALSE, why |-> ""]
(* the block at the top leaves; its transactions (spent at this moment, hence not valid now) wait in the pool *)
PopBlock(S, now) ==
  LET b == Tip(S) T == ReAddAll(S, Blks[b].txs, Size(S), now) IN
  IF T.torn THEN T ELSE [T EXCEPT !.chain = SubSeq(@, 1, Len(@) - 1), !.undone = b]
RECURSIVE PopTo(_, _, _)
PopTo(S, n, now) == IF Size(S) <= n \/ S.torn THEN S ELSE PopTo(PopBlock(S, now), n, now)
(* pushes a list of blocks; stops at the first that is refused *)
PushAll(S, bs, now) == Fold(LAMBDA a, b : IF ~a.ok \/ a.s.torn THEN a ELSE LET r == PushBlock(a.s, b, Size(a.s), now) IN
                              [s |-> r.s, ok |-> r.ok, k |-> IF r.ok THEN a.k + 1 ELSE a.k, why |-> r.why], [s |-> S, ok |-> TRUE, k |-> 0, why |-> ""], bs)
RECURSIVE AltPath(_, _)
AltPath(S, b) == IF b \in S.alts THEN Append(AltPath(S, Blks[b].par), b) ELSE <<>>
HeightOf(S, b) == S.pth[b].n - 1
TxSet(bs) == UNION {Range(Blks[bs[j]].txs) : j \in DOMAIN bs}

RECURSIVE HandleAlt(_, _, _, _)
(* reorganisation to the alternative chain path (front first, the new tip last) *)
Switch(S, path, discard, now) ==
  LET split == HeightOf(S, path[1])
      old == SubSeq(S.chain, split + 1, Size(S))
      no(Z, w) == [s |-> Z, ok |-> FALSE, msgs |-> <<>>, why |-> w]
  IN IF Size(S) <= split THEN no(S, "split")
     ELSE IF ~(TxSet(old) \subseteq TxSet(path)) THEN no(S, "lacks")
     ELSE LET P == PopTo(S, split, now)
              r == PushAll(P, path, now)
              back == PushAll(PopTo(r.s, split, now), old, now).s
              keep == Fold(LAMBDA Z, b : HandleAlt(Z, b, FALSE, now).s, r.s, old)
              done == IF discard THEN r.s ELSE keep
          IN IF P.torn \/ r.s.torn THEN no([S EXCEPT !.torn = TRUE], "torn")
             ELSE IF ~r.ok THEN no([back EXCEPT !.alts = @ \ {path[j] : j \in r.k + 1 .. Len(path)}], r.why)
             ELSE [s |-> [done EXCEPT !.alts = @ \ Range(path)], ok |-> TRUE, msgs |-> <<<<"sw", <<Blks[path[1]].par>> \o path>>>>, why |-> ""]
LoadDns(S) == [S EXCEPT !.cks = Fold(LAMBDA c, r : IF \E x \in c : x[1] = r[1] THEN c ELSE c \cup {<<r[1], r[2]>>}, @, S.dns)]
AltAllowed(S, h) ==
  LET low == IF Size(S) < 10 THEN 0 ELSE Size(S) - 10
      passed == {x \in CkHeights(S) : x <= Size(S)}
  IN (h >= low \/ InZone(S, h)) /\ \A x \in passed : x < h
KnownSize(S, b) == Txs[Blks[b].cb].sz + Plus([j \in DOMAIN Blks[b].txs |-> LET t == Blks[b].txs[j] IN IF t # None /\ (t \in S.pool \/ Led(S).txh[t] # 0) THEN Txs[t].sz ELSE 0])
(* timestamps an alternative block on parent p is compared with: its alternative ancestors, then main blocks below the fork *)
AltTimes(S, path, p) ==
  LET a == [j \in DOMAIN path |-> Blks[path[j]].ts]
      need == Cfg.tcw - Len(a)
      start == IF path = <<>> THEN HeightOf(S, p) ELSE HeightOf(S, path[1]) - 1
      stop == IF start > need THEN start - need ELSE 0
  IN IF need <= 0 THEN a ELSE IF start = 0 THEN Append(a, Blks[1].ts) ELSE a \o [j \in 1 .. start - stop |-> Blks[S.chain[stop + 1 + j]].ts]
HandleAlt(S, b, msg, now) ==
  LET blk == Blks[b]
      T == LoadDns(S)
      out(Z, ret, vf, w) == [s |-> Z, ret |-> ret, vf |-> vf, orp |-> FALSE, amc |-> FALSE, msgs |-> <<>>, why |-> w]
      path == AltPath(T, blk.par)
      hh == T.pth[blk.par].n
      times == AltTimes(T, path, blk.par)
      nd == T.pth[blk.par].nd
      U == [T EXCEPT !.alts = @ \cup {b}, !.pth[b] = IF @ # <<>> THEN @ ELSE ExtendPath(T.pth[blk.par], b)]
      better == Lt(Last(Led(T).cum), Last(U.pth[b].cum))
      forced == hh \in CkHeights(T)
      sw(discard) == LET r == Switch(U, Append(path, b), discard, now) IN
                     [s |-> r.s, ret |-> r.ok, vf |-> ~r.ok, orp |-> FALSE, amc |-> r.ok, msgs |-> r.msgs, why |-> IF r.ok THEN "" ELSE r.why]
  IN IF blk.h = 0 THEN out(S, FALSE, TRUE, "height")
     ELSE IF ~AltAllowed(T, blk.h) THEN out(T, FALSE, TRUE, "depth")
     ELSE IF blk.v # Ver(blk.h) THEN out(T, FALSE, TRUE, "version")
     ELSE IF Lt(MaxBlockSize(blk.h), OfInt(KnownSize(T, b))) THEN out(T, FALSE, TRUE, "size")
     ELSE IF blk.par = None \/ ~(blk.par \in T.alts \/ InMain(T, blk.par)) THEN [out(T, TRUE, FALSE, "") EXCEPT !.orp = TRUE]
     ELSE IF path # <<>> /\ ~(Size(T) > HeightOf(T, path[1]) /\ T.chain[HeightOf(T, path[1])] = Blks[path[1]].par) THEN out(T, FALSE, FALSE, "detached")
     ELSE IF Len(times) >= Cfg.tcw /\ blk.ts < Median(times) THEN out(T, FALSE, TRUE, "median")
     ELSE IF ~CkAt(T, hh, b) THEN out(T, FALSE, TRUE, "checkpoint")
     ELSE IF nd = Zero THEN out(T, FALSE, FALSE, "overflow")
     ELSE IF Lt(blk.dmax, nd) THEN out(T, FALSE, TRUE, "work")
     ELSE IF ~CoinbaseOk(b, hh) THEN out(T, FALSE, TRUE, "coinbase")
     ELSE IF forced THEN sw(TRUE)
     ELSE IF better THEN sw(FALSE)
     ELSE [out(U, TRUE, FALSE, "") EXCEPT !.msgs = IF msg THEN <<<<"alt", <<b>>>>>> ELSE <<>>]
(* a block that claims a protocol version nobody knows cannot even be read *)
Readable(b) == Blks[b].v <= 8
SubmitBlock(S, b, now) ==
  IF ~Readable(b) THEN [s |-> S, vf |-> TRUE, amc |-> FALSE, sw |-> FALSE, orp |-> FALSE, ex |-> FALSE, msgs |-> <<>>, bu |-> 0, why |-> "version"]
  ELSE IF b \in S.alts \/ InMain(S, b) THEN [s |-> S, vf |-> FALSE, amc |-> FALSE, sw |-> FALSE, orp |-> FALSE, ex |-> TRUE, msgs |-> <<>>, bu |-> 0, why |-> ""]
  ELSE IF Blks[b].par = Tip(S)
  THEN LET r == PushBlock(S, b, Size(S) + 1, now) IN
       [s |-> r.s, vf |-> r.vf, amc |-> r.ok, sw |-> FALSE, orp |-> FALSE, ex |-> FALSE, msgs |-> IF r.ok THEN <<<<"new", <<b>>>>>> ELSE <<>>, bu |-> IF r.ok THEN 1 ELSE 0, why |-> r.why]
  ELSE LET r == HandleAlt(S, b, TRUE, now) IN
       [s |-> r.s, vf |-> r.vf, amc |-> r.amc, sw |-> r.amc, orp |-> r.orp, ex |-> FALSE, msgs |-> r.msgs, bu |-> IF r.ret /\ r.amc THEN 1 ELSE 0, why |-> r.why]

(* blocks handed over with their transactions: stops at the first block, or the first transaction of a block, that is refused *)
AddChain(S, bs, now) ==
  LET txs(Z, b) == Fold(LAMBDA a, t : IF ~a.ok THEN a ELSE LET r == SubmitTxAt(a.s, t, TRUE, Blks[b].h, now) IN [s |-> r.s, ok |-> r.ret, why |-> r.why], [s |-> Z, ok |-> TRUE, why |-> ""], Blks[b].txs)
  IN Fold(LAMBDA a, b : IF ~a.ok THEN a
                        ELSE LET t == txs(a.s, b) r == SubmitBlock(t.s, b, now) IN
                             IF ~t.ok THEN [a EXCEPT !.s = t.s, !.ok = FALSE, !.why = t.why]
                             ELSE [s |-> r.s, ok |-> ~r.orp /\ ~r.vf, k |-> IF r.orp \/ r.vf THEN a.k ELSE a.k + 1, msgs |-> a.msgs \o r.msgs, bu |-> a.bu + r.bu, why |-> r.why],
          [s |-> S, ok |-> TRUE, k |-> 0, msgs |-> <<>>, bu |-> 0, why |-> ""], bs)

------------------------------------------------------------------------------
(* Rollback by an operator: nothing returns to the pool *)
Rollback(S, to) == IF to >= Size(S) THEN S ELSE [S EXCEPT !.chain = SubSeq(@, 1, to + 1), !.undone = IF to + 1 < Size(S) THEN S.chain[to + 2] ELSE @]
(* the last checkpoint height up to which the chain agrees with the checkpoints, or -1 if it agrees with all *)
BadCheckpoint(S) ==
  LET bad == {c[1] : c \in {c \in S.cks : c[1] < Size(S) /\ S.chain[c[1] + 1] # c[2]}}
      first == CHOOSE h \in bad : \A x \in bad : h <= x
      good == {h \in CkHeights(S) : h < first}
  IN IF bad = {} THEN -1 ELSE IF good = {} THEN 0 ELSE CHOOSE h \in good : \A x \in good : x <= h
Stop(S) == [S EXCEPT !.saved = [pool |-> S.pool, pa |-> S.pa, rec |-> S.rec, rect |-> S.rect]]
Restart(S, chain, cks, now) ==
  LET R == [S EXCEPT !.chain = chain, !.alts = {}, !.idle = -2000000000, !.cks = cks, !.undone = IF chain = S.chain THEN @ ELSE None,
                     !.pool = S.saved.pool, !.pa = IF S.saved.pa = <<>> THEN @ ELSE S.saved.pa, !.rec = S.saved.rec, !.rect = IF S.saved.rect = <<>> THEN @ ELSE S.saved.rect]
      e == Expire(R, now)
      bad == BadCheckpoint(e.s)
      F == IF bad < 0 THEN e.s ELSE Rollback(e.s, bad)
  IN [s |-> [F EXCEPT !.pool = {t \in @ : Led(F).txh[t] = 0}], any |-> e.any]
(* chains a block store may hold after the process died between operations *)
Survivors(S) == {S.chain} \cup (IF Size(S) > 1 THEN {SubSeq(S.chain, 1, Size(S) - 1)} ELSE {}) \cup (IF S.undone # None THEN {Append(S.chain, S.undone)} ELSE {})

------------------------------------------------------------------------------
(* Block template *)
TemplateLimit(S) ==
  LET med == EffMedian(Led(S).sz)
      a == (125 * med) \div 100 - Cfg.reserved
      m == MaxBlockSize(Size(S))
      b == Sub(m, MinB(m, OfInt(Cfg.reserved)))
  IN IF Lt(b, OfInt(a)) THEN ToInt(b) ELSE a
(* a waiting transaction the template must contain unless it collides or does not fit *)
Wanted(S, t, now) == Txs[t].ttl = 0 /\ ~Overspends(t, Size(S)) /\ Ready(S, t, now)
TemplateComplete(S, b, now) ==
  LET in == Range(Blks[b].txs)
      ki == UNION {KeyImages(t) : t \in in}
      dp == UNION {Deposits(t) : t \in in}
      total == Plus([j \in DOMAIN Blks[b].txs |-> Txs[Blks[b].txs[j]].sz])
      lim(t) == LET l == TemplateLimit(S) IN IF FeeAt(t, Size(S)) = Zero THEN MinI(EffMedian(Led(S).sz), l) ELSE l
  IN \A t \in S.pool \ in : Wanted(S, t, now) => KeyImages(t) \cap ki # {} \/ Deposits(t) \cap dp # {} \/ total + Txs[t].sz > lim(t)
TemplateWhy(S, b, now) ==
  IF b = None THEN "unknown"
  ELSE IF Blks[b].par # Tip(S) THEN "parent"
  ELSE IF Missing(S, b) # 0 THEN "txs"
  ELSE IF \E j \in DOMAIN Blks[b].txs : LET t == Blks[b].txs[j] IN Txs[t].ttl # 0 THEN "ttl"
  ELSE IF Plus([j \in DOMAIN Blks[b].txs |-> Txs[Blks[b].txs[j]].sz]) > TemplateLimit(S) /\ Blks[b].txs # <<>> THEN "limit"
  (* a waiting transaction whose outputs obeyed the rules of an earlier height may stay in the template when the rules change under
     it (all the changes lie far back in the real chain); a second-version transaction cannot be waiting while protocol version 1 lasts: no output is spendable before height 10 *)
  ELSE LET w == BlockWhy(Without(S, Range(Blks[b].txs)), b, now) 
           OnceOk(t) == \E h \in 0 .. Size(S) : OutputsOk(t, h)
       IN IF w = "txversion" \/ (w = "outputs" /\ \A j \in DOMAIN Blks[b].txs : OnceOk(Blks[b].txs[j])) \/ (w = "checkpoint" /\ \E c \in S.cks : c[1] = Size(S)) THEN "" ELSE w

(* Safety of a state: what the operations are meant to guarantee *)
NoDoubleSpend(S) ==
  LET txs == [j \in 1 .. Size(S) |-> Blks[S.chain[j]].txs]
      all == Fold(LAMBDA a, x : a \o x, <<>>, txs)
  IN /\ \A j, k \in DOMAIN all : j # k => KeyImages(all[j]) \cap KeyImages(all[k]) = {} /\ Deposits(all[j]) \cap Deposits(all[k]) = {}
     /\ \A x \in 1 .. NKeys : Led(S).spent[x] # 0 <=> \E j \in DOMAIN all : x \in KeyImages(all[j])
Linked(S) == S.chain[1] = 1 /\ \A j \in 2 .. Size(S) : Blks[S.chain[j]].par = S.chain[j - 1] /\ S.led[S.chain[j]].n = j
Replay(S) == Fold(LAMBDA L, j : Extend(L, S.chain[j], IF j = 1 THEN OfInt(1) ELSE S.pth[S.chain[j - 1]].nd), EmptyLedger, Ints(1, Size(S)))
PoolDisjoint(S) == \A t, u \in S.pool : t # u /\ ~S.pa[t].kept /\ ~S.pa[u].kept => KeyImages(t) \cap KeyImages(u) = {} /\ Deposits(t) \cap Deposits(u) = {}
PoolFresh(S) == \A t \in S.pool : Led(S).txh[t] = 0
AltsRooted(S) == \A a \in S.alts : a \notin Range(S.chain)
===============================================================================
