-------------------------------- MODULE Answers --------------------------------
(* What a node must answer when asked about its chain, its indexes and its pool. *)
EXTENDS Node

(* ---- the ledger, row by row ---- *)
Row(S, k) == LET L == Led(S) IN
  [b |-> S.chain[k], ok |-> TRUE, sz |-> L.sz[k], coins |-> L.coins[k], ntx |-> L.ntx[k], ts |-> L.ts[k],
   d |-> IF k = 1 THEN L.cum[1] ELSE Sub(L.cum[k], L.cum[k - 1]), dep |-> L.dep[k], int |-> L.int[k]]
(* positions of the outputs of t among all outputs of the same amount and kind, 0 based *)
Globals(L, t) == [p \in DOMAIN Txs[t].outs |->
                   LET o == Txs[t].outs[p] l == IF o.k = 0 THEN L.outs[o.a] ELSE L.mouts[o.a] IN
                   (CHOOSE x \in DOMAIN l : l[x][1] = t /\ l[x][2] = p) - 1]
TxRow(S, t) == LET L == Led(S) h == L.txh[t] IN
  IF h = 0 THEN [h |-> -1, b |-> None, g |-> <<-1>>, got |-> t \in S.pool]
  ELSE [h |-> h - 1, b |-> S.chain[h], g |-> Globals(L, t), got |-> TRUE]
MultiRow(r) == LET o == Txs[r[1]].outs[r[2]] IN <<r[1], r[2], o.nk, o.req, o.term>>
ByPaymentId(S, p) == {t \in 1 .. Len(Txs) : Txs[t].pid = p /\ (t \in S.pool \/ Led(S).txh[t] # 0)}
OrphansAt(S, h) == {b \in S.alts : Blks[b].h = h}
MainSet(S) == Range(S.chain)
Known(S) == MainSet(S) \cup S.alts

(* ---- synchronisation ---- *)
HeightIn(S, b) == S.led[b].n - 1
(* first block of the list the node has in its main chain *)
Common(S, ids) == LET k == CHOOSE k \in DOMAIN ids : InMain(S, ids[k]) /\ \A j \in 1 .. k - 1 : ~InMain(S, ids[j]) IN HeightIn(S, ids[k])
Supplement(S, ids, max) == LET s == Common(S, ids) IN [start |-> s, res |-> SubSeq(S.chain, s + 1, MinI(Size(S), s + max))]
ListOk(ids) == ids # <<>> /\ Last(ids) = 1
(* acceptable first full block: timestamps cross the bound there; or nothing reaches the bound at the end *)
FullOk(S, start, full, ts, early) ==
  LET v == ts - Cfg.ftl T == Led(S).ts IN
  \/ full = start /\ (early \/ T[Size(S)] < v)
  \/ ~early /\ full >= start /\ full < Size(S) /\ T[full + 1] >= v /\ (full = start \/ T[full] < v)
BlocksOk(S, start, full, ts, res) ==
  LET nshort == full - start
      last == MinI(Size(S), full + 128)
  IN /\ Len(res) = last - start
     /\ \A k \in DOMAIN res : LET b == S.chain[start + k] IN
          res[k] = IF k > nshort /\ Blks[b].ts >= ts THEN <<b, b, Blks[b].txs>> ELSE <<b, 0, <<>>>>
(* 1, 2, 4 ... steps back from the top of the list, newest first *)
Powers == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
Doubling(s) == LET p == SelectSeq(Powers, LAMBDA q : q <= Len(s)) IN [k \in DOMAIN p |-> s[Len(s) + 1 - p[k]]]
Sparse(S, b) ==
  LET alt == AltPath(S, b)
      anc == IF alt = <<>> THEN b ELSE Blks[alt[1]].par
      m == Doubling(SubSeq(S.chain, 1, S.led[anc].n))
  IN Doubling(alt) \o (IF Last(m) = 1 THEN m ELSE Append(m, 1))
PoolAdded(S, known, now) == {t \in S.pool : Ready(S, t, now) /\ t \notin known}
PoolDeleted(S, known, now) == {t \in known : ~(t \in S.pool /\ Ready(S, t, now))}

(* ---- by time ---- *)
Between(x, a, b) == x >= a /\ x <= b
Distinct(s) == \A j, k \in DOMAIN s : j # k => s[j] # s[k]
(* the first lim elements, by time, of all elements with these times *)
TimeOk(all, TimeOf(_), from, to, lim, ret, count, res) ==
  LET in == {x \in all : Between(TimeOf(x), from, to)} IN
  IF from > to THEN ~ret /\ res = <<>>
  ELSE /\ count = Cardinality(in) /\ Len(res) = MinI(lim, count) /\ (ret <=> res # <<>>) /\ Distinct(res) /\ Range(res) \subseteq in
       /\ \A k \in 1 .. Len(res) - 1 : TimeOf(res[k]) <= TimeOf(res[k + 1])
       /\ \A x \in in \ Range(res), y \in Range(res) : TimeOf(y) <= TimeOf(x)
PoolTimeOk(S, from, to, lim, ret, count, res) ==
  LET in == {t \in S.pool : Between(S.pa[t].rt, from, to)} IN
  IF from > to THEN ~ret /\ res = <<>>
  ELSE /\ count = Cardinality(in) /\ Len(res) = MinI(lim, count) /\ (ret <=> res # <<>>) /\ Distinct(res) /\ Range(res) \subseteq in
       /\ \A x \in in \ Range(res), y \in Range(res) : S.pa[y].rt <= S.pa[x].rt

(* ---- outputs to mix with ---- *)
(* outputs up to the newest one that is old enough; each that is offered is unlocked, and all are offered when there is room *)
Mixable(L, a, now) ==
  LET l == L.outs[a]
      old == {k \in DOMAIN l : l[k][3] + Cfg.unlockw <= L.n}
  IN {k \in DOMAIN l : (\E o \in old : o >= k) /\ Unlocked(l[k][1], L.n, now)}
RandomOk(L, a, n, res, now) ==
  LET ok == Mixable(L, a, now) got == {res[k][1] + 1 : k \in DOMAIN res} IN
  /\ got \subseteq ok /\ Cardinality(got) = Len(res) /\ Len(res) = MinI(n, Cardinality(ok))
  /\ \A k \in DOMAIN res : LET r == L.outs[a][res[k][1] + 1] IN Txs[r[1]].outs[r[2]].key = res[k][2]

(* ---- by identifier ---- *)
InChain(S, l) == SelectSeq(l, LAMBDA t : t # None /\ Led(S).txh[t] # 0)
NotInChain(S, l) == SelectSeq(l, LAMBDA t : t = None \/ Led(S).txh[t] = 0)
HasBodies(S, b) == \A j \in DOMAIN Blks[b].txs : LET t == Blks[b].txs[j] IN t # None /\ (t \in S.pool \/ Led(S).txh[t] # 0)
================================================================================
