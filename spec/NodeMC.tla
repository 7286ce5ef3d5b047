-------------------------------- MODULE NodeMC --------------------------------
(* A small node explored exhaustively: a fixed tree of blocks and a few transactions that conflict with, or depend on, each
   other, submitted in every order, with clean restarts, crashes, rollbacks, expiry, and checkpoints chosen at restart. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS UseBlocks, UseTxs, Ops, MaxRestarts
B == INSTANCE Big
MCCfg == [win |-> 10, cut |-> 0, lag |-> 2, zawy2 |-> FALSE, zawyidx |-> 0, tcw |-> 3, ftl |-> 100000, unlockw |-> 1, rbw |-> 10, zone |-> 1000, reserved |-> 100,
          maxinit |-> 100000, num |-> 0, den |-> 1, dmin |-> B!OfInt(1000), minTerm |-> 1, minTerm3 |-> 1, maxTerm3 |-> 2, maxTerm1 |-> 2, maxTerm |-> 2, dh3 |-> 0, dh4 |-> 0,
          uh |-> <<0, 1000, 1000, 1000, 1000>>, live |-> 500, altlive |-> 900, periods |-> 3, nkeys |-> 9, guess |-> 10]
(* amounts *)
Foundation == 1
Base == 2
Fee1 == 3
Dep == 4
Change == 5
Whole == 6
Back == 7
Fee2 == 8
Spent == 9
BaseInt == 10
Ft == <<0, 0, 0, 12>>
MCAmts == << Ft, B!OfInt(5000000), B!OfInt(5001000), B!OfInt(1000000), B!Sub(Ft, B!OfInt(1001000)), B!Sub(Ft, B!OfInt(1000)), B!OfInt(999007), B!OfInt(4999000),
             B!Sub(Ft, B!OfInt(1002000)), B!OfInt(999006) >>
KeyIn(a, n, ki) == [k |-> 0, a |-> a, off |-> <<n>>, ki |-> ki, want |-> <<ki>>, ok |-> TRUE]
DepIn(a, n, by) == [k |-> 1, a |-> a, idx |-> n, term |-> 1, ns |-> 1, by |-> by, ok |-> TRUE, int3 |-> B!OfInt(7)]
KeyOut(a, key) == [k |-> 0, a |-> a, key |-> key, ok |-> TRUE]
DepOut(a, key) == [k |-> 1, a |-> a, key |-> key, ok |-> TRUE, term |-> 1, nk |-> 1, req |-> 1]
Tx(ins, outs) == [v |-> 2, cb |-> FALSE, cbh |-> 0, nsig |-> 1, ulk |-> "h", uln |-> 0, sz |-> 100, ttl |-> 0, pid |-> 0, fus |-> FALSE, ins |-> ins, outs |-> outs]
Coinbase(h, a, key) == [v |-> 1, cb |-> TRUE, cbh |-> h, nsig |-> 0, ulk |-> "h", uln |-> h + 1, sz |-> 50, ttl |-> 0, pid |-> 0, fus |-> FALSE, ins |-> <<[k |-> 2]>>, outs |-> <<KeyOut(a, key)>>]
MCTxs == <<
  Coinbase(0, Base, 9), Coinbase(1, Foundation, 1), Coinbase(2, Base, 9), Coinbase(3, Fee1, 9), Coinbase(4, Fee1, 9), Coinbase(3, Base, 9), Coinbase(4, Base, 9), Coinbase(5, Base, 9),  \* 1 .. 8
  Tx(<<KeyIn(Foundation, 0, 1)>>, <<DepOut(Dep, 5), KeyOut(Change, 2)>>),   \*  9 opens a deposit
  Tx(<<KeyIn(Foundation, 0, 1)>>, <<KeyOut(Whole, 3)>>),                    \* 10 spends the same output
  Tx(<<DepIn(Dep, 0, 5)>>, <<KeyOut(Back, 4)>>),                            \* 11 withdraws the deposit
  Tx(<<DepIn(Dep, 0, 5)>>, <<KeyOut(BaseInt, 6)>>),                         \* 12 withdraws it too (fee 1001)
  Tx(<<KeyIn(Change, 0, 2)>>, <<KeyOut(Spent, 7)>>) >>                      \* 13 spends the change
Blk(par, h, ts, cb, txs) == [par |-> par, h |-> h, v |-> 2, ts |-> ts, dmax |-> B!OfInt(1000), cb |-> cb, txs |-> txs]
MCBlks == <<
  Blk(0, 0, 0, 1, <<>>), Blk(1, 1, 120, 2, <<>>), Blk(2, 2, 240, 3, <<>>),
  Blk(3, 3, 360, 4, <<9>>),     \*  4
  Blk(4, 4, 480, 5, <<11>>),    \*  5
  Blk(3, 3, 370, 4, <<10>>),    \*  6 conflicts with 4
  Blk(6, 4, 380, 7, <<>>),      \*  7 longer, lacks 9
  Blk(3, 3, 260, 4, <<9>>),     \*  8 same as 4, faster: the next one needs more work
  Blk(8, 4, 380, 5, <<12>>),    \*  9
  Blk(9, 5, 480, 8, <<>>),      \* 10
  Blk(8, 4, 390, 7, <<13>>),    \* 11 pays too little
  Blk(11, 5, 490, 8, <<>>),     \* 12
  Blk(3, 3, 365, 6, <<>>),      \* 13 empty
  Blk(13, 4, 470, 5, <<9>>),    \* 14
  Blk(14, 5, 580, 8, <<>>) >>   \* 15
N == INSTANCE Node WITH Cfg <- MCCfg, Txs <- MCTxs, Blks <- MCBlks, Amts <- MCAmts, NKeys <- 9
VARIABLES S, now, act, left
vars == <<S, now, act, left>>
Base0 == LET a == N!SubmitBlock(N!Start, 2, 1000).s IN N!SubmitBlock(a, 3, 1000).s
Checkpoints == {{}, {<<3, 8>>}}
Init == S = Base0 /\ now = 1000 /\ act = [op |-> "init", why |-> ""] /\ left = MaxRestarts
DoTx == \E t \in UseTxs, kept \in {FALSE} : LET r == N!SubmitTx(S, t, kept, now) IN S' = r.s /\ act' = [op |-> "tx", t |-> t, why |-> r.why, added |-> r.added] /\ UNCHANGED <<now, left>>
DoBlk == \E b \in UseBlocks : LET r == N!SubmitBlock(S, b, now) IN S' = r.s /\ act' = [op |-> "blk", b |-> b, why |-> r.why, amc |-> r.amc, orp |-> r.orp, msgs |-> r.msgs] /\ UNCHANGED <<now, left>>
DoRoll == "roll" \in Ops /\ N!Size(S) > 3 /\ left > 0 /\ left' = left - 1 /\ S' = N!Rollback(S, N!Size(S) - 2) /\ act' = [op |-> "roll", why |-> ""] /\ UNCHANGED now
DoRestart == "restart" \in Ops /\ left > 0 /\ left' = left - 1 /\ \E c \in Checkpoints : S' = N!Restart(N!Stop(S), S.chain, c, now).s /\ act' = [op |-> "restart", why |-> ""] /\ UNCHANGED now
DoCrash == "crash" \in Ops /\ left > 0 /\ left' = left - 1 /\ \E c \in N!Survivors(S) : S' = N!Restart(S, c, S.cks, now).s /\ act' = [op |-> "crash", why |-> ""] /\ UNCHANGED now
DoWait == "wait" \in Ops /\ now = 1000 /\ now' = 1600 /\ S' = N!Idle(S, 1600).s /\ act' = [op |-> "wait", why |-> ""] /\ UNCHANGED left
Next == ~S.torn /\ (DoTx \/ DoBlk \/ DoRoll \/ DoRestart \/ DoCrash \/ DoWait)
Spec == Init /\ [][Next]_vars
View == <<S.chain, S.alts, S.pool, [t \in S.pool |-> S.pa[t]], S.rec, S.saved, S.cks, S.undone, S.torn, S.idle, now, left>>

Work(Z) == N!Last(N!Led(Z).cum)
Sound == ~S.torn => N!NoDoubleSpend(S) /\ N!Linked(S) /\ N!PoolFresh(S) /\ N!PoolDisjoint(S)
Functional == ~S.torn => N!Replay(S) = N!Led(S)
Checked == ~S.torn => \A c \in S.cks : c[1] < N!Size(S) => S.chain[c[1] + 1] = c[2]
Money == LET L == N!Led(S) IN N!Le(N!Last(L.dep), N!Last(L.coins)) /\ \A j \in 2 .. Len(L.coins) : N!Lt(L.coins[j - 1], L.coins[j])
(* work only grows while the node runs; a refusal changes neither the chain nor takes anything out of the pool *)
Running(op) == op \in {"tx", "blk", "wait"}
MoreWork == [][Running(act'.op) /\ ~S'.torn => S'.chain = S.chain \/ N!Lt(Work(S), Work(S'))]_vars
NoTrace == [][act'.op \in {"tx", "blk"} /\ act'.why # "" /\ ~S'.torn => S'.chain = S.chain /\ S.pool \subseteq S'.pool]_vars
(* transactions of blocks left behind stay available unless the new chain includes or invalidates them *)
Kept == [][act'.op = "blk" /\ ~S'.torn => \A t \in (N!TxSet(S.chain) \cup S.pool) \ N!TxSet(S'.chain) : t \in S'.pool]_vars
(* the messages let an observer follow the chain *)
Apply(chain, m) == IF m[1] = "new" THEN Append(chain, m[2][1])
                   ELSE IF m[1] = "sw" THEN LET k == CHOOSE k \in DOMAIN chain : chain[k] = m[2][1] IN SubSeq(chain, 1, k) \o Tail(m[2]) ELSE chain
Told == [][act'.op = "blk" /\ ~S'.torn => S'.chain = N!Fold(LAMBDA c, m : Apply(c, m), S.chain, act'.msgs)]_vars
(* a block that arrives and makes a branch heavier is followed, unless the branch is invalid or would drop a confirmed transaction *)
Followed == ~S.torn /\ act.op = "blk" /\ act.why = "" /\ act.b \in S.alts => ~N!Lt(Work(S), N!Last(S.pth[act.b].cum))
================================================================================
