----------------------------- MODULE TransfersMC -----------------------------
(* Every history of a container with a few transactions: two that pay the wallet with the same key image, a spend of it, a deposit and its withdrawal. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxH, Steps
Key(k, a, ki) == [k |-> k, ty |-> 1, a |-> a, ki |-> ki, term |-> 0]
Dep(k, a, term) == [k |-> k, ty |-> 2, a |-> a, ki |-> 0, term |-> term]
TT == << [unlock |-> 0, ins |-> <<>>, outs |-> <<Key(0, 5, 1)>>],
         [unlock |-> 3, ins |-> <<>>, outs |-> <<Key(0, 7, 1), Key(1, 2, 2)>>],
         [unlock |-> 0, ins |-> <<[ty |-> 1, ki |-> 1, a |-> 5]>>, outs |-> <<Dep(0, 4, 2)>>],
         [unlock |-> 0, ins |-> <<[ty |-> 2, a |-> 4, g |-> 3], [ty |-> 1, ki |-> 2, a |-> 2]>>, outs |-> <<Key(0, 6, 3)>>] >>
VARIABLES S, log, n
M == INSTANCE Transfers WITH T <- TT, Age <- 1, Now <- 0
G(t) == [j \in DOMAIN TT[t].outs |-> t]
Init == S = M!Start /\ log = <<>> /\ n = 0
(* log: what was added to the chain or pool, in order, as <<transaction, height, position>> *)
Do(r, l) == r.ok /\ S' = r.S /\ log' = l /\ n' = n + 1
(* a spend is seen after what it spends is confirmed, as in any chain *)
Causal(r, t) == r.ret => Cardinality(M!InsOf(r.S, t)) = Len(TT[t].ins)
Tip == CHOOSE h \in {S.H} \cup {S.led[t].h : t \in DOMAIN S.led} : \A t \in DOMAIN S.led : S.led[t].h <= h /\ S.H <= h
Pos(h) == Cardinality({t \in DOMAIN S.led : S.led[t].h = h})
Next ==
  /\ n < Steps
  /\ \/ \E t \in DOMAIN TT, h \in {-1} \cup Tip .. MaxH :
          LET r == M!AddTx(S, t, h, Pos(h), h, G(t)) IN Causal(r, t) /\ Do(r, IF r.ret THEN Append(log, <<t, h, Pos(h)>>) ELSE log)
     \/ \E t \in DOMAIN S.led : Do(M!DeleteUnconfirmed(S, t), SelectSeq(log, LAMBDA e : ~(e[1] = t /\ S.led[t].h < 0)))
     \/ \E t \in DOMAIN S.led, h \in Tip .. MaxH : S.led[t].h < 0 /\ Do(M!Confirm(S, t, h, Pos(h), h, G(t)), [j \in DOMAIN log |-> IF log[j][1] = t THEN <<t, h, Pos(h)>> ELSE log[j]])
     \/ \E h \in Tip .. MaxH : h # S.H /\ Do(M!Advance(S, h), log)
     \/ \E h \in 0 .. Tip : LET r == M!Detach(S, h) IN Do(r, SelectSeq(log, LAMBDA e : e[1] \notin r.gone))
Spec == Init /\ [][Next]_<<S, log, n>>
View == <<S, log>>
(* what is left after a rollback is what the rest of the history alone would have given *)
RECURSIVE Replay(_, _)
Replay(s, l) ==
  IF l = <<>> THEN s
  ELSE LET e == Head(l)
           (* a transaction that was confirmed later entered as unconfirmed; its effect is the same *)
           r == M!AddTx([s EXCEPT !.H = 0], e[1], e[2], e[3], e[2], G(e[1]))
       IN Replay(IF r.ok THEN r.S ELSE [s EXCEPT !.H = -9], Tail(l))
SameContents == LET s == Replay(M!Start, log) IN s.led = S.led /\ s.sp = S.sp
Inv == /\ M!OneState(S) /\ M!OneShown(S) /\ M!OneUse(S) /\ M!Balances(S)
       /\ \A t \in DOMAIN S.led : S.led[t].h <= MaxH
Consistent == SameContents
==============================================================================
