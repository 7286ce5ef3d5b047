------------------------------ MODULE Transfers ------------------------------
(* The outputs a wallet address owns (src/Transfers/TransfersContainer).                          *)
(* State: S.led  transaction -> [h, x, ts, g]: the block height (-1: unconfirmed), the position   *)
(*               in the block, the block's time and the global index of each own output;          *)
(*        S.sp   <<transaction, output>> -> <<spending transaction, input>>;                      *)
(*        S.H    the current height.                                                              *)
(* Everything the container reports is a function of this state.                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
CONSTANTS T,          \* T[t] = [unlock, ins, outs, ...]: what transaction t is
          Age,        \* spendable age of the subscription
          Now         \* the time of day
MaxBlock == 500000000
Outs(S) == UNION {{<<t, k>> : k \in DOMAIN T[t].outs} : t \in DOMAIN S.led}
O(o) == T[o[1]].outs[o[2]]                     \* [k, ty, a, ki, term]; ty 1 key, 2 multisignature
Hof(S, o) == S.led[o[1]].h
Gidx(S, o) == S.led[o[1]].g[o[2]]
Confirmed(S, o) == Hof(S, o) >= 0
IsSpent(S, o) == o \in DOMAIN S.sp
Unconf(S) == {o \in Outs(S) : ~Confirmed(S, o)}
Spent(S) == DOMAIN S.sp
Avail(S) == {o \in Outs(S) : Confirmed(S, o) /\ o \notin DOMAIN S.sp}

(* ---- who is shown when several outputs have one key image ---- *)
Twins(S, o) == {p \in Outs(S) : O(p).ty = 1 /\ O(p).ki = O(o).ki}
Before(S, p, q) == \/ Hof(S, p) < Hof(S, q)
                   \/ Hof(S, p) = Hof(S, q) /\ S.led[p[1]].x < S.led[q[1]].x
Visible(S, o) ==
  IF O(o).ty # 1 THEN TRUE
  ELSE LET k == Twins(S, o)
           s == {p \in k : IsSpent(S, p)}
           a == {p \in k : Confirmed(S, p) /\ ~IsSpent(S, p)}
       IN IF s # {} THEN o \in s
          ELSE IF a # {} THEN o \in a /\ \A p \in a \ {o} : Before(S, o, p)
          ELSE Cardinality(k) = 1

(* ---- when may an output be used ---- *)
TimeUnlocked(S, o) ==
  LET u == T[o[1]].unlock
      byUnlock == IF u < MaxBlock THEN S.H + 1 >= u ELSE Now + 120 >= u
  IN byUnlock /\ (O(o).ty = 2 /\ O(o).term # 0 => S.H + 1 >= Hof(S, o) + O(o).term)
(* 1 unlocked, 2 locked, 4 soft locked *)
StateOf(S, o) == IF ~Confirmed(S, o) \/ ~TimeUnlocked(S, o) THEN 2 ELSE IF S.H < Hof(S, o) + Age THEN 4 ELSE 1
KindOf(o) == IF O(o).ty = 1 THEN 1 ELSE IF O(o).term = 0 THEN 2 ELSE 4
(* the height whose arrival makes a confirmed output usable; fixed when it is confirmed *)
UnlockHeight(S, o) ==
  LET u == T[o[1]].unlock
      h == Hof(S, o)
  IN Max({IF u = 0 THEN h ELSE u, h + Age + 1} \cup IF O(o).ty = 2 /\ O(o).term # 0 THEN {h + O(o).term} ELSE {})

(* ---- queries ---- *)
Listed(S, states, kinds) == {o \in Avail(S) : Visible(S, o) /\ StateOf(S, o) \in states /\ KindOf(o) \in kinds}
                            \cup IF 2 \in states THEN {o \in Unconf(S) : Visible(S, o) /\ KindOf(o) \in kinds} ELSE {}
Total(s) == FoldSet(LAMBDA o, n : O(o).a + n, 0, s)
OutsOf(S, t, states, kinds) ==
  {o \in Outs(S) : o[1] = t /\ KindOf(o) \in kinds /\ IF IsSpent(S, o) THEN 8 \in states ELSE StateOf(S, o) \in states}
InsOf(S, t) == {o \in DOMAIN S.sp : S.sp[o][1] = t}

(* ---- spending: which own output does each input take ---- *)
(* result <<ok, sp>>; inputs in order *)
Spend(S, t, sp0) ==
  FoldLeft(LAMBDA r, j :
    IF ~r[1] THEN r
    ELSE LET in == T[t].ins[j]
             sp == r[2]
             here == {o \in Outs(S) : o \notin DOMAIN sp /\ Confirmed(S, o)}
         IN IF in.ty = 1
            THEN LET a == {o \in here : O(o).ty = 1 /\ O(o).ki = in.ki}
                     fit == {o \in a : O(o).a = in.a}
                 IN IF \E o \in DOMAIN sp : O(o).ty = 1 /\ O(o).ki = in.ki THEN <<FALSE, sp>>
                    ELSE IF a = {} THEN <<{o \in Unconf(S) : O(o).ty = 1 /\ O(o).ki = in.ki} = {}, sp>>
                    ELSE IF fit = {} THEN <<FALSE, sp>>
                    ELSE LET o == CHOOSE p \in fit : \A q \in fit \ {p} : Before(S, p, q)
                         IN <<TRUE, sp @@ (o :> <<t, j>>)>>
            ELSE IF in.ty = 2
            THEN LET a == {o \in here : O(o).ty = 2 /\ O(o).a = in.a /\ Gidx(S, o) = in.g}
                 IN IF a = {} THEN <<TRUE, sp>> ELSE <<TRUE, sp @@ ((CHOOSE o \in a : TRUE) :> <<t, j>>)>>
            ELSE r,
    <<TRUE, sp0>>, [j \in DOMAIN T[t].ins |-> j])

(* ---- steps: result [ok, S, ret, hit (notified outputs), gone (deleted transactions)] ---- *)
R(ok, S, ret, hit, gone) == [ok |-> ok, S |-> S, ret |-> ret, hit |-> hit, gone |-> gone]
Unlocking(S, to) == {o \in Avail(S) : UnlockHeight(S, o) <= to + 1 /\ (S.H = 0 \/ UnlockHeight(S, o) > S.H + 1)}
Advance(S, h) == IF h < S.H THEN R(FALSE, S, FALSE, {}, {}) ELSE R(TRUE, [S EXCEPT !.H = h], TRUE, Unlocking(S, h), {})
AddTx(S, t, h, x, ts, g) ==
  IF (h >= 0 /\ h < S.H) \/ t \in DOMAIN S.led THEN R(FALSE, S, FALSE, {}, {})
  ELSE LET S1 == [S EXCEPT !.led = @ @@ (t :> [h |-> h, x |-> x, ts |-> ts, g |-> g])]
           s == Spend(S1, t, S.sp)
           mine == T[t].outs # <<>> \/ s[2] # S.sp
           S2 == IF mine THEN [S1 EXCEPT !.sp = s[2]] ELSE S
       IN IF ~s[1] THEN R(FALSE, S, FALSE, {}, {})
          ELSE IF h < 0 THEN R(TRUE, S2, mine, {}, {})
          ELSE R(TRUE, [S2 EXCEPT !.H = h], mine, Unlocking(S2, h), {})
Without(S, gone) == [S EXCEPT !.led = Restrict(@, (DOMAIN @) \ gone),
                              !.sp = Restrict(@, {o \in DOMAIN @ : @[o][1] \notin gone /\ o[1] \notin gone})]
DeleteUnconfirmed(S, t) ==
  IF t \notin DOMAIN S.led \/ S.led[t].h >= 0 THEN R(TRUE, S, FALSE, {}, {}) ELSE R(TRUE, Without(S, {t}), TRUE, {}, {})
Confirm(S, t, h, x, ts, g) ==
  IF t \notin DOMAIN S.led \/ S.led[t].h >= 0 THEN R(TRUE, S, FALSE, {}, {})
  ELSE R(TRUE, [S EXCEPT !.led[t] = [h |-> h, x |-> x, ts |-> ts, g |-> g]], TRUE, {}, {})
Detached(S, h) == {t \in DOMAIN S.led : S.led[t].h >= h}
                  \cup {t \in DOMAIN S.led : S.led[t].h < 0 /\ \E o \in InsOf(S, t) : Hof(S, o) >= h}
Detach(S, h) ==
  LET gone == Detached(S, h)
      S1 == Without(S, gone)
      c == IF h = 0 THEN 0 ELSE h - 1
  IN R(TRUE, [S1 EXCEPT !.H = c], TRUE, {o \in Avail(S1) : UnlockHeight(S1, o) > c + 1 /\ UnlockHeight(S1, o) <= S.H + 1}, gone)
Start == [led |-> <<>>, sp |-> <<>>, H |-> 0]

(* ---- what must always hold ---- *)
OneState(S) == /\ Cardinality(Outs(S)) = Cardinality(Unconf(S)) + Cardinality(Avail(S)) + Cardinality(Spent(S))
               /\ \A o \in Spent(S) : o \in Outs(S) /\ Confirmed(S, o) /\ S.sp[o][1] \in DOMAIN S.led
               (* a confirmed spender never precedes what it spends *)
               /\ \A o \in Spent(S) : S.led[S.sp[o][1]].h >= 0 => S.led[S.sp[o][1]].h >= Hof(S, o)
OneShown(S) == \A o \in Outs(S) : O(o).ty = 1 =>
                  LET v == {p \in Twins(S, o) : Visible(S, p)} IN
                  Cardinality(v) <= 1 /\ (v = {} => \A p \in Twins(S, o) : ~Confirmed(S, p))
OneUse(S) == \A o, p \in Spent(S) : o # p /\ O(o).ty = 1 /\ O(p).ty = 1 => O(o).ki # O(p).ki
Balances(S) == Total(Listed(S, {1}, {1, 2, 4})) + Total(Listed(S, {2}, {1, 2, 4})) + Total(Listed(S, {4}, {1, 2, 4})) = Total(Listed(S, {1, 2, 4}, {1, 2, 4}))
==============================================================================
