------------------------------ MODULE SchedMC ------------------------------
(* A few contexts doing anything, in any order, on one dispatcher: event 1 is a lock, event 2 a signal; one group. *)
EXTENDS Sched
CONSTANTS N, Ops, Spawns
VARIABLES S, left, asked, holds, n
vars == <<S, left, asked, holds, n>>
Ids == 1..N
Init == /\ S = [Start({1, 2}) EXCEPT !.ev[1].set = TRUE, !.gr = (0 :> [m |-> <<>>, w |-> <<>>] @@ 1 :> [m |-> <<>>, w |-> <<>>])]
        /\ left = [c \in Ids |-> IF c = 1 THEN Ops + 1 ELSE Ops] /\ asked = [c \in Ids |-> FALSE] /\ holds = [c \in Ids |-> FALSE] /\ n = 1
c == S.cur
Use == left' = [left EXCEPT ![c] = @ - 1]
Same == UNCHANGED <<asked, holds, n>>
(* somebody goes on: it learns how its call ended *)
Go == c = 0 /\ \E T \in Settle(S) : T.cur # 0 /\ \E U \in Told(T, T.cur, FALSE) \cup Told(T, T.cur, TRUE) :
        /\ S' = [U EXCEPT !.on[U.cur].intr = "no"] /\ holds' = [holds EXCEPT ![U.cur] = @ \/ (asked[U.cur] /\ T.on[U.cur].intr = "no")] /\ asked' = [asked EXCEPT ![U.cur] = FALSE] /\ UNCHANGED <<left, n>>
Can == c # 0 /\ left[c] > 0
Blocks(Ts) == \E T \in Ts : S' = (IF T.cur = 0 THEN T ELSE [T EXCEPT !.on[c].intr = "no"])
Run == Can /\ Use /\
  \/ Blocks(Wait(S, c, 2)) /\ Same
  \/ S' = Set(S, 2) /\ Same
  \/ S' = Clear(S, 2) /\ S.ev[2].set /\ Same
  \/ ~holds[c] /\ \E T \in Lock(S, c, 1) : S' = (IF T.cur = 0 THEN T ELSE [T EXCEPT !.on[c].intr = "no"]) /\ holds' = [holds EXCEPT ![c] = T.cur # 0 /\ T.on[c].intr = "no"] /\ asked' = [asked EXCEPT ![c] = T.cur = 0] /\ UNCHANGED n
  \/ Blocks(Sleep(S, c)) /\ Same
  \/ Blocks(Yield(S, c)) /\ Same
  \/ n <= Spawns /\ S' = Spawn(S, n + 1, 1, "run", 0, 0) /\ n' = n + 1 /\ UNCHANGED <<asked, holds>>
  \/ S.on[c].g # 1 /\ Blocks(Group(S, c, 1)) /\ Same
  \/ S' = InterruptAll(S, S.gr[1].m) /\ S.gr[1].m # <<>> /\ Same
  \/ \E d \in DOMAIN S.on : S' = Interrupt(S, d) /\ S' # S /\ Same
Unlock == c # 0 /\ holds[c] /\ S' = Set(S, 1) /\ holds' = [holds EXCEPT ![c] = FALSE] /\ UNCHANGED <<left, asked, n>>
End == c > 1 /\ ~holds[c] /\ S' = Finish(S, c, 0) /\ UNCHANGED <<left, asked, holds, n>>
Expire == \E d \in DOMAIN S.on : S.on[d].st = "sleep" /\ d \notin S.exp /\ S' = [S EXCEPT !.exp = @ \cup {d}] /\ UNCHANGED <<left, asked, holds, n>>
Other == n < N /\ n > Spawns /\ S' = [New(S, n + 1, 0, "run", 0, 0) EXCEPT !.rq = Append(@, n + 1), !.on[n + 1].st = "remote"] /\ n' = n + 1 /\ UNCHANGED <<left, asked, holds>>
Next == Go \/ Run \/ Unlock \/ End \/ Expire \/ Other
Spec == Init /\ [][Next]_vars
(* where a context is *)
Flat(s) == UNION Range(s)
InReady(d) == Cardinality({p \in {<<k, l, j>> \in (DOMAIN S.ready) \X Flat(S.ready) \X (1..N) : l \in S.ready[k] /\ j \in DOMAIN l /\ l[j] = d} : TRUE})
Times(s, d) == Cardinality({k \in DOMAIN s : s[k] = d})
Places(d) == (IF c = d THEN 1 ELSE 0) + InReady(d) + Times(S.ev[1].wait, d) + Times(S.ev[2].wait, d) + Times(S.gr[1].w, d) + Times(S.rq, d) + (IF S.on[d].st = "sleep" THEN 1 ELSE 0)
Placed == \A d \in DOMAIN S.on : Places(d) = 1                                                    \* in one place, so that it can go on
Awake == \A e \in {1, 2} : S.ev[e].set => S.ev[e].wait = <<>>
GroupAwake == S.gr[1].m = <<>> => S.gr[1].w = <<>>
Living == \A d \in DOMAIN S.on : S.on[d].g = 1 => Times(S.gr[1].m, d) = 1
Exclusive == Cardinality({d \in Ids : holds[d]}) <= 1 /\ ((\E d \in Ids : holds[d]) => ~S.ev[1].set)
Kept == \A d \in DOMAIN S.on : LET T == Interrupt(S, d) IN T.on[d].flag \/ T.on[d].intr \in {"yes", "may"}    \* an interrupt is never lost
Quiet == c = 0 /\ \A T \in Settle(S) : T.cur = 0
Free == Quiet /\ (\A d \in Ids : ~holds[d]) => S.ev[1].wait = <<>>                               \* nobody waits for a free lock
=============================================================================
