----------------------------- MODULE SchedTrace -----------------------------
(* Checks what contexts on a real dispatcher did, in the order in which they did it. *)
EXTENDS Json, IOUtils, Sched
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, K, bad
E == Trace[i]
One(S) == {S}
(* what context E.c, which is running, does *)
Do(S) == LET c == E.c IN
  CASE E.op = "start" -> IF S.on[c].mode = "run" THEN {S} ELSE {}
    [] E.op = "finish" -> One(Finish(S, c, E.e))
    [] E.op = "spawn" -> One(Spawn(S, E.n, E.g, "run", 0, 0))
    [] E.op = "yield" -> Yield(S, c)
    [] E.op = "wait" -> Wait(S, c, E.e)
    [] E.op = "lock" -> Lock(S, c, E.e)
    [] E.op = "told" -> Told(S, c, E.i)
    [] E.op = "set" -> One(Set(S, E.e))
    [] E.op = "clear" -> One(Clear(S, E.e))
    [] E.op = "get" -> IF S.ev[E.e].set = E.v THEN {S} ELSE {}
    [] E.op = "ginterrupt" -> One(InterruptAll(S, S.gr[E.g].m))
    [] E.op = "gwait" -> Group(S, c, E.g)
    [] E.op = "interrupt" -> One(Interrupt(S, E.n))
    [] E.op = "check" -> IF S.on[c].flag = E.v THEN One([S EXCEPT !.on[c].flag = FALSE]) ELSE {}
    [] E.op = "sleep" -> Sleep(S, c)
    [] E.op = "nap" -> IF S.on[c].flag THEN Here([S EXCEPT !.on[c].flag = FALSE], c, "yes") ELSE Yield([S EXCEPT !.on[c].intr = "no"], c)
    [] E.op = "rspawn" -> One([New(S, E.n, 0, "run", 0, 0) EXCEPT !.rq = Append(@, E.n), !.on[E.n].st = "remote"])
    [] E.op = "context" -> One(Spawn([S EXCEPT !.ev = Put(@, E.e, [set |-> FALSE, wait |-> <<>>])], E.n, -1, "run", 0, 0))
    [] E.op = "result" -> Result(S, c, E.e, E.n)
    [] E.op = "thread" -> One([S EXCEPT !.ev = Put(@, E.e, [set |-> FALSE, wait |-> <<>>])])
    [] E.op = "join" -> Thread(S, c, E.e, 0)
    [] E.op = "timeout" -> One(Spawn([S EXCEPT !.gr = Put(@, E.h, [m |-> <<>>, w |-> <<>>])], E.n, E.h, "timer", 0, E.g))
    [] OTHER -> {S}
(* what happens outside the contexts *)
Outside(S) == CASE E.op = "expire" -> IF Has(S.on, E.n) /\ S.on[E.n].st = "sleep" THEN One([S EXCEPT !.exp = @ \cup {E.n}]) ELSE {S}      \* a timer nobody sleeps on any more
                [] E.op = "over" -> One([New(S, E.n, 0, "say", E.e, 0) EXCEPT !.rq = Append(@, E.n), !.on[E.n].st = "remote"])
                [] E.op = "rescue" -> One([New(S, E.n, 0, "run", 0, 0) EXCEPT !.rq = Append(@, E.n), !.on[E.n].st = "remote"])
                [] E.op = "end" -> IF DOMAIN S.on = {1} THEN {S} ELSE {}
Out == {"expire", "over", "rescue", "end"}
Next == /\ i <= Len(Trace) /\ bad = {} /\ i' = i + 1
        /\ K' = TLCEval(IF E.op = "round" THEN LET S == Start(1..E.events) IN {[S EXCEPT !.ev = [e \in DOMAIN @ |-> IF e <= E.locks THEN [set |-> TRUE, wait |-> <<>>] ELSE @[e]], !.gr = [g \in 0..E.groups |-> [m |-> <<>>, w |-> <<>>]]]}
                   ELSE IF E.op \in Out THEN UNION {Outside(S) : S \in K}
                   ELSE IF E.op = "idle" THEN {S \in After(K) : S.cur = 0}
                   ELSE UNION {Do(S) : S \in {T \in After(K) : T.cur = E.c}})
        /\ bad' = IF K' = {} THEN {E.op} ELSE {}
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Init == i = 2 /\ K = {Start({})} /\ bad = {}
Spec == Init /\ [][Next]_<<i, K, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
=============================================================================
