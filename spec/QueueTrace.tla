----------------------------- MODULE QueueTrace -----------------------------
(* Checks recorded calls on a BlockingQueue or an ObserverManager, in the order in which they began and returned. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, Queue
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, K, max, bad
E == Trace[i]
Next == /\ i <= Len(Trace) /\ bad = {} /\ i' = i + 1
        /\ max' = IF E.op = "round" THEN E.max ELSE max
        /\ K' = TLCEval(CASE E.op = "round" -> {[Idle EXCEPT !.left = E.left]}
                   [] E.op = "call" -> Begin(K, E.c, E.k, E.v, [got |-> E.got, ok |-> E.ok, v |-> E.a])
                   [] E.op = "return" -> Return(K, E.c, max)
                   [] E.op = "told" -> IF E.good THEN Told(K, E.c, E.o, max) ELSE {}
                   [] E.op = "stuck" -> IF \A C \in K : DOMAIN C.pend = {} THEN K ELSE Stuck(Closure(K, max), max)
                   [] OTHER -> K)
        /\ bad' = IF K' = {} THEN {E.op} ELSE {}
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Init == i = 2 /\ K = {Idle} /\ max = 1 /\ bad = {}
Spec == Init /\ [][Next]_<<i, K, max, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
=============================================================================
