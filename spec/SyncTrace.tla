------------------------------ MODULE SyncTrace ------------------------------
(* Checks a recorded history of a BlockchainSynchronizer, its node and its consumers against Sync. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt, Sync
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, bad
E == Trace[i]
F(name, ok) == IF ok THEN {} ELSE {name}
Set(l) == {l[j] : j \in DOMAIN l}
Step == CASE E.op = "node" -> [S EXCEPT !.node = E.chain, !.pool = Set(E.pool)]
          [] E.op = "join" -> Join(S, E.c, E.chain, Set(E.pool))
          [] E.op = "leave" -> Leave(S, E.c)
          [] E.op = "start" -> IF S.run \/ DOMAIN S.cons = {} THEN S ELSE Begin(S)
          [] E.op = "stopping" -> [S EXCEPT !.halt = TRUE]
          [] E.op = "stopped" -> [S EXCEPT !.run = FALSE]
          [] E.op = "notify" -> Notify(S, E.block)
          [] E.op = "query" -> Query(S, E.ok, E.start, E.ids, E.full)
          [] E.op = "poolquery" -> PoolQuery(S, E.ok, E.actual)
          [] E.op = "detach" -> Detach(S, E.c, E.h)
          [] E.op = "blocks" -> Blocks(S, E.c, E.ids, E.ok)
          [] E.op = "pool" -> PoolUpdate(S, E.c, Set(E.add), Set(E.del), E.ok)
          [] E.op = "put" -> Put(S, E.c, E.t, E.ok)
          [] E.op = "take" -> Take(S, E.c, E.t)
          [] E.op = "completed" -> Completed(S, E.ok)
          [] OTHER -> S
Judge(T) ==
  CASE E.op = "detach" -> F("detach", DetachOk(S, E.c, E.h))
    [] E.op = "blocks" -> F("blocks", BlocksOk(S, E.c, E.start, E.ids, E.full)) \cup F("content", E.content)
    [] E.op = "pool" -> F("pool while stopped", S.run) \cup F("content", E.content)
    [] E.op = "query" -> F("query", S.run /\ E.ts = E.need) \cup F("history", E.history)
    [] E.op = "poolquery" -> F("query", S.run)
    [] E.op = "completed" -> F("completed", CompletedOk(S, E.ok))
    [] E.op = "settled" -> F("settled", SettledOk(S))
    [] E.op = "start" -> F("start", E.threw = (S.run \/ DOMAIN S.cons = {}))
    [] E.op = "known" -> F("known", E.ids = S.cons[E.c].chain)
    [] E.op = "addtx" -> F("refused", E.ok = (E.refuse \notin DOMAIN S.cons)) \cup F("put", PutOk(S, E.t, E.ok))
    [] E.op = "removetx" -> F("take", Set(E.asked) = DOMAIN S.cons)
    [] E.op = "guard" -> F("guard", E.threw = (S.run = E.stopped))
    [] E.op = "hang" -> {"hang"}
    [] OTHER -> {}
Init == i = 2 /\ S = Start /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET T == TLCEval(Step) IN S' = T /\ bad' = Judge(T)
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, S, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
