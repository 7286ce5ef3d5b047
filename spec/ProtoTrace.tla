---------------------------- MODULE ProtoTrace ----------------------------
(* Checks a recorded history of a CryptoNoteProtocolHandler, its core and its peers against Proto. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Defs == TLCEval(ndJsonDeserialize(IOEnv.DEFS)[1])
P == INSTANCE Proto WITH Blk <- TLCEval([b \in 0..(Len(Defs.blocks) - 1) |-> Defs.blocks[b + 1]]), TxOk <- TLCEval([t \in 1..(Len(Defs.txs) - 1) |-> Defs.txs[t + 1]]),
                         Batch <- Defs.batch, Most <- Defs.most, LiteVer <- Defs.lite
VARIABLES i, S, bad
E == Trace[i]
F(name, ok) == IF ok THEN {} ELSE {name}
Set(l) == {l[j] : j \in DOMAIN l}
C == E.c
In ==
  CASE E.k = "hand" -> P!Hand(S, C, E.h, E.b, E.ver)
    [] E.k = "timed" -> P!Timed(S, C, E.h, E.b)
    [] E.k = "start" -> P!Begin(S, C)
    [] E.k = "reqpool" -> P!ReqPool(S, C)
    [] E.k = "closed" -> P!Closed(S, C)
    [] E.k = "block" -> P!NewBlock(S, C, E.b, E.txs, E.h, E.hop)
    [] E.k = "lite" -> P!NewLite(S, C, E.b, E.h, E.hop)
    [] E.k = "txs" -> P!NewTxs(S, C, E.txs)
    [] E.k = "entry" -> P!ChainEntry(S, C, E.start, E.total, E.ids)
    [] E.k = "objs" -> P!Objects(S, C, E.blocks, E.h)
    [] E.k = "chain" -> P!ReqChain(S, C, E.ids)
    [] E.k = "getobjs" -> P!ReqObjects(S, C, E.ids)
    [] E.k = "pool" -> P!ReqTxs(S, C, Set(E.txs))
    [] E.k = "missing" -> P!ReqMissing(S, C, Set(E.txs))
    [] E.k = "mined" -> [S EXCEPT !.work = (C :> <<[o |-> "relay", left |-> P!Relay(S, C, E.b, Defs.blocks[E.b + 1].txs, E.h, 0)]>>) @@ @]
    [] E.k = "own" -> [S EXCEPT !.work = (C :> <<[o |-> "relaytxs", acc |-> Set(E.txs)]>>) @@ @]
    [] E.k = "junk" -> P!Do(S, C, <<>>)
(* the event without what names its kind and source, lists whose order is free as sets *)
Msg == LET skip == {"op", "c"} \cup (IF E.op = "relay" THEN {} ELSE {"to"})
           m == [f \in DOMAIN E \ skip |-> IF f = "to" \/ (f = "txs" /\ E.k # "block") THEN Set(E[f]) ELSE E[f]] IN m
Same(a, b) == DOMAIN a = DOMAIN b /\ \A f \in DOMAIN a : a[f] = b[f]
Q == TLCEval(IF C \in DOMAIN S.work THEN P!Silent(S, C) ELSE S)
W == Q.work[C]
Seen == W # <<>> /\ W[1].o = "see" /\ LET x == W[1].e IN x.op = E.op /\ Same([f \in DOMAIN x \ {"op", "to"} |-> x[f]], Msg) /\ (E.op = "post" => x.to = E.to /\ E.to = C)
Result ==     (* the next state, and what is wrong *)
  CASE E.op = "in" -> <<In, {}>>
    [] E.op \in {"post", "peers", "sync", "synced"} -> IF C \in DOMAIN S.work /\ Seen THEN <<P!Do(Q, C, Tail(W)), {}>> ELSE <<S, {E.op} \cup (IF E.op = "post" THEN {E.k} ELSE {})>>
    [] E.op = "relay" -> IF C \in DOMAIN S.work /\ W # <<>> /\ W[1].o = "relay" /\ \E m \in W[1].left : Same(m, Msg)
                         THEN <<P!Do(Q, C, <<[W[1] EXCEPT !.left = {m \in @ : ~Same(m, Msg)}]>> \o Tail(W)), {}>> ELSE <<S, {"relay", E.k}>>
    [] E.op = "tx" -> IF C = 0 \/ C \notin DOMAIN S.work THEN IF E.fail = P!TxFails(E.t) THEN <<P!TakeTx(S, E.t), {}>> ELSE <<S, {"core"}>>
                      ELSE IF W # <<>> /\ W[1].o = "tx" /\ W[1].t = E.t /\ W[1].kept = E.kept
                           THEN <<P!AfterTx(Q, C, W[1], E.fail, E.relay), F("core", E.fail = P!TxFails(E.t) /\ E.relay = (P!TxNew(Q, E.t) /\ ~E.kept))>> ELSE <<S, {"tx"}>>
    [] E.op = "pushed" -> IF C = 0 \/ C \notin DOMAIN S.work THEN <<P!Push(S, E.b), F("core", E.r = P!Verdict(S, E.b))>>
                          ELSE IF W # <<>> /\ W[1].o = "block" /\ W[1].b = E.b THEN <<P!AfterBlock(Q, C, W[1]), F("core", E.r = P!Verdict(Q, E.b))>> ELSE <<S, {"block"}>>
    [] E.op = "end" -> <<[Q EXCEPT !.work = [d \in DOMAIN Q.work \ {C} |-> Q.work[d]]], F("left out", W = <<>>)>>
    [] E.op = "ret" -> IF C \notin DOMAIN S.work THEN <<S, {"ret"}>> ELSE
         LET gone == E.st = "gone"
             x == Q.conn[C]
         IN <<IF gone THEN P!Gone(Q, C) ELSE Q,
              F("left out", W = <<>>) \cup (IF gone \/ E.threw THEN {} ELSE F("state", E.st = x.st) \cup F("height", x.st = "shutdown" \/ E.rem = x.rem))
              \cup F("synced", E.synced = Q.synced) \cup F("count", E.peers = Q.peers) \cup F("mining", E.idle => ~E.paused)>>
    [] E.op = "settled" -> <<S, F("converged", \A t \in Set(E.tips) : Defs.blocks[t + 1].h < E.h) \cup F("abandoned", E.peers = 4) \cup F("synced", S.synced) \cup F("core", E.h = Len(S.main))>>
    [] OTHER -> <<S, {}>>
Init == i = 2 /\ S = P!Start /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET r == TLCEval(Result) IN S' = r[1] /\ bad' = r[2]
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, S, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
