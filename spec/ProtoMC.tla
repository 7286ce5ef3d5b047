------------------------------ MODULE ProtoMC ------------------------------
(* A node between an honest peer (1) whose chain grows and a liar (2): every order of messages, every interleaving of their handling. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lies, Grow
(* 1-2-3: the honest chain; 4: a fork the node starts on or the liar shows; 5: not valid; 6: on top of it; transaction 1 is in block 2 *)
B == (0 :> [p |-> -1, h |-> 0, txs |-> <<>>, ok |-> TRUE]) @@ (1 :> [p |-> 0, h |-> 1, txs |-> <<>>, ok |-> TRUE])
  @@ (2 :> [p |-> 1, h |-> 2, txs |-> <<1>>, ok |-> TRUE]) @@ (3 :> [p |-> 2, h |-> 3, txs |-> <<>>, ok |-> TRUE])
  @@ (4 :> [p |-> 0, h |-> 1, txs |-> <<>>, ok |-> TRUE]) @@ (5 :> [p |-> 4, h |-> 2, txs |-> <<>>, ok |-> FALSE])
P == INSTANCE Proto WITH Blk <- B, TxOk <- <<TRUE>>, Batch <- 2, Most <- 10, LiteVer <- 3
VARIABLES S, q, tip, lies, grown
vars == <<S, q, tip, lies, grown>>
Honest == 1
Liar == 2
Peers == {Honest, Liar}
Open(c) == c \in DOMAIN S.conn
Free(c) == Open(c) /\ S.work[c] = <<>> /\ S.conn[c].st \notin {"start", "pool", "shutdown"}
H(t) == B[t].h + 1
Answer(c, d) == CASE d.k = "chain" -> P!ChainEntry(S, c, 0, H(tip), P!Path(tip))
                  [] d.k = "getobjs" -> P!Objects(S, c, [j \in DOMAIN d.ids |-> [b |-> d.ids[j], txs |-> B[d.ids[j]].txs]], H(tip))
                  [] OTHER -> S
Init == S = P!Hand(P!Hand([P!Start EXCEPT !.main = <<0, 4>>, !.known = {0, 4}], Honest, 2, 1, 1), Liar, 2, 4, 1)
        /\ q = [c \in Peers |-> <<>>] /\ tip = 1 /\ lies = 0 /\ grown = 0
(* the node's own steps *)
Work(c) == /\ Open(c) /\ S.work[c] # <<>>
           /\ LET T == P!Silent(S, c) w == T.work[c] IN
              IF w = <<>> THEN S' = T /\ UNCHANGED q
              ELSE CASE w[1].o = "see" -> S' = P!Do(T, c, Tail(w)) /\ q' = IF w[1].e.op = "post" /\ w[1].e.k \in {"chain", "getobjs"} THEN [q EXCEPT ![c] = Append(@, w[1].e)] ELSE q
                     [] w[1].o = "relay" -> S' = P!Do(T, c, Tail(w)) /\ UNCHANGED q
                     [] w[1].o = "tx" -> S' = P!AfterTx(T, c, w[1], P!TxFails(w[1].t), P!TxNew(T, w[1].t) /\ ~w[1].kept) /\ UNCHANGED q
                     [] w[1].o = "block" -> S' = P!AfterBlock(T, c, w[1]) /\ UNCHANGED q
           /\ UNCHANGED <<tip, lies, grown>>
Follow(c) == /\ Open(c) /\ S.work[c] = <<>>
             /\ CASE S.conn[c].st = "start" -> S' = P!Begin(S, c) /\ UNCHANGED q
                  [] S.conn[c].st = "pool" -> S' = P!ReqPool(S, c) /\ UNCHANGED q
                  [] S.conn[c].st = "shutdown" -> S' = P!Gone(P!Closed(S, c), c) /\ q' = [q EXCEPT ![c] = <<>>]
                  [] OTHER -> FALSE
             /\ UNCHANGED <<tip, lies, grown>>
(* the honest peer *)
Reply == /\ Free(Honest) /\ q[Honest] # <<>> /\ S' = Answer(Honest, Head(q[Honest])) /\ q' = [q EXCEPT ![Honest] = Tail(@)] /\ UNCHANGED <<tip, lies, grown>>
Greet == Free(Honest) /\ q[Honest] = <<>> /\ S' = P!Timed(S, Honest, H(tip), tip) /\ UNCHANGED <<q, tip, lies, grown>>
Found == /\ grown < Grow /\ tip < 3 /\ tip' = tip + 1 /\ grown' = grown + 1 /\ UNCHANGED <<S, q, lies>>
Tell == Free(Honest) /\ S' = P!NewBlock(S, Honest, tip, B[tip].txs, H(tip), 0) /\ UNCHANGED <<q, tip, lies, grown>>
(* the liar says anything *)
Lists == {<<>>, <<0>>, <<1>>, <<0, 4>>, <<0, 1>>, <<4, 5>>, <<0, 4, 5>>, <<0, 1, 2>>, <<0, 1, 2, 3>>, <<5>>, <<2>>, <<4, 0>>}
Lie == /\ lies < Lies /\ lies' = lies + 1 /\ Free(Liar) /\ UNCHANGED <<tip, grown>>
       /\ q' = [q EXCEPT ![Liar] = <<>>]
       /\ \/ \E l \in Lists, t \in 1..4 : S' = P!ChainEntry(S, Liar, 0, t, l)
          \/ \E l \in Lists, t \in 1..4 : S' = P!Objects(S, Liar, [j \in DOMAIN l |-> [b |-> l[j], txs |-> B[l[j]].txs]], t)
          \/ \E b \in 1..5, t \in 1..4 : S' = P!NewBlock(S, Liar, b, B[b].txs, t, 0)
          \/ \E b \in 0..5, t \in 1..4 : S' = P!Timed(S, Liar, t, b)
Next == (\E c \in Peers : Work(c) \/ Follow(c)) \/ Reply \/ Greet \/ Found \/ Tell \/ Lie
Spec == Init /\ [][Next]_vars /\ (\A c \in Peers : WF_vars(Work(c)) /\ WF_vars(Follow(c))) /\ WF_vars(Reply) /\ WF_vars(Greet)
(* what holds *)
Sound == /\ \A b \in S.known : B[b].ok /\ (b = 0 \/ B[b].p \in S.known)
         /\ S.main = P!Path(P!Tip(S)) /\ \A b \in S.known : B[b].h < Len(S.main)
HonestKept == Open(Honest) /\ S.conn[Honest].st # "shutdown"
Counted == S.peers = Cardinality({c \in DOMAIN S.conn : TRUE})
Converges == <>[](Len(S.main) >= H(tip))
SyncedStays == [][S.synced => S'.synced]_vars
=============================================================================
