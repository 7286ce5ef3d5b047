-------------------------------- MODULE Sync --------------------------------
(* What a blockchain synchroniser owes its consumers.  Blocks and transactions are numbers, block 0 is the genesis.
   node, pool   the node's main chain and pool
   cons         consumer -> [chain, pool]: what it was given and did not have taken back
   ans          the node's last answer about blocks: first height, blocks, which of them came in full, its whole chain then
   seen         the node's chain and pool when it last said that the caller's last block is its top; sure: it said so about
                one state of its pool (the question may be put twice)
   asked        the last thing put to the node was such a question, and it said yes
   fail         something went wrong since the synchroniser was last told to work (start, new block, pool change) or
                last began to work
   err          something went wrong since the last completion
   pend         a new block was announced and the node has not been asked for blocks since
   given        which transactions were put in by hand, and not taken out
   own          transactions were put in or taken out by hand since the last success
   run, halt, done    started; being stopped; the last completion reported success *)
EXTENDS Integers, Sequences, FiniteSets
Genesis == <<0>>
NoAnswer == [start |-> 0, ids |-> <<>>, full |-> <<>>, whole |-> <<>>]
Start == [node |-> Genesis, pool |-> {}, cons |-> <<>>, ans |-> NoAnswer, seen |-> [chain |-> <<>>, pool |-> {}, sure |-> FALSE], asked |-> FALSE,
          fail |-> FALSE, err |-> FALSE, pend |-> FALSE, own |-> FALSE, given |-> {}, run |-> FALSE, halt |-> FALSE, done |-> FALSE]
At(A, h) == A.ids[h - A.start + 1]                       \* block of an answer at a height
Heights(A) == A.start .. A.start + Len(A.ids) - 1
Common(c, d) == Cardinality({n \in 1..Len(c) : n <= Len(d) /\ SubSeq(c, 1, n) = SubSeq(d, 1, n)})
Differ(A, chain) == {h \in Heights(A) : h < Len(chain) /\ chain[h + 1] # At(A, h)}

Join(S, c, chain, pool) == [S EXCEPT !.cons = [k \in DOMAIN S.cons \cup {c} |-> IF k = c THEN [chain |-> chain, pool |-> pool] ELSE S.cons[k]]]
Leave(S, c) == [S EXCEPT !.cons = [k \in DOMAIN S.cons \ {c} |-> S.cons[k]]]
Begin(S) == [S EXCEPT !.run = TRUE, !.halt = FALSE, !.fail = FALSE, !.err = FALSE, !.pend = TRUE, !.done = FALSE, !.asked = FALSE, !.own = FALSE]
Notify(S, block) == [S EXCEPT !.fail = FALSE, !.pend = @ \/ block]
Query(S, ok, start, ids, full) == [S EXCEPT !.ans = IF ok THEN [start |-> start, ids |-> ids, full |-> full, whole |-> S.node] ELSE NoAnswer, !.fail = ~ok, !.err = @ \/ ~ok, !.pend = FALSE, !.asked = FALSE]
PoolQuery(S, ok, actual) ==
  IF ok /\ actual THEN [S EXCEPT !.seen = [chain |-> S.node, pool |-> S.pool, sure |-> S.asked => S.seen.pool = S.pool /\ S.seen.chain = S.node], !.asked = TRUE]
  ELSE [S EXCEPT !.asked = FALSE, !.fail = @ \/ ~ok, !.err = @ \/ ~ok]

(* a consumer which differs from the answer loses its blocks from the first one on which the node differed from it *)
DetachOk(S, c, h) == S.run /\ Differ(S.ans, S.cons[c].chain) # {} /\ h = Common(S.cons[c].chain, S.ans.whole)
Detach(S, c, h) == [S EXCEPT !.cons[c].chain = SubSeq(@, 1, h)]
(* and is given the rest of the answer, directly after what it has *)
BlocksOk(S, c, start, ids, full) == LET chain == S.cons[c].chain A == S.ans IN
  /\ S.run /\ ids # <<>> /\ start = Len(chain) /\ start \in Heights(A) /\ Differ(A, chain) = {}
  /\ ids = SubSeq(A.ids, start - A.start + 1, Len(A.ids)) /\ full = SubSeq(A.full, start - A.start + 1, Len(A.full))
Blocks(S, c, ids, taken) == IF taken THEN [S EXCEPT !.cons[c].chain = @ \o ids] ELSE [S EXCEPT !.fail = TRUE, !.err = TRUE]
PoolUpdate(S, c, add, del, ok) == IF ok THEN [S EXCEPT !.cons[c].pool = (@ \ del) \cup add] ELSE [S EXCEPT !.fail = TRUE, !.err = TRUE]
(* transactions put in and taken out by hand *)
Put(S, c, t, taken) == IF taken THEN [S EXCEPT !.cons[c].pool = @ \cup {t}, !.given = @ \cup {<<c, t>>}, !.own = TRUE] ELSE S
Take(S, c, t) == [S EXCEPT !.cons[c].pool = @ \ {t}, !.given = @ \ {<<c, t>>}, !.own = @ \/ t \in S.cons[c].pool]
(* everybody gets it or nobody *)
PutOk(S, t, ok) == {c \in DOMAIN S.cons : <<c, t>> \in S.given} = IF ok THEN DOMAIN S.cons ELSE {}
Synced(S, chain) == \A c \in DOMAIN S.cons : S.cons[c].chain = chain
PoolIs(S, pool) == \A c \in DOMAIN S.cons : S.cons[c].pool = pool
(* success is reported when everybody has what the node had when it was last asked; failure only if something failed *)
CompletedOk(S, ok) == S.run /\ IF ok THEN S.asked /\ Synced(S, S.seen.chain) /\ (S.seen.sure => PoolIs(S, S.seen.pool)) ELSE S.err \/ S.halt
Completed(S, ok) == [S EXCEPT !.done = ok, !.own = IF ok THEN FALSE ELSE @, !.asked = FALSE, !.err = FALSE]
(* and when all is quiet: every announced block was asked for; after the last thing to do went well, everybody has what
   the node has *)
SettledOk(S) == (S.run /\ ~S.halt) => ~S.pend /\ (~S.fail => S.done /\ Synced(S, S.node) /\ (~S.own => PoolIs(S, S.pool)))
=============================================================================
