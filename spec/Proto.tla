------------------------------- MODULE Proto -------------------------------
(* What a node does with the protocol messages of its peers.  Pure operators.

   Parameters: Blk[b] = [p |-> parent, h |-> height, txs |-> list, ok |-> valid]; a block nobody can have is negative;
   TxOk[t]; Batch: most blocks asked for at once; Most: most objects answered at once; LiteVer: first version of a peer that knows lite blocks.

   S.main: list of the blocks of the main chain from the genesis block; S.known: all blocks kept; S.mined, S.pool: transactions;
   S.synced: the node has said that it is synchronised; S.peers: number of peers;
   S.conn[c]: st (what the node is doing with the peer: before, sync, idle, normal, start, pool, shutdown), rem (its height),
   last (height of the last block it has named), need (blocks to ask for), req (blocks asked for), pend (lite block that waits for
   transactions), ver;   S.work[c]: what the handling of the peer's last message has still to do, a list of steps. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Blk, TxOk, Batch, Most, LiteVer
Set(l) == {l[j] : j \in DOMAIN l}
None == [b |-> -1, h |-> 0, hop |-> 0, miss |-> {}, on |-> FALSE]
Fresh(ver) == [st |-> "before", rem |-> 0, last |-> 0, need |-> <<>>, req |-> {}, pend |-> None, ver |-> ver]
NoConn == [c \in {} |-> Fresh(0)]
NoWork == [c \in {} |-> <<>>]
Start == [main |-> <<0>>, known |-> {0}, mined |-> {}, pool |-> {}, synced |-> FALSE, peers |-> 0, conn |-> NoConn, work |-> NoWork]
Tip(S) == Last(S.main)
Have(S, b) == b \in S.known
HaveTx(S, t) == t \in S.mined \/ t \in S.pool

(* The chain below: it keeps valid blocks whose parent it has, and follows the first highest one. *)
RECURSIVE Path(_)
Path(b) == IF b < 0 THEN <<>> ELSE Append(Path(Blk[b].p), b)
TxsOf(chain) == UNION {Set(Blk[chain[j]].txs) : j \in DOMAIN chain}
Verdict(S, b) == CASE b < 0 -> "fail"
                   [] b \in S.known -> "exists"
                   [] Blk[b].p \notin S.known -> "orphan"
                   [] ~Blk[b].ok \/ \E t \in Set(Blk[b].txs) : ~HaveTx(S, t) -> "fail"
                   [] Blk[b].h < Len(S.main) -> "alt"
                   [] Blk[b].p = Tip(S) -> "main"
                   [] OTHER -> "switch"
Push(S, b) == LET v == Verdict(S, b) IN
  CASE v = "alt" -> [S EXCEPT !.known = @ \cup {b}]
    [] v = "main" -> [S EXCEPT !.known = @ \cup {b}, !.main = Append(@, b), !.mined = @ \cup Set(Blk[b].txs), !.pool = @ \ Set(Blk[b].txs)]
    [] v = "switch" -> LET ch == Path(b) m == TxsOf(ch) IN [S EXCEPT !.known = @ \cup {b}, !.main = ch, !.mined = m, !.pool = (@ \cup S.mined) \ m]
    [] OTHER -> S
TxFails(t) == t < 1 \/ ~TxOk[t]
TxNew(S, t) == ~TxFails(t) /\ ~HaveTx(S, t)
TakeTx(S, t) == IF TxNew(S, t) THEN [S EXCEPT !.pool = @ \cup {t}] ELSE S

(* Steps: those of which something can be seen ("see": the event that has to come next), and silent ones. *)
See(e) == [o |-> "see", e |-> e]
Post(c, m) == See([op |-> "post", to |-> c] @@ m)
Chain == [k |-> "chain", ok |-> TRUE]
Tx(t, kept, f) == [o |-> "tx", t |-> t, kept |-> kept, f |-> f]                  (* f: what a bad transaction leads to *)
Block(b, m, txs, h, hop) == [o |-> "block", b |-> b, m |-> m, txs |-> txs, h |-> h, hop |-> hop]   (* m: announced or answered; txs: what came with it *)
Op(o) == [o |-> o]
Do(S, c, w) == [S EXCEPT !.work[c] = w]
State(S, c, st) == [S EXCEPT !.conn[c].st = st]
Shut(S, c) == Do(State(S, c, "shutdown"), c, <<>>)
Rem(S, c, h) == [S EXCEPT !.conn[c].rem = h]
Ask(c) == <<Post(c, Chain)>>

(* The next blocks to ask for: a prefix of those needed, without those that have come meanwhile. *)
RECURSIVE Cut(_, _, _, _)
Cut(S, l, check, acc) == IF l = <<>> \/ Len(acc) >= Batch THEN [ask |-> acc, left |-> l]
                         ELSE Cut(S, Tail(l), check, IF check /\ Have(S, Head(l)) THEN acc ELSE Append(acc, Head(l)))
Missing(S, c, check) ==
  LET x == S.conn[c] IN
  IF x.need # <<>> THEN
    LET d == Cut(S, x.need, check, <<>>)
    IN Do([S EXCEPT !.conn[c].need = d.left, !.conn[c].req = @ \cup Set(d.ask)], c, <<Post(c, [k |-> "getobjs", ids |-> d.ask, ok |-> TRUE])>>)
  ELSE IF x.rem = 0 \/ x.last < x.rem - 1 THEN Do(S, c, Ask(c))
  ELSE IF x.last = x.rem - 1 /\ x.req = {} THEN Do(S, c, <<Op("reqpool"), Op("normal"), Op("synced")>>)
  ELSE Do(S, c, <<>>)

(* Who is told of a new block: every peer but the source, each in the form it understands. *)
Told(S, c) == {d \in DOMAIN S.conn : d # c /\ S.conn[d].st \in {"normal", "sync"}}
Relay(S, c, b, txs, h, hop) ==
  LET t == Told(S, c) lite == {d \in t : S.conn[d].ver >= LiteVer} full == t \ lite
  IN (IF lite = {} THEN {} ELSE {[k |-> "lite", b |-> b, h |-> h, hop |-> hop, to |-> lite]})
     \cup (IF full = {} THEN {} ELSE {[k |-> "block", b |-> b, txs |-> txs, h |-> h, hop |-> hop, to |-> full]})

(* Performs the silent steps at the head of a peer's work. *)
RECURSIVE Silent(_, _)
Silent(S, c) ==
  IF S.work[c] = <<>> THEN S
  ELSE LET w == Head(S.work[c]) r == Tail(S.work[c]) IN
    CASE w.o = "reqpool" -> Do(S, c, <<Post(c, [k |-> "pool", txs |-> S.pool])>> \o r)
      [] w.o = "normal" -> Silent(Do(State(S, c, "normal"), c, r), c)
      [] w.o = "synced" -> IF S.synced THEN Silent(Do(S, c, r), c)
                           ELSE Do([S EXCEPT !.synced = TRUE], c, <<See([op |-> "sync"]), See([op |-> "synced", h |-> Len(S.main) - 1])>> \o r)
      [] w.o = "relaytxs" -> LET to == Told(S, c) IN IF w.acc = {} \/ to = {} THEN Silent(Do(S, c, r), c) ELSE Do(S, c, <<[o |-> "relay", left |-> {[k |-> "txs", txs |-> w.acc, to |-> to]}]>> \o r)
      [] w.o = "relayblock" -> Silent(Do(S, c, <<[o |-> "relay", left |-> Relay(S, c, w.b, w.txs, w.h, w.hop)]>> \o r), c)
      [] w.o = "relay" -> IF w.left = {} THEN Silent(Do(S, c, r), c) ELSE S
      [] w.o = "shut" -> Shut(S, c)
      [] w.o = "missing" -> IF S.conn[c].st # "sync" THEN Silent(Do(S, c, r), c) ELSE Silent(Missing(S, c, TRUE), c)
      [] OTHER -> S

(* Messages.  Each gives the state with the work that they lead to. *)
Hand(S, c, h, b, ver) ==
  LET S1 == Rem([S EXCEPT !.conn = (c :> Fresh(ver)) @@ @, !.work = (c :> <<>>) @@ @, !.peers = @ + 1], c, h)
      n == See([op |-> "peers", n |-> S.peers + 1])
  IN IF Have(S, b) THEN Do(State(S1, c, "pool"), c, <<Op("synced"), n>>) ELSE Do(State(S1, c, "start"), c, <<n>>)
Timed(S, c, h, b) == Do(Rem(IF S.conn[c].st = "sync" THEN S ELSE State(S, c, IF Have(S, b) THEN "normal" ELSE "start"), c, h), c, <<>>)
Begin(S, c) == Do(State(S, c, "sync"), c, Ask(c))
ReqPool(S, c) == Do(State(S, c, "normal"), c, <<Op("reqpool")>>)
Closed(S, c) == [S EXCEPT !.peers = @ - 1, !.work[c] = <<See([op |-> "peers", n |-> S.peers - 1])>>]
Gone(S, c) == [S EXCEPT !.conn = [d \in DOMAIN S.conn \ {c} |-> S.conn[d]], !.work = [d \in DOMAIN S.work \ {c} |-> S.work[d]]]
NewBlock(S, c, b, txs, h, hop) ==
  LET S1 == Rem(S, c, h) IN
  IF S.conn[c].st # "normal" THEN Do(S1, c, <<>>) ELSE Do(S1, c, [j \in DOMAIN txs |-> Tx(txs[j], TRUE, "shut")] \o <<Block(b, "new", txs, h, hop)>>)
PushLite(S, c, b, h, hop, given) ==
  LET x == S.conn[c]
      need == SelectSeq(Blk[b].txs, LAMBDA t : t \notin given /\ ~HaveTx(S, t))
      clear == [S EXCEPT !.conn[c].pend = None]
  IN IF b < 0 THEN Shut(S, c)
     ELSE IF x.pend.on /\ ~(x.pend.miss \subseteq given) THEN Shut(clear, c)
     ELSE IF need = <<>> THEN Do(clear, c, [j \in DOMAIN Blk[b].txs |-> Tx(Blk[b].txs[j], TRUE, "shut")] \o <<Block(b, "new", Blk[b].txs, h, hop)>>)
     ELSE IF x.pend.on THEN Shut(clear, c)
     ELSE Do([S EXCEPT !.conn[c].pend = [b |-> b, h |-> h, hop |-> hop, miss |-> Set(need), on |-> TRUE]], c, <<Post(c, [k |-> "missing", b |-> b, h |-> h, txs |-> Set(need)])>>)
NewLite(S, c, b, h, hop) == LET S1 == Rem(S, c, h) IN IF S.conn[c].st # "normal" THEN Do(S1, c, <<>>) ELSE PushLite(S1, c, b, h, hop, {})
NewTxs(S, c, txs) ==
  LET p == S.conn[c].pend IN
  IF S.conn[c].st # "normal" THEN Do(S, c, <<>>)
  ELSE IF p.on THEN PushLite(S, c, p.b, p.h, p.hop, Set(txs))
  ELSE Do(S, c, [j \in DOMAIN txs |-> Tx(txs[j], FALSE, "skip")] \o <<[o |-> "relaytxs", acc |-> {}]>>)
ChainEntry(S, c, start, total, ids) ==
  IF ids = <<>> \/ ~Have(S, Head(ids)) THEN Shut(S, c)
  ELSE LET S1 == [S EXCEPT !.conn[c].rem = total, !.conn[c].last = start + Len(ids) - 1]
       IN IF start + Len(ids) > total THEN Shut(S1, c)
          ELSE Missing([S1 EXCEPT !.conn[c].need = @ \o SelectSeq(ids, LAMBDA b : ~Have(S, b))], c, FALSE)
(* An answer with blocks: the list is judged before any of it is taken. *)
RECURSIVE Sift(_, _, _, _)
Sift(S, l, j, req) ==
  IF j > Len(l) THEN IF req = {} THEN "ok" ELSE "shut"
  ELSE LET e == l[j] IN
    CASE e.b < 0 -> "shut"
      [] j = 2 /\ Have(S, e.b) -> "idle"
      [] e.b \notin req -> "shut"
      [] Len(e.txs) # Len(Blk[e.b].txs) -> "shut"
      [] OTHER -> Sift(S, l, j + 1, req \ {e.b})
RECURSIVE Plan(_, _, _)
Plan(l, j, acc) ==
  IF j > Len(l) THEN Append(acc, Op("missing"))
  ELSE LET t == l[j].txs u == Blk[l[j].b].txs bad == {k \in DOMAIN t : t[k] # u[k]}
           n == IF bad = {} THEN Len(t) ELSE CHOOSE k \in bad : \A m \in bad : k <= m
           run == [k \in 1..(IF bad = {} THEN n ELSE n - 1) |-> Tx(t[k], TRUE, "shut")]
       IN IF bad # {} THEN acc \o run \o <<Op("shut")>> ELSE Plan(l, j + 1, acc \o run \o <<Block(l[j].b, "sync", <<>>, 0, 0)>>)
Objects(S, c, l, h) ==
  IF S.conn[c].last >= h THEN Shut(S, c)
  ELSE LET S1 == Rem(S, c, h) v == Sift(S, l, 1, S.conn[c].req)
           top == {j \in DOMAIN l : l[j].b = Tip(S)}
           from == IF top = {} THEN 1 ELSE (CHOOSE j \in top : TRUE) + 1
       IN CASE v = "shut" -> Shut(S1, c)
            [] v = "idle" -> Do([S1 EXCEPT !.conn[c].st = "idle", !.conn[c].need = <<>>, !.conn[c].req = {}], c, <<>>)
            [] OTHER -> Do([S1 EXCEPT !.conn[c].req = {}], c, Plan(l, from, <<>>))
OnMain(S, b) == b >= 0 /\ Have(S, b) /\ Blk[b].h < Len(S.main) /\ S.main[Blk[b].h + 1] = b
ReqChain(S, c, ids) ==
  IF ids = <<>> \/ Last(ids) # 0 THEN Shut(S, c)
  ELSE LET b == Head(SelectSeq(ids, LAMBDA x : OnMain(S, x)))
       IN Do(S, c, <<Post(c, [k |-> "entry", start |-> Blk[b].h, total |-> Len(S.main), ids |-> SubSeq(S.main, Blk[b].h + 1, Len(S.main))])>>)
ReqObjects(S, c, ids) ==
  IF Len(ids) > Most THEN Shut(S, c)
  ELSE LET l == SelectSeq(ids, LAMBDA b : Have(S, b)) IN Do(S, c, <<Post(c, [k |-> "objs", ids |-> l, missed |-> Len(ids) - Len(l), h |-> Len(S.main), ok |-> TRUE])>>)
ReqTxs(S, c, txs) == LET l == S.pool \ txs IN Do(S, c, IF l = {} THEN <<>> ELSE <<Post(c, [k |-> "txs", txs |-> l])>>)
ReqMissing(S, c, txs) == IF \E t \in txs : ~HaveTx(S, t) THEN Shut(S, c) ELSE Do(S, c, <<Post(c, [k |-> "txs", txs |-> txs])>>)

(* What follows the answer of the chain below. *)
AfterTx(S, c, w, fail, relay) ==
  LET r == Tail(S.work[c]) S1 == TakeTx(S, w.t) IN
  IF w.f = "skip" THEN Do(S1, c, IF relay THEN [r EXCEPT ![Len(r)].acc = @ \cup {w.t}] ELSE r)
  ELSE IF fail THEN Shut(S1, c) ELSE Do(S1, c, r)
AfterBlock(S, c, w) ==
  LET v == Verdict(S, w.b) S1 == Push(S, w.b) r == Tail(S.work[c]) IN
  IF w.m = "sync" THEN
    CASE v \in {"fail", "orphan"} -> Shut(S1, c)
      [] v = "exists" -> Do([S1 EXCEPT !.conn[c].st = "idle", !.conn[c].need = <<>>, !.conn[c].req = {}], c, <<>>)
      [] OTHER -> Do(S1, c, r)
  ELSE CASE v = "fail" -> Shut(S1, c)
         [] v \in {"main", "switch"} -> Do(S1, c, <<[o |-> "relayblock", b |-> w.b, txs |-> w.txs, h |-> w.h, hop |-> w.hop + 1]>> \o (IF v = "switch" THEN <<Op("reqpool")>> ELSE <<>>))
         [] v = "orphan" -> Do(State(S1, c, "sync"), c, Ask(c))
         [] OTHER -> Do(S1, c, <<>>)
=============================================================================
