------------------------------- MODULE SyncMC -------------------------------
(* How the synchroniser goes about what Sync asks for: a loop with a wanted state (idle < pool < blocks), the last block it
   handed out, and one round of questions and deliveries at a time; the node changes at any moment.  Each constant FALSE
   takes away one of the precautions:
   Reset  the last block is forgotten when blocks are asked for, and kept only when everybody took them
   Keep   a failure does not withdraw the wish to ask for blocks which came up meanwhile
   Fork   a consumer which differs from the answer's first block is taken back to where it left the chain *)
EXTENDS Integers, Sequences, FiniteSets, Sync
CONSTANTS Reset, Keep, Fork, MaxChanges, MaxFails, Starts
VARIABLES S, phase, wish, last, todo, news, fresh, changes, fails, ok
vars == <<S, phase, wish, last, todo, news, fresh, changes, fails, ok>>
Cons == {1, 2}
Unknown == -1
Init == /\ \E s \in Starts : S = Begin([Start EXCEPT !.node = s.node, !.pool = {}, !.cons = s.cons])
        /\ phase = "loop" /\ wish = "blocks" /\ last = Unknown /\ todo = {} /\ news = [add |-> {}, del |-> {}] /\ fresh = 100 /\ changes = 0 /\ fails = 0 /\ ok = TRUE
Higher(a, b) == IF "blocks" \in {a, b} THEN "blocks" ELSE IF "pool" \in {a, b} THEN "pool" ELSE "idle"
Wish(w) == wish' = Higher(wish, w)
CanFail == fails < MaxFails
(* the world outside *)
NewChains == {Append(SubSeq(S.node, 1, k), fresh) : k \in 1 .. Len(S.node)}
            \cup {SubSeq(S.node, 1, k) \o <<fresh, fresh + 1>> : k \in 1 .. Len(S.node)}
World == /\ changes < MaxChanges /\ changes' = changes + 1
         /\ \/ \E c \in NewChains : S' = Notify([S EXCEPT !.node = c], TRUE) /\ fresh' = fresh + 2 /\ Wish("blocks")
            \/ /\ phase # "failed" /\ \E p \in SUBSET {1} : p # S.pool /\ S' = Notify([S EXCEPT !.pool = p], FALSE) /\ UNCHANGED fresh
               /\ Wish("pool")
         /\ UNCHANGED <<phase, last, todo, news, fails, ok>>
Loop == /\ phase = "loop" /\ wish # "idle"
        /\ phase' = IF wish = "blocks" THEN "ask" ELSE "askpool"
        /\ wish' = IF wish = "blocks" THEN "pool" ELSE "idle"
        /\ last' = IF wish = "blocks" /\ Reset THEN Unknown ELSE last
        /\ UNCHANGED <<S, todo, news, fresh, changes, fails, ok>>
Shortest == CHOOSE c \in Cons : \A d \in Cons : Len(S.cons[c].chain) < Len(S.cons[d].chain) \/ (Len(S.cons[c].chain) = Len(S.cons[d].chain) /\ c <= d)
Ask == /\ phase = "ask"
       /\ \/ LET k == Common(S.cons[Shortest].chain, S.node) to == IF k + 1 < Len(S.node) THEN k + 1 ELSE Len(S.node) IN
             /\ S' = Query(S, TRUE, k - 1, SubSeq(S.node, k, to), <<>>) /\ phase' = "give" /\ todo' = Cons /\ news' = [news EXCEPT !.add = {}] /\ UNCHANGED fails
          \/ CanFail /\ fails' = fails + 1 /\ S' = Query(S, FALSE, 0, <<>>, <<>>) /\ phase' = "failed" /\ UNCHANGED <<todo, news>>
       /\ UNCHANGED <<wish, last, fresh, changes, ok>>
First == CHOOSE c \in todo : \A d \in todo : c <= d
Lowest(s) == CHOOSE h \in s : \A g \in s : h <= g
(* where a consumer left the chain of one which agrees with the answer's first block *)
ForkOf(c) == LET A == S.ans like == {d \in Cons : Len(S.cons[d].chain) > A.start /\ S.cons[d].chain[A.start + 1] = At(A, A.start)}
                 k == Common(S.cons[c].chain, S.cons[CHOOSE d \in like : TRUE].chain) IN IF like = {} \/ k > A.start THEN A.start ELSE k
Give ==
  /\ phase = "give" /\ todo # {}
  /\ LET c == First A == S.ans chain == S.cons[c].chain d == Differ(A, chain)
         h == IF Fork /\ Lowest(d) = A.start THEN ForkOf(c) ELSE Lowest(d)
         T == IF d = {} THEN S ELSE Detach(S, c, h)
         from == Len(T.cons[c].chain) ids == IF from \in Heights(A) THEN SubSeq(A.ids, from - A.start + 1, Len(A.ids)) ELSE <<>> IN
     \/ /\ S' = (IF ids = <<>> THEN T ELSE Blocks(T, c, ids, TRUE)) /\ todo' = todo \ {c} /\ phase' = phase /\ UNCHANGED fails
        /\ news' = [news EXCEPT !.add = IF d # {} \/ ids # <<>> THEN {1} ELSE @]
        /\ ok' = (ok /\ (d # {} => DetachOk(S, c, h)) /\ (ids # <<>> => BlocksOk(T, c, from, ids, <<>>)))
     \/ /\ CanFail /\ ids # <<>> /\ fails' = fails + 1 /\ S' = Blocks(T, c, ids, FALSE) /\ phase' = "failed" /\ UNCHANGED <<todo, news>>
        /\ ok' = (ok /\ (d # {} => DetachOk(S, c, h)))
  /\ last' = IF ~Reset /\ phase' = "failed" THEN S.ans.ids[Len(S.ans.ids)] ELSE last
  /\ UNCHANGED <<wish, fresh, changes>>
Given == /\ phase = "give" /\ todo = {} /\ phase' = "loop" /\ last' = S.ans.ids[Len(S.ans.ids)]
         /\ IF news.add # {} THEN Wish("blocks") ELSE UNCHANGED wish
         /\ UNCHANGED <<S, todo, news, fresh, changes, fails, ok>>
(* a failure is announced, and the round is over *)
Failed == /\ phase = "failed" /\ phase' = "loop" /\ ok' = (ok /\ CompletedOk(S, FALSE)) /\ S' = Completed(S, FALSE)
          /\ wish' = IF Keep /\ wish = "blocks" THEN wish ELSE "idle"
          /\ UNCHANGED <<last, todo, news, fresh, changes, fails>>
Union == S.cons[1].pool \cup S.cons[2].pool
Both == S.cons[1].pool \cap S.cons[2].pool
AskPool(p, next) ==
  /\ phase = p
  /\ \/ LET actual == last = S.node[Len(S.node)] known == IF p = "askpool" THEN Union ELSE Both IN
        /\ S' = PoolQuery(S, TRUE, actual) /\ UNCHANGED <<fails, ok>>
        /\ IF actual THEN phase' = next /\ todo' = Cons /\ news' = [add |-> S.pool \ known, del |-> IF p = "askpool" THEN known \ S.pool ELSE news.del] /\ UNCHANGED wish
           ELSE phase' = "loop" /\ Wish("blocks") /\ UNCHANGED <<todo, news>>
     \/ /\ CanFail /\ fails' = fails + 1 /\ LET T == PoolQuery(S, FALSE, FALSE) IN S' = Completed(T, FALSE) /\ ok' = (ok /\ CompletedOk(T, FALSE))
        /\ phase' = "loop" /\ wish' = (IF Keep THEN wish ELSE "idle") /\ UNCHANGED <<todo, news>>
  /\ UNCHANGED <<last, fresh, changes>>
GivePool ==
  /\ phase = "givepool" /\ todo # {}
  /\ LET c == First IN
     \/ S' = PoolUpdate(S, c, news.add, news.del, TRUE) /\ todo' = todo \ {c} /\ UNCHANGED <<phase, fails, ok>>
     \/ CanFail /\ fails' = fails + 1 /\ phase' = "loop" /\ UNCHANGED todo /\ LET T == PoolUpdate(S, c, {}, {}, FALSE) IN S' = Completed(T, FALSE) /\ ok' = (ok /\ CompletedOk(T, FALSE))
  /\ UNCHANGED <<wish, last, news, fresh, changes>>
Done == /\ phase = "givepool" /\ todo = {} /\ phase' = "loop" /\ ok' = (ok /\ CompletedOk(S, TRUE)) /\ S' = Completed(S, TRUE) /\ UNCHANGED <<wish, last, todo, news, fresh, changes, fails>>
Work == Loop \/ Ask \/ Give \/ Given \/ Failed \/ AskPool("askpool", IF Union = Both THEN "givepool" ELSE "askboth") \/ AskPool("askboth", "givepool") \/ GivePool \/ Done
Next == World \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)
Quiet == phase = "loop" /\ wish = "idle"
Kept == ok
Settled == Quiet => SettledOk(S)
Settles == <>[]Quiet                       \* there are only so many changes: it comes to rest
P(chain) == [chain |-> chain, pool |-> {}]
Begins == {[node |-> <<0, 1, 2>>, cons |-> <<P(<<0>>), P(<<0>>)>>], [node |-> <<0, 1, 2>>, cons |-> <<P(<<0, 1>>), P(<<0, 8, 9>>)>>],
           [node |-> <<0, 1, 2>>, cons |-> <<[chain |-> <<0, 1, 2>>, pool |-> {1}], P(<<0, 8>>)>>], [node |-> <<0, 1, 2, 3>>, cons |-> <<P(<<0, 1, 2>>), P(<<0, 8, 9, 10>>)>>]}
=============================================================================
