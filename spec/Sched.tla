------------------------------- MODULE Sched -------------------------------
(* Cooperative contexts on one dispatcher.  A state is a record:
   cur    the running context, 0 when it has just given up its turn
   ready  who runs next: a sequence of groups of lists, the lists of a group being in no order with respect to each other
   on     every living context: st (run, ready, event, group, sleep), what it does once it is resumed (mode, with its objects
          e and k), how it was woken (intr: "no", "yes", or "may" where both are right), a pending interrupt (flag), its group g
   ev     events: set, and who waits in order;  gr: groups: members in order of spawning, and who waits for their end
   exp    sleepers whose time is over, unnoticed;  rq: contexts spawned by another thread, unnoticed
   Both are noticed when a context yields, and when nobody is ready.  Modes other than "run" are contexts which, resumed, do a
   step of their own and may wait again without anything being seen of it. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
None == "-"
Main == [st |-> "run", mode |-> "run", e |-> 0, k |-> 0, intr |-> "no", flag |-> FALSE, g |-> 0]
Start(events) == [cur |-> 1, ready |-> <<>>, on |-> (1 :> Main), ev |-> [e \in events |-> [set |-> FALSE, wait |-> <<>>]], gr |-> (0 :> [m |-> <<>>, w |-> <<>>]), exp |-> {}, rq |-> <<>>]
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Gone(s, x) == SelectSeq(s, LAMBDA y : y # x)
(* making contexts ready *)
Push(S, c) == [S EXCEPT !.ready = Append(@, {<<c>>}), !.on[c].st = "ready"]
Wake(S, c, intr) == [Push(S, c) EXCEPT !.on[c].intr = intr]
WakeAll(S, cs) == FoldLeft(LAMBDA T, c : Wake(T, c, "no"), S, cs)
Set(S, e) == IF S.ev[e].set THEN S ELSE WakeAll([S EXCEPT !.ev[e] = [set |-> TRUE, wait |-> <<>>]], S.ev[e].wait)
Clear(S, e) == [S EXCEPT !.ev[e].set = FALSE]
(* an interrupt ends a wait or a sleep; otherwise it stays pending, and is never lost *)
Interrupt(S, c) == IF ~Has(S.on, c) \/ S.on[c].flag THEN S ELSE LET o == S.on[c] IN
  CASE o.st = "event" -> Wake([S EXCEPT !.ev[o.e].wait = Gone(@, c)], c, "yes")
    [] o.st = "sleep" -> Wake([S EXCEPT !.exp = @ \ {c}], c, IF c \in S.exp THEN "may" ELSE "yes")
    [] OTHER -> [S EXCEPT !.on[c].flag = TRUE]
InterruptAll(S, cs) == FoldLeft(Interrupt, S, cs)
New(S, n, g, mode, e, k) == LET T == [S EXCEPT !.on = Put(@, n, [Main EXCEPT !.st = "ready", !.mode = mode, !.e = e, !.k = k, !.g = g])] IN IF Has(S.gr, g) THEN [T EXCEPT !.gr[g].m = Append(@, n)] ELSE T
Spawn(S, n, g, mode, e, k) == Push(New(S, n, g, mode, e, k), n)
(* the end of a context; the last one of a group wakes those who wait for it.  done: an event that says so, or 0 *)
Finish(S, c, done) == LET g == S.on[c].g
                          T == [S EXCEPT !.cur = 0, !.on = Drop(@, c)]
                          U == IF Has(S.gr, g) THEN [T EXCEPT !.gr[g].m = Gone(@, c)] ELSE T
                          V == IF Has(S.gr, g) /\ U.gr[g].m = <<>> /\ U.gr[g].w # <<>> THEN WakeAll([U EXCEPT !.gr[g].w = <<>>], S.gr[g].w) ELSE U
                      IN IF done = 0 THEN V ELSE LET D == Set(S, done) IN [D EXCEPT !.cur = 0, !.on = Drop(@, c)]
Here(S, c, intr) == {[S EXCEPT !.cur = c, !.on[c].st = "run", !.on[c].mode = "run", !.on[c].intr = intr]}
Block(S, c, st, mode, e, k) == [S EXCEPT !.cur = 0, !.on[c].st = st, !.on[c].mode = mode, !.on[c].e = e, !.on[c].k = k, !.on[c].intr = "no"]
Queue(S, c, e, mode, k) == [Block(S, c, "event", mode, e, k) EXCEPT !.ev[e].wait = Append(@, c)]
(* waiting for an event: a pending interrupt comes first *)
Wait(S, c, e) == IF S.on[c].flag THEN Here([S EXCEPT !.on[c].flag = FALSE], c, "yes") ELSE IF S.ev[e].set THEN Here(S, c, "no") ELSE {Queue(S, c, e, "run", 0)}
Lock(S, c, e) == IF S.ev[e].set THEN Here(Clear(S, e), c, "no") ELSE IF S.on[c].flag THEN Here([S EXCEPT !.on[c].flag = FALSE], c, "yes") ELSE {Queue(S, c, e, "lock", 0)}
(* waiting for another context's result, to whom interrupts are passed on *)
Result(S, c, e, k) == LET T == IF S.on[c].flag THEN Interrupt([S EXCEPT !.on[c].flag = FALSE], k) ELSE S IN IF T.ev[e].set THEN Here(T, c, "no") ELSE {Queue(T, c, e, "result", k)}
(* waiting for a thread: interrupts are remembered until it is over.  k = 1: there was one *)
Thread(S, c, e, k) == IF S.ev[e].set THEN Here(IF k = 1 THEN [S EXCEPT !.on[c].flag = TRUE] ELSE S, c, "no")
  ELSE IF S.on[c].flag THEN {Queue([S EXCEPT !.on[c].flag = FALSE], c, e, "thread", 1)} ELSE {Queue(S, c, e, "thread", k)}
Group(S, c, g) == IF S.gr[g].m = <<>> THEN Here(S, c, "no") ELSE {[Block(S, c, "group", "group", 0, g) EXCEPT !.gr[g].w = Append(@, c)]}
Sleep(S, c) == IF S.on[c].flag THEN Here([S EXCEPT !.on[c].flag = FALSE], c, "yes") ELSE {Block(S, c, "sleep", "run", 0, 0)}
(* noticing sleepers and remote contexts: all of them, in any order, or one kind *)
Remote(S) == FoldLeft(LAMBDA T, c : [T EXCEPT !.on[c].st = "ready"], [S EXCEPT !.rq = <<>>], S.rq)
Notice(S) == LET B == {<<c>> : c \in S.exp} \cup (IF S.rq = <<>> THEN {} ELSE {S.rq})
                 T == [Remote(S) EXCEPT !.exp = {}, !.on = [c \in DOMAIN @ |-> IF c \in S.exp \cup Range(S.rq) THEN [S.on[c] EXCEPT !.st = "ready"] ELSE @[c]]]
             IN IF B = {} THEN S ELSE [T EXCEPT !.ready = Append(@, B)]
Yield(S, c) == LET T == Notice(S) IN IF T.ready = <<>> THEN {T} ELSE {[Push([T EXCEPT !.on[c].mode = "run", !.on[c].intr = "no"], c) EXCEPT !.cur = 0]}
RECURSIVE Settle(_), Resume(_, _), After(_)
(* the states in which somebody runs, or nobody can *)
Settle(S) == IF S.cur # 0 THEN {S}
  ELSE IF S.ready # <<>> THEN UNION {LET B == (Head(S.ready) \ {l}) \cup (IF Len(l) = 1 THEN {} ELSE {Tail(l)}) IN
                                     Resume([S EXCEPT !.ready = (IF B = {} THEN <<>> ELSE <<B>>) \o Tail(@)], Head(l)) : l \in Head(S.ready)}
  ELSE IF S.exp = {} /\ S.rq = <<>> THEN {S}
  ELSE UNION {Resume([S EXCEPT !.exp = @ \ {c}], c) : c \in S.exp} \cup IF S.rq = <<>> THEN {} ELSE Settle([Remote(S) EXCEPT !.ready = <<{S.rq}>>])
After(Ss) == UNION {Settle(T) : T \in Ss}
Resume(S, c) == LET o == S.on[c] m == o.mode IN
  CASE m = "run" -> Here(S, c, o.intr)
    [] m = "lock" -> IF o.intr = "yes" THEN Here(S, c, "yes") ELSE After(Lock(S, c, o.e))
    [] m = "result" -> IF o.intr = "yes" THEN After(Result(Interrupt(S, o.k), c, o.e, o.k)) ELSE Here(S, c, "no")
    [] m = "thread" -> After(Thread(S, c, o.e, IF o.intr = "yes" THEN 1 ELSE o.k))
    [] m = "group" -> After(Group(S, c, o.k))
    [] m = "say" -> Settle(Finish(Set(S, o.e), c, 0))                            \* a thread's context: the thread is over
    [] m = "timer" -> IF o.flag THEN Settle(Finish(S, c, 0)) ELSE Settle(Block(S, c, "sleep", "timeout", 0, o.k))
    [] m = "timeout" -> (IF o.intr = "no" THEN {} ELSE Settle(Finish(S, c, 0)))
                        \cup (IF o.intr = "yes" THEN {} ELSE Settle(Finish(InterruptAll(S, S.gr[o.k].m), c, 0)))
(* what the running context was told: whether it was interrupted *)
Told(S, c, i) == IF S.on[c].intr = "may" THEN {IF i THEN S ELSE [S EXCEPT !.on[c].flag = TRUE]} ELSE IF (S.on[c].intr = "yes") = i THEN {S} ELSE {}
=============================================================================
