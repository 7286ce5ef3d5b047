------------------------------- MODULE Queue -------------------------------
(* What a bounded blocking queue and an observer list, each used by many threads, owe their callers.  A configuration says
   what has taken effect so far: the queue q, closed, the observers in order, and every call that has begun and not
   returned: what it wants, whether it has taken effect (done), and the answer it will give (ok, v; to: whom it has yet to
   tell).  Several configurations can be consistent with what was seen. *)
EXTENDS Integers, Sequences, FiniteSets
Call(op, v, want) == [op |-> op, v |-> v, done |-> FALSE, ok |-> TRUE, to |-> <<>>, want |-> want]     \* want: the answer it is known to give, if it gives one
Idle == [q |-> <<>>, closed |-> FALSE, obs |-> <<>>, pend |-> <<>>, left |-> 0]
In(s, x) == \E i \in DOMAIN s : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
(* a call can take effect: a push when there is room or the queue is closed, a pop when there is something or it is closed *)
Enabled(C, c, max) == LET p == C.pend[c] IN ~p.done /\
  CASE p.op = "push" -> C.closed \/ Len(C.q) < max
    [] p.op = "pop" -> C.closed \/ C.q # <<>>
    [] p.op = "drain" -> C.q = <<>>
    [] OTHER -> TRUE
Effect(C, c) == LET p == C.pend[c] D(ok, v) == [p EXCEPT !.done = TRUE, !.ok = ok, !.v = v] Put(D1, d) == [d EXCEPT !.pend[c] = D1] IN
  CASE p.op = "push" -> IF C.closed THEN Put(D(FALSE, p.v), C) ELSE Put(D(TRUE, p.v), [C EXCEPT !.q = Append(@, p.v)])
    [] p.op = "pop" -> IF C.q = <<>> THEN Put(D(FALSE, 0), C) ELSE Put(D(TRUE, Head(C.q)), [C EXCEPT !.q = Tail(@)])
    [] p.op = "close" -> Put(D(TRUE, 0), [C EXCEPT !.closed = TRUE])
    [] p.op = "closewait" -> Put([p EXCEPT !.op = "drain"], [C EXCEPT !.closed = TRUE])           \* closes, then waits
    [] p.op = "drain" -> Put(D(TRUE, 0), C)
    [] p.op = "leave" -> Put(D(TRUE, 0), [C EXCEPT !.left = IF @ > 0 THEN @ - 1 ELSE 0, !.closed = @ \/ C.left = 1])
    [] p.op = "size" -> Put(D(TRUE, Len(C.q)), C)
    [] p.op = "add" -> Put(D(~In(C.obs, p.v), p.v), [C EXCEPT !.obs = IF In(@, p.v) THEN @ ELSE Append(@, p.v)])
    [] p.op = "remove" -> Put(D(In(C.obs, p.v), p.v), [C EXCEPT !.obs = Without(@, p.v)])
    [] p.op = "clear" -> Put(D(TRUE, 0), [C EXCEPT !.obs = <<>>])
    [] p.op = "notify" -> Put([D(TRUE, p.v) EXCEPT !.to = C.obs], C)
Known(p) == p.done /\ p.want.got => p.ok = p.want.ok /\ p.v = p.want.v
Steps(C, max) == UNION {{D \in {Effect(C, c)} : Known(D.pend[c])} : c \in {d \in DOMAIN C.pend : Enabled(C, d, max)}}
RECURSIVE Closure(_, _), Until(_, _, _, _)
Closure(K, max) == LET N == K \cup UNION {Steps(C, max) : C \in K} IN IF N = K THEN K ELSE Closure(N, max)
(* the configurations in which c has taken effect: whatever can take effect later is left for later *)
Until(F, A, c, max) == IF F = {} THEN A ELSE LET D == {C \in F : C.pend[c].done} IN Until(UNION {Steps(C, max) : C \in F \ D}, A \cup D, c, max)
(* what is seen narrows down the configurations *)
Begin(K, c, op, v, want) == {[C EXCEPT !.pend = [d \in DOMAIN @ \cup {c} |-> IF d = c THEN Call(op, v, want) ELSE @[d]]] : C \in K}
Return(K, c, max) == {[C EXCEPT !.pend = [d \in DOMAIN @ \ {c} |-> @[d]]] : C \in {D \in Until(K, {}, c, max) : D.pend[c].want.got /\ D.pend[c].to = <<>>}}
Told(K, c, o, max) == {[C EXCEPT !.pend[c].to = Without(@, o)] : C \in {D \in Until(K, {}, c, max) : In(D.pend[c].to, o)}}
(* when no thread can go on, no call can take effect, and none has *)
Stuck(K, max) == {C \in K : \A c \in DOMAIN C.pend : ~C.pend[c].done /\ ~Enabled(C, c, max)}
=============================================================================
