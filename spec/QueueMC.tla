------------------------------ MODULE QueueMC ------------------------------
(* The bounded queue as it is built: one lock, two condition variables, a step for every time a thread holds the lock.
   All schedules, wake-ups for no reason included.  Constants of the mechanism (what close and pop wake, whether waiting
   threads look again) can be changed to see which of them the guarantees rest on. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, Pushers, Poppers, Closers, PerPusher, PerPopper, CloseAll, DrainAll, Recheck, Spurious, PushAlways
Threads == Pushers \cup Poppers \cup Closers
VARIABLES q, closed, st, n, data, space, got, put
(* st: ready (to enter), data or space (waiting there), woken (must enter again), over.  data, space: who waits.  put: accepted values in
   order, got: values taken in order *)
vars == <<q, closed, st, n, data, space, got, put>>
Init == q = <<>> /\ closed = FALSE /\ st = [t \in Threads |-> "ready"] /\ n = [t \in Threads |-> 0] /\ data = {} /\ space = {} /\ got = <<>> /\ put = <<>>
(* wake-ups: w is the set woken among those waiting *)
One(S) == IF S = {} THEN {{}} ELSE {{t} : t \in S}
Woken(f, w) == [t \in Threads |-> IF t \in w THEN "woken" ELSE f[t]]
Finish(f, t) == [f EXCEPT ![t] = IF (t \in Pushers /\ n[t] + 1 < PerPusher) \/ (t \in Poppers /\ n[t] + 1 < PerPopper) THEN "ready" ELSE "over"]
Enter(t) == st[t] \in {"ready", "woken"}
Looks(t) == Recheck \/ st[t] = "ready"
Push(t) == t \in Pushers /\ Enter(t)
  /\ IF Looks(t) /\ ~closed /\ Len(q) >= Max THEN st' = [st EXCEPT ![t] = "space"] /\ space' = space \cup {t} /\ UNCHANGED <<q, closed, n, data, got, put>>
     ELSE IF closed THEN st' = [st EXCEPT ![t] = "over"] /\ UNCHANGED <<q, closed, n, data, space, got, put>>
     ELSE \E w \in IF PushAlways \/ q = <<>> THEN One(data) ELSE {{}} : q' = Append(q, <<t, n[t]>>) /\ put' = Append(put, <<t, n[t]>>) /\ data' = data \ w /\ st' = Woken(Finish(st, t), w) /\ n' = [n EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<closed, space, got>>
Pop(t) == t \in Poppers /\ Enter(t)
  /\ IF Looks(t) /\ q = <<>> /\ ~closed THEN st' = [st EXCEPT ![t] = "data"] /\ data' = data \cup {t} /\ UNCHANGED <<q, closed, n, space, got, put>>
     ELSE IF q = <<>> THEN st' = [st EXCEPT ![t] = "over"] /\ (closed => TRUE) /\ UNCHANGED <<q, closed, n, data, space, got, put>>
     ELSE \E w \in IF DrainAll /\ closed /\ Len(q) = 1 THEN {space} ELSE One(space) : q' = Tail(q) /\ got' = Append(got, Head(q)) /\ space' = space \ w /\ st' = Woken(Finish(st, t), w) /\ n' = [n EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<closed, data, put>>
(* a closer closes and waits until everything has been taken *)
Close(t) == t \in Closers /\ Enter(t) /\ n[t] = 0 /\ closed' = TRUE /\ n' = [n EXCEPT ![t] = 1]
  /\ \E w \in IF CloseAll THEN {data} ELSE One(data), x \in IF CloseAll THEN {space} ELSE One(space) :
       (IF q # <<>> THEN st' = [Woken(st, w \cup x) EXCEPT ![t] = "space"] /\ space' = (space \ x) \cup {t} /\ data' = data \ w
       ELSE st' = [Woken(st, w \cup x) EXCEPT ![t] = "over"] /\ space' = space \ x /\ data' = data \ w)
  /\ UNCHANGED <<q, got, put>>
Drain(t) == t \in Closers /\ st[t] = "woken" /\ n[t] = 1
  /\ (IF q # <<>> THEN st' = [st EXCEPT ![t] = "space"] /\ space' = space \cup {t} ELSE st' = [st EXCEPT ![t] = "over"] /\ UNCHANGED space)
  /\ UNCHANGED <<q, closed, n, data, got, put>>
Wake(t) == Spurious /\ t \in data \cup space /\ data' = data \ {t} /\ space' = space \ {t} /\ st' = [st EXCEPT ![t] = "woken"] /\ UNCHANGED <<q, closed, n, got, put>>
Next == \E t \in Threads : Push(t) \/ Pop(t) \/ Close(t) \/ Drain(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars
(* what callers rely on *)
Order == /\ put = got \o q                                                              \* nothing lost, doubled or out of turn
         /\ Len(q) <= Max
Taken == \A t \in Poppers : st[t] = "over" /\ n[t] < PerPopper => closed /\ q = <<>>     \* a refused pop: the queue was closed and empty
(* nobody sleeps who could go on, once nobody is about to enter *)
Quiet == \A t \in Threads : ~Enter(t)
Rest == Quiet => \A t \in Threads : /\ st[t] = "data" => q = <<>> /\ ~closed
                                    /\ (st[t] = "space" /\ t \in Pushers) => ~closed /\ Len(q) >= Max
                                    /\ (st[t] = "space" /\ t \in Closers) => q # <<>>
=============================================================================
