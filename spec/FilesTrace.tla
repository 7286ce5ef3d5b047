----------------------------- MODULE FilesTrace -----------------------------
(* Checks a recorded history of memory mapped vectors (two objects, several names) against Files.
   crash: what a new process finds at each point where the recorded one could have died.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
F == INSTANCE Files
VARIABLES i, f, o, stuck, bad
E == Trace[i]
A(name, ok) == IF ok THEN {} ELSE {name}
(* f: name -> contents; o: object -> name it has open (0: none); stuck: names whose vector refuses updates until opened again *)
n == o[E.k]
c == f[n]
Obs(k) == E.o[k][1]
Put(name, x) == [m \in DOMAIN f \cup {name} |-> IF m = name THEN x ELSE f[m]]
With(d) == Put(n, [c EXCEPT !.d = d])
Keep == [f |-> f, o |-> o, fail |-> FALSE]
Mut(g) == [f |-> g, o |-> o, fail |-> FALSE]
Fails == [Keep EXCEPT !.fail = TRUE]
Adopt(field) == IF Len(E.o[E.k]) = 0 THEN c ELSE [c EXCEPT ![field] = Obs(E.k)[field]]
(* what the operation does when nothing goes wrong; fail: it has to be refused *)
Result ==
  CASE E.op = "push" -> Mut(With(Append(c.d, E.v)))
    [] E.op = "pop" -> Mut(Put(n, F!Pop(c)))
    [] E.op = "clear" -> Mut(Put(n, F!Empty(c)))
    [] E.op = "insert" -> Mut(With(F!Insert(c.d, E.i, E.vs)))
    [] E.op = "erase" -> Mut(With(F!Erase(c.d, E.a, E.b)))
    [] E.op = "set" -> Mut(With([c.d EXCEPT ![E.i + 1] = E.v]))
    [] E.op = "setp" -> Mut(Put(n, [c EXCEPT !.p[E.i + 1] = E.v]))
    [] E.op = "sets" -> Mut(Put(n, [c EXCEPT !.s[E.i + 1] = E.v]))
    [] E.op = "resp" -> Mut(Put(n, Adopt("p")))
    [] E.op = "ress" -> Mut(Put(n, Adopt("s")))
    [] E.op = "update" -> IF E.bad THEN Fails ELSE Mut(Put(n, [d |-> E.vs, p |-> E.ps, s |-> E.ss]))
    [] E.op = "rename" -> [f |-> [m \in (DOMAIN f \ {n}) \cup {E.to} |-> IF m = E.to THEN c ELSE f[m]], o |-> [o EXCEPT ![E.k] = E.to], fail |-> FALSE]
    [] E.op = "swap" -> [Keep EXCEPT !.o = <<o[2], o[1]>>]
    [] E.op = "close" -> [Keep EXCEPT !.o[E.k] = 0]
    [] E.op = "open" -> IF (E.m = 0 /\ E.n \notin DOMAIN f) \/ (E.m = 1 /\ E.n \in DOMAIN f) THEN Fails
                        ELSE [f |-> IF E.n \in DOMAIN f THEN f ELSE Put(E.n, IF Len(E.o[E.k]) = 0 THEN [d |-> <<>>, p |-> <<>>, s |-> <<>>] ELSE [Obs(E.k) EXCEPT !.d = <<>>, !.s = <<>>]), o |-> [o EXCEPT ![E.k] = E.n], fail |-> FALSE]
    [] OTHER -> Keep
InPlace == E.op \in {"push", "pop", "clear"}
Atomic == E.op \in {"push", "insert", "erase", "reserve", "shrink", "resp", "ress", "update"}
(* the process that died left one of the states that were possible *)
Died == [f |-> IF Len(E.crash) = 1 THEN [m \in {E.crash[1][q][1] : q \in DOMAIN E.crash[1]} |-> LET q == CHOOSE q \in DOMAIN E.crash[1] : E.crash[1][q][1] = m IN IF Len(E.crash[1][q][2]) = 0 THEN [d |-> <<-7>>, p |-> <<>>, s |-> <<>>] ELSE E.crash[1][q][2][1]] ELSE f, o |-> <<0, 0>>, fail |-> FALSE]
(* a point of death is good if what is found is g: the same names, each with the right contents under some prefix size tried *)
Found(s, g) == /\ {s[q][1] : q \in DOMAIN s} = DOMAIN g
               /\ \A q \in DOMAIN s : \E k \in DOMAIN s[q][2] : s[q][2][k] = g[s[q][1]]
Objects(g, w) == UNION {IF w[k] = 0 THEN A("closed", Len(E.o[k]) = 0) ELSE IF Len(E.o[k]) = 0 THEN {"opened"} ELSE A("contents", E.o[k][1] = g[w[k]]) \cup A("access", E.o[k][2]) : k \in 1 .. 2}
Judge(r) ==
  LET good == E.ok /\ ~r.fail
      partial == ~E.ok /\ InPlace /\ Objects(r.f, r.o) = {}      \* the flush failed after the fact
      after == IF good \/ partial THEN r ELSE Keep
      allowed == IF r.fail THEN {f} ELSE {f, r.f} IN
  [S |-> after,
   bad |-> A("accepted", ~(E.ok /\ r.fail)) \cup A("refused", E.ok \/ r.fail \/ E.failed \/ (Atomic /\ n \in stuck))
     \cup Objects(after.f, after.o)
     \cup (IF E.op = "rename" /\ ~E.ok THEN {} ELSE A("crash", \A q \in DOMAIN E.crash : \E g \in allowed : Found(E.crash[q], g)))
     \cup (IF E.ok /\ E.op = "resp" THEN A("prefix", F!Resized(c.p, Obs(E.k).p, E.n)) ELSE {}) \cup (IF E.ok /\ E.op = "ress" THEN A("suffix", F!Resized(c.s, Obs(E.k).s, E.n)) ELSE {})
     \cup (IF E.ok /\ E.op = "reserve" THEN A("capacity", E.o[E.k][3] >= E.n) ELSE {}) \cup (IF E.ok /\ E.op = "shrink" THEN A("capacity", E.o[E.k][3] = Len(c.d)) ELSE {})
     \cup (IF E.ok /\ E.op \in {"insert", "erase"} THEN A("iterator", E.ret = IF E.op = "insert" THEN E.i ELSE E.a) ELSE {})
     \cup (IF E.ok /\ E.op = "open" THEN A("prefix", Len(Obs(E.k).p) = E.pz) ELSE {})]
Init == i = 2 /\ f = <<>> /\ o = <<0, 0>> /\ stuck = {} /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET r == IF E.op = "died" THEN [S |-> Died, bad |-> A("closed", Len(E.o[1]) = 0 /\ Len(E.o[2]) = 0)] ELSE TLCEval(Judge(Result)) IN
             /\ f' = r.S.f /\ o' = r.S.o /\ bad' = r.bad
             /\ stuck' = IF E.op = "died" THEN {} ELSE IF E.op = "close" /\ E.ok THEN stuck \ {n} ELSE IF E.failed /\ Atomic /\ ~E.ok THEN stuck \cup {n} ELSE stuck
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, f, o, stuck, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
