---------------------------- MODULE SwappedTrace ----------------------------
(* Checks a recorded history of a sequence kept in an item file and an index file (see FilesMC, Mode = "pair"):
   a process that dies finds the sequence before or after the operation in progress, or, because the count of a
   longer sequence may still be in memory, the one before the last operation.                          *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s, prev, bad
E == Trace[i]
A(name, ok) == IF ok THEN {} ELSE {name}
Result == CASE E.op = "push" -> Append(s, <<E.v, E.n>>) [] E.op = "pop" -> SubSeq(s, 1, Len(s) - 1) [] E.op = "clear" -> <<>>
            [] E.op = "died" -> IF Len(E.crash) = 1 THEN E.crash[1][2] ELSE <<>> [] OTHER -> s
Crash(r) == A("crash", \A q \in DOMAIN E.crash : E.crash[q][1] /\ E.crash[q][2] \in {prev, s, r})
Judge(r) == A("ok", E.ok) \cup (IF E.op = "died" THEN {} ELSE Crash(r)) \cup (IF "d" \in DOMAIN E THEN A("contents", E.d = r) \cup A("access", E.ag) ELSE {})
            \cup (IF E.op = "close" THEN A("closed", \E q \in DOMAIN E.crash : E.crash[q] = <<TRUE, s>>) ELSE {})
Init == i = 2 /\ s = <<>> /\ prev = <<>> /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET r == Result IN s' = r /\ prev' = (IF E.op \in {"died", "close"} THEN r ELSE IF E.op \in {"push", "pop", "clear"} THEN s ELSE prev) /\ bad' = Judge(r)
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, s, prev, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
