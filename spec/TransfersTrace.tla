--------------------------- MODULE TransfersTrace ---------------------------
(* Checks a recorded history of a TransfersContainer against Transfers. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Defs == JsonDeserialize(IOEnv.DEFS)
TT == Defs.T
VARIABLES i, S, bad
E == Trace[i]
M == INSTANCE Transfers WITH T <- TT, Age <- Defs.age, Now <- E.now
F(name, ok) == IF ok THEN {} ELSE {name}
Set(l) == {l[j] : j \in DOMAIN l}
Ids(l) == {<<l[j][1], l[j][2]>> : j \in DOMAIN l}
(* a reported list of outputs: exactly these, each once, with the right index and content *)
Is(W, l, s) == Ids(l) = s /\ Len(l) = Cardinality(s) /\ \A j \in DOMAIN l : l[j][4] = 1 /\ l[j][3] = (IF M!Confirmed(W, <<l[j][1], l[j][2]>>) THEN M!Gidx(W, <<l[j][1], l[j][2]>>) ELSE -1)
Step == CASE E.op = "add" -> M!AddTx(S, E.t, E.h, E.x, E.ts, E.g)
          [] E.op = "confirm" -> M!Confirm(S, E.t, E.h, E.x, E.ts, E.g)
          [] E.op = "delete" -> M!DeleteUnconfirmed(S, E.t)
          [] E.op = "advance" -> M!Advance(S, E.h)
          [] E.op = "detach" -> M!Detach(S, E.h)
          [] E.op = "torn" -> M!R(FALSE, S, FALSE, {}, {})
          [] OTHER -> M!R(TRUE, S, TRUE, {}, {})
State(W, o) == IF ~M!Confirmed(W, o) THEN 0 ELSE IF M!IsSpent(W, o) THEN 3 ELSE IF M!StateOf(W, o) = 1 THEN 2 ELSE 1
Answers(W) ==
  F("count", E.tc = Cardinality(M!Outs(W)) /\ E.xc = Cardinality(DOMAIN W.led))
  \cup UNION {LET q == E.q[j] s == M!Listed(W, Set(q.s), Set(q.k)) IN F("balance", q.b = M!Total(s)) \cup F("outputs", Is(W, q.o, s)) : j \in DOMAIN E.q}
  \cup UNION {LET q == E.tx[j] t == q.t known == t \in DOMAIN W.led IN
      F("transaction", q.r = known /\ (known => /\ q.ok /\ q.h = W.led[t].h /\ q.ts = W.led[t].ts
                                               /\ q.in = M!Total(M!InsOf(W, t)) /\ q.out = M!Total({o \in M!Outs(W) : o[1] = t})))
      \cup F("txoutputs", Is(W, q.o.l, M!OutsOf(W, t, Set(q.o.s), Set(q.o.k))))
      \cup F("txinputs", Is(W, q.i.l, {o \in M!InsOf(W, t) : M!KindOf(o) \in Set(q.i.k)}))
      \cup F("state", \A k \in DOMAIN q.st : IF known THEN q.st[k][1] = State(W, <<t, k>>) /\ Is(W, <<q.st[k][2]>>, {<<t, k>>}) ELSE q.st[k] = <<-1>>) : j \in DOMAIN E.tx}
  \cup F("unconfirmed", Set(E.un) = {t \in DOMAIN W.led : W.led[t].h < 0} /\ Len(E.un) = Cardinality(Set(E.un)))
  \cup F("spent", /\ Is(W, [j \in DOMAIN E.sp |-> E.sp[j].o], M!Spent(W))
                  /\ \A j \in DOMAIN E.sp : LET q == E.sp[j] o == <<q.o[1], q.o[2]>> IN
                        o \in M!Spent(W) => q.ok /\ <<q.t, q.i>> = W.sp[o] /\ q.h = W.led[q.t].h /\ q.ts = W.led[q.t].ts)
Judge(r) ==
  (IF "ok" \in DOMAIN E THEN F(E.op \o ".ok", E.ok = r.ok) ELSE {})
  \cup (IF "ret" \in DOMAIN E /\ r.ok THEN F(E.op \o ".ret", E.ret = r.ret) ELSE {})
  \cup (IF "hit" \in DOMAIN E /\ r.ok THEN F(E.op \o ".notified", Is(r.S, E.hit, r.hit)) ELSE {})
  \cup (IF "gone" \in DOMAIN E THEN F("detach.gone", Set(E.gone) = r.gone /\ Len(E.gone) = Cardinality(r.gone)) ELSE {})
  \cup Answers(r.S)
Init == i = 2 /\ S = M!Start /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET r == TLCEval(Step) IN S' = r.S /\ bad' = Judge(r)
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, S, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
