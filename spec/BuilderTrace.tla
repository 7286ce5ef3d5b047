---------------------------- MODULE BuilderTrace ----------------------------
(* Checks a recorded history of transaction objects against Builder. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt, Builder
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, seen, bad
E == Trace[i]
None == <<>>
F(name, ok) == IF ok THEN {} ELSE {name}
Slack(o) == o.slack /\ ~Attached(o)
Wrapped == LET sg == [j \in DOMAIN E.sigs |-> E.sigs[j]] IN
  [kind |-> IF E.form < 2 THEN "full" ELSE "prefix", ver |-> E.ver, unlock |-> E.unlock, ins |-> E.ins, outs |-> E.outs, extra |-> E.items,
   sigs |-> sg, sec |-> 0, hash |-> E.hid, slack |-> sg # <<>>]
(* h: the hash reported; an object without all its signatures has none *)
HashOf(o, q) == IF o.kind = "prefix" THEN o.hash ELSE IF Complete(o) THEN q.d ELSE -1
Copied == LET o == S[E.from] IN
  CASE E.how = "blob" -> [CopyOf(o) EXCEPT !.sigs = Sigs(o), !.slack = o.ins # <<>>]
    [] E.how = "struct" -> [CopyOf(o) EXCEPT !.sigs = Sigs(o), !.slack = o.ins # <<>>]
    [] E.how = "unsigned" -> [CopyOf(o) EXCEPT !.sigs = <<>>, !.slack = FALSE]
    [] OTHER -> [o EXCEPT !.kind = "prefix", !.sec = 0, !.hash = o.hash, !.sigs = <<>>]
Step == LET o == S[E.o] IN
  CASE E.op = "new" -> R(TRUE, New(E.pk))
    [] E.op = "wrap" -> R(TRUE, Wrapped)
    [] E.op = "copy" -> R(TRUE, Copied)
    [] E.op = "unlock" -> SetUnlock(o, E.u)
    [] E.op = "nonce" -> SetNonce(o, E.it, E.size)
    [] E.op = "append" -> AppendExtra(o, <<E.it>>)
    [] E.op = "addin" -> AddInput(o, E.in)
    [] E.op = "outto" -> AddOutputTo(o, E.out)
    [] E.op = "addout" -> AddOutput(o, E.out)
    [] E.op = "secret" -> SetSecret(o, E.pub)
    [] E.op = "det" -> SetDeterministic(o, E.pk)
    [] E.op = "signbad" -> SignKey(o, E.at, <<>>)
    [] E.op = "signkey" -> SignKey(o, E.at, E.ids)
    [] E.op = "signmulti" -> SignMulti(o, E.at, E.id)
    [] OTHER -> R(TRUE, o)
(* in a prefix copy of an object the hash is the one the object reported *)
Note(o) == IF E.op = "copy" /\ E.how \in {"prefix", "full"} /\ S[E.from].kind = "full" THEN [o EXCEPT !.hash = IF Complete(S[E.from]) THEN E.q.h ELSE -1] ELSE o
Answers(o, q) ==
  F("version", q.ver = o.ver) \cup F("unlock", q.unlock = o.unlock) \cup F("publickey", q.pk = PkOf(o))
  \cup F("secretkey", q.sec = (o.sec # 0) /\ q.secp = o.sec)
  \cup (LET n == First(o.extra, "nonce") v == IF n = <<>> THEN "-" ELSE n[1].v IN
        F("nonce", q.nonce = v)
        \cup F("paymentid", q.pid = IF n = <<>> THEN "-" ELSE n[1].p))
  \cup F("extra", q.extra = Bytes(o.extra))
  \cup F("inputs", q.ins = o.ins /\ q.gets) \cup F("outputs", q.outs = o.outs) \cup F("range", q.oob)
  \cup F("inputtotal", q.it = InTotal(o)) \cup F("outputtotal", q.ot = OutTotal(o))
  \cup F("required", Len(q.req) = Len(o.ins) /\ \A j \in DOMAIN o.ins : q.req[j] = Req(o.ins[j]))
  \cup F("validinputs", q.vi = InputsValid(o)) \cup F("validoutputs", q.vo = OutputsValid(o))
  \cup F("validsignatures", q.vs = (IF o.kind = "prefix" THEN -1 ELSE IF SigsValid(o) THEN 1 ELSE 0))
  \cup UNION {LET f == q.fo[j] IN IF f.ok THEN F("found", f.o = Found(o, f.dk) /\ f.a = FoundAmount(o, f.dk)) ELSE {} : j \in DOMAIN q.fo}
  \cup F("hash", q.h = HashOf(o, q)) \cup F("prefixhash", q.p = q.pe) \cup F("inputshash", q.ih = q.ie)
  \cup F("data", IF o.kind = "prefix" THEN q.d = q.pe ELSE Complete(o) => q.dp)
  \cup F("signatures", \A j \in DOMAIN q.sv : q.sv[j] \in {-1, 1})
(* distinct contents have distinct bytes, the same content the same bytes *)
Named(o, q) == {<<PrefixOf(o), q.pe>>} \cup (IF o.kind = "full" /\ Complete(o) THEN {<<ContentOf(o), q.d>>} ELSE {})
Clash(n) == \E a \in seen, b \in n : Len(a[1]) = Len(b[1]) /\ (a[1] = b[1]) # (a[2] = b[2])
Judge(r, T) ==
  (IF "ok" \in DOMAIN E /\ E.op # "damaged" THEN F(E.op \o ".ok", E.ok = r.ok \/ (Slack(S[E.o]) /\ ~E.ok)) ELSE {})
  \cup (IF "ret" \in DOMAIN E /\ E.op \in {"addin", "outto", "addout"} /\ r.ok THEN F(E.op \o ".index", E.ret = (IF E.op = "addin" THEN Len(S[E.o].ins) ELSE Len(S[E.o].outs))) ELSE {})
  \cup (IF E.op = "damaged" THEN F("damaged", E.ok => E.same /\ E.hash) ELSE {})
  \cup Answers(T[E.o], E.q)
  \cup (IF E.also = 0 THEN {} ELSE Answers(T[E.also], E.aq))
  \cup F("bytes", ~Clash(Named(T[E.o], E.q)))
Init == i = 2 /\ S = [s \in 1 .. 4 |-> None] /\ seen = {} /\ bad = {}
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ LET r == TLCEval(Step) take == IF "ok" \in DOMAIN E /\ ~E.ok THEN S[E.o] ELSE Note(r.o) T == [S EXCEPT ![E.o] = take] IN
             S' = T /\ bad' = Judge(r, T) /\ seen' = seen \cup Named(T[E.o], E.q)
        /\ i' = i + 1
        /\ IF bad' = {} THEN TRUE ELSE PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op]))
Spec == Init /\ [][Next]_<<i, S, seen, bad>>
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
==============================================================================
