----------------------------- MODULE BuilderMC -----------------------------
(* How the object keeps what Builder says: the parsed fields of the extra part beside its bytes, and a cached hash.
   Every order of building, asking, signing and copying steps; Careful = FALSE leaves out the upkeep in two steps. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Builder
CONSTANTS Careful, MaxItems, MaxIns
VARIABLES o, fields, cache, first
vars == <<o, fields, cache, first>>
None == <<"none">>
X(k, h, v) == [k |-> k, h |-> h, v |-> v, p |-> "-"]
Pk == {X("pk", "P1", 1), X("pk", "P2", 2)}
Nonces == {X("nonce", "Na", 1), X("nonce", "Nb", 2)}
Items == Pk \cup Nonces \cup {X("field", "F", 0), X("junk", "J", 0), X("bad", "B", 0), Pad(100)}
In1(r) == [ty |-> 2, a |-> <<5>>, x |-> <<>>, ki |-> 0, g |-> 1, req |-> r, term |-> 0]
Hash(p) == IF Complete(p) THEN ContentOf(p) ELSE <<"null">>
Init == o = New(X("pk", "P1", 1)) /\ fields = Fields(o.extra) /\ cache = None /\ first = <<>>
Take(r, fs, keep) == /\ r.ok /\ o' = r.o /\ fields' = fs /\ cache' = IF keep THEN cache ELSE None
                     /\ first' = IF first = <<>> /\ Attached(r.o) THEN PrefixOf(r.o) ELSE first
HasBad == o.extra # <<>> /\ Last(o.extra).k = "bad"
Unlock == \E u \in {<<>>, <<7>>} : Take(SetUnlock(o, u), fields, FALSE)
Nonce == \E x \in Nonces : LET fs == Put(fields, x) r == SetNonce([o EXCEPT !.extra = fields], x, 5) IN Take(r, fs, FALSE)
Det == \E x \in Pk : LET r == SetDeterministic([o EXCEPT !.extra = fields], x) IN Take(r, Put(fields, x), ~Careful)
Append1 == \E x \in Items : Len(o.extra) < MaxItems /\ ~HasBad /\ LET r == AppendExtra(o, <<x>>) IN Take(r, IF Careful THEN Fields(r.o.extra) ELSE fields, ~Careful)
Input == \E r \in 0 .. 2 : Len(o.ins) < MaxIns /\ Take(AddInput(o, In1(r)), fields, FALSE)
Sign == \E j \in 1 .. MaxIns : Len(SigsOf(o, j)) < 2 /\ Take(SignMulti(o, j, Len(SigsOf(o, j)) + 1), fields, FALSE)
Ask == cache = None /\ cache' = Hash(o) /\ UNCHANGED <<o, fields, first>>
Reload == o.sec # 0 /\ Complete(o) /\ o' = [CopyOf(o) EXCEPT !.sigs = Sigs(o)] /\ fields' = Fields(o.extra) /\ cache' = ContentOf(o) /\ UNCHANGED first
Next == Unlock \/ Nonce \/ Det \/ Append1 \/ Input \/ Sign \/ Ask \/ Reload
Spec == Init /\ [][Next]_vars
(* the upkeep is right *)
CacheRight == cache # None => cache = Hash(o)
FieldsRight == fields = Fields(o.extra)
(* what the property says *)
Sealed == first # <<>> => PrefixOf(o) = first
ReadBack == Fields(fields) = fields                               \* a written field can be read again
NonceKept == \A x \in Nonces : First(Put(o.extra, x), "nonce") = <<x>>
=============================================================================
