-------------------------------- MODULE Files --------------------------------
(* A file-backed vector: what one operation makes of the contents [d |-> elements, p |-> prefix, s |-> suffix],
   and how the replacement of the file by a new one goes (the protocol of an atomic update).              *)
EXTENDS Integers, Sequences, FiniteSets
Insert(d, i, vs) == SubSeq(d, 1, i) \o vs \o SubSeq(d, i + 1, Len(d))
Erase(d, a, b) == SubSeq(d, 1, a) \o SubSeq(d, b + 1, Len(d))
Empty(f) == [f EXCEPT !.d = <<>>]
Push(f, v) == [f EXCEPT !.d = Append(@, v)]
Pop(f) == [f EXCEPT !.d = SubSeq(@, 1, Len(@) - 1)]
(* first n bytes of what there was; bytes beyond are whatever the file system gives *)
Resized(old, new, n) == Len(new) = n /\ \A i \in 1 .. n : i <= Len(old) => new[i] = old[i]

(* ---- the file of a vector: its name, the copy kept while the name is taken over, and the new version being written ---- *)
None == <<"none">>
Has(x) == <<"is", x>>
Disk(m, b, t) == [main |-> m, bak |-> b, tmp |-> t]
(* what a process that opens the vector finds *)
Recovered(k) == IF k.main # None THEN k.main ELSE k.bak
AfterOpen(k) == IF k.main # None THEN [k EXCEPT !.bak = None] ELSE [k EXCEPT !.main = k.bak, !.bak = None]
(* the steps of an update to x, in order; each can fail, which leaves k and starts the repair *)
Steps == <<"forget bak", "forget tmp", "write", "set aside", "take over", "drop bak">>
Step(k, n, x) == CASE Steps[n] = "forget bak" -> [k EXCEPT !.bak = None]
                   [] Steps[n] = "forget tmp" -> [k EXCEPT !.tmp = None]
                   [] Steps[n] = "write" -> [k EXCEPT !.tmp = Has(x)]
                   [] Steps[n] = "set aside" -> [k EXCEPT !.main = None, !.bak = k.main]
                   [] Steps[n] = "take over" -> [k EXCEPT !.main = k.tmp, !.tmp = None]
                   [] Steps[n] = "drop bak" -> [k EXCEPT !.bak = None]
(* after a failing "take over" the old file gets its name back, if that works *)
Repaired(k) == [k EXCEPT !.main = k.bak, !.bak = None, !.tmp = None]
==============================================================================
