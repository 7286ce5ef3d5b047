------------------------------ MODULE Builder ------------------------------
(* A transaction object (cn::ITransaction): built step by step, signed, copied.
   Bytes are hexadecimal strings, public keys, key images, signatures and hashed contents are numbers standing
   for distinct values.  The extra part is a sequence of items [k, h, v, p]: kind, bytes, value, payment id (or "-"), where kind is
     "pk" "nonce" "field" (ttl, message, merge mining)  a field of its own
     "pad" (v zero bytes)                               padding, legal at the very end only
     "junk"                                             bytes the parser steps over
     "bad"                                              bytes at which parsing stops *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
LOCAL INSTANCE Big
Two64 == <<1616, 955, 737, 6744, 1844>>    \* 18446744073709551616
Wrap(b) == IF Lt(b, Two64) THEN b ELSE Sub(b, Two64)
WrapSum(s) == FoldLeft(LAMBDA x, y : Wrap(Add(x, y)), Zero, s)
-----------------------------------------------------------------------------
(* what a parser makes of the extra part *)
Pads(items, j) == \A m \in j .. Len(items) : items[m].k = "pad"
PadSize(items, j) == FoldLeft(LAMBDA n, x : n + x.v, 0, SubSeq(items, j, Len(items)))
Zeros(n) == FoldLeft(LAMBDA s, x : s \o "00", "", [x \in 1 .. n |-> x])
Pad(n) == [k |-> "pad", h |-> Zeros(n), v |-> n, p |-> "-"]
Fields(items) ==
  LET f[j \in 1 .. Len(items) + 1] ==
    IF j > Len(items) THEN <<>>
    ELSE CASE items[j].k = "bad" -> <<>>
           [] items[j].k = "junk" -> f[j + 1]
           [] items[j].k = "pad" -> IF Pads(items, j) /\ PadSize(items, j) <= 255 THEN <<Pad(PadSize(items, j))>> ELSE <<>>
           [] OTHER -> <<items[j]>> \o f[j + 1]
  IN f[1]
First(items, k) == LET fs == Fields(items) js == {j \in DOMAIN fs : fs[j].k = k} IN IF js = {} THEN <<>> ELSE <<fs[CHOOSE j \in js : \A m \in js : j <= m]>>
(* replaces the first field of the item's kind, or adds it, before padding; what is no field is dropped *)
Put(items, x) ==
  LET fs == Fields(items) js == {j \in DOMAIN fs : fs[j].k = x.k} IN
  IF js # {} THEN [fs EXCEPT ![CHOOSE j \in js : \A m \in js : j <= m] = x]
  ELSE IF fs # <<>> /\ Last(fs).k = "pad" THEN Append(Front(fs), x) \o <<Last(fs)>>
  ELSE Append(fs, x)
Bytes(items) == FoldLeft(LAMBDA s, x : s \o x.h, "", items)
-----------------------------------------------------------------------------
(* the object: kind "full" (can change), "prefix" (read only, with the hash it was given) *)
New(pk) == [kind |-> "full", ver |-> 1, unlock |-> Zero, ins |-> <<>>, outs |-> <<>>, extra |-> <<pk>>, sigs |-> <<>>, sec |-> pk.v, hash |-> -1, slack |-> FALSE]
Req(in) == CASE in.ty = 1 -> Len(in.x) [] in.ty = 2 -> in.req [] OTHER -> 0
Attached(o) == \E j \in DOMAIN o.sigs : o.sigs[j] # <<>>
(* a complete object has exactly the signatures its inputs ask for; only then does it have a hash *)
SigsOf(o, j) == IF j \in DOMAIN o.sigs THEN o.sigs[j] ELSE <<>>
Complete(o) == \A j \in DOMAIN o.ins : Len(SigsOf(o, j)) = Req(o.ins[j])
PkOf(o) == LET f == First(o.extra, "pk") IN IF f = <<>> THEN 0 ELSE f[1].v
PrefixOf(o) == <<o.ver, o.unlock, o.ins, o.outs, Bytes(o.extra)>>
ContentOf(o) == <<PrefixOf(o), [j \in DOMAIN o.ins |-> SigsOf(o, j)]>>
(* each step gives [ok, o]: whether it is accepted, and the object after it *)
R(ok, o) == [ok |-> ok, o |-> o]
Change(o, p) == IF Attached(o) THEN R(FALSE, o) ELSE R(TRUE, p)
SetUnlock(o, u) == Change(o, [o EXCEPT !.unlock = u])
SetNonce(o, x, size) == IF size > 255 THEN R(FALSE, o) ELSE Change(o, [o EXCEPT !.extra = Put(o.extra, x)])
AppendExtra(o, items) == Change(o, [o EXCEPT !.extra = o.extra \o items])
AddInput(o, in) == Change(o, [o EXCEPT !.ins = Append(o.ins, in), !.ver = IF in.ty = 2 THEN 2 ELSE o.ver])
(* to addresses: needs the secret key; a multisignature output made this way raises the version *)
AddOutputTo(o, out) == IF o.sec = 0 THEN R(FALSE, o) ELSE Change(o, [o EXCEPT !.outs = Append(o.outs, out), !.ver = IF out.ty = 2 THEN 2 ELSE o.ver])
AddOutput(o, out) == Change(o, [o EXCEPT !.outs = Append(o.outs, out)])
(* the secret key has to be that of the public key in the extra part *)
SetSecret(o, pub) == IF pub = PkOf(o) THEN R(TRUE, [o EXCEPT !.sec = pub]) ELSE R(FALSE, o)
SetDeterministic(o, pk) == Change(o, [o EXCEPT !.extra = Put(o.extra, pk), !.sec = pk.v])
Sigs(o) == [j \in DOMAIN o.ins |-> SigsOf(o, j)]
SignKey(o, j, s) == IF j \notin DOMAIN o.ins THEN R(FALSE, o) ELSE IF o.ins[j].ty # 1 THEN R(FALSE, o) ELSE R(TRUE, [o EXCEPT !.sigs = [Sigs(o) EXCEPT ![j] = s]])
SignMulti(o, j, s) == IF j \notin DOMAIN o.ins THEN R(FALSE, o) ELSE R(TRUE, [o EXCEPT !.sigs = [Sigs(o) EXCEPT ![j] = Append(SigsOf(o, j), s)]])
CopyOf(o) == [o EXCEPT !.sec = 0, !.kind = "full"]
-----------------------------------------------------------------------------
(* answers *)
InTotal(o) == WrapSum([j \in DOMAIN o.ins |-> o.ins[j].a])
OutTotal(o) == WrapSum([j \in DOMAIN o.outs |-> o.outs[j].a])
NoWrap(s) == LET f == FoldLeft(LAMBDA x, y : Add(x, y), Zero, s) IN Lt(f, Two64)
Interest(in) == IF in.ty = 2 /\ in.term # 0 THEN DivI(MulI(in.a, 4), 100) ELSE Zero
InputsValid(o) == /\ \A j \in DOMAIN o.ins : o.ins[j].ty = 1 \/ (o.ins[j].ty = 2 /\ o.ver >= 2)
                  /\ NoWrap([j \in DOMAIN o.ins |-> Add(o.ins[j].a, Interest(o.ins[j]))])
                  /\ \A j, m \in DOMAIN o.ins : j < m /\ o.ins[j].ty = o.ins[m].ty =>
                        IF o.ins[j].ty = 1 THEN o.ins[j].ki # o.ins[m].ki ELSE <<o.ins[j].a, o.ins[j].g>> # <<o.ins[m].a, o.ins[m].g>>
OutputsValid(o) == /\ \A j \in DOMAIN o.outs : LET t == o.outs[j] IN
                        /\ t.good
                        /\ IF t.ty = 1 THEN t.a # Zero ELSE o.ver >= 2 /\ t.req <= Len(t.keys)
                   /\ NoWrap([j \in DOMAIN o.outs |-> o.outs[j].a])
SigsValid(o) == (o.ins # <<>> => o.sigs # <<>>) /\ \A j \in DOMAIN o.ins : Req(o.ins[j]) <= Len(SigsOf(o, j))
(* outputs of an account, given the one-time key it derives for each output *)
Found(o, dk) == FoldLeft(LAMBDA s, j : IF o.outs[j].ty = 1 THEN (IF o.outs[j].keys[1] = dk[j] THEN Append(s, j - 1) ELSE s)
                                     ELSE FoldLeft(LAMBDA q, x : IF x = dk[j] THEN Append(q, j - 1) ELSE q, s, o.outs[j].keys),
                       <<>>, [j \in DOMAIN o.outs |-> j])
FoundAmount(o, dk) == WrapSum([j \in DOMAIN o.outs |-> IF o.outs[j].ty = 1 /\ o.outs[j].keys[1] = dk[j] THEN o.outs[j].a ELSE Zero])
=============================================================================
