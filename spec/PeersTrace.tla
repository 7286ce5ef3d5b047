----------------------------- MODULE PeersTrace -----------------------------
(* Checks a recorded history of a PeerlistManager against Peers. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Trace[1].n
TAddr == 1 .. N
Cls == Trace[1].cls
TAllowed(a) == Cls[a] = 0 \/ (Cls[a] = 2 /\ Trace[1].local)
VARIABLES i, white, gray, anchor, bad
P == INSTANCE Peers WITH Addr <- TAddr, WhiteLimit <- Trace[1].wl, GrayLimit <- Trace[1].gl, Allowed <- TAllowed
vars == <<i, white, gray, anchor, bad>>
E == Trace[i]
Init == i = 2 /\ white = P!Empty /\ gray = P!Empty /\ anchor = P!Empty /\ bad = {}
PutMany(m, l) == FoldLeft(LAMBDA f, e : [f EXCEPT ![e[1]] = <<e[2], e[3]>>], m, l)
DropMany(m, l) == FoldLeft(LAMBDA f, a : [f EXCEPT ![a] = P!Absent], m, l)
Full == "wc" \in DOMAIN E
W2 == IF Full THEN PutMany(DropMany(white, E.wrem), E.wadd) ELSE white
G2 == IF Full THEN PutMany(DropMany(gray, E.grem), E.gadd) ELSE gray
Ids(l) == {l[k][1] : k \in DOMAIN l}
F(name, ok) == IF ok THEN {} ELSE {name}
A2 == CASE E.op = "anchor" -> IF TAllowed(E.a) /\ ~P!Has(anchor, E.a) THEN P!Put(anchor, E.a, <<E.s, E.p>>) ELSE anchor
        [] E.op = "unanchor" -> P!Drop(anchor, E.a)
        [] E.op = "takeanchors" -> P!Empty
        [] OTHER -> anchor
(* every anchor exactly once, oldest first *)
AnchorsOk(l) == /\ Len(l) = P!Size(anchor)
                /\ Ids(l) = P!Members(anchor)
                /\ \A k \in DOMAIN l : <<l[k][2], l[k][3]>> = anchor[l[k][1]]
                /\ \A k \in 1 .. Len(l) - 1 : l[k][2] <= l[k + 1][2]
Judge(w2, g2) ==
  (CASE E.op = "white" -> F("white", E.ret /\ P!WhiteRel(white, gray, w2, g2, E.a, <<E.s, E.p>>))
     [] E.op = "gray" -> F("gray", E.ret /\ w2 = white /\ P!GrayRel(white, gray, g2, E.a, <<E.s, E.p>>))
     [] E.op = "merge" -> F("merge", E.ret /\ w2 = white /\ g2 = P!Merge(white, gray, E.l))
     [] E.op = "mergenew" -> F("merge", E.ret /\ w2 = white /\ P!BatchRel(white, gray, g2, E.l))
     [] E.op = "whitenew" -> F("white", E.ret /\ P!WhiteBatchRel(white, gray, w2, g2, E.l))
     [] E.op = "head" -> F("head", E.ret /\ P!IsHead(white, E.l, E.d))
     [] E.op = "index" -> F("index", P!IsIndexed(IF E.w THEN white ELSE gray, E.k, E.ret, E.a, E.s))
     [] E.op = "takeanchors" -> F("anchors", E.ret /\ AnchorsOk(E.l))
     [] E.op \in {"anchor", "unanchor"} -> F("anchors", E.ret /\ w2 = white /\ g2 = gray)
     [] E.op = "allowed" -> F("allowed", E.ret = TAllowed(E.a))
     [] OTHER -> F(E.op, w2 = white /\ g2 = gray))
  \cup (IF "top" \notin DOMAIN E THEN {} ELSE F("limit", E.top <= IF E.op = "whitenew" THEN Trace[1].wl ELSE Trace[1].gl))
  \cup (IF ~Full THEN {} ELSE
        F("duplicate", E.wdup = 0 /\ E.gdup = 0) \cup F("count", E.wc = P!Size(w2) /\ E.gc = P!Size(g2)) \cup F("order", E.sorted)
        \cup F("disjoint", P!Disjoint(w2, g2)) \cup F("limit", P!Bounded(w2, g2)) \cup F("allowed", P!OnlyAllowed(w2, g2, anchor)))
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ white' = W2 /\ gray' = G2 /\ anchor' = A2
        /\ bad' = Judge(white', gray')
        /\ i' = i + 1
        /\ (bad' = {} \/ PrintT("VBAD " \o ToJson([i |-> i, bad |-> bad', op |-> E.op])))
Spec == Init /\ [][Next]_vars
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace)
=============================================================================
