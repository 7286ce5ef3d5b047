------------------------------ MODULE PeersMC ------------------------------
(* Exhaustive exploration of the peer lists with tiny limits. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, WL, GL, MaxSeen
MCAddr == 1 .. N
MCAllowed(a) == a # N
VARIABLES white, gray, anchor
P == INSTANCE Peers WITH Addr <- MCAddr, WhiteLimit <- WL, GrayLimit <- GL, Allowed <- MCAllowed
vars == <<white, gray, anchor>>
Vals == {<<s, 7>> : s \in 0 .. MaxSeen}
Lists(limit) == {m \in [MCAddr -> Vals \cup {P!Absent}] : TRUE}
Init == white = P!Empty /\ gray = P!Empty /\ anchor = P!Empty
Drops(m) == {[a \in MCAddr |-> IF a \in R THEN P!Absent ELSE m[a]] : R \in SUBSET MCAddr}
White == \E a \in MCAddr, v \in Vals : \E w2 \in Drops([white EXCEPT ![a] = v]) \cup {white} : \E g2 \in {gray, P!Drop(gray, a)} :
            P!WhiteRel(white, gray, w2, g2, a, v) /\ white' = w2 /\ gray' = g2 /\ UNCHANGED anchor
Gray == \E a \in MCAddr, v \in Vals : \E g2 \in Drops([gray EXCEPT ![a] = v]) \cup {gray} :
            P!GrayRel(white, gray, g2, a, v) /\ gray' = g2 /\ UNCHANGED <<white, anchor>>
Anchor == \E a \in MCAddr, v \in Vals : MCAllowed(a) /\ ~P!Has(anchor, a) /\ anchor' = P!Put(anchor, a, v) /\ UNCHANGED <<white, gray>>
Take == anchor # P!Empty /\ anchor' = P!Empty /\ UNCHANGED <<white, gray>>
Merge == \E a, b \in MCAddr, v, u \in Vals :
            gray' = P!Merge(white, gray, << <<a, v[1], v[2]>>, <<b, u[1], u[2]>> >>) /\ UNCHANGED <<white, anchor>>
Next == White \/ Gray \/ Anchor \/ Take \/ Merge
Spec == Init /\ [][Next]_vars
Inv == P!Disjoint(white, gray) /\ P!Bounded(white, gray) /\ P!OnlyAllowed(white, gray, anchor)
(* an entry leaves the verified list only as the oldest of a full list *)
RecencyKept == [][\A a \in MCAddr : (P!Has(white, a) /\ ~P!Has(white', a)) =>
                     /\ P!Size(white) = WL
                     /\ \A b \in MCAddr : P!Has(white', b) => white'[b][1] >= white[a][1]]_vars
(* the two forms of gray insertion agree *)
FnIsRel == \A a \in MCAddr, v \in Vals : P!GrayRel(white, gray, P!GrayFn(white, gray, a, v), a, v)
NoAnchor == anchor = P!Empty
=============================================================================
