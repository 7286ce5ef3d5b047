------------------------------- MODULE Peers -------------------------------
(* The peer lists of a node (src/P2p/PeerListManager): a verified ("white"), an unverified  *)
(* ("gray") and an anchor list.  A list maps every address to <<lastSeen, peerId>> or Absent.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Addr,          \* addresses
          WhiteLimit, GrayLimit,
          Allowed(_)     \* may this address be kept at all?

Absent == <<-1, 0>>
Has(m, a) == m[a][1] >= 0
Members(m) == {a \in Addr : Has(m, a)}
Size(m) == Cardinality(Members(m))
Put(m, a, v) == [m EXCEPT ![a] = v]
Drop(m, a) == [m EXCEPT ![a] = Absent]
Empty == [a \in Addr |-> Absent]

(* w2 is what is left of w after throwing out the oldest until the limit is met. *)
IsTrim(w, w2, limit) ==
  LET gone == {a \in Addr : w2[a] # w[a]}
      n    == Size(w)
  IN  /\ \A a \in gone : ~Has(w2, a)
      /\ Cardinality(gone) = IF n > limit THEN n - limit ELSE 0
      /\ gone # {} => \E top \in gone : /\ \A r \in gone : w[r][1] <= w[top][1]
                                       /\ \A k \in Addr : Has(w2, k) => w[top][1] <= w2[k][1]

(* ---- what each call does to the lists (relations between old and new) ---- *)
WhiteRel(w, g, w2, g2, a, v) ==
  IF ~Allowed(a) THEN w2 = w /\ g2 = g
  ELSE /\ g2 = Drop(g, a)
       /\ IF Has(w, a) THEN w2 = Put(w, a, v) ELSE IsTrim(Put(w, a, v), w2, WhiteLimit)

GrayRel(w, g, g2, a, v) ==
  IF ~Allowed(a) \/ Has(w, a) THEN g2 = g
  ELSE IF Has(g, a) THEN g2 = Put(g, a, v) ELSE IsTrim(Put(g, a, v), g2, GrayLimit)

(* deterministic form, for histories without a tie at the eviction point *)
Oldest(m) == CHOOSE a \in Members(m) : \A b \in Members(m) : m[a][1] <= m[b][1]
RECURSIVE TrimTo(_, _)
TrimTo(m, limit) == IF Size(m) > limit THEN TrimTo(Drop(m, Oldest(m)), limit) ELSE m
GrayFn(w, g, a, v) == IF ~Allowed(a) \/ Has(w, a) THEN g
                      ELSE IF Has(g, a) THEN Put(g, a, v) ELSE TrimTo(Put(g, a, v), GrayLimit)
RECURSIVE Merge(_, _, _)
Merge(w, g, l) == IF l = <<>> THEN g
                  ELSE Merge(w, GrayFn(w, g, l[1][1], <<l[1][2], l[1][3]>>), Tail(l))

(* A batch of addresses none of which is in either list: the newest GrayLimit survive. *)
BatchRel(w, g, g2, l) ==
  LET all == FoldLeft(LAMBDA m, e : IF Allowed(e[1]) /\ ~Has(w, e[1]) THEN [m EXCEPT ![e[1]] = <<e[2], e[3]>>] ELSE m, g, l)
  IN  IsTrim(all, g2, GrayLimit)

(* A batch of verified peers, none of them in the white list before *)
WhiteBatchRel(w, g, w2, g2, l) ==
  /\ IsTrim(FoldLeft(LAMBDA m, e : IF Allowed(e[1]) THEN [m EXCEPT ![e[1]] = <<e[2], e[3]>>] ELSE m, w, l), w2, WhiteLimit)
  /\ g2 = FoldLeft(LAMBDA m, e : IF Allowed(e[1]) THEN [m EXCEPT ![e[1]] = Absent] ELSE m, g, l)

(* ---- what the lists show ---- *)
IsHead(w, l, depth) ==
  LET seen == {a \in Addr : w[a][1] > 0}
      got  == {l[k][1] : k \in DOMAIN l}
      need == IF Cardinality(seen) < depth THEN Cardinality(seen) ELSE depth
  IN  /\ Len(l) = need /\ Cardinality(got) = need
      /\ got \subseteq seen
      /\ \A k \in DOMAIN l : <<l[k][2], l[k][3]>> = w[l[k][1]]
      /\ \A k \in 1 .. Len(l) - 1 : l[k][2] >= l[k + 1][2]
      /\ need > 0 => \A a \in seen \ got : w[a][1] <= l[need][2]
(* the entry with index k (0-based, newest first) *)
IsIndexed(m, k, ret, a, seen) ==
  IF k >= Size(m) THEN ~ret
  ELSE /\ ret /\ Has(m, a) /\ m[a][1] = seen
       /\ Cardinality({b \in Addr : Has(m, b) /\ m[b][1] > seen}) <= k
       /\ Cardinality({b \in Addr : Has(m, b) /\ m[b][1] >= seen}) > k

(* ---- the property ---- *)
Disjoint(w, g) == \A a \in Addr : ~(Has(w, a) /\ Has(g, a))
Bounded(w, g) == Size(w) <= WhiteLimit /\ Size(g) <= GrayLimit
OnlyAllowed(w, g, an) == \A a \in Addr : (Has(w, a) \/ Has(g, a) \/ Has(an, a)) => Allowed(a)
=============================================================================
