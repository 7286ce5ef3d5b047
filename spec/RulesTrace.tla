------------------------------ MODULE RulesTrace ------------------------------
(* Compares values computed by the code's currency rules with the specification's. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Defs == JsonDeserialize(IOEnv.DEFS)
VARIABLES i, bad
K == INSTANCE Schedules WITH Cfg <- Defs.cfg
vars == <<i, bad>>
E == Trace[i]
C == Defs.cfg
F(name, ok) == IF ok THEN {} ELSE {name}
Ten(k) == FoldLeft(LAMBDA a, x : K!MulI(a, 10), K!OfInt(1), [x \in 1 .. k |-> x])

(* ---- reward ---- *)
Med == K!MaxI(E.med, C.zone)
Fits == E.size <= 2 * Med
W == K!Reward(Med, E.size, E.gen, E.fee, E.h)
Reward == F("reward.ok", E.ok = Fits) \cup
  (IF E.ok /\ Fits THEN F("reward.amount", E.r = W.reward)
                        \cup F("reward.emission", IF K!Le(W.minus, W.plus) THEN ~E.neg /\ E.ec = K!Sub(W.plus, W.minus) ELSE E.neg /\ E.ec = K!Sub(W.minus, W.plus)) ELSE {})
(* a constructed mining transaction: the reward split in at most max outputs for the miner, locked for the unlock window *)
Miner == F("miner.ok", E.ok = Fits) \cup
  (IF E.ok /\ Fits THEN F("miner.amount", K!Sum(E.outs) = W.reward) \cup F("miner.outs", Len(E.outs) <= E.max /\ E.mine /\ (W.reward # K!Zero => E.outs # <<>>) /\ \A j \in DOMAIN E.outs : E.outs[j] # K!Zero)
                        \cup F("miner.unlock", E.unlock = E.h + C.unlockw) \cup F("miner.form", E.v = 1 /\ E.ins = 1 /\ E.at = E.h) ELSE {})
MaxSize == F("maxsize", E.r = K!MaxBlockSize(E.h))

(* ---- interest and fees ---- *)
Interest == F("interest.lock", E.r = K!InterestOf(E.a, E.t, E.lock))
Interest2 == F("interest.2", E.r = K!Interest2(E.a, E.t))
Interest3 == F("interest.3", E.r = K!Interest3(E.a, E.t))
InInt(x) == IF x[1] = 1 THEN K!InputInterest(x[2], x[3], E.h) ELSE K!Zero
Fee == LET earned == K!Sum([j \in DOMAIN E.ins |-> InInt(E.ins[j])])
           in == K!Add(K!Sum([j \in DOMAIN E.ins |-> E.ins[j][2]]), earned)
           out == K!Sum(E.outs)
           over == K!Lt(in, out)
           ok == ~over \/ \E j \in DOMAIN E.ins : E.ins[j][1] = 1 /\ E.ins[j][3] # 0
           fee == IF over THEN (IF ok THEN K!OfInt(10) ELSE K!Zero) ELSE K!Sub(in, out)
       IN F("fee.interest", E.int = earned) \cup F("fee.in", E.in = in) \cup F("fee.ok", E.ok = ok) \cup F("fee.fee", E.fee = fee /\ E.fee2 = fee)

(* ---- outputs ---- *)
Output == F("deposit.output", E.r = K!DepositOk(E.a, E.t, E.h))
Outputs == F("deposit.outputs", E.r = (\A j \in DOMAIN E.outs : LET o == E.outs[j] IN
    IF o[1] = 0 THEN o[2] # K!Zero /\ o[6] ELSE E.v >= 2 /\ K!DepositOk(o[2], o[3], E.h) /\ o[4] <= o[5] /\ o[6]))

(* ---- difficulty ---- *)
Lwma1 == F("difficulty.lwma1", E.r = K!Lwma1(E.n, E.ts, E.cum))
Lwma3 == F("difficulty.lwma3", E.r = K!Lwma3(E.ts, E.cum))
Classic == F("difficulty.classic", E.r = K!Classic(E.v, E.n, E.ts, E.cum))

(* ---- versions and what depends on them ---- *)
Version == F("version", E.r = K!Ver(E.h) /\ E.r2 = K!Ver(E.h))
UpgradeOf(v) == CASE v = 2 -> C.uh[1] [] v = 3 -> C.uh[2] [] v = 4 -> C.uh[3] [] v = 7 -> C.uh[4] [] v = 8 -> C.uh[5] [] OTHER -> -1
Params == F("params.upgrade", E.uh = UpgradeOf(E.v)) \cup F("params.window", E.win = (IF E.v = 0 THEN 720 ELSE K!WindowOf(E.v)) /\ E.cut = K!CutOf(E.v) /\ E.count = IF E.v >= 4 THEN 61 ELSE C.win + C.lag)
          \cup F("params.time", E.tcw = (IF E.v >= 4 THEN C.tcw1 ELSE C.tcw) /\ E.ftl = (IF E.v >= 4 THEN C.ftl1 ELSE C.ftl))

(* ---- amounts ---- *)
Below64(a) == K!Lt(a, K!TwoTo64)
(* what an input may at most be worth *)
Worth(x) == IF x[1] = 1 /\ x[3] # 0 THEN K!Add(x[2], K!DivI(K!MulI(x[2], 4), 100)) ELSE x[2]
Overflow == LET in == Below64(K!Sum([j \in DOMAIN E.ins |-> Worth(E.ins[j])])) out == Below64(K!Sum(E.outs))
                ids(k) == {j \in DOMAIN E.ins : E.ins[j][1] = k}
            IN F("overflow.in", E.in = in) \cup F("overflow.out", E.out = out) \cup F("overflow.both", E.both = (in /\ out))
               \cup F("overflow.keys", E.kid = (Cardinality({E.ins[j][4] : j \in ids(0)}) = Cardinality(ids(0))))
               \cup F("overflow.deposits", E.mid = (Cardinality({<<E.ins[j][2], E.ins[j][4]>> : j \in ids(1)}) = Cardinality(ids(1))))
(* decimal digits, least first *)
RECURSIVE Digits(_)
Digits(a) == IF a = K!Zero THEN <<>> ELSE <<K!ModI(a, 10)>> \o Digits(K!DivI(a, 10))
Pretty(a) == LET d == Digits(a) IN d # <<>> /\ \A j \in 1 .. Len(d) - 1 : d[j] = 0
(* the digits of an amount as separate amounts, the lowest ones together as dust up to the threshold *)
Decomposed(a, dust) ==
  LET d == Digits(a)
      f == FoldLeft(LAMBDA acc, j : LET chunk == K!Mul(K!OfInt(d[j]), Ten(j - 1)) IN
                      IF K!Le(K!Add(acc.dust, chunk), dust) THEN [acc EXCEPT !.dust = K!Add(@, chunk)]
                      ELSE LET h == IF ~acc.done /\ acc.dust # K!Zero THEN [acc EXCEPT !.done = TRUE, !.out = Append(@, acc.dust)] ELSE acc IN
                           IF d[j] = 0 THEN h ELSE [h EXCEPT !.out = Append(@, chunk)],
                    [dust |-> K!Zero, done |-> FALSE, out |-> <<>>], [j \in 1 .. Len(d) |-> j])
  IN IF ~f.done /\ f.dust # K!Zero THEN Append(f.out, f.dust) ELSE f.out
Decompose == F("decompose.sum", K!Sum(E.o) = E.a) \cup F("decompose", E.o = Decomposed(E.a, E.dust)) \cup F("decompose.pretty", E.pretty = Pretty(E.a))

(* ---- checkpoints ---- *)
Has(m, h) == \E x \in m : x[1] = h
(* adds: <<height, hash, how, result>>; how 0 directly, 1 directly and malformed, 2 from a file, 3 malformed from a file, 9 end of file *)
Adding == FoldLeft(LAMBDA s, x :
    CASE x[3] = 0 -> LET ok == ~Has(s.m, x[1]) IN [s EXCEPT !.m = IF ok THEN @ \cup {<<x[1], x[2]>>} ELSE @, !.ok = @ /\ (x[4] = 1) = ok]
      [] x[3] = 1 -> [s EXCEPT !.ok = @ /\ x[4] = 0]
      [] x[3] = 2 -> IF s.stop THEN s ELSE IF Has(s.m, x[1]) THEN [s EXCEPT !.stop = TRUE] ELSE [s EXCEPT !.m = @ \cup {<<x[1], x[2]>>}]
      [] x[3] = 3 -> [s EXCEPT !.stop = TRUE]
      [] x[3] = 9 -> [s EXCEPT !.ok = @ /\ (x[4] = 1) = ~s.stop], [m |-> {}, ok |-> TRUE, stop |-> FALSE], E.adds)
Allowed(m, n, h) == LET low == IF n < 10 THEN 0 ELSE n - 10 zone == \E x \in m : h <= x[1] IN
                    h # 0 /\ (h >= low \/ zone) /\ \A x \in m : x[1] <= n => x[1] < h
Checkpoint == LET s == Adding m == s.m IN F("checkpoint.add", s.ok) \cup F("checkpoint.heights", {x[1] : x \in m} = {E.hs[j] : j \in DOMAIN E.hs} /\ Len(E.hs) = Cardinality(m))
  \cup UNION {LET q == E.qs[j] IN F("checkpoint.check", q[8] = 1 /\ (q[4] = 1) = (Has(m, q[1]) => <<q[1], q[2]>> \in m) /\ (q[5] = 1) = Has(m, q[1]))
       \cup F("checkpoint.zone", (q[6] = 1) = \E x \in m : q[1] <= x[1]) \cup F("checkpoint.allowed", (q[7] = 1) = Allowed(m, q[3], q[1])) : j \in DOMAIN E.qs}

(* ---- fusion ---- *)
Fusion == LET n == Len(E.in) total == K!Sum(E.in) want == K!Sorted([j \in DOMAIN E.out |-> j]) IN
  F("fusion", E.r = (E.size <= C.fusmax /\ n >= C.fusmin /\ n >= C.fusratio * Len(E.out) /\ (\A j \in DOMAIN E.in : K!Le(K!OfInt(C.dust), E.in[j]))
                     /\ SortSeq(Decomposed(total, K!OfInt(C.dust)), LAMBDA a, b : K!Lt(a, b)) = E.out))
Fusable == LET ok == K!Lt(E.a, E.th) /\ (E.h < 45000 => K!Le(K!OfInt(C.dust), E.a)) /\ Pretty(E.a) IN
  F("fusable", E.r = ok) \cup (IF ok THEN F("fusable.power", E.p = Len(Digits(E.a)) - 1) ELSE {})

Bad == CASE E.op = "reward" -> Reward [] E.op = "miner" -> Miner [] E.op = "maxsize" -> MaxSize [] E.op = "interest" -> Interest [] E.op = "interest2" -> Interest2 [] E.op = "interest3" -> Interest3
         [] E.op = "fee" -> Fee [] E.op = "output" -> Output [] E.op = "outputs" -> Outputs [] E.op = "lwma1" -> Lwma1 [] E.op = "lwma3" -> Lwma3 [] E.op = "classic" -> Classic
         [] E.op = "version" -> Version [] E.op = "params" -> Params [] E.op = "overflow" -> Overflow [] E.op = "decompose" -> Decompose [] E.op = "checkpoint" -> Checkpoint [] E.op = "fusion" -> Fusion [] E.op = "fusable" -> Fusable
Init == i = 1 /\ bad = FALSE
Next == /\ i <= Len(Trace)
        /\ LET b == Bad IN
           /\ IF b # {} THEN PrintT("VBAD " \o ToJson([i |-> i, bad |-> SetToSeq(b), event |-> ToString(E)])) ELSE TRUE
           /\ bad' = (bad \/ b # {})
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
View == i
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
