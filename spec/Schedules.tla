----------------------------- MODULE Schedules -------------------------------
(* The interest schedules, in the single precision arithmetic that consensus fixed. *)
EXTENDS Rules, Float, FiniteSets
Million == OfInt(1000000)
(* monthly deposits: yearly rate by amount, 0.1 % more for each further month *)
Rate3(humans) == IF Le(OfInt(20000), humans) THEN FDec(49, 1000) ELSE IF Le(OfInt(10000), humans) THEN FDec(39, 1000) ELSE FDec(29, 1000)
Interest3(amount, term) ==
  LET months == MinI(12, term \div Cfg.minTerm3)
      ear == FAdd(Rate3(Div(amount, Million)), FMul(FOf(months - 1), FDec(1, 1000)))
      eir == FMul(FDiv(ear, FOf(12)), FOf(months))
  IN FFloor(FMul(FOfBig(amount), eir))
(* quarterly investments: compound rate per quarter, tiers by amount *)
Tiers == <<180000, 260000, 350000, 450000, 560000, 680000, 810000, 950000, 1100000, 1260000, 1430000, 1610000, 1800000, 2000000>>
Tier(humans) == IF Le(humans, OfInt(110000)) \/ humans = OfInt(2000000) THEN FOf(1)
                ELSE IF Lt(OfInt(2000000), humans) THEN FDec(115, 100)
                ELSE LET k == Cardinality({j \in DOMAIN Tiers : Le(OfInt(Tiers[j]), humans)}) IN FDec(101 + k, 100)
(* 100 * 1.014473^n - 100 in single precision *)
Compound == <<<<12140832, -23>>, <<12228689, -22>>, <<9238045, -21>>, <<12406956, -21>>, <<15621730, -21>>, <<9441515, -20>>, <<11095766, -20>>, <<12773959, -20>>, <<14476441, -20>>, <<16203563, -20>>,
              <<8977840, -19>>, <<9866579, -19>>, <<10768180, -19>>, <<11682829, -19>>, <<12610717, -19>>, <<13552034, -19>>, <<14506975, -19>>, <<15475736, -19>>, <<16458518, -19>>, <<8727762, -18>>>>
Quarterly(amount, n) == IF n = 0 THEN Zero
  ELSE LET m7 == FMul(Compound[n], FAdd(FOf(1), FDiv(FMul(FOf(n), FDec(1, 2)), FOf(100))))
           rate == FMul(m7, Tier(Div(amount, Million)))
       IN FFloor(FMul(FOfBig(amount), FDiv(rate, FOf(100))))
Weekly(amount, weeks) ==
  LET rate == FAdd(FDec(696, 10000), FMul(FOf(weeks), FDec(2, 10000)))
  IN FFloor(FMul(FOfBig(amount), FDiv(FMul(FOf(weeks), rate), FOf(100))))
Interest2(amount, term) == IF term % 64800 = 0 THEN Quarterly(amount, term \div 64800) ELSE IF term % 5040 = 0 THEN Weekly(amount, term \div 5040) ELSE Zero
InterestOf(amount, term, lock) == LET t == MinI(term, Cfg.maxTerm1) IN Interest(amount, term, lock, Interest3(amount, t), Interest2(amount, t))
(* interest of an input of this term spent in a block at height h (locks are differences of 32-bit numbers) *)
InputInterest(amount, term, h) == IF term = 0 \/ term > Cfg.maxTerm1 THEN Zero
                                  ELSE InterestOf(amount, term, IF h = Cfg.missing THEN h ELSE IF h < term THEN -1 ELSE h - term)
=============================================================================
