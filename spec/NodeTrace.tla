------------------------------ MODULE NodeTrace -------------------------------
(* Checks a recorded history of cn::core against Node: everything the node answered must be what Node prescribes. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
Defs == JsonDeserialize(IOEnv.DEFS)
VARIABLES i, S, bad
N == INSTANCE Answers WITH Cfg <- Defs.cfg, Txs <- Defs.txs, Blks <- Defs.blocks, Amts <- Defs.amts, NKeys <- Defs.cfg.nkeys
vars == <<i, S, bad>>
E == Trace[i]
F(name, ok) == IF ok THEN {} ELSE {name}
Pairs(l) == {<<l[k][1], l[k][2]>> : k \in DOMAIN l}
(* a wrong verdict is named after the reason the specification gives; a wrong refusal after what is special about the object *)
Verdict(what, said, want, why, special) == IF said = want THEN {} ELSE IF said THEN {what \o ".accepted:" \o why} ELSE {what \o ".refused:" \o f : f \in special}
Flags(what, ok, why, special) == IF ok THEN {} ELSE IF why # "" THEN {what \o ".flags:" \o why} ELSE {what \o ".refused:" \o f : f \in special}
Near(x, y, d) == x - y <= d /\ y - x <= d
RingTxs(t) == LET L == N!Led(S) IN UNION {LET in == Defs.txs[t].ins[j] IN IF in.k # 0 THEN {} ELSE {L.outs[in.a][o + 1][1] : o \in {in.off[q] : q \in {q \in DOMAIN in.off : in.off[q] < Len(L.outs[in.a])}}} : j \in DOMAIN Defs.txs[t].ins}
TxSpecial(t) == LET d == Defs.txs[t] IN {"any"}
  \cup (IF N!Withdraws(t) \/ \E j \in DOMAIN d.outs : d.outs[j].k = 1 THEN {"deposit"} ELSE {})
  \cup (IF \E u \in RingTxs(t) : Defs.txs[u].uln # 0 /\ (Defs.txs[u].ulk # "h" \/ Near(Defs.txs[u].uln, N!Size(S), 2)) THEN {"unlock"} ELSE {})
  \cup (IF \E u \in DOMAIN Defs.txs : u # t /\ u \notin S.pool /\ (N!KeyImages(u) \cap N!KeyImages(t) # {} \/ N!Deposits(u) \cap N!Deposits(t) # {}) THEN {"respend"} ELSE {})
BlkSpecial(b) == LET d == Defs.blocks[b] ts == {t \in N!Range(d.txs) : t # 0} IN UNION {TxSpecial(t) : t \in ts} \cup {"any"}
  \cup (IF \E j \in DOMAIN Defs.cfg.uh : Near(Defs.cfg.uh[j], d.h, 2) THEN {"upgrade"} ELSE {})
  \cup (IF ts # {} \/ Defs.txs[d.cb].sz > Defs.cfg.zone \div 2 THEN {"reward"} ELSE {})
  \cup (IF S.cks # {} \/ S.dns # <<>> THEN {"checkpoint"} ELSE {})
  \cup (IF d.par = N!Tip(S) THEN {"next"} ELSE {"branch"})
  \cup (IF "tm" \in DOMAIN E /\ E.tm THEN {"template"} ELSE {})
  \cup (IF d.par = N!Tip(S) /\ (Near(d.ts, N!MedianTs(N!Led(S).ts), 3) \/ Near(d.ts, E.now + Defs.cfg.ftl, 3)) THEN {"time"} ELSE {})

SeenPool == {<<E.o.pool[k][1], E.o.pool[k][2], E.o.pool[k][3]>> : k \in DOMAIN E.o.pool}
Observed(Z) ==
  IF "o" \notin DOMAIN E THEN {}
  ELSE F("size", E.o.size = N!Size(Z)) \cup F("tail", E.o.tail = N!Tip(Z)) \cup F("difficulty", E.o.nd = N!NextDiff(Z))
       \cup F("coins", E.o.coins = N!Last(N!Led(Z).coins)) \cup F("txcount", E.o.ntx = N!Last(N!Led(Z).ntx))
       \cup F("alts", N!Range(E.o.alts) = Z.alts /\ E.o.altn = Cardinality(Z.alts) /\ Len(E.o.alts) = E.o.altn)
       \cup F("pool", {x[1] : x \in SeenPool} = Z.pool /\ E.o.pooln = Cardinality(Z.pool) /\ Len(E.o.pool) = E.o.pooln)
       \cup F("poolinfo", \A x \in SeenPool : x[1] \in Z.pool => Z.pa[x[1]].kept = (x[2] = 1) /\ Z.pa[x[1]].rt = x[3])
Quiet(bu, pu, rb) == F("observers", E.bu = bu /\ E.pu = pu) \cup F("relay", E.rb = rb)

TxR == N!SubmitTx(S, E.t, E.kept, E.now)
BlkR == N!SubmitBlock(S, E.b, E.now)
ChainR == N!AddChain(S, E.bs, E.now)
IdleR == N!Idle(S, E.now)
RestartR == LET cs == IF E.crash THEN N!Survivors(S) ELSE {S.chain}
                from == IF E.crash THEN S ELSE N!Stop(S)
                try(c) == N!Restart(from, c, Pairs(E.cks), E.now)
                fit == {c \in cs : LET r == try(c) IN N!Size(r.s) = E.o.size /\ N!Tip(r.s) = E.o.tail}
            IN try(IF fit = {} THEN S.chain ELSE CHOOSE c \in fit : \A d \in fit : Len(d) <= Len(c))
R0 == CASE E.op = "tx" -> TxR [] E.op \in {"blk", "found"} -> BlkR [] E.op = "chain" -> ChainR [] E.op = "idle" -> IdleR [] E.op = "restart" -> RestartR
        [] E.op = "roll" -> [s |-> N!Rollback(S, E.to)]
        [] E.op = "dns" -> [s |-> [S EXCEPT !.dns = E.rec]]
        [] OTHER -> [s |-> S]
(* a complete dump *)
Deep == LET L == N!Led(S) amts == DOMAIN E.mouts txs == DOMAIN E.txs IN
  F("rows", Len(E.rows) = N!Size(S))
  \cup UNION {LET r == N!Row(S, k) IN {x : x \in {x \in DOMAIN r : E.rows[k][x] # r[x]}} : k \in (DOMAIN E.rows) \cap 1 .. N!Size(S)}
  \cup F("dep", E.dep = N!Last(L.dep))
  \cup F("spent", (\A k \in DOMAIN E.spent : L.spent[E.spent[k]] # 0) /\ (\A k \in DOMAIN E.unspent : L.spent[E.unspent[k]] = 0))
  \cup UNION {LET r == N!TxRow(S, t) IN {"tx." \o x : x \in {x \in DOMAIN r : E.txs[t][x] # r[x]}} : t \in txs}
  \cup F("mouts", \A a \in amts : Len(E.mouts[a]) = Len(L.mouts[a]) /\ \A k \in DOMAIN L.mouts[a] : E.mouts[a][k] = N!MultiRow(L.mouts[a][k]))
  \cup F("outs", \A a \in amts : Len(E.outs[a]) = Len(L.outs[a]) /\ \A k \in DOMAIN L.outs[a] : E.outs[a][k] = <<L.outs[a][k][1], L.outs[a][k][2]>>)
  \cup F("pids", \A p \in DOMAIN E.pids : Len(E.pids[p]) = Cardinality(N!ByPaymentId(S, p)) /\ N!Range(E.pids[p]) = N!ByPaymentId(S, p))
  \cup F("orphans", \A h \in DOMAIN E.orph : Len(E.orph[h]) = Cardinality(N!OrphansAt(S, h - 1)) /\ N!Range(E.orph[h]) = N!OrphansAt(S, h - 1))
  \cup F("have", N!Range(E.have) = N!Known(S) /\ N!Range(E.main) = N!MainSet(S))
Query ==
  CASE E.q = "supp" -> LET r == N!Supplement(S, E.ids, E.max) IN F("query.supp", E.total = N!Size(S) /\ E.start = r.start /\ E.res = r.res)
    [] E.q = "blocks" -> IF ~N!ListOk(E.ids) THEN F("query.blocks", ~E.ret)
                         ELSE F("query.blocks", E.ret /\ E.cur = N!Size(S) /\ E.start = N!Common(S, E.ids) /\ N!FullOk(S, E.start, E.full, E.ts, E.early) /\ N!BlocksOk(S, E.start, E.full, E.ts, E.res))
    [] E.q = "pool" -> LET known == N!Range(E.known) IN
          F("query.pool", /\ E.ret = (E.tail = N!Tip(S)) /\ N!Distinct(E.add) /\ N!Range(E.add) = N!PoolAdded(S, known, E.now)
                          /\ Len(E.del) = Cardinality(N!PoolDeleted(S, known, E.now)) + E.unknown /\ N!Range(E.del) \ {0} = N!PoolDeleted(S, known, E.now))
    [] E.q = "sparse" -> F("query.sparse", E.res = N!Sparse(S, E.b))
    [] E.q = "time" -> F("query.time", N!TimeOk(N!MainSet(S), LAMBDA b : Defs.blocks[b].ts, E.from, E.to, E.lim, E.ret, E.count, E.res))
    [] E.q = "ptime" -> F("query.ptime", N!PoolTimeOk(S, E.from, E.to, E.lim, E.ret, E.count, E.res))
    [] E.q = "objects" -> LET bs == SelectSeq(E.blocks, LAMBDA b : N!InMain(S, b)) IN
          F("query.objects", /\ E.ret /\ E.cur = N!Size(S) /\ E.ob = [k \in DOMAIN bs |-> <<bs[k], Defs.blocks[bs[k]].txs>>]
                             /\ E.mb = SelectSeq(E.blocks, LAMBDA b : ~N!InMain(S, b)) /\ E.ot = N!InChain(S, E.txs) /\ E.mt = N!NotInChain(S, E.txs))
    [] E.q = "random" -> F("query.random", E.ret /\ Len(E.res) = Len(E.amts) /\ \A k \in DOMAIN E.res : E.res[k][1] = E.amts[k] /\ N!RandomOk(N!Led(S), E.amts[k], E.n, E.res[k][2], E.now))
    [] E.q = "sizes" -> LET s == N!Led(S).sz IN F("query.sizes", IF E.from >= N!Size(S) THEN ~E.ret /\ E.res = <<>> ELSE E.ret /\ E.res = N!LastN(SubSeq(s, 1, E.from + 1), E.n))
    [] E.q = "block" -> IF E.b \in N!Known(S) /\ N!HasBodies(S, E.b) THEN F("query.block", E.ret /\ E.id = E.b /\ Len(E.txs) = Len(Defs.blocks[E.b].txs) /\ N!Range(E.txs) = N!Range(Defs.blocks[E.b].txs))
                        ELSE F("query.block", ~E.ret)
    [] E.q = "row" -> F("query.row", IF E.h >= N!Size(S) THEN ~E.ret /\ E.none
                                     ELSE LET r == N!Row(S, E.h + 1) IN E.ret /\ E.ts = r.ts /\ E.coins = r.coins /\ E.d = r.d /\ E.id = r.b)
    [] E.q = "range" -> LET l == SubSeq(S.chain, E.from + 1, N!MinI(N!Size(S), E.from + E.n)) IN
          F("query.range", IF E.from >= N!Size(S) THEN ~E.ret /\ E.res = <<>> /\ E.ot = <<>>
                           ELSE E.ret /\ E.res = l /\ E.ot = IF E.txs THEN N!Fold(LAMBDA a, b : a \o Defs.blocks[b].txs, <<>>, l) ELSE <<>>)
    [] E.q = "gtx" -> F("query.gtx", LET in == N!InChain(S, E.txs) IN E.ret /\ E.miss = N!NotInChain(S, E.txs) /\ E.res = [k \in DOMAIN in |-> <<in[k], N!Globals(N!Led(S), in[k])>>])
    [] E.q = "onetx" -> LET ch == N!Led(S).txh[E.t] # 0 po == E.t \in S.pool IN
          F("query.onetx", E.ret = (ch \/ (E.pool /\ po)) /\ E.inpool = po /\ E.id = (IF E.ret THEN E.t ELSE 0) /\ E.pid = IF po THEN E.t ELSE 0)
    [] E.q = "top" -> F("query.top", /\ E.ret /\ E.h = N!Size(S) - 1 /\ E.b = N!Tip(S) /\ E.sh = N!Size(S) /\ E.sid /\ E.sa = Cardinality(S.alts)
                                     /\ E.sp = Cardinality(S.pool) /\ N!Range(E.pool) = S.pool /\ Len(E.pool) = E.sp)
    [] OTHER -> {"query.unknown"}
Judge(r) ==
  CASE E.op = "tx" ->
          Verdict("tx", E.added, r.added, r.why, TxSpecial(E.t))
          \cup Flags("tx", E.ret = r.ret /\ E.vf = r.vf /\ E.imp = r.imp, r.why, TxSpecial(E.t)) \cup F("tx.relay", E.rel = r.rel)
          \cup F("messages", E.msgs = <<>>) \cup Quiet(0, IF r.added THEN 1 ELSE 0, 0)
    [] E.op = "blk" ->
          Verdict("blk", E.amc, r.amc, r.why, BlkSpecial(E.b))
          \cup Flags("blk", E.ret = N!Readable(E.b) /\ E.vf = r.vf /\ E.sw = r.sw /\ E.orp = r.orp /\ E.ex = r.ex, r.why, BlkSpecial(E.b))
          \cup F("messages", E.msgs = r.msgs) \cup Quiet(r.bu, E.pu, IF E.rly /\ r.amc THEN 1 ELSE 0)
    [] E.op = "found" ->
          Verdict("blk", E.ret, r.amc, r.why, BlkSpecial(E.b)) \cup F("messages", E.msgs = r.msgs) \cup Quiet(r.bu, E.pu, IF r.amc THEN 1 ELSE 0)
    [] E.op = "chain" ->
          (IF E.ret = r.k THEN {} ELSE IF E.ret > r.k THEN {"blk.accepted:" \o r.why} ELSE {"blk.refused:" \o f : f \in BlkSpecial(E.bs[E.ret + 1])})
          \cup F("messages", E.msgs = r.msgs) \cup Quiet(r.bu, E.pu, 0)
    [] E.op = "junk" -> F(IF E.tx THEN "tx.junk" ELSE "blk.junk", ~E.ret /\ E.vf /\ ~E.added) \cup F("messages", E.msgs = <<>>) \cup Quiet(0, 0, 0)
    [] E.op = "tmpl" ->
          F("tmpl.ret", E.ret = (N!NextDiff(S) # N!Zero))
          \cup (IF ~E.ret THEN {} ELSE F("tmpl.height", E.h = N!Size(S)) \cup F("tmpl.difficulty", E.d = N!NextDiff(S))
                 \cup (LET w == N!TemplateWhy(S, E.b, E.now) IN IF w # "" THEN {"tmpl.block:" \o w} ELSE F("tmpl.complete", N!TemplateComplete(S, E.b, E.now))))
          \cup F("messages", E.msgs = <<>>) \cup Quiet(0, 0, 0)
    [] E.op = "idle" -> F("messages", E.msgs = <<>>) \cup Quiet(0, IF r.any THEN 1 ELSE 0, 0)
    [] E.op = "roll" -> F("roll.ret", E.ret) \cup F("messages", E.msgs = <<>>)
    [] E.op = "restart" -> F("messages", E.msgs = <<>>)
    [] E.op = "deep" -> {"deep@" \o E.after \o "." \o x : x \in Deep} \cup F("messages", E.msgs = <<>>) \cup Quiet(0, 0, 0)
    [] E.op = "query" -> Query \cup F("messages", E.msgs = <<>>) \cup Quiet(0, 0, 0)
    [] OTHER -> {}
Refused(r) == CASE E.op \in {"tx", "blk", "found"} -> r.why # "" [] E.op = "junk" -> TRUE [] OTHER -> FALSE
Init == i = 1 /\ S = N!Start /\ bad = {}
Report(j, b) == b = {} \/ PrintT("VBAD " \o ToJson([i |-> j, bad |-> b, op |-> Trace[j].op]))
Next == /\ i <= Len(Trace) /\ bad = {}
        /\ i' = i + 1
        /\ IF S.torn THEN S' = S /\ bad' = {}
           ELSE \E r \in {TLCEval(R0)} :
                  /\ S' = r.s
                  /\ bad' = IF r.s.torn THEN {} ELSE LET j == Judge(r) IN IF j # {} THEN j ELSE {(IF E.op \in {"found", "chain", "junk"} THEN "blk" ELSE E.op) \o (IF Refused(r) THEN ".refusal:" ELSE ".after:") \o x : x \in Observed(r.s)}
        /\ Report(i, bad')
Spec == Init /\ [][Next]_vars
View == <<i, bad>>
Consumed == TLCGet("stats").diameter = Len(Trace) + 1
================================================================================
