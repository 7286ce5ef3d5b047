  // ---------- what the node answers about its state (included inside struct Drv)
  Hash randHash() { Hash h; for (size_t i = 0; i < sizeof h; ++i) ((uint8_t *)&h)[i] = (uint8_t)rng.u(256); return h; }
  template <class V> std::string ids(const V &v) { return jarr(v, [&](const Hash &h) { return std::to_string(blkId(h)); }); }
  template <class V> std::vector<int> txIds(const V &v) { std::vector<int> r; for (auto &t : v) r.push_back(txId(getObjectHash(t))); return r; }
  template <class V> std::vector<int> blobTxIds(const V &v) { std::vector<int> r; for (auto &s : v) { Transaction t; BinaryArray ba(s.begin(), s.end()); r.push_back(fromBinaryArray(t, ba) ? txId(getObjectHash(t)) : -1); } return r; }
  int blobBlkId(const std::string &s) { if (s.empty()) return 0; Block b; BinaryArray ba(s.begin(), s.end()); return fromBinaryArray(b, ba) ? blkId(get_block_hash(b)) : -1; }
  static std::vector<int> sorted(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }
  // everything, block by block and transaction by transaction
  void opDeep(const char *after = "plain") {
    J j; j.t("op", "deep").t("after", after); uint32_t n = C().get_current_blockchain_height(); std::vector<std::string> rows;
    for (uint32_t h = 0; h < n; ++h) {
      Hash id = C().getBlockIdByHeight(h); size_t sz = 0; u64 coins = 0, ntx = 0, ts = 0; difficulty_type d = 0; uint32_t bh = 0; Block b; J r; bool ok = C().getBlockSize(id, sz) && C().getAlreadyGeneratedCoins(id, coins) && C().getGeneratedTransactionsNumber(h, ntx) && C().getBlockTimestamp(h, ts) && C().getBlockDifficulty(h, d) && C().getBlockHeight(id, bh) && bh == h && C().getBlockByHash(id, b) && get_block_hash(b) == id;
      r.n("b", blkId(id)).b("ok", ok).n("sz", sz).raw("coins", big(coins)).n("ntx", ntx).n("ts", (int64_t)ts - G).raw("d", big(d)).raw("dep", big(C().depositAmountAtHeight(h))).raw("int", big(C().depositInterestAtHeight(h))); rows.push_back(r.str());
    }
    j.raw("rows", jarr(rows, [](const std::string &s) { return s; })).raw("dep", big(C().fullDepositAmount()));
    std::vector<int> sp, un; for (auto &t : T) for (auto &o : t->outs) if (o.have && o.ok) { crypto::KeyImage ki; crypto::generate_key_image(o.pub, o.sec, ki); (C().is_key_image_spent(ki) ? sp : un).push_back(o.key); }
    j.raw("spent", jnums(sp)).raw("unspent", jnums(un));
    std::vector<std::string> tx; for (auto &t : T) { Hash bid; uint32_t h = 0; bool in = C().getBlockContainingTx(t->hash, bid, h); std::vector<uint32_t> gi; bool g = C().get_tx_outputs_gindexs(t->hash, gi); std::list<Transaction> l; std::list<Hash> miss; C().getTransactions({t->hash}, l, miss, true); bool got = l.size() == 1 && getObjectHash(l.front()) == t->hash; J r; r.n("h", in ? (int)h : -1).n("b", in ? blkId(bid) : 0).raw("g", g ? jnums(gi) : std::string("[-1]")).b("got", got); tx.push_back(r.str()); }
    j.raw("txs", jarr(tx, [](const std::string &s) { return s; }));
    // outputs by global index: one past the end must be unknown
    std::vector<std::string> ms, ko; for (size_t a = 1; a <= amts.size(); ++a) {
      std::vector<std::string> v; for (uint32_t i = 0; i < 200; ++i) { MultisignatureInput in; in.amount = amts[a - 1]; in.outputIndex = i; in.signatureCount = 1; in.term = 0; std::pair<Hash, size_t> r; bool ok = C().getMultisigOutputReference(in, r); MultisignatureOutput o; bool ok2 = C().getOutByMSigGIndex(amts[a - 1], i, o); if (!ok && !ok2) break; v.push_back("[" + std::to_string(ok ? txId(r.first) : 0) + "," + std::to_string(ok ? (int)r.second + 1 : 0) + "," + std::to_string(ok2 ? (int)o.keys.size() : -1) + "," + std::to_string(ok2 ? o.requiredSignatureCount : -1) + "," + std::to_string(ok2 ? o.term : 0) + "]"); }
      ms.push_back(jarr(v, [](const std::string &s) { return s; }));
      std::vector<std::string> k; for (uint32_t i = 0; i < 2000; ++i) { KeyInput in; in.amount = amts[a - 1]; in.outputIndexes = {i}; std::list<std::pair<Hash, size_t>> r; if (!C().scanOutputkeysForIndices(in, r) || r.size() != 1) break; k.push_back("[" + std::to_string(txId(r.front().first)) + "," + std::to_string(r.front().second + 1) + "]"); }
      ko.push_back(jarr(k, [](const std::string &s) { return s; }));
    }
    j.raw("mouts", jarr(ms, [](const std::string &s) { return s; })).raw("outs", jarr(ko, [](const std::string &s) { return s; }));
    std::vector<std::string> pv; for (auto &p : pids) { std::vector<Transaction> v; bool ok = C().getTransactionsByPaymentId(p, v); pv.push_back(ok ? jnums(sorted(txIds(v))) : "[]"); } j.raw("pids", jarr(pv, [](const std::string &s) { return s; }));
    std::vector<std::string> ov; for (uint32_t h = 0; h < n + 12; ++h) { std::vector<Block> v; C().getOrphanBlocksByHeight(h, v); std::vector<int> r; for (auto &b : v) r.push_back(blkId(get_block_hash(b))); ov.push_back(jnums(sorted(r))); } j.raw("orph", jarr(ov, [](const std::string &s) { return s; }));
    std::vector<int> have, height; for (auto &b : B) { if (C().have_block(b->hash)) have.push_back(b->id); uint32_t h; if (C().getBlockHeight(b->hash, h)) height.push_back(b->id); } j.raw("have", jnums(have)).raw("main", jnums(height));
    emit(j); st.add("deep");
  }
  std::vector<Hash> someIds(bool &valid) { // a list a peer might send: newest first, ending with the genesis block
    std::vector<Hash> v; auto mc = mainChain(); unsigned k = rng.u(10); valid = true;
    if (k < 3) { int b = 1 + (int)rng.u(B.size()); std::vector<int> path; for (int x = b; x; x = blk(x).par) path.push_back(x); for (size_t i = 0; i < path.size(); i += 1 + rng.u(3)) v.push_back(blk(path[i]).hash); }
    else if (k < 7) { int h = (int)rng.u(mc.size()); for (size_t i = 1; h - (int)i + 1 >= 0; i *= 2) v.push_back(blk(mc[h - i + 1]).hash); }
    else { for (int q = (int)rng.u(5); q > 0; --q) v.push_back(rng.p(30) ? randHash() : blk(1 + (int)rng.u(B.size())).hash); }
    if (rng.p(20)) v.insert(v.begin(), randHash());
    if (v.empty() || v.back() != blk(1).hash) { if (rng.p(90)) v.push_back(blk(1).hash); else valid = false; }
    return v;
  }
  int64_t someTs() { auto mc = mainChain(); unsigned k = rng.u(10); if (k < 2) return -G; if (k < 7) { int b = mc[rng.u(mc.size())]; return blk(b).ts + (rng.p(50) ? 0 : rng.r(-2, 2)) + (rng.p(40) ? c.ftl : 0); } return rng.r(-c.ftl, now + 3 * c.ftl); }
  void opQuery() { int n = (int)rng.r(3, 7); for (int i = 0; i < n; ++i) query((int)rng.u(17)); }
  void query(int kind) {
    J j; j.t("op", "query"); auto mc = mainChain(); st.add("queries");
    if (kind == 0) { bool ok; auto v = someIds(ok); if (!ok || v.empty()) v.push_back(blk(1).hash); uint32_t max = rng.p(30) ? (uint32_t)rng.u(4) : 10000, tot = 0, start = 0; auto r = C().findBlockchainSupplement(v, max, tot, start); j.t("q", "supp").raw("ids", ids(v)).n("max", max).n("total", tot).n("start", start).raw("res", ids(r)); }
    else if (kind == 1 || kind == 2) { bool ok; auto v = someIds(ok); int64_t ts = someTs(); uint32_t s = 0, cu = 0, f = 0; std::vector<std::string> l; bool r;
      if (kind == 1) { std::vector<BlockFullInfo> e; r = C().queryBlocks(v, (u64)(ts + G), s, cu, f, e); for (auto &x : e) { int body = blobBlkId(x.block); l.push_back("[" + std::to_string(blkId(x.block_id)) + "," + std::to_string(body) + "," + jnums(blobTxIds(x.txs)) + "]"); } }
      else { std::vector<BlockShortInfo> e; r = C().queryBlocksLite(v, (u64)(ts + G), s, cu, f, e); for (auto &x : e) { int body = blobBlkId(x.block); std::vector<int> t; for (auto &p : x.txPrefixes) { int id = txId(p.txHash); Hash a, b; if (id) { getObjectHash(p.txPrefix, a); getObjectHash(*static_cast<TransactionPrefix *>(&tx(id).tx), b); if (!(a == b)) id = -1; } t.push_back(id); } l.push_back("[" + std::to_string(blkId(x.blockId)) + "," + std::to_string(body) + "," + jnums(t) + "]"); } }
      j.t("q", "blocks").b("lite", kind == 2).raw("ids", ids(v)).n("ts", std::max<int64_t>(ts, -G)).b("early", ts + G < c.ftl).b("ret", r).n("start", s).n("cur", cu).n("full", f).raw("res", jarr(l, [](const std::string &x) { return x; })); }
    else if (kind == 3) { std::vector<Hash> known; std::vector<int> kid; int unknown = 0; std::set<int> s; for (auto &x : C().getMemoryPool()) if (rng.p(50)) { known.push_back(x.id); s.insert(txId(x.id)); } for (int q = (int)rng.u(4); q > 0; --q) { int t = 1 + (int)rng.u(T.size()); if (s.insert(t).second) known.push_back(tx(t).hash); } if (rng.p(20)) { known.push_back(randHash()); unknown = 1; }
      Hash tail = rng.p(60) ? C().get_tail_id() : blk(1 + (int)rng.u(B.size())).hash; std::vector<Hash> del; std::vector<int> add; bool r; bool lite = rng.p(50); if (lite) { std::vector<TransactionPrefixInfo> a; r = C().getPoolChangesLite(tail, known, a, del); for (auto &x : a) add.push_back(txId(x.txHash)); } else { std::vector<Transaction> a; r = C().getPoolChanges(tail, known, a, del); add = txIds(a); }
      std::vector<int> d; for (auto &h : del) d.push_back(txId(h)); j.t("q", "pool").n("tail", blkId(tail)).raw("known", jnums(std::vector<int>(s.begin(), s.end()))).n("unknown", unknown).b("ret", r).raw("add", jnums(sorted(add))).raw("del", jnums(sorted(d))); }
    else if (kind == 4) { if (rng.p(50)) { j.t("q", "sparse").n("b", blkId(C().get_tail_id())).raw("res", ids(C().buildSparseChain())); } else { std::vector<int> v; std::set<int> m(mc.begin(), mc.end()); for (auto &b : B) if (C().have_block(b->hash)) { int x = b->id; while (x && !m.count(x) && C().have_block(blk(x).hash)) x = blk(x).par; if (x && m.count(x)) v.push_back(b->id); } int b = v[rng.u(v.size())]; j.t("q", "sparse").n("b", b).raw("res", ids(C().buildSparseChain(blk(b).hash))); } }
    else if (kind == 5) { int64_t a = someTs(), b = rng.p(80) ? a + rng.r(0, 2000) : someTs(); a = std::max(a, -G); b = std::max(b, -G); uint32_t lim = rng.p(40) ? (uint32_t)rng.u(4) : 1000, cnt = 0; std::vector<Block> v; bool r = C().getBlocksByTimestamp((u64)(a + G), (u64)(b + G), lim, v, cnt); std::vector<int> w; for (auto &x : v) w.push_back(blkId(get_block_hash(x))); j.t("q", "time").n("from", a).n("to", b).n("lim", lim).b("ret", r).n("count", cnt).raw("res", jnums(w)); }
    else if (kind == 6) { int64_t a = now - rng.r(-100, 4000), b = a + rng.r(-5, 4000); uint32_t lim = rng.p(40) ? (uint32_t)rng.u(4) : 1000; u64 cnt = 0; std::vector<Transaction> v; bool r = C().getPoolTransactionsByTimestamp((u64)(a + G), (u64)(b + G), lim, v, cnt); j.t("q", "ptime").n("from", a).n("to", b).n("lim", lim).b("ret", r).n("count", cnt).raw("res", jnums(txIds(v))); }
    else if (kind == 7) { NOTIFY_REQUEST_GET_OBJECTS_request a; NOTIFY_RESPONSE_GET_OBJECTS_request r; std::vector<int> bs, ts; for (int q = (int)rng.u(5); q > 0; --q) { int b = 1 + (int)rng.u(B.size()); bs.push_back(b); a.blocks.push_back(blk(b).hash); } for (int q = (int)rng.u(5); q > 0; --q) { int t = 1 + (int)rng.u(T.size()); ts.push_back(t); a.txs.push_back(tx(t).hash); }
      bool ok = C().handle_get_objects(a, r); std::vector<std::string> l; for (auto &x : r.blocks) l.push_back("[" + std::to_string(blobBlkId(x.block)) + "," + jnums(blobTxIds(x.txs)) + "]"); std::vector<int> mb, mt; for (auto &h : r.missed_ids) { int t = txId(h), b = blkId(h); if (b) mb.push_back(b); else mt.push_back(t); }
      j.t("q", "objects").raw("blocks", jnums(bs)).raw("txs", jnums(ts)).b("ret", ok).n("cur", r.current_blockchain_height).raw("ob", jarr(l, [](const std::string &x) { return x; })).raw("ot", jnums(blobTxIds(r.txs))).raw("mb", jnums(mb)).raw("mt", jnums(mt)); }
    else if (kind == 8 || kind == 9) { COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request a; COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response r; std::vector<int> am; for (int q = (int)rng.r(1, 5); q > 0; --q) { int x = 1 + (int)rng.u(amts.size()); am.push_back(x); a.amounts.push_back(amts[x - 1]); } a.outs_count = rng.p(30) ? 1000 : rng.u(6); bool ok = C().get_random_outs_for_amounts(a, r);
      std::vector<std::string> l; for (auto &x : r.outs) { std::vector<std::string> m; for (auto &o : x.outs) { auto it = kidOf.find(std::string((const char *)&o.out_key, 32)); m.push_back("[" + std::to_string(o.global_amount_index) + "," + std::to_string(it == kidOf.end() ? 0 : it->second) + "]"); } l.push_back("[" + std::to_string(aid(x.amount)) + "," + jarr(m, [](const std::string &y) { return y; }) + "]"); }
      j.t("q", "random").raw("amts", jnums(am)).n("n", a.outs_count).b("ret", ok).raw("res", jarr(l, [](const std::string &x) { return x; })); }
    else if (kind == 10) { uint32_t from = (uint32_t)rng.u(mc.size() + 2); size_t n = rng.u(8); std::vector<size_t> v; bool r = C().getBackwardBlocksSizes(from, v, n); j.t("q", "sizes").n("from", from).n("n", n).b("ret", r).raw("res", jnums(v)); }
    else if (kind == 12) { uint32_t h = (uint32_t)rng.u(mc.size() + 3); u64 ts = 0; bool r = C().getBlockTimestamp(h, ts); j.t("q", "row").n("h", h).b("ret", r).n("ts", r ? (int64_t)ts - G : 0); if (h < mc.size()) j.raw("coins", big(C().coinsEmittedAtHeight(h))).raw("d", big(C().difficultyAtHeight(h))); j.n("id", blkId(C().getBlockIdByHeight(h))).b("none", C().getBlockIdByHeight(h) == NULL_HASH); }
    else if (kind == 13) { uint32_t from = (uint32_t)rng.u(mc.size() + 2), n = rng.p(80) ? (uint32_t)rng.u(7) : 1000; std::list<Block> b; std::list<Transaction> t; bool full = rng.p(60), r = full ? C().get_blocks(from, n, b, t) : C().get_blocks(from, n, b); std::vector<int> v; for (auto &x : b) v.push_back(blkId(get_block_hash(x))); j.t("q", "range").n("from", from).n("n", n).b("txs", full).b("ret", r).raw("res", jnums(v)).raw("ot", jnums(txIds(t))); }
    else if (kind == 14) { std::vector<Hash> v, none; std::vector<int> q; for (int k = (int)rng.r(1, 5); k > 0; --k) { int t = 1 + (int)rng.u(T.size()); q.push_back(t); v.push_back(tx(t).hash); } std::list<Hash> miss; std::vector<std::pair<Transaction, std::vector<uint32_t>>> res; bool r = C().getTransactionsWithOutputGlobalIndexes(v, miss, res); std::vector<int> m; for (auto &h : miss) m.push_back(txId(h)); j.t("q", "gtx").raw("txs", jnums(q)).b("ret", r).raw("res", jarr(res, [&](const std::pair<Transaction, std::vector<uint32_t>> &x) { return "[" + std::to_string(txId(getObjectHash(x.first))) + "," + jnums(x.second) + "]"; })).raw("miss", jnums(m)); }
    else if (kind == 15) { int t = rng.p(40) && !C().getMemoryPool().empty() ? txId(C().getMemoryPool().front().id) : 1 + (int)rng.u(T.size()); bool pool = rng.p(50); Transaction x, y; bool r = C().getTransaction(tx(t).hash, x, pool), p = C().getPoolTransaction(tx(t).hash, y); j.t("q", "onetx").n("t", t).b("pool", pool).b("ret", r).n("id", r ? txId(getObjectHash(x)) : 0).b("inpool", p).n("pid", p ? txId(getObjectHash(y)) : 0); }
    else if (kind == 16) { uint32_t h = 0; Hash id; C().get_blockchain_top(h, id); core_stat_info si; bool r = C().get_stat_info(si); j.t("q", "top").n("h", h).n("b", blkId(id)).b("ret", r).n("sh", si.blockchain_height).n("sp", si.tx_pool_size).n("sa", si.alternative_blocks).b("sid", si.top_block_id_str == common::podToHex(id)).raw("pool", jnums(sorted(txIds(C().getPoolTransactions())))); }
    else { int b = 1 + (int)rng.u(B.size()); auto p = C().getBlock(blk(b).hash); j.t("q", "block").n("b", b).b("ret", (bool)p); std::vector<int> v; int bid = 0; if (p) { bid = blkId(get_block_hash(p->getBlock())); for (size_t i = 0; i < p->getTransactionCount(); ++i) v.push_back(txId(getObjectHash(p->getTransaction(i)))); } j.n("id", bid).raw("txs", jnums(sorted(v))); }
    emit(j, false);
  }
