// Runs generated histories against cn::core and records what the node answers; TLC (NodeTrace) judges them.
// usage: chain <seed> <dir> <profile> <ops> [focus]
#include "CryptoNoteCore/CryptoNoteStatInfo.h"
#include "chain_gen.h"
#include "CryptoNoteCore/IBlock.h"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <boost/filesystem.hpp>
namespace fs = boost::filesystem;

struct Proto : i_cryptonote_protocol { int rb = 0, rt = 0; void relay_block(NOTIFY_NEW_BLOCK_request &) override { ++rb; } void relay_transactions(NOTIFY_NEW_TRANSACTIONS_request &) override { ++rt; } };
struct Obs : ICoreObserver { int bu = 0, pu = 0; void blockchainUpdated() override { ++bu; } void poolUpdated() override { ++pu; } };

struct Drv : Gen {
  std::string dir, data, profile, focus; int deepRefused = 6, deepSwitch = 10, deepRestart = 30; std::ofstream out; Proto proto; Obs obs; platform_system::Dispatcher disp; std::unique_ptr<MessageQueue<BlockchainMessage>> q; std::unique_ptr<core> cp; int gen = 0, events = 0;
  std::map<uint32_t, std::string> cpset; std::vector<std::pair<int, int>> cpl; // checkpoints given at start: (height, block id or 0)
  int fork = 0, nfile = 0; std::vector<int> withheld; std::vector<int> forkTips; bool abandoned = false; std::set<int> badTx; bool bulk = false;
  Drv(u64 seed, const std::string &d, const std::string &p, const std::string &fo) : Gen(seed), dir(d), profile(p), focus(fo), out(d + "/t.ndjson") { g_random_state = seed * 7919 + 88172645463325252ull; acc.generate(); for (int i = 0; i < 4; ++i) { Hash h; crypto::generate_random_bytes(32, &h); pids.push_back(h); } }
  core &C() { return *cp; }
  std::string big(u64 v) { std::vector<int> l; while (v) { l.push_back((int)(v % 10000)); v /= 10000; } return jnums(l); }
  void start(bool first) {
    cp.reset(new core(cur(), &proto, lg, true, false)); Checkpoints k(lg); for (auto &x : cpset) k.add_checkpoint(x.first, x.second); cp->set_checkpoints(std::move(k));
    cp->addObserver(&obs); CoreConfig cc; cc.configFolder = data; cc.testnet = true; MinerConfig mc; mc.miningThreads = 0;
    if (!cp->init(cc, mc, true)) { fprintf(stderr, "init failed\n"); exit(5); }
    q.reset(new MessageQueue<BlockchainMessage>(disp)); cp->addMessageQueue(*q);
  }
  void stop(bool clean) { cp->removeMessageQueue(*q); cp->removeObserver(&obs); cp->deinit(); cp.reset(); q.reset(); }
  // ---------- recording
  std::vector<std::string> drain() {
    q->push(BlockchainMessage(NewBlockMessage(NULL_HASH))); std::vector<std::string> v;
    for (;;) {
      BlockchainMessage m = q->front(); q->pop(); Hash h;
      if (m.getType() == BlockchainMessage::MessageType::NEW_BLOCK_MESSAGE) { m.getNewBlockHash(h); if (h == NULL_HASH) break; v.push_back("[\"new\",[" + std::to_string(blkId(h)) + "]]"); }
      else if (m.getType() == BlockchainMessage::MessageType::NEW_ALTERNATIVE_BLOCK_MESSAGE) { m.getNewAlternativeBlockHash(h); v.push_back("[\"alt\",[" + std::to_string(blkId(h)) + "]]"); }
      else { std::vector<Hash> hs; m.getChainSwitch(hs); v.push_back("[\"sw\"," + jarr(hs, [&](const Hash &x) { return std::to_string(blkId(x)); }) + "]"); }
    }
    return v;
  }
  std::string obsv() {
    J j; j.n("size", C().get_current_blockchain_height()).n("tail", blkId(C().get_tail_id())).raw("nd", big(C().getNextBlockDifficulty())).raw("coins", big(C().getTotalGeneratedAmount())).n("ntx", C().get_blockchain_total_transactions());
    std::list<Block> al; C().get_alternative_blocks(al); std::vector<int> v; for (auto &b : al) v.push_back(blkId(get_block_hash(b))); std::sort(v.begin(), v.end()); j.raw("alts", jnums(v)).n("altn", C().get_alternative_blocks_count());
    auto p = C().getMemoryPool(); std::vector<std::vector<int64_t>> r; for (auto &x : p) r.push_back({txId(x.id), x.keptByBlock, (int64_t)x.receiveTime - G}); std::sort(r.begin(), r.end());
    j.raw("pool", jarr(r, [](const std::vector<int64_t> &x) { return jnums(x); })).n("pooln", C().get_pool_transactions_count()); return j.str();
  }
  void emit(J &j, bool o = true) {
    j.n("now", now); auto m = drain(); j.raw("msgs", jarr(m, [](const std::string &s) { return s; })).n("bu", obs.bu).n("pu", obs.pu).n("rb", proto.rb).n("rt", proto.rt);
    obs.bu = obs.pu = proto.rb = proto.rt = 0; if (o) j.raw("o", obsv()); out << j.str() << "\n"; out.flush(); ++events;
  }
  // ---------- operations
  bool submitTx(int id, bool kept) {
    tx_verification_context v = boost::value_initialized<tx_verification_context>(); bool r = C().handle_incoming_tx(tx(id).blob, v, kept);
    J j; j.t("op", "tx").n("t", id).b("kept", kept).b("ret", r).b("vf", v.m_verification_failed).b("imp", v.m_verification_impossible).b("added", v.m_added_to_pool).b("rel", v.m_should_be_relayed); emit(j); st.add(v.m_added_to_pool ? "tx_admitted" : v.m_verification_failed ? "tx_refused" : "tx_other"); return v.m_added_to_pool;
  }
  bool inPool(int id) { Transaction t; return C().getPoolTransaction(tx(id).hash, t); }
  void submitBlock(int id, bool raw = false, bool tm = false) {
    if (!raw && rng.p(93)) for (int t : blk(id).txs) if (t && !inPool(t)) { Hash bh; uint32_t hh; if (!C().getBlockContainingTx(tx(t).hash, bh, hh) || rng.p(20)) submitTx(t, true); }
    block_verification_context v = boost::value_initialized<block_verification_context>(); BinaryArray ba = toBinaryArray(blk(id).b); bool relay = rng.p(60); bool r = C().handle_incoming_block_blob(ba, v, false, relay);
    J j; j.t("op", "blk").n("b", id).b("tm", tm).b("rly", relay).b("ret", r).b("vf", v.m_verification_failed).b("amc", v.m_added_to_main_chain).b("sw", v.m_switched_to_alt_chain).b("orp", v.m_marked_as_orphaned).b("ex", v.m_already_exists); emit(j);
    st.add(v.m_switched_to_alt_chain ? "switches" : v.m_added_to_main_chain ? "blocks_main" : v.m_verification_failed ? "blocks_refused" : v.m_marked_as_orphaned ? "blocks_orphan" : v.m_already_exists ? "blocks_known" : "blocks_alt");
    if (v.m_switched_to_alt_chain) forkTips.push_back(id);
    if (!prel && v.m_verification_failed && rng.p(deepRefused)) opDeep("refused"); else if (!prel && v.m_switched_to_alt_chain && rng.p(deepSwitch)) opDeep("switch");
  }
  struct Whole : IBlock { Block b; std::vector<Transaction> t; const Block &getBlock() const override { return b; } size_t getTransactionCount() const override { return t.size(); } const Transaction &getTransaction(size_t i) const override { return t[i]; } };
  void submitChain(const std::vector<int> &bs) { // blocks with their transactions in one call
    std::vector<Whole> w; for (int b : bs) { if (blk(b).b.majorVersion > 8) return; Whole x; x.b = blk(b).b; for (int t : blk(b).txs) { if (!t) return; x.t.push_back(tx(t).tx); } w.push_back(x); }
    std::vector<const IBlock *> v; for (auto &x : w) v.push_back(&x); size_t r = C().addChain(v); J j; j.t("op", "chain").raw("bs", jnums(bs)).n("ret", r); emit(j); st.add("chains"); st.add("chain_blocks", r);
  }
  void foundBlock(int id) { Block b = blk(id).b; bool r = C().handle_block_found(b); J j; j.t("op", "found").n("b", id).b("ret", r); emit(j); st.add("found"); }
  void opJunk() { // what cannot be read
    bool isTx = rng.p(50); BinaryArray ba; int id = 0; if (isTx) { id = 1 + (int)rng.u(T.size()); ba = tx(id).blob; } else { id = 1 + (int)rng.u(B.size()); if (blk(id).b.majorVersion > 8) return; ba = toBinaryArray(blk(id).b); }
    switch (rng.u(4)) { case 0: ba.resize(rng.u(ba.size())); break; case 1: ba.pop_back(); break; case 2: for (int q = (int)rng.r(1, 3); q > 0; --q) ba.push_back((uint8_t)rng.u(256)); break; default: { size_t n = rng.u(60); ba.clear(); for (size_t q = 0; q < n; ++q) ba.push_back((uint8_t)(0x80 | rng.u(128))); } }
    J j; j.t("op", "junk").b("tx", isTx); if (isTx) { tx_verification_context v = boost::value_initialized<tx_verification_context>(); bool r = C().handle_incoming_tx(ba, v, rng.p(30)); j.b("ret", r).b("vf", v.m_verification_failed).b("added", v.m_added_to_pool); }
    else { block_verification_context v = boost::value_initialized<block_verification_context>(); bool r = C().handle_incoming_block_blob(ba, v, rng.p(20), true); j.b("ret", r).b("vf", v.m_verification_failed).b("added", v.m_added_to_main_chain || v.m_switched_to_alt_chain); } emit(j); st.add("junk");
  }
  int tip() { int t = blkId(C().get_tail_id()); return t ? t : 1; }
  std::vector<int> mainChain() { std::vector<int> v; uint32_t n = C().get_current_blockchain_height(); for (uint32_t i = 0; i < n; ++i) { int x = blkId(C().getBlockIdByHeight(i)); v.push_back(x ? x : 1); } return v; }
  void poolUse(std::set<int> &a, std::set<std::pair<u64, uint32_t>> &m) { for (auto &x : C().getMemoryPool()) { int id = txId(x.id); if (id) for (auto &i : tx(id).ins) { if (i.k == 0) a.insert(i.ki); else if (i.k == 1) m.insert({i.a, i.idx}); } } }
  // chooses transactions for a block on top of par
  std::vector<int> pickTxs(int par, const std::vector<int> &must, int max) {
    const Led &L = *blk(par).led; std::set<int> u; std::set<std::pair<u64, uint32_t>> m; std::vector<int> r; size_t sz = 200, lim = sizeProfile ? (bulk ? std::min(2 * std::max(c.zone, medianSz(std::vector<size_t>(L.sizes.end() - std::min<size_t>(L.sizes.size(), c.rbw), L.sizes.end()))), c.maxinit) : rng.p(70) ? c.zone : 2 * c.zone) : 1000000;
    auto take = [&](int id) { if ((int)r.size() < max && std::find(r.begin(), r.end(), id) == r.end() && sz + tx(id).blob.size() < lim && fits(L, tx(id), u, m)) { r.push_back(id); sz += tx(id).blob.size(); } };
    for (int id : must) take(id); std::vector<int> pl; for (auto &x : C().getMemoryPool()) { int id = txId(x.id); if (id) pl.push_back(id); } for (size_t i = pl.size(); i > 1; --i) std::swap(pl[i - 1], pl[rng.u(i)]); if (rng.p(85)) for (int id : pl) if (rng.p(80)) take(id);
    return r;
  }
  std::vector<int> popped(int par) { // main transactions above the fork point of par not yet on the branch
    std::set<int> anc; for (int x = par; x; x = blk(x).par) anc.insert(x); std::vector<int> v; for (int b : mainChain()) if (!anc.count(b)) for (int t : blk(b).txs) if (t && !blk(par).led->txh.count(t)) v.push_back(t); return v;
  }
  bool nextStart() { return true; }
  int validBlock(int par, bool carry) { std::vector<int> must; if (carry) must = popped(par); return makeBlock(par, pickTxs(par, must, sizeProfile ? 12 : 6), 0); }
  void tick() { unsigned k = rng.u(100); int64_t d = k < 60 ? rng.r(0, 90) : k < 95 ? rng.r(60, 240) : rng.r(200, 2000); setNow(now + d); int64_t ts = blk(tip()).ts; if (ts > now + c.ftl / 2) setNow(ts + rng.r(0, 60)); }
  void opTx() {
    const Led &L = *blk(tip()).led; std::set<int> a; std::set<std::pair<u64, uint32_t>> m; if (!rng.p(12)) poolUse(a, m);
    int flaw = 0; if (rng.p(22)) { static const int fl[] = {1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 23, 24, 25, 26, 27}; flaw = fl[rng.u(sizeof fl / sizeof *fl)]; }
    bool zone = inZone(L.h); if (zone && (flaw == 5 || flaw == 24 || flaw >= 26)) flaw = 0;
    const Led *LL = &L; if (rng.p(6) && L.h > 4) { int p = tip(); for (int k = 0; k < 2; ++k) p = blk(p).par; LL = blk(p).led.get(); }
    int id = makeTx(*LL, flaw, a, m); if (!id) return; if (flaw == 24) { bool all = true; (void)all; }
    submitTx(id, rng.p(6)); if (rng.p(6)) submitTx(id, rng.p(30));
  }
  bool inZone(int h) { return !cpset.empty() && h <= (int)cpset.rbegin()->first; }
  void opOldTx() { if (T.size() < 3) return; int id = 1 + (int)rng.u(T.size()); submitTx(id, rng.p(25)); }
  int invalidBlock(int par) {
    static const int fl[] = {1, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15, 30, 30, 31, 32, 33, 34, 35};
    int f = fl[rng.u(sizeof fl / sizeof *fl)]; const Led &L = *blk(par).led; std::vector<int> txs = rng.p(40) ? pickTxs(par, {}, 3) : std::vector<int>(); std::set<int> a; std::set<std::pair<u64, uint32_t>> m;
    if (f < 30) return makeBlock(par, txs, f);
    if (f == 30) { static const int tf[] = {1, 2, 2, 3, 4, 5, 6, 7, 10, 11, 12, 12, 13, 14, 16, 17, 18, 23, 23, 24, 8, 22, 26, 26, 27}; int tfl = tf[rng.u(sizeof tf / sizeof *tf)]; if (inZone(L.h) && (tfl == 5 || tfl == 24 || tfl >= 26)) tfl = 1; int t = makeTx(L, tfl, a, m); if (!t) return 0; txs.push_back(t); return makeBlock(par, txs, 0); }
    if (f == 31 || f == 35) { int t = makeTx(L, 0, a, m, f == 35 ? 2 : -1); if (!t) return 0; /* a second transaction using one of the same inputs */
      auto t2 = std::make_unique<TxR>(); t2->tx.version = tx(t).tx.version; t2->ins.push_back(tx(t).ins[0]); t2->tx.unlockTime = 0; u64 s = sumIn(*t2, L.h); splitOuts(*t2, s > 1000 ? s - rng.u(1000) : s); extraOf(*t2, false); int u = finish(std::move(t2), 0); txs = {t, u}; return makeBlock(par, txs, 0); }
    if (f == 32) { int t = makeTx(L, 0, a, m, 0); if (!t) return 0; Led L2 = L; L2.h++; TxR &x = tx(t); for (size_t p = 0; p < x.outs.size(); ++p) (x.outs[p].k == 0 ? L2.outs : L2.mouts)[x.outs[p].a].push_back({t, (int)p, L.h});
      // coinbase outputs come first in the block, so give the amount a list of its own
      for (size_t p = 0; p < x.outs.size(); ++p) if (x.outs[p].k == 0 && x.tx.unlockTime == 0 && x.outs[p].a % 10 && L.outs.find(x.outs[p].a) == L.outs.end()) { Coin k{x.outs[p].a, 0, {t, (int)p, L.h}}; auto t2 = std::make_unique<TxR>(); t2->tx.version = 1; t2->tx.unlockTime = 0; t2->ins.push_back(keyIn(L2, k, 0)); splitOuts(*t2, k.a); extraOf(*t2, false); int u = finish(std::move(t2), 0); return makeBlock(par, {t, u}, 0); }
      return 0; }
    return makeBlock(par, txs, f);
  }
  void fresh(int par) { if (!blk(par).led) return; }
  void opMine() { int b = validBlock(tip(), true); if (!b) return; unsigned q = rng.u(100); if (q < 6) submitChain({b}); else if (q < 12) foundBlock(b); else submitBlock(b); }
  void opBad() { int par = tip(); if (rng.p(35)) { auto mc = mainChain(); par = mc[mc.size() - 1 - rng.u(std::min<size_t>(mc.size() - 1, 4))]; if (par == 1) par = tip(); } int b = invalidBlock(par); if (!b) return; submitBlock(b); if (rng.p(20)) { int k = makeBlock(b, {}, 0); if (k) submitBlock(k); } }
  // a fork of some length from some depth, sometimes shuffled, sometimes with a bad block inside, sometimes lacking a confirmed transaction
  void opFork() {
    auto mc = mainChain(); int n = (int)mc.size(); if (n < 4) return; int depth = rng.p(80) ? (int)rng.r(1, 4) : (int)rng.r(1, 12); if (depth > n - 2) depth = n - 2; int par = mc[n - 1 - depth]; if (rng.p(25) && !forkTips.empty()) par = forkTips[rng.u(forkTips.size())]; if (!blk(par).led || blk(par).h < 1) return;
    int len = rng.p(60) ? depth + (int)rng.r(0, 2) : (int)rng.r(1, depth + 2); bool carry = rng.p(85); std::vector<int> bs; int badAt = rng.p(18) ? (int)rng.u(len + 1) : -1;
    for (int k = 0; k < len; ++k) {
      int b; if (k == badAt) { b = invalidBlock(par); if (!b) b = validBlock(par, carry); } else b = (carry || !rng.p(50)) ? validBlock(par, carry) : makeBlock(par, {}, 0);
      if (!b) break; bs.push_back(b); if (!blk(b).led) break; par = b;
      if (rng.p(10)) { int s = makeBlock(blk(b).par, {}, 0); if (s) bs.push_back(s); }
    }
    if (bs.empty()) return; forkTips.push_back(bs.back()); unsigned mode = rng.u(100);
    if (mode < 12) for (size_t i = bs.size(); i > 1; --i) std::swap(bs[i - 1], bs[rng.u(i)]); else if (mode < 20) std::swap(bs[0], bs.back());
    if (rng.p(12)) submitChain(bs);
    else for (int b : bs) { submitBlock(b); if (rng.p(5)) opTx(); if (rng.p(4)) submitBlock(b); }
    for (int b : bs) if (blkState(b) == 0 && rng.p(50)) submitBlock(b);
    st.add("forks");
  }
  // a side chain longer than the retarget window: it never wins, because it lacks a confirmed transaction
  void opLongFork() {
    auto mc = mainChain(); int n = (int)mc.size(), par = 0; for (int d = 1; d <= 6 && d < n - 1; ++d) if (!blk(mc[n - d]).txs.empty()) { par = mc[n - d - 1]; break; } if (!par || !blk(par).led) return;
    int v = version(blk(par).h + 1), cnt = v >= 4 ? 61 : c.win + c.lag; if (cnt > 20 && rng.p(75)) return; cnt += (int)rng.r(0, 4);
    for (int k = 0; k < cnt; ++k) { if (blk(par).led->ts.back() > now + c.ftl - 400) setNow(now + 200); int b = rng.p(4) ? invalidBlock(par) : makeBlock(par, {}, 0); if (!b) return; submitBlock(b, true); if (blkState(b) && blk(b).led) par = b; } st.add("longforks");
  }
  // several large blocks in a row, so that the size allowance moves
  void opBulk() {
    if (!sizeProfile) return opMine(); int k = c.rbw / 2 + (int)rng.r(1, 3); bulk = true;
    for (; k > 0; --k) { size_t have = 0; for (int q = 0; q < 6 && have < c.zone + 800; ++q) { std::set<int> a; std::set<std::pair<u64, uint32_t>> m; poolUse(a, m); bulkPad = (size_t)rng.r(300, 1400); int id = makeTx(*blk(tip()).led, 0, a, m, 0); bulkPad = 0; if (!id) break; if (submitTx(id, false)) have += tx(id).blob.size(); }
      setNow(now + rng.r(40, 200)); int64_t ts = blk(tip()).ts; if (ts > now + c.ftl / 2) setNow(ts); opMine(); if (rng.p(15)) opTemplate(); } bulk = false; st.add("bulks"); }
  // transactions with one input in common wait, some of them kept for a block, and grow old at different times
  void opAged() {
    const Led &L = *blk(tip()).led; std::set<int> a; std::set<std::pair<u64, uint32_t>> m; poolUse(a, m); int first = makeTx(L, 0, a, m, rng.p(65) ? 2 : 0); if (!first || tx(first).ins.empty()) return;
    auto rival = [&]() { auto t = std::make_unique<TxR>(); t->tx.version = tx(first).ins[0].k == 1 ? 2 : 1; t->tx.unlockTime = 0; t->ins.push_back(tx(first).ins[0]); u64 s = sumIn(*t, L.h); u64 f = 1000 + rng.u(500); splitOuts(*t, s > f ? s - f : s); extraOf(*t, rng.p(20)); return finish(std::move(t), 0); };
    std::vector<int> w{first, rival(), rival()}; if (rng.p(40)) w.push_back(rival()); for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[rng.u(i)]);
    bool k1 = rng.p(70); submitTx(w[0], k1); int64_t t1 = now; int64_t life = k1 ? c.altlive : c.live; setNow(now + (rng.p(75) ? life - rng.r(100, c.live - 100) : rng.r(10, life))); if (rng.p(20)) opMine(); submitTx(w[1], k1 ? rng.p(25) : true); if (rng.p(30)) submitTx(w[2], false);
    setNow(std::max(now, t1 + life + rng.r(-1, 2))); if (rng.p(90)) opIdle(); for (size_t i = w.size(); i-- > 0;) if (i >= 2 || rng.p(20)) submitTx(w[i], rng.p(10)); if (rng.p(15)) opTemplate(); if (rng.p(60)) opMine(); if (rng.p(30)) { setNow(now + rng.r(0, c.altlive)); opIdle(); for (int t : w) if (rng.p(40)) submitTx(t, false); } st.add("aged");
  }
  int blkState(int b) { return C().have_block(blk(b).hash) ? 1 : 0; }
  void opOldBlock() { int b = 2 + (int)rng.u(B.size() - 1); if (b <= (int)B.size() && !blk(b).mal) submitBlock(b); }
  void opExtend() { // extend a random known side block
    std::vector<int> v; std::list<Block> al; C().get_alternative_blocks(al); for (auto &x : al) { int id = blkId(get_block_hash(x)); if (id && blk(id).led) v.push_back(id); } if (v.empty()) return opFork(); std::sort(v.begin(), v.end()); int par = v[rng.u(v.size())]; int n = (int)rng.r(1, 3);
    for (int k = 0; k < n; ++k) { int b = validBlock(par, rng.p(85)); if (!b) return; submitBlock(b); par = b; }
  }
  void opTemplate() {
    Block b; difficulty_type d; uint32_t h; BinaryArray en; bool r = C().get_block_template(b, acc.getAccountKeys().address, d, h, en); J j; j.t("op", "tmpl").b("ret", r).n("h", h).raw("d", big(d)); int id = 0;
    if (r) {
      // coinbase of the template
      auto t = std::make_unique<TxR>(); t->cb = true; t->tx = b.baseTransaction; t->cbh = h; InR ir; ir.k = 2; t->ins.push_back(ir); crypto::PublicKey tp = getTransactionPublicKeyFromExtra(t->tx.extra); KeyPair e; crypto::KeyImage ki;
      if (t->tx.inputs.size() != 1 || t->tx.inputs[0].type() != typeid(BaseInput)) t->ins.clear(); else t->cbh = boost::get<BaseInput>(t->tx.inputs[0]).blockIndex;
      for (size_t i = 0; i < t->tx.outputs.size(); ++i) { OutR o; o.a = t->tx.outputs[i].amount; o.key = ++nkeys; if (t->tx.outputs[i].target.type() == typeid(KeyOutput)) { o.pub = boost::get<KeyOutput>(t->tx.outputs[i].target).key; if (generate_key_image_helper(acc.getAccountKeys(), tp, i, e, ki) && e.publicKey == o.pub) { o.have = true; o.sec = e.secretKey; } kidOf[std::string((char *)&o.pub, 32)] = o.key; } t->outs.push_back(o); }
      int cb = regTx(std::move(t)); noteOuts(cb); for (int k = 0; k < 60000 && !powOk(powHash(b), d ? d : 1); ++k) b.nonce++;
      int par = blkId(b.previousBlockHash); id = regBlock(b, par, false); BlkR &br = blk(id); bool known = par && blk(par).led; for (int x : br.txs) if (!x) known = false; if (known && !br.led) br.led = extend(*blk(par).led, br);
      if (!known) { br.mal = true; }
    }
    j.n("b", id); emit(j); st.add("templates"); if (id && !blk(id).mal) { if (rng.p(75)) submitBlock(id, true, true); else withheld.push_back(id); }
  }
  void opWithheld() { if (withheld.empty()) return; int id = withheld[rng.u(withheld.size())]; submitBlock(id); }
  void opIdle() { C().on_idle(); J j; j.t("op", "idle"); emit(j); }
  void opRollback() { int n = C().get_current_blockchain_height(); int to = rng.p(15) ? n + (int)rng.r(-1, 1) : std::max(0, n - (int)rng.r(1, 6)); if (rng.p(3)) to = 0; if (n < 10 && to < n - 2) to = n - 2; bool r = C().rollback_chain_to(to); J j; j.t("op", "roll").n("to", to).b("ret", r); emit(j); st.add("rollbacks"); if (rng.p(deepSwitch)) opDeep("rollback"); }
  // restart: clean or crash; cache states
  void opRestart(int mode = -1) {
    static const char *names[] = {"clean", "crash"}; bool crash = mode >= 0 ? mode : rng.p(55); std::string cache = "keep"; bool stored = false;
    if (rng.p(30)) { C().saveBlockchain(); stored = true; }
    std::string old = data; std::string nd = dir + "/data" + std::to_string(++nfile);
    auto copy = [&]() { fs::create_directory(nd); for (fs::directory_iterator it(old), e; it != e; ++it) if (fs::is_regular_file(it->path())) fs::copy_file(it->path(), nd + "/" + it->path().filename().string()); };
    if (crash) copy(); stop(!crash); if (!crash) copy(); if (!snap.empty() && rng.p(20)) { /* stale cache of an earlier moment */ for (auto &f : {std::string("/testnet_blockscache.dat"), std::string("/testnet_blockscache.dat.bkp")}) if (fs::exists(snap + f) && rng.p(70)) { fs::remove(nd + f); fs::copy_file(snap + f, nd + f); cache = "stale"; } }
    std::vector<std::string> files; for (fs::directory_iterator it(nd), e; it != e; ++it) files.push_back(it->path().filename().string()); std::sort(files.begin(), files.end());
    for (auto &f : files) { std::string p = nd + "/" + f; bool isCache = f.find("blockscache") != std::string::npos; bool isInd = f.find("blockchainindices") != std::string::npos;
      if ((isCache || isInd) && rng.p(14)) { fs::remove(p); cache = "missing"; } else if ((isCache || isInd) && rng.p(10)) { uintmax_t n = fs::file_size(p); if (n) fs::resize_file(p, rng.u(n)); cache = "truncated"; } }
    if (crash || rng.p(20)) { std::string s = dir + "/snap"; fs::remove_all(s); fs::create_directory(s); for (auto &f : files) if (f.find("blockscache") != std::string::npos && fs::exists(nd + "/" + f)) fs::copy_file(nd + "/" + f, s + "/" + f); snap = s; }
    fs::remove_all(old); data = nd; if (rng.p(40)) setNow(now + rng.r(0, 120));
    if (profile == "checkpoint" && rng.p(70)) newCheckpoints();
    start(false); J j; j.t("op", "restart").b("crash", crash).t("cache", cache).raw("cks", jarr(cpl, [](const std::pair<int, int> &x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; })); emit(j); st.add(crash ? "restarts_crash" : "restarts_clean"); st.add("cache_" + cache); if (rng.p(deepRestart)) opDeep("restart");
  }
  std::string snap;
  void newCheckpoints() {
    cpset.clear(); cpl.clear(); auto mc = mainC; int n = (int)rng.r(0, 3); for (int k = 0; k < n; ++k) { if (mc.size() < 3) break; int h = 1 + (int)rng.u(mc.size() - 1); if (rng.p(60)) h = std::max<int>(1, (int)mc.size() - 1 - (int)rng.u(8)); int b = mc[h]; std::vector<int> same; for (auto &x : B) if (x->h == h && x->id != b && !x->mal) same.push_back(x->id); if (!same.empty() && rng.p(15)) b = same[rng.u(same.size())];
      if (cpset.count(h)) continue; cpset[h] = common::podToHex(blk(b).hash); cpl.push_back({h, b}); }
    std::sort(cpl.begin(), cpl.end());
  }
  std::vector<int> mainC;
  void opDns() { // records appear in DNS; loaded when alternative blocks arrive
    auto mc = mainChain(); g_dns_records.clear(); std::vector<std::pair<int, int>> l; int n = (int)rng.r(0, 2); for (int k = 0; k < n && mc.size() > 4; ++k) { int h = (int)mc.size() - 1 - (int)rng.u(std::min<size_t>(mc.size() - 2, 14)); int b = mc[h]; l.push_back({h, b}); g_dns_records.push_back(std::to_string(h) + ":" + common::podToHex(blk(b).hash)); }
    J j; j.t("op", "dns").raw("rec", jarr(l, [](const std::pair<int, int> &x) { return "[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]"; })); emit(j, false);
  }
#include "chain_query.h"
  // ---------- definitions
  void writeDefs() {
    std::ofstream f(dir + "/t.defs.json"); J cf; auto H = [](u64 v) { return (int64_t)std::min<u64>(v, 1000000000); };
    cf.n("win", c.win).n("cut", c.cut).n("lag", c.lag).b("zawy2", c.zawy2).n("zawyidx", c.zawyIdx).n("tcw", c.tcw).n("ftl", c.ftl).n("unlockw", c.unlockw).n("rbw", c.rbw).n("zone", c.zone).n("reserved", c.reserved).n("maxinit", c.maxinit).n("num", c.num).n("den", c.den)
      .raw("dmin", big(c.dmin)).n("minTerm", c.minTerm).n("minTerm3", c.minTerm3).n("maxTerm3", c.maxTerm3).n("maxTerm1", c.maxTerm1).n("maxTerm", c.maxTerm).n("dh3", c.dh3).n("dh4", c.dh4).raw("uh", jarr(std::vector<u64>(c.uh, c.uh + 5), [&](u64 v) { return std::to_string(H(v)); }))
      .n("live", c.live).n("altlive", c.altlive).n("periods", c.periods).n("nkeys", nkeys).n("npids", pids.size()).n("guess", 10).n("maxtx", maxTx());
    f << "{\"cfg\":" << cf.str() << ",\n\"amts\":" << jarr(amts, [&](u64 a) { return big(a); }) << ",\n\"txs\":" << jarr(T, [&](const std::unique_ptr<TxR> &p) {
      TxR &t = *p; J j; j.n("v", t.tx.version).b("cb", t.cb).n("cbh", t.cbh).n("nsig", t.nsig).t("ulk", t.tx.unlockTime < 500000000 ? "h" : "t").n("uln", t.tx.unlockTime < 500000000 ? (int64_t)t.tx.unlockTime : (int64_t)(t.tx.unlockTime - G)).n("sz", t.blob.size()).n("ttl", t.ttl).n("pid", t.pid).b("fus", t.fus);
      j.raw("ins", jarr(t.ins, [&](const InR &i) { J k; k.n("k", i.k); if (i.k == 0) k.n("a", aid(i.a)).raw("off", jnums(i.off)).n("ki", i.ki).raw("want", jnums(i.want)).b("ok", i.ok); if (i.k == 1) k.n("a", aid(i.a)).n("idx", i.idx).n("term", i.term).n("ns", i.ns).n("by", i.by).b("ok", i.ok).raw("int3", big(i.int3)); return k.str(); }));
      j.raw("outs", jarr(t.outs, [&](const OutR &o) { J k; k.n("k", o.k).n("a", aid(o.a)).n("key", o.key).b("ok", o.ok); if (o.k == 1) k.n("term", o.term).n("nk", o.nk).n("req", o.req); return k.str(); })); return j.str() + "\n"; })
      << ",\n\"blocks\":" << jarr(B, [&](const std::unique_ptr<BlkR> &p) { BlkR &b = *p; J j; j.n("par", b.par).n("h", b.claimed).n("v", b.b.majorVersion).n("ts", b.ts).raw("dmax", big(b.dmax)).n("cb", b.cb).raw("txs", jnums(b.txs)); return j.str() + "\n"; }) << "}\n";
  }
  int maxTx() { size_t r = 0; (void)r; return (int)(c.zone > c.reserved ? 1000000 : 0); }
  void run(int ops);
};

void Drv::run(int ops) {
  // profile
  c.tcw = (int)rng.r(4, 8); c.unlockw = 10; c.ftl = (int)rng.r(300, 700); u64 HUGE_H = 1000000000;
  auto uh = [&](u64 a, u64 b, u64 d, u64 e, u64 f) { c.uh[0] = a; c.uh[1] = b; c.uh[2] = d; c.uh[3] = e; c.uh[4] = f; };
  c.dh4 = (uint32_t)rng.r(0, 1); if (rng.p(25)) c.dh3 = 30; if (rng.p(20)) c.dh4 = 40; int prelude = (int)rng.r(14, 18);
  if (profile == "early") { uh(12, HUGE_H, HUGE_H, HUGE_H, HUGE_H); c.zawy2 = rng.p(50); }
  else if (profile == "zawy") { uh(14, HUGE_H, HUGE_H, HUGE_H, HUGE_H); c.zawy2 = false; c.zawyIdx = rng.p(50) ? 20 : 5; }
  else if (profile == "lwma3") { uh(1, 2, 3, HUGE_H, HUGE_H); if (rng.p(50)) c.uh[3] = 12; }
  else if (profile == "lwma1") uh(1, 2, 3, 4, 5);
  else if (profile == "long") { uh(1, 2, 3, 4, 5); prelude = 72; }
  else if (profile == "size") { uh(1, 2, 3, 4, 5); sizeProfile = true; c.zone = rng.r(2500, 4000); c.reserved = 600; c.maxinit = (size_t)rng.r(4000, 6000); c.num = rng.r(0, 100) + 1; c.den = rng.r(1, 4); }
  else uh(4, 8, 14, 22, 40); // mixed, checkpoint, restart
  if (profile == "checkpoint") { if (rng.p(60)) uh(1, 2, 3, 4, 5); }
  fastStart = c.uh[2] > 3; makeCurrency(); setNow(1000); data = dir + "/data0"; fs::create_directory(data);
  // genesis
  { const Block &g = cur().genesisBlock(); auto t = std::make_unique<TxR>(); t->cb = true; t->tx = g.baseTransaction; t->ins.push_back(InR()); t->ins[0].k = 2; t->nsig = (int)g.baseTransaction.signatures.size(); for (auto &o : t->tx.outputs) { OutR r; r.a = o.amount; r.key = ++nkeys; if (o.target.type() == typeid(KeyOutput)) { r.pub = boost::get<KeyOutput>(o.target).key; kidOf[std::string((char *)&r.pub, 32)] = r.key; } t->outs.push_back(r); } int cb = regTx(std::move(t)); noteOuts(cb);
    Block b = g; int id = regBlock(b, 0, false); Led L; blk(id).led = extend(L, blk(id)); }
  start(true); { J j; j.t("op", "init"); emit(j); }
  prel = true;
  for (int k = 0; k < prelude; ++k) { setNow(now + (fastStart ? rng.r(30, 80) : rng.r(60, 180))); int b = makeBlock(tip(), pickTxs(tip(), {}, 3), 0); if (!b) break; submitBlock(b); if (k > 6 && rng.p(60)) opTx(); if (k > 6 && rng.p(30)) opTx(); }
  prel = false;
  std::map<std::string, std::vector<int>> W = { // mine tx bad fork oldblk extend tmpl idle roll restart oldtx withheld dns query deep junk longfork bulk aged
    {"", {24, 24, 7, 8, 3, 7, 6, 4, 2, 2, 4, 2, 0, 5, 2, 1, 0, 0, 1}}, {"size", {24, 22, 6, 8, 3, 7, 7, 4, 2, 2, 4, 2, 0, 5, 2, 1, 0, 4, 1}}, {"early", {24, 24, 7, 8, 3, 7, 6, 4, 2, 2, 4, 2, 0, 5, 2, 1, 1, 0, 1}}, {"zawy", {24, 24, 7, 8, 3, 7, 6, 4, 2, 2, 4, 2, 0, 5, 2, 1, 1, 0, 1}}, {"long", {24, 24, 7, 8, 3, 7, 6, 4, 2, 2, 4, 2, 0, 5, 2, 1, 2, 0, 1}},
    {"checkpoint", {22, 12, 4, 14, 3, 10, 5, 2, 3, 12, 2, 2, 5, 3, 3, 1, 0, 0, 1}}, {"restart", {22, 22, 4, 8, 2, 6, 4, 5, 4, 14, 3, 2, 0, 3, 3, 1, 0, 0, 1}}};
  auto w = W.count(profile) ? W[profile] : W[""];
  if (focus == "C03") { deepRefused = 35; w[2] += 10; w[3] += 4; } if (focus == "C02") { deepSwitch = 50; w[3] += 6; w[8] += 3; } if (focus == "C04" || focus == "C14") { w[3] += 8; w[5] += 4; }
  if (focus == "C10") { deepRestart = 60; w[9] += 8; } if (focus == "C12") { w[6] += 14; w[1] += 10; } if (focus == "C13") { w[13] += 25; w[3] += 3; w[8] += 2; } if (focus == "C11") { w[1] += 20; w[10] += 6; w[7] += 4; }
  if (focus == "C15") w[16] += w[16]; if (focus == "C05" || focus == "C12") w[17] += w[17] / 2; if (focus == "C03" || focus == "C11") w[15] += 2; if (focus == "C11") w[18] += 4; if (focus == "C01") w[18] += 1;
  if (focus == "C01") { w[2] += 6; w[1] += 6; } if (focus == "C15" || focus == "C09") { w[2] += 6; w[3] += 4; } if (focus == "C06") { w[14] += 4; w[1] += 6; } int tot = 0; for (int x : w) tot += x;
  for (int k = 0; k < ops; ++k) {
    tick(); mainC = mainChain(); int x = (int)rng.u(tot), a = 0; while (x >= w[a]) x -= w[a++];
    switch (a) { case 0: opMine(); break; case 1: opTx(); break; case 2: opBad(); break; case 3: opFork(); break; case 4: opOldBlock(); break; case 5: opExtend(); break; case 6: opTemplate(); break; case 7: opIdle(); break;
      case 8: opRollback(); break; case 9: opRestart(); break; case 10: opOldTx(); break; case 11: opWithheld(); break; case 12: opDns(); break; case 13: opQuery(); break; case 14: opDeep(); break; case 15: opJunk(); break; case 16: opLongFork(); break; case 17: opBulk(); break; case 18: opAged(); break; }
  }
  opDeep(); opQuery(); opRestart(0); opDeep("restart"); stop(true); writeDefs(); st.add("events", events); st.write(dir + "/stats.json"); fs::remove_all(data); fs::remove_all(dir + "/snap");
}

int main(int argc, char **argv) {
  if (argc < 5) return 2; u64 seed = strtoull(argv[1], 0, 10);
  Drv d(seed, argv[2], argv[3], argc > 5 ? argv[5] : ""); d.run(atoi(argv[4])); return 0;
}
