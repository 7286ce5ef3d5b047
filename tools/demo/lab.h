// A node under a virtual clock with cheap proof of work, for demonstrations.
#pragma once
#include "chain_gen.h"
#include "CryptoNoteCore/IBlock.h"
#include <boost/filesystem.hpp>
namespace fs = boost::filesystem;
#define OK(x) do { if (!(x)) { fprintf(stderr, "line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
struct NoProto : i_cryptonote_protocol { void relay_block(NOTIFY_NEW_BLOCK_request &) override {} void relay_transactions(NOTIFY_NEW_TRANSACTIONS_request &) override {} };
struct Lab : Gen {
  std::string dir, data; NoProto proto; platform_system::Dispatcher disp; std::unique_ptr<MessageQueue<BlockchainMessage>> q; std::unique_ptr<core> cp; std::map<uint32_t, std::string> cps; std::set<int> noK; std::set<std::pair<u64, uint32_t>> noM;
  Lab(u64 seed, const std::string &d) : Gen(seed), dir(d), data(d + "/data") { g_random_state = seed * 7919 + 88172645463325252ull; acc.generate(); for (int i = 0; i < 4; ++i) { Hash h; crypto::generate_random_bytes(32, &h); pids.push_back(h); } c.unlockw = 10; c.ftl = 500; for (int i = 0; i < 5; ++i) c.uh[i] = i + 1; }
  core &C() { return *cp; }
  const Led &L(int b = 0) { return *blk(b ? b : tip()).led; }
  int tip() { return blkId(C().get_tail_id()); }
  int size() { return (int)C().get_current_blockchain_height(); }
  void start() {
    cp.reset(new core(cur(), &proto, lg, true, false)); Checkpoints k(lg); for (auto &x : cps) k.add_checkpoint(x.first, x.second); cp->set_checkpoints(std::move(k));
    CoreConfig cc; cc.configFolder = data; cc.testnet = true; MinerConfig mc; mc.miningThreads = 0; OK(cp->init(cc, mc, true)); q.reset(new MessageQueue<BlockchainMessage>(disp)); cp->addMessageQueue(*q);
  }
  void stop() { cp->removeMessageQueue(*q); cp->deinit(); cp.reset(); q.reset(); }
  // the process dies: another node starts on what the files hold now
  void crash() { std::string nd = data + "x"; fs::create_directory(nd); for (fs::directory_iterator it(data), e; it != e; ++it) if (fs::is_regular_file(it->path())) fs::copy_file(it->path(), nd + "/" + it->path().filename().string()); stop(); fs::remove_all(data); data = nd; start(); }
  void restart() { stop(); start(); }
  void init() {
    makeCurrency(); setNow(1000); fs::create_directories(data);
    const Block &g = cur().genesisBlock(); auto t = std::make_unique<TxR>(); t->cb = true; t->tx = g.baseTransaction; t->ins.push_back(InR()); t->ins[0].k = 2; for (auto &o : t->tx.outputs) { OutR r; r.a = o.amount; r.key = ++nkeys; if (o.target.type() == typeid(KeyOutput)) { r.pub = boost::get<KeyOutput>(o.target).key; kidOf[std::string((char *)&r.pub, 32)] = r.key; } t->outs.push_back(r); } int cb = regTx(std::move(t)); noteOuts(cb);
    Block b = g; int id = regBlock(b, 0, false); Led l; blk(id).led = extend(l, blk(id)); start();
  }
  std::string add(int b) { block_verification_context v = boost::value_initialized<block_verification_context>(); C().handle_incoming_block_blob(toBinaryArray(blk(b).b), v, false, false); return v.m_switched_to_alt_chain ? "switch" : v.m_added_to_main_chain ? "main" : v.m_verification_failed ? "refused" : v.m_marked_as_orphaned ? "orphan" : v.m_already_exists ? "known" : "alt"; }
  bool sub(int t, bool kept = false) { tx_verification_context v = boost::value_initialized<tx_verification_context>(); C().handle_incoming_tx(tx(t).blob, v, kept); return v.m_added_to_pool; }
  bool pooled(int t) { Transaction x; return C().getPoolTransaction(tx(t).hash, x); }
  bool mined(int t) { Hash b; uint32_t h; return C().getBlockContainingTx(tx(t).hash, b, h); }
  int on(int par, const std::vector<int> &txs = {}, int flaw = 0) { int64_t ts = blk(par).ts; if (now < ts + 60) setNow(ts + 60); int b = makeBlock(par, txs, flaw); OK(b); return b; }
  int mine(const std::vector<int> &txs = {}) { setNow(now + 60); for (int t : txs) if (!pooled(t)) sub(t, true); int b = on(tip(), txs); std::string r = add(b); if (r != "main") { fprintf(stderr, "mine: %s\n", r.c_str()); exit(1); } return b; }
  void mines(int n) { while (n-- > 0) mine(); }
  // a transaction on top of block b that uses nothing handed out before: kind 0 plain, 1 deposit, 2 withdrawal
  int make(int kind = 0, int flaw = 0, int b = 0) { int t = 0; for (int k = 0; k < 200 && !t; ++k) t = makeTx(L(b), flaw, noK, noM, kind); OK(t); for (auto &i : tx(t).ins) { if (i.k == 0) noK.insert(i.ki); else noM.insert({i.a, i.idx}); } return t; }
  int makeOk(int kind = 0, int b = 0) { for (int k = 0; k < 200; ++k) { int t = makeTx(L(b), 0, noK, noM, kind); std::set<int> u; std::set<std::pair<u64, uint32_t>> m; if (!t || !fits(L(b), tx(t), u, m) || tx(t).tx.unlockTime || tx(t).ttl) continue; for (auto &i : tx(t).ins) { if (i.k == 0) noK.insert(i.ki); else noM.insert({i.a, i.idx}); } return t; } OK(!"no transaction"); return 0; }
  // submits a branch of n blocks on par; the last result
  std::string branch(int par, int n, const std::vector<int> &txs, int *last = nullptr, bool pool = true) { std::string r; for (int k = 0; k < n; ++k) { if (k == 0 && pool) for (int t : txs) if (!pooled(t) && !mined(t)) sub(t, true); par = on(par, k == 0 ? txs : std::vector<int>()); r = add(par); if (last) *last = par; } return r; }
  bool spent(int t, size_t i = 0) { crypto::KeyImage k = boost::get<KeyInput>(tx(t).tx.inputs[i]).keyImage; return C().is_key_image_spent(k); }
};
