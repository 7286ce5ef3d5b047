// Drives a CryptoNoteProtocolHandler between a stand-in core and stand-in peers.  usage: proto <seed> <dir> <steps>
#include "jw.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolHandler.h"
#include "CryptoNoteProtocol/ICryptoNoteProtocolObserver.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/IBlock.h"
#include "CryptoNoteCore/ICore.h"
#include "CryptoNoteCore/VerificationContext.h"
#include "Logging/LoggerGroup.h"
#include "P2p/LevinProtocol.h"
#include <System/Context.h>
#include <System/Dispatcher.h>
#include <algorithm>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <unistd.h>
using namespace cn; using crypto::Hash; using platform_system::Dispatcher;
typedef std::vector<int> Ids; typedef std::string Blob;
typedef CryptoNoteConnectionContext Ctx;
static Blob str(const BinaryArray &b) { return Blob(b.begin(), b.end()); }
static BinaryArray bin(const Blob &s) { return BinaryArray(s.begin(), s.end()); }
struct Hasher { size_t operator()(const Hash &h) const { size_t x; memcpy(&x, &h, sizeof x); return x; } };
struct BlockDef { int p, h; Ids txs; bool ok; Hash id; Block b; };
struct TxDef { bool ok; Hash id; Transaction t; };
struct World {
  std::vector<BlockDef> blk; std::vector<TxDef> tx{1}; std::unordered_map<Hash, int, Hasher> bn, tn;
  World() { block(-1, {}, true); }
  int trans(bool ok) { int n = tx.size(); Transaction t; t.version = 1; t.unlockTime = 0; t.inputs.push_back(BaseInput{(uint32_t)n}); for (int i = 0; i < 4; ++i) t.extra.push_back(n >> 8 * i); TxDef d{ok, getObjectHash(t), t}; tx.push_back(d); tn[d.id] = n; return n; }
  int block(int p, Ids txs, bool ok) {
    int n = blk.size(); Block b; b.majorVersion = 1; b.minorVersion = 0; b.nonce = n; b.timestamp = n; b.previousBlockHash = p < 0 ? Hash() : blk[p].id; if (p < 0) memset(&b.previousBlockHash, 0, sizeof(Hash));
    b.baseTransaction.version = 1; b.baseTransaction.unlockTime = 0; b.baseTransaction.inputs.push_back(BaseInput{(uint32_t)(p < 0 ? 0 : blk[p].h + 1)}); for (int t : txs) b.transactionHashes.push_back(tx[t].id);
    BlockDef d{p, p < 0 ? 0 : blk[p].h + 1, txs, ok, get_block_hash(b), b}; blk.push_back(d); bn[d.id] = n; return n; }
  Ids path(int b) const { Ids r; for (; b >= 0; b = blk[b].p) r.push_back(b); std::reverse(r.begin(), r.end()); return r; }
  int num(const Hash &h) const { auto i = bn.find(h); if (i != bn.end()) return i->second; int n; memcpy(&n, &h, sizeof n); return n < 0 && n > -9 && hash(n) == h ? n : -1; }
  int tnum(const Hash &h) const { auto i = tn.find(h); return i == tn.end() ? -1 : i->second; }
  Hash hash(int n) const { if (n >= 0) return blk[n].id; Hash h; memset(&h, 0x55, sizeof h); memcpy(&h, &n, sizeof n); return h; }   // n < 0: a block nobody has
  Blob bblob(int n) const { return n < 0 ? Blob("junk") : str(toBinaryArray(blk[n].b)); }
  Blob tblob(int n) const { return n <= 0 ? Blob("bad") : str(toBinaryArray(tx[n].t)); }
  int tof(const BinaryArray &b) const { return tnum(crypto::cn_fast_hash(b.data(), b.size())); }
  int bof(const BinaryArray &a) const { Block b; return fromBinaryArray(b, a) ? num(get_block_hash(b)) : -1; }
};
struct Driver;
static Driver *D;
struct Core : ICore {   // knows a tree of blocks, follows the highest
  World &w; Currency cur; Ids main{0}; std::set<int> known{0}, mined, pool; int pauses = 0;
  Core(World &w, logging::ILogger &l) : w(w), cur(CurrencyBuilder(l).currency()) {}
  int find(const Hash &h) { int n = w.num(h); return known.count(n) ? n : -1; }
  const Currency &currency() const override { return cur; }
  bool addObserver(ICoreObserver *) override { return true; }
  bool removeObserver(ICoreObserver *) override { return true; }
  bool saveBlockchain() override { return true; }
  bool have_block(const Hash &h) override { return find(h) >= 0; }
  std::vector<Hash> sparse() { std::vector<Hash> r; for (size_t i = main.size(), s = 1; i > 1; i = i > s ? i - s : 1, s *= 2) r.push_back(w.blk[main[i - 1]].id); r.push_back(w.blk[0].id); return r; }
  std::vector<Hash> buildSparseChain() override { return sparse(); }
  std::vector<Hash> buildSparseChain(const Hash &) override { return sparse(); }
  bool get_stat_info(core_stat_info &) override { return true; }
  bool on_idle() override { return true; }
  void pause_mining() override { ++pauses; }
  void update_block_template_and_resume_mining() override { --pauses; }
  bool handle_incoming_block_blob(const BinaryArray &b, block_verification_context &v, bool, bool) override { return push(w.bof(b), v); }
  bool handle_incoming_block(const Block &b, block_verification_context &v, bool, bool) override { return push(w.num(get_block_hash(b)), v); }
  bool push(int n, block_verification_context &v);
  bool handle_get_objects(NOTIFY_REQUEST_GET_OBJECTS_request &a, NOTIFY_RESPONSE_GET_OBJECTS_request &r) override {
    r.current_blockchain_height = main.size();
    for (auto &h : a.blocks) { int n = find(h); if (n < 0) r.missed_ids.push_back(h); else { block_complete_entry e; e.block = w.bblob(n); for (int t : w.blk[n].txs) e.txs.push_back(w.tblob(t)); r.blocks.push_back(e); } }
    return true; }
  void on_synchronized() override;
  size_t addChain(const std::vector<const IBlock *> &) override { return 0; }
  void get_blockchain_top(uint32_t &h, Hash &id) override { h = main.size() - 1; id = w.blk[main.back()].id; }
  std::vector<Hash> findBlockchainSupplement(const std::vector<Hash> &ids, size_t max, uint32_t &total, uint32_t &start) override {
    total = main.size(); start = 0; for (auto &h : ids) { int n = find(h); if (n >= 0 && w.blk[n].h < (int)main.size() && main[w.blk[n].h] == n) { start = w.blk[n].h; break; } }
    std::vector<Hash> r; for (size_t i = start; i < main.size() && r.size() < max; ++i) r.push_back(w.blk[main[i]].id); return r; }
  bool get_random_outs_for_amounts(const COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_request &, COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS_response &) override { return false; }
  bool get_tx_outputs_gindexs(const Hash &, std::vector<uint32_t> &) override { return false; }
  bool getOutByMSigGIndex(uint64_t, uint64_t, MultisignatureOutput &) override { return false; }
  i_cryptonote_protocol *get_protocol() override { return nullptr; }
  bool handle_incoming_tx(const BinaryArray &b, tx_verification_context &v, bool kept) override;
  std::vector<Transaction> getPoolTransactions() override { std::vector<Transaction> r; for (int t : pool) r.push_back(w.tx[t].t); return r; }
  bool getPoolTransaction(const Hash &h, Transaction &t) override { int n = w.tnum(h); if (!pool.count(n)) return false; t = w.tx[n].t; return true; }
  bool getPoolChanges(const Hash &, const std::vector<Hash> &, std::vector<Transaction> &, std::vector<Hash> &) override { return false; }
  bool getPoolChangesLite(const Hash &, const std::vector<Hash> &, std::vector<TransactionPrefixInfo> &, std::vector<Hash> &) override { return false; }
  void getPoolChanges(const std::vector<Hash> &k, std::vector<Transaction> &add, std::vector<Hash> &del) override {
    std::set<int> s; for (auto &h : k) { s.insert(w.tnum(h)); if (!pool.count(w.tnum(h))) del.push_back(h); } for (int t : pool) if (!s.count(t)) add.push_back(w.tx[t].t); }
  bool queryBlocks(const std::vector<Hash> &, uint64_t, uint32_t &, uint32_t &, uint32_t &, std::vector<BlockFullInfo> &) override { return false; }
  bool queryBlocksLite(const std::vector<Hash> &, uint64_t, uint32_t &, uint32_t &, uint32_t &, std::vector<BlockShortInfo> &) override { return false; }
  Hash getBlockIdByHeight(uint32_t h) override { return h < main.size() ? w.blk[main[h]].id : w.hash(-2); }
  bool getBlockByHash(const Hash &h, Block &b) override { int n = find(h); if (n < 0) return false; b = w.blk[n].b; return true; }
  bool getBlockHeight(const Hash &h, uint32_t &r) override { int n = find(h); if (n < 0) return false; r = w.blk[n].h; return true; }
  void getTransactions(const std::vector<Hash> &ids, std::list<Transaction> &txs, std::list<Hash> &missed, bool p) override { for (auto &h : ids) { Transaction t; if (getTransaction(h, t, p)) txs.push_back(t); else missed.push_back(h); } }
  bool getTransactionsWithOutputGlobalIndexes(const std::vector<Hash> &, std::list<Hash> &, std::vector<std::pair<Transaction, std::vector<uint32_t>>> &) override { return false; }
  bool getBackwardBlocksSizes(uint32_t, std::vector<size_t> &, size_t) override { return false; }
  bool getBlockSize(const Hash &, size_t &) override { return false; }
  bool getAlreadyGeneratedCoins(const Hash &, uint64_t &) override { return false; }
  bool getBlockReward(size_t, size_t, uint64_t, uint64_t, uint32_t, uint64_t &, int64_t &) override { return false; }
  bool scanOutputkeysForIndices(const KeyInput &, std::list<std::pair<Hash, size_t>> &) override { return false; }
  bool getBlockDifficulty(uint32_t, difficulty_type &) override { return false; }
  bool getBlockTimestamp(uint32_t, uint64_t &) override { return false; }
  bool getBlockContainingTx(const Hash &, Hash &, uint32_t &) override { return false; }
  bool getMultisigOutputReference(const MultisignatureInput &, std::pair<Hash, size_t> &) override { return false; }
  bool getTransaction(const Hash &h, Transaction &t, bool p) override { int n = w.tnum(h); if (!mined.count(n) && !(p && pool.count(n))) return false; t = w.tx[n].t; return true; }
  bool getGeneratedTransactionsNumber(uint32_t, uint64_t &) override { return false; }
  bool getOrphanBlocksByHeight(uint32_t, std::vector<Block> &) override { return false; }
  bool getBlocksByTimestamp(uint64_t, uint64_t, uint32_t, std::vector<Block> &, uint32_t &) override { return false; }
  bool getPoolTransactionsByTimestamp(uint64_t, uint64_t, uint32_t, std::vector<Transaction> &, uint64_t &) override { return false; }
  bool getTransactionsByPaymentId(const Hash &, std::vector<Transaction> &) override { return false; }
  std::unique_ptr<IBlock> getBlock(const Hash &) override { return nullptr; }
  bool handleIncomingTransaction(const Transaction &, const Hash &, size_t, tx_verification_context &, bool, uint32_t) override { return false; }
  std::error_code executeLocked(const std::function<std::error_code()> &f) override { return f(); }
  bool addMessageQueue(MessageQueue<BlockchainMessage> &) override { return true; }
  bool removeMessageQueue(MessageQueue<BlockchainMessage> &) override { return true; }
};
struct Peer { bool open = false; Ctx ctx; int tip = 0, lag = 0; bool liar = false; std::deque<std::function<void(bool)>> asks; std::unique_ptr<platform_system::Context<>> run; bool busy = false; Ids lacks; };
enum { PEERS = 4 };
struct Driver : IP2pEndpoint, ICryptoNoteProtocolObserver {
  Rng rng; std::ofstream out; std::string dir; Stats st; World w; logging::LoggerGroup log; Core core; Dispatcher disp; CryptoNoteProtocolHandler h; Peer peer[PEERS + 1]; std::map<void *, int> who; bool tame = false, far = false; int ids = 0;
  Driver(uint64_t seed, const char *d) : rng(seed), out(std::string(d) + "/t.ndjson"), dir(d), core(w, log), h(core.cur, disp, core, this, log) { D = this; h.addObserver(this); }
  int me() { auto i = who.find(disp.getCurrentContext()); return i == who.end() ? 0 : i->second; }
  void ev(const J &j) { out << j.str() << "\n"; out.flush(); }
  int cid(const boost::uuids::uuid &u) { for (int c = 1; c <= PEERS; ++c) if (peer[c].open && peer[c].ctx.m_connection_id == u) return c; return 0; }
  Ids nums(const std::vector<Hash> &v) { Ids r; for (auto &x : v) r.push_back(w.num(x)); return r; }
  Ids tnums(const std::vector<Hash> &v) { Ids r; for (auto &x : v) r.push_back(w.tnum(x)); return r; }
  Ids tblobs(const std::vector<Blob> &v) { Ids r; for (auto &x : v) r.push_back(w.tof(bin(x))); return r; }
  static Ids sorted(Ids v) { std::sort(v.begin(), v.end()); return v; }
  template <class T> T dec(const BinaryArray &b) { T r; LevinProtocol::decode(b, r); return r; }
  // what the handler says
  J msg(const char *op, int command, const BinaryArray &b, std::function<void(bool)> *answer, int c) {
    J j; j.t("op", op).n("c", me());
    switch (command) {
    case NOTIFY_REQUEST_CHAIN::ID: { auto r = dec<NOTIFY_REQUEST_CHAIN::request>(b); j.t("k", "chain").b("ok", r.block_ids == core.sparse()); if (answer) { auto ids = r.block_ids; *answer = [this, c, ids](bool lie) { entry(c, ids, lie); }; } break; }
    case NOTIFY_REQUEST_GET_OBJECTS::ID: { auto r = dec<NOTIFY_REQUEST_GET_OBJECTS::request>(b); j.t("k", "getobjs").raw("ids", jnums(nums(r.blocks))).b("ok", r.txs.empty()); if (answer) { auto v = r.blocks; *answer = [this, c, v](bool lie) { objects(c, nums(v), lie); }; } break; }
    case NOTIFY_RESPONSE_GET_OBJECTS::ID: { auto r = dec<NOTIFY_RESPONSE_GET_OBJECTS::request>(b); Ids v; bool ok = r.txs.empty(); for (auto &e : r.blocks) { int n = w.bof(bin(e.block)); v.push_back(n); ok = ok && n >= 0 && tblobs(e.txs) == w.blk[n].txs; }
      j.t("k", "objs").raw("ids", jnums(v)).n("missed", r.missed_ids.size()).n("h", r.current_blockchain_height).b("ok", ok); break; }
    case NOTIFY_RESPONSE_CHAIN_ENTRY::ID: { auto r = dec<NOTIFY_RESPONSE_CHAIN_ENTRY::request>(b); j.t("k", "entry").n("start", r.start_height).n("total", r.total_height).raw("ids", jnums(nums(r.m_block_ids))); break; }
    case NOTIFY_REQUEST_TX_POOL::ID: { auto r = dec<NOTIFY_REQUEST_TX_POOL::request>(b); j.t("k", "pool").raw("txs", jnums(sorted(tnums(r.txs)))); break; }
    case NOTIFY_MISSING_TXS::ID: { auto r = dec<NOTIFY_MISSING_TXS::request>(b); Ids v = tnums(r.missing_txs); j.t("k", "missing").n("b", w.num(r.blockHash)).n("h", r.current_blockchain_height).raw("txs", jnums(sorted(v))); if (answer) *answer = [this, c, v](bool lie) { give(c, v, lie); }; break; }
    case NOTIFY_NEW_TRANSACTIONS::ID: { auto r = dec<NOTIFY_NEW_TRANSACTIONS::request>(b); j.t("k", "txs").raw("txs", jnums(sorted(tblobs(r.txs)))); break; }
    case NOTIFY_NEW_BLOCK::ID: { auto r = dec<NOTIFY_NEW_BLOCK::request>(b); j.t("k", "block").n("b", w.bof(bin(r.b.block))).raw("txs", jnums(tblobs(r.b.txs))).n("h", r.current_blockchain_height).n("hop", r.hop); break; }
    case NOTIFY_NEW_LITE_BLOCK::ID: { auto r = dec<NOTIFY_NEW_LITE_BLOCK::request>(b); j.t("k", "lite").n("b", w.bof(bin(r.block))).n("h", r.current_blockchain_height).n("hop", r.hop); break; }
    default: j.t("k", "unknown"); }
    return j;
  }
  bool invoke_notify_to_peer(int command, const BinaryArray &b, const Ctx &x) override {
    int c = cid(x.m_connection_id); std::function<void(bool)> f; J j = msg("post", command, b, &f, c); j.n("to", c); ev(j); if (f && c) peer[c].asks.push_back(f); return true; }
  void relay(int command, const BinaryArray &b, std::function<bool(Ctx &)> want) {
    Ids to; for (int c = 1; c <= PEERS; ++c) if (peer[c].open && want(peer[c].ctx) && (peer[c].ctx.m_state == Ctx::state_normal || peer[c].ctx.m_state == Ctx::state_synchronizing)) to.push_back(c);
    if (to.empty()) return; J j = msg("relay", command, b, nullptr, 0); j.raw("to", jnums(to)); ev(j); st.add("relayed"); }
  void relay_notify_to_all(int command, const BinaryArray &b, const net_connection_id *ex) override { relay(command, b, [&](Ctx &x) { return !ex || x.m_connection_id != *ex; }); }
  void externalRelayNotifyToAll(int command, const BinaryArray &b, const net_connection_id *ex) override { relay_notify_to_all(command, b, ex); }
  void externalRelayNotifyToList(int command, const BinaryArray &b, const std::list<boost::uuids::uuid> &l) override { relay(command, b, [&](Ctx &x) { return std::find(l.begin(), l.end(), x.m_connection_id) != l.end(); }); }
  uint64_t get_connections_count() override { uint64_t n = 0; for (int c = 1; c <= PEERS; ++c) n += peer[c].open; return n; }
  void for_each_connection(const std::function<void(Ctx &, PeerIdType)> &f) override { for (int c = 1; c <= PEERS; ++c) if (peer[c].open) f(peer[c].ctx, c); }
  void drop_connection(Ctx &x, bool) override { x.m_state = Ctx::state_shutdown; }
  void peerCountUpdated(size_t n) override { ev(J().t("op", "peers").n("c", me()).n("n", n)); }
  void blockchainSynchronized(uint32_t n) override { ev(J().t("op", "synced").n("c", me()).n("h", n)); st.add("synchronised"); }
  // what peers say
  void run(int c, const J &in, std::function<void()> f) {   // in a context of its own, as a connection's handler does
    Peer &p = peer[c]; p.busy = true;
    p.run.reset(new platform_system::Context<>(disp, [this, c, in, f] {
      Peer &p = peer[c]; who[disp.getCurrentContext()] = c; ev(in); bool threw = false; try { f(); } catch (std::exception &) { threw = true; } ret(c, threw);
      if (p.open && !threw && p.ctx.m_state == Ctx::state_sync_required) { ev(J().t("op", "in").n("c", c).t("k", "start")); p.ctx.m_state = Ctx::state_synchronizing; h.start_sync(p.ctx); ret(c, false); }
      else if (p.open && !threw && p.ctx.m_state == Ctx::state_pool_sync_required) { ev(J().t("op", "in").n("c", c).t("k", "reqpool")); p.ctx.m_state = Ctx::state_normal; h.requestMissingPoolTransactions(p.ctx); ret(c, false); }
      if (p.open && (threw || p.ctx.m_state == Ctx::state_shutdown)) { ev(J().t("op", "in").n("c", c).t("k", "closed")); st.add("dropped"); h.onConnectionClosed(p.ctx); p.open = false; p.asks.clear(); ret(c, false); }
      who.erase(disp.getCurrentContext()); p.busy = false; }));
  }
  bool idle(int c) { for (int d = 1; d <= PEERS; ++d) if (d != c && peer[d].busy) return false; return true; }
  void ret(int c, bool threw) { static const char *N[] = {"before", "sync", "idle", "normal", "start", "pool", "shutdown"}; Ctx &x = peer[c].ctx;
    ev(J().t("op", "ret").n("c", c).t("st", peer[c].open ? N[x.m_state] : "gone").n("rem", x.m_remote_blockchain_height).b("threw", threw).b("synced", h.isSynchronized()).n("peers", h.getPeerCount()).b("idle", idle(c)).b("paused", core.pauses != 0)); }
  template <class C> void send(int c, const J &in, typename C::request r) { BinaryArray b = LevinProtocol::encode(r); run(c, in, [this, c, b] { BinaryArray o; bool hd; h.handleCommand(true, C::ID, b, o, peer[c].ctx, hd); }); }
  J in(int c, const char *k) { J j; j.t("op", "in").n("c", c).t("k", k); st.add(std::string("in ") + k); return j; }
  int height(int c) { return w.blk[peer[c].tip].h + 1; }
  bool onPath(int c, int b) { Ids p = w.path(peer[c].tip); return b >= 0 && w.blk[b].h < (int)p.size() && p[w.blk[b].h] == b; }
  void entry(int c, const std::vector<Hash> &ids, bool lie) {
    Ids p = w.path(peer[c].tip); int start = 0; for (auto &x : ids) if (onPath(c, w.num(x))) { start = w.blk[w.num(x)].h; break; }
    Ids v(p.begin() + start, p.end()); int total = p.size();
    if (lie) switch (rng.u(9)) { case 0: v.clear(); break; case 1: v[0] = -5; break; case 2: total = start + (int)v.size() - 1 - rng.u(3); break; case 3: v.push_back(-3); total++; break; case 4: if (v.size() > 2) v.erase(v.begin() + 1); break; case 5: start += 1 + rng.u(3); break; case 6: std::reverse(v.begin(), v.end()); break; case 7: total += 1 + rng.u(3); break; default: v.resize(1); }
    if (total < 1) total = 1;
    NOTIFY_RESPONSE_CHAIN_ENTRY::request r; r.start_height = start; r.total_height = total; for (int b : v) r.m_block_ids.push_back(w.hash(b));
    send<NOTIFY_RESPONSE_CHAIN_ENTRY>(c, in(c, "entry").n("start", start).n("total", total).raw("ids", jnums(v)), r); }
  void objects(int c, Ids v, bool lie) {
    struct Item { int b; Ids txs; }; std::vector<Item> l; bool cut = false; for (int b : v) if (b >= 0) l.push_back({b, w.blk[b].txs}); else cut = true;
    int hh = height(c); if (cut) st.add("cannot answer");
    if (lie && l.size()) { size_t k = rng.u(l.size()); switch (rng.u(9)) { case 0: l.erase(l.begin() + k); break; case 1: l.push_back(l[k]); break; case 2: l[k].b = -1; break; case 3: if (l[k].txs.size()) l[k].txs.pop_back(); else l[k].txs.push_back(w.trans(true)); break; case 4: if (l[k].txs.size()) l[k].txs[rng.u(l[k].txs.size())] = w.trans(rng.p(50)); break;
      case 5: std::swap(l[k], l[rng.u(l.size())]); break; case 6: hh = std::max(1, hh - (int)rng.u(4)); break; case 7: l.insert(l.begin() + k, {(int)rng.u(w.blk.size()), {}}); l[k].txs = w.blk[l[k].b].txs; break; default: l.clear(); } }
    NOTIFY_RESPONSE_GET_OBJECTS::request r; r.current_blockchain_height = hh; for (auto &i : l) { block_complete_entry e; e.block = w.bblob(i.b); for (int t : i.txs) e.txs.push_back(w.tblob(t)); r.blocks.push_back(e); }
    send<NOTIFY_RESPONSE_GET_OBJECTS>(c, in(c, "objs").n("h", hh).raw("blocks", jarr(l, [](const Item &i) { return J().n("b", i.b).raw("txs", jnums(i.txs)).str(); })), r); }
  void give(int c, Ids v, bool lie) { if (lie && rng.p(70)) { if (v.size() && rng.p(50)) v.pop_back(); else v.insert(v.begin(), w.trans(rng.p(70))); } NOTIFY_NEW_TRANSACTIONS::request r; for (int t : v) r.txs.push_back(w.tblob(t)); send<NOTIFY_NEW_TRANSACTIONS>(c, in(c, "txs").raw("txs", jnums(v)), r); }
  void hello(int c, bool first) { CORE_SYNC_DATA s; int b = peer[c].tip; s.current_height = height(c); s.top_id = w.hash(b); J j = in(c, first ? "hand" : "timed"); j.n("h", s.current_height).n("b", b); if (first) j.n("ver", peer[c].ctx.version); run(c, j, [this, c, s, first] { h.process_payload_sync_data(s, peer[c].ctx, first); }); }
  void connect(int c) { Peer &p = peer[c]; p.ctx = Ctx(); memset(&p.ctx.m_connection_id, 0, 16); int n = ++ids; memcpy(&p.ctx.m_connection_id, &n, sizeof n); p.ctx.version = tame || rng.p(50) ? 1 : 3; p.open = true; p.asks.clear(); p.liar = !tame && rng.p(30); if (tame) { int b = p.tip; bool good = true; for (; b > 0; b = w.blk[b].p) good = good && valid(b); if (!good) p.tip = core.main.back(); } hello(c, true); }
  bool valid(int b) { if (!w.blk[b].ok) return false; for (int t : w.blk[b].txs) if (!w.tx[t].ok) return false; return true; }
  Ids someTxs(int n) { Ids r; while (n--) { if (core.pool.size() && rng.p(50)) { auto i = core.pool.begin(); std::advance(i, rng.u(core.pool.size())); if (std::find(r.begin(), r.end(), *i) == r.end()) r.push_back(*i); } else r.push_back(w.trans(!rng.p(6) || tame)); } return r; }
  Ids fresh(int p, int n) { Ids r = someTxs(n), o; std::set<int> used; for (int b = p; b > 0; b = w.blk[b].p) for (int t : w.blk[b].txs) used.insert(t); for (int t : r) if (!used.count(t)) o.push_back(t); return o; }
  int mint(int p) { return w.block(p, fresh(p, rng.p(50) ? 0 : rng.u(4)), tame || !rng.p(4)); }
  void grow(int c, int n) { Peer &p = peer[c]; if (rng.p(25)) { int back = rng.u(rng.p(10) ? 40 : 4); while (back-- && p.tip) p.tip = w.blk[p.tip].p; ++n; } while (n--) p.tip = mint(p.tip); }
  void announce(int c, int b, bool lite) {
    int hh = rng.p(10) ? height(c) + 3 : height(c), hop = rng.u(3);
    if (lite) { NOTIFY_NEW_LITE_BLOCK::request r; r.block = w.bblob(b); r.current_blockchain_height = hh; r.hop = hop; send<NOTIFY_NEW_LITE_BLOCK>(c, in(c, "lite").n("b", b).n("h", hh).n("hop", hop), r); return; }
    NOTIFY_NEW_BLOCK::request r; r.b.block = w.bblob(b); Ids v = b < 0 ? Ids() : w.blk[b].txs; if (v.size() && !tame && rng.p(10)) v.pop_back(); for (int t : v) r.b.txs.push_back(w.tblob(t)); r.current_blockchain_height = hh; r.hop = hop; send<NOTIFY_NEW_BLOCK>(c, in(c, "block").n("b", b).raw("txs", jnums(v)).n("h", hh).n("hop", hop), r); }
  void mine() { int b; do b = mint(core.main.back()); while (!valid(b)); block_verification_context v = {}; for (int t : w.blk[b].txs) { tx_verification_context tv = {}; core.handle_incoming_tx(bin(w.tblob(t)), tv, true); } core.push(b, v);
    NOTIFY_NEW_BLOCK::request r; r.b.block = w.bblob(b); for (int t : w.blk[b].txs) r.b.txs.push_back(w.tblob(t)); r.current_blockchain_height = core.main.size(); r.hop = 0; ev(in(0, "mined").n("b", b).n("h", r.current_blockchain_height)); static_cast<i_cryptonote_protocol &>(h).relay_block(r); ev(J().t("op", "end").n("c", 0)); }
  void own() { int t = w.trans(true); tx_verification_context tv = {}; core.handle_incoming_tx(bin(w.tblob(t)), tv, false); NOTIFY_NEW_TRANSACTIONS::request r; r.txs.push_back(w.tblob(t)); ev(in(0, "own").raw("txs", jnums(Ids{t}))); static_cast<i_cryptonote_protocol &>(h).relay_transactions(r); ev(J().t("op", "end").n("c", 0)); }
  void say(int c) {   // one message of peer c
    Peer &p = peer[c]; if (!p.open) { if (!far || rng.p(20)) { if (rng.p(40)) p.tip = core.main.back(); if (rng.p(40)) grow(c, rng.u(8)); } connect(c); return; }
    bool lie = p.liar && rng.p(25);
    if (p.asks.size() && rng.p(tame ? 100 : 70)) { auto f = p.asks.front(); p.asks.pop_front(); f(lie); return; }
    switch (rng.u(p.liar ? 16 : 12)) {
    case 0: case 1: if (onPath(c, core.main.back()) == false && rng.p(70)) p.tip = core.main.back(); grow(c, 1); announce(c, p.tip, p.ctx.version >= 3 && rng.p(70)); break;
    case 2: grow(c, 1 + rng.u(5)); announce(c, p.tip, p.ctx.version >= 3 && rng.p(60)); break;
    case 3: hello(c, false); break;
    case 4: grow(c, rng.u(w.blk.size() < 400 && rng.p(5) ? 300 : 12)); hello(c, false); break;
    case 5: case 6: give(c, someTxs(1 + rng.u(3)), false); break;
    case 7: { NOTIFY_REQUEST_CHAIN::request r; Ids v; for (int n = rng.u(4); n--;) v.push_back((int)rng.u(w.blk.size() + 2) - 2 + (rng.p(10) ? 0 : 0)); if (!rng.p(8)) v.push_back(0); for (int &b : v) if (b < 0) b = -4; for (int b : v) r.block_ids.push_back(w.hash(b)); send<NOTIFY_REQUEST_CHAIN>(c, in(c, "chain").raw("ids", jnums(v)), r); break; }
    case 8: { NOTIFY_REQUEST_GET_OBJECTS::request r; Ids v; int n = rng.p(8) ? 998 + rng.u(5) : rng.u(5); while (n--) v.push_back(rng.p(5) ? -4 : (int)rng.u(w.blk.size())); for (int b : v) r.blocks.push_back(w.hash(b)); send<NOTIFY_REQUEST_GET_OBJECTS>(c, in(c, "getobjs").raw("ids", jnums(v)), r); break; }
    case 9: { NOTIFY_REQUEST_TX_POOL::request r; Ids v; for (int t : core.pool) if (rng.p(50)) v.push_back(t); if (rng.p(30)) v.push_back(w.trans(true)); for (int t : v) r.txs.push_back(w.tx[t].id); send<NOTIFY_REQUEST_TX_POOL>(c, in(c, "pool").raw("txs", jnums(v)), r); break; }
    case 10: { NOTIFY_MISSING_TXS::request r; Ids v; r.blockHash = w.hash(core.main.back()); r.current_blockchain_height = 1; for (int t : core.pool) if (rng.p(50)) v.push_back(t); for (int t : core.mined) if (rng.p(5)) v.push_back(t); if (rng.p(8)) v.push_back(w.trans(true)); for (int t : v) r.missing_txs.push_back(w.tx[t].id); send<NOTIFY_MISSING_TXS>(c, in(c, "missing").raw("txs", jnums(v)), r); break; }
    case 11: if (rng.p(20)) { run(c, in(c, "closed"), [this, c] { h.onConnectionClosed(peer[c].ctx); peer[c].open = false; peer[c].asks.clear(); }); } else hello(c, false); break;
    case 12: { Ids v; for (int n = rng.u(4); n--;) v.push_back(rng.u(w.blk.size())); objects(c, v, rng.p(30)); break; }
    case 13: entry(c, {w.hash(core.main[rng.u(core.main.size())])}, rng.p(30)); break;
    case 14: announce(c, rng.p(30) ? -1 : (int)rng.u(w.blk.size()), p.ctx.version >= 3 && rng.p(60)); break;
    default: { Blob b("\x01\x02garbage"); if (rng.p(30)) b = w.bblob(0); BinaryArray a = bin(b); static const int C[] = {NOTIFY_NEW_BLOCK::ID, NOTIFY_NEW_TRANSACTIONS::ID, NOTIFY_RESPONSE_GET_OBJECTS::ID, NOTIFY_RESPONSE_CHAIN_ENTRY::ID, NOTIFY_REQUEST_CHAIN::ID, NOTIFY_REQUEST_TX_POOL::ID}; int k = C[rng.u(6)]; run(c, in(c, "junk"), [this, c, a, k] { BinaryArray o; bool hd; h.handleCommand(true, k, a, o, peer[c].ctx, hd); }); } }
  }
  void step() {
    int k = rng.u(100); if (k < 4) { mine(); st.add("mined"); return; } if (k < 8) { own(); return; }
    int c = 1 + rng.u(PEERS); if (!peer[c].busy) say(c); for (int n = rng.p(60) ? 200 : rng.u(rng.p(20) ? 120 : 4); n--;) { disp.yield(); bool b = false; for (int d = 1; d <= PEERS; ++d) b = b || peer[d].busy; if (!b) break; } }
  void drain() { for (int c = 1; c <= PEERS; ++c) if (peer[c].run) peer[c].run->wait(); }
  void settle() {   // everybody honest: the node must come to the best chain
    tame = true; drain();
    for (int c = 1; c <= PEERS; ++c) { bool good = true; for (int b = peer[c].tip; b > 0; b = w.blk[b].p) good = good && valid(b); if (peer[c].liar || !good) { peer[c].liar = false; if (!good) peer[c].tip = core.main.back(); } }
    for (int round = 0; round < 12; ++round) for (int c = 1; c <= PEERS; ++c) { if (peer[c].open) hello(c, false); else connect(c); drain(); for (int n = 0; n < 60 && peer[c].open && peer[c].asks.size(); ++n) { auto f = peer[c].asks.front(); peer[c].asks.pop_front(); f(false); drain(); } }
    Ids t; for (int c = 1; c <= PEERS; ++c) if (peer[c].open) t.push_back(peer[c].tip); ev(J().t("op", "settled").raw("tips", jnums(t)).n("peers", t.size()).n("h", core.main.size())); st.add("settled"); }
  void defs() { std::ofstream f(dir + "/t.defs.json"); f << J().raw("blocks", jarr(w.blk, [](const BlockDef &b) { return J().n("p", b.p).n("h", b.h).raw("txs", jnums(b.txs)).b("ok", b.ok).str(); })).raw("txs", jarr(w.tx, [](const TxDef &t) { return std::string(t.ok ? "true" : "false"); })).n("batch", BLOCKS_SYNCHRONIZING_DEFAULT_COUNT).n("most", COMMAND_RPC_GET_OBJECTS_MAX_COUNT).n("lite", P2P_LITE_BLOCKS_PROPOGATION_VERSION).str() << "\n"; }
};
bool Core::push(int n, block_verification_context &v) {
  const char *r = "alt"; bool have = true; if (n >= 0) for (int t : w.blk[n].txs) have = have && (pool.count(t) || mined.count(t));
  if (n < 0) { v.m_verification_failed = true; r = "fail"; }
  else if (known.count(n)) { v.m_already_exists = true; r = "exists"; }
  else if (!known.count(w.blk[n].p)) { v.m_marked_as_orphaned = true; r = "orphan"; }
  else if (!w.blk[n].ok || !have) { v.m_verification_failed = true; r = "fail"; }
  else { known.insert(n); if (w.blk[n].h >= (int)main.size()) { v.m_added_to_main_chain = true; r = "main"; if (w.blk[n].p != main.back()) { v.m_switched_to_alt_chain = true; r = "switch"; D->st.add("switched"); }
      main = w.path(n); std::set<int> old = mined; mined.clear(); for (int b : main) for (int t : w.blk[b].txs) mined.insert(t); for (int t : old) if (!mined.count(t)) pool.insert(t); for (int t : mined) pool.erase(t); } }
  D->ev(J().t("op", "pushed").n("c", D->me()).n("b", n).t("r", r)); D->st.add(std::string("block ") + r); return !v.m_verification_failed;
}
bool Core::handle_incoming_tx(const BinaryArray &b, tx_verification_context &v, bool kept) {
  int n = w.tof(b); bool fail = n < 1 || !w.tx[n].ok; if (fail) v.m_verification_failed = true; else if (!pool.count(n) && !mined.count(n)) { pool.insert(n); v.m_added_to_pool = true; v.m_should_be_relayed = !kept; }
  D->ev(J().t("op", "tx").n("c", D->me()).n("t", n).b("kept", kept).b("fail", fail).b("relay", v.m_should_be_relayed)); return !fail;
}
void Core::on_synchronized() { D->ev(J().t("op", "sync").n("c", D->me())); }
int main(int, char **v) {
  Driver d(atoll(v[1]), v[2]); d.ev(J().t("op", "init")); for (int n = d.rng.u(12); n--;) d.mine();
  if (d.rng.p(30)) { Ids l{d.rng.p(50) ? 0 : d.core.main.back()}; for (int n = 140 + d.rng.u(300); n--;) { Ids t; if (d.rng.p(10)) t.push_back(d.w.trans(true)); l.push_back(d.w.block(l.back(), t, true)); }   // peers far ahead, at different blocks of one chain
    for (int c = 1; c <= PEERS; ++c) d.peer[c].tip = d.rng.p(40) ? l.back() : l[d.rng.u(l.size())]; d.far = true; }
  for (int n = atoi(v[3]), i = 0; i < n; ++i) d.step();
  d.settle(); d.out.flush(); d.st.write(std::string(v[2]) + "/stats.json"); d.defs(); _exit(0);
}
