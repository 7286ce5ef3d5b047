// Drives a BlockchainSynchronizer between a stand-in node and stand-in consumers.  usage: sync <seed> <dir> <ops>
#include "jw.h"
#include "Transfers/BlockchainSynchronizer.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "crypto/hash.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace cn; using crypto::Hash;
typedef std::vector<int> Ids;
static Hash blob(int kind, int n) { Hash x; unsigned char *p = (unsigned char *)&x; uint64_t h = (uint64_t)n * 0x9E3779B97F4A7C15ull + kind + 77; for (size_t i = 0; i < sizeof x; ++i) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; p[i] = h >> 32; } p[0] = kind; memcpy(p + 1, &n, sizeof n); return x; }
static int num(const Hash &h) { int n; memcpy(&n, (const unsigned char *)&h + 1, sizeof n); return n >= 0 && n < 1 << 24 && blob(((const unsigned char *)&h)[0], n) == h ? n : -1; }
static std::vector<Hash> hashes(const Ids &v) { std::vector<Hash> r; for (int n : v) r.push_back(blob(1, n)); return r; }
struct Driver;
struct Consumer : IBlockchainConsumer {
  Driver *d; int id; bool in = false; Ids chain{0}; std::unordered_set<Hash> pool; SynchronizationStart from{0, 0};
  void addObserver(IBlockchainConsumerObserver *) override {}
  void removeObserver(IBlockchainConsumerObserver *) override {}
  SynchronizationStart getSyncStart() override { return from; }
  const std::unordered_set<Hash> &getKnownPoolTxIds() const override { return pool; }
  void onBlockchainDetach(uint32_t height) override;
  bool onNewBlocks(const CompleteBlock *blocks, uint32_t startHeight, uint32_t count) override;
  std::error_code onPoolUpdated(const std::vector<std::unique_ptr<ITransactionReader>> &added, const std::vector<Hash> &deleted) override;
  std::error_code addUnconfirmedTransaction(const ITransactionReader &t) override;
  void removeUnconfirmedTransaction(const Hash &h) override;
  Ids pooled() const { Ids r; for (auto &h : pool) r.push_back(num(h)); std::sort(r.begin(), r.end()); return r; }
};
struct Info { int height; uint64_t ts; int txs; };
struct Driver : INode, IBlockchainSynchronizerObserver {
  Rng rng, wr; std::ofstream out; std::string dir; Stats st; std::recursive_mutex m; int events = 0;
  std::vector<Info> blk{{0, 1000, 0}}; Ids chain{0}; std::set<int> pool; int freshTx = 0, batch = 3, ahead = 0; unsigned trouble = 0, busy = 0;
  std::set<INodeObserver *> watchers; Consumer cons[4]; std::unique_ptr<BlockchainSynchronizer> sync; bool running = false, halting = false, up = false, loose = false; std::unique_ptr<std::thread> stopper; int refuse = -1; Ids asked; int waited = 0;   // halting, stopper: under m
  struct Saved { int c; Ids chain; std::string state; }; std::vector<Saved> saved;
  Driver(uint64_t seed, const char *d) : rng(seed), wr(seed + 999983), out(std::string(d) + "/t.ndjson"), dir(d) { for (int i = 0; i < 4; ++i) { cons[i].d = this; cons[i].id = i; } fresh(); }
  void fresh() { sync.reset(new BlockchainSynchronizer(*this, blob(1, 0))); sync->addObserver(this); }
  void ev(const J &j) { std::lock_guard<std::recursive_mutex> l(m); out << j.str() << "\n"; if (++events % 50 == 0) out.flush(); }
  void node() { ev(J().t("op", "node").raw("chain", jnums(chain)).raw("pool", jnums(pool))); }

  // the node and its changes
  void grow(Rng &g, int n) { while (n--) { blk.push_back({(int)chain.size(), blk[chain.back()].ts + 1 + g.u(60), (int)g.u(3)}); chain.push_back(blk.size() - 1); } }
  void change(Rng &g, bool &block, bool &pl, bool blockOnly) {
    std::lock_guard<std::recursive_mutex> l(m);
    switch (g.u(blockOnly ? 5 : 8)) {
    case 0: case 1: grow(g, 1); block = true; break;
    case 2: grow(g, 1 + g.u(chain.size() > 40 ? 1 : 9)); block = true; break;
    case 3: case 4: { size_t old = chain.size(), keep = std::max<int>(1, (int)old - 1 - (int)g.u(g.p(20) ? old : 4)); block = true; if (old < 2) { grow(g, 1); break; }
      chain.resize(keep); grow(g, std::max<int>(1, (int)(old - keep) + (int)g.u(chain.size() > 40 ? 2 : 4) - (g.p(20) ? 2 : 0))); st.add("reorganised"); break; }
    default: pl = true; for (int n = 1 + g.u(3); n--;) { if (pool.size() && g.p(45)) { auto i = pool.begin(); std::advance(i, g.u(pool.size())); pool.erase(i); } else pool.insert(++freshTx); }
    }
    if (block && !blockOnly && g.p(30)) { pl = true; pool.erase(pool.begin(), std::next(pool.begin(), g.u(pool.size() + 1))); }
    node();
  }
  void tell(Rng &g, bool block, bool pl) {
    std::vector<INodeObserver *> w; { std::lock_guard<std::recursive_mutex> l(m); w.assign(watchers.begin(), watchers.end()); }
    if (w.empty()) return;   // not heard
    ev(J().t("op", "notify").b("block", block));
    for (auto *o : w) { if (block) { if (g.p(80)) o->localBlockchainUpdated(0); else o->lastKnownBlockHeightUpdated(0); } if (pl) o->poolChanged(); }
  }
  // things that happen while the synchroniser is at work; blockOnly: it is about to find out that something failed
  void meanwhile(bool blockOnly = false) {
    bool block = false, pl = false; std::lock_guard<std::recursive_mutex> l(m);
    if (wr.p(busy)) { change(wr, block, pl, blockOnly); tell(wr, block, pl); st.add("meanwhile"); }
    if (wr.p(busy / 8) && up && !halting) { halting = true; ev(J().t("op", "stopping")); stopper.reset(new std::thread([this] { sync->stop(); })); usleep(3000); st.add("stopped at work"); }
  }
  bool addObserver(INodeObserver *o) override { std::lock_guard<std::recursive_mutex> l(m); return watchers.insert(o).second; }
  bool removeObserver(INodeObserver *o) override { std::lock_guard<std::recursive_mutex> l(m); return watchers.erase(o); }
  uint32_t getLastLocalBlockHeight() const override { std::lock_guard<std::recursive_mutex> l(const_cast<Driver *>(this)->m); return chain.size() - 1; }
  uint32_t getLastKnownBlockHeight() const override { std::lock_guard<std::recursive_mutex> l(const_cast<Driver *>(this)->m); auto t = const_cast<Driver *>(this); if (ahead > 0) { --t->ahead; return chain.size(); } return chain.size() - 1; }
  uint32_t getLocalBlockCount() const override { return getLastLocalBlockHeight() + 1; }
  uint32_t getKnownBlockCount() const override { return getLastLocalBlockHeight() + 1; }
  std::error_code error() { return std::make_error_code(wr.p(50) ? std::errc::connection_aborted : std::errc::host_unreachable); }
  Block block(int id) { Block b; b.majorVersion = 1; b.timestamp = blk[id].ts; b.nonce = id; b.baseTransaction.version = 1; b.baseTransaction.unlockTime = id; b.baseTransaction.inputs.push_back(BaseInput{(uint32_t)blk[id].height}); return b; }
  void queryBlocks(std::vector<Hash> &&known, uint64_t ts, std::vector<BlockShortEntry> &newBlocks, uint32_t &start, const Callback &callback) override {
    std::error_code ec;
    {
      std::lock_guard<std::recursive_mutex> l(m);
      uint64_t need = ~0ull; bool hist = !known.empty() && known.back() == blob(1, 0); size_t least = ~0u; for (auto &c : cons) if (c.in) { need = std::min(need, c.from.timestamp); least = std::min(least, c.chain.size()); }
      bool some = false; int last = 1 << 30;
      for (auto &h : known) { int n = num(h); hist = hist && n >= 0 && blk[n].height < last; if (hist) last = blk[n].height; }
      for (auto &c : cons) if (c.in && c.chain.size() == least) { bool all = true; for (auto &h : known) all = all && std::find(c.chain.begin(), c.chain.end(), num(h)) != c.chain.end(); some = some || all; }
      Ids ids; std::vector<int> full; bool ok = !wr.p(trouble); J j; j.t("op", "query").b("ok", ok).n("ts", ts).n("need", need).b("history", hist && some);
      if (!ok) { j.n("start", 0).raw("ids", "[]").raw("full", "[]"); ev(j); st.add("query failed"); if (wr.p(30)) throw std::runtime_error("no answer"); ec = error(); }
      else {
        start = 0; for (auto &h : known) { int n = num(h); if (n >= 0 && blk[n].height < (int)chain.size() && chain[blk[n].height] == n) { start = blk[n].height; break; } }
        size_t upto = start + batch; for (auto &c : cons) if (c.in && c.chain.size() == least) { size_t k = 0; while (k < least && k < chain.size() && c.chain[k] == chain[k]) ++k; upto = std::max(upto, k + 1); }   // a node's answers are long
        for (size_t h = start; h < chain.size() && h < upto; ++h) {
          int id = chain[h]; ids.push_back(id); BlockShortEntry e; e.blockHash = blob(1, id); e.hasBlock = blk[id].ts >= ts; full.push_back(e.hasBlock);
          if (e.hasBlock) { e.block = block(id); for (int k = 0; k < blk[id].txs; ++k) { TransactionShortInfo i; i.txId = blob(3, id * 4 + k); i.txPrefix.version = 1; i.txPrefix.unlockTime = id * 4 + k; e.txsShortInfo.push_back(i); } }
          newBlocks.push_back(std::move(e));
        }
        ev(j.n("start", start).raw("ids", jnums(ids)).raw("full", jarr(full, [](int b) { return std::string(b ? "true" : "false"); }))); st.add("query");
      }
    }
    meanwhile(bool(ec)); callback(ec);
  }
  void getPoolSymmetricDifference(std::vector<Hash> &&knownTx, Hash top, bool &actual, std::vector<std::unique_ptr<ITransactionReader>> &newTxs, std::vector<Hash> &gone, const Callback &callback) override {
    std::error_code ec;
    {
      std::lock_guard<std::recursive_mutex> l(m);
      bool ok = !wr.p(trouble); actual = num(top) == chain.back() && top == blob(1, chain.back());
      ev(J().t("op", "poolquery").b("ok", ok).b("actual", actual)); st.add(ok ? actual ? "pool query" : "pool query too early" : "pool query failed");
      if (!ok) ec = error();
      else if (actual) {
        std::set<int> k; for (auto &h : knownTx) { k.insert(num(h)); if (!pool.count(num(h))) gone.push_back(h); }
        for (int t : pool) if (!k.count(t)) { TransactionPrefix p; p.version = 1; p.unlockTime = t; newTxs.push_back(createTransactionPrefix(p, blob(2, t))); }
      }
    }
    meanwhile(bool(ec)); callback(ec);
  }
  // the rest of a node is of no use to a synchroniser
  void init(const Callback &c) override { c({}); } bool shutdown() override { return true; } size_t getPeerCount() const override { return 0; } uint64_t getLastLocalBlockTimestamp() const override { return 0; }
  void relayTransaction(const Transaction &, const Callback &c) override { c({}); }
  void getRandomOutsByAmounts(std::vector<uint64_t> &&, uint64_t, std::vector<COMMAND_RPC_GET_RANDOM_OUTPUTS_FOR_AMOUNTS::outs_for_amount> &, const Callback &c) override { c({}); }
  void getNewBlocks(std::vector<Hash> &&, std::vector<block_complete_entry> &, uint32_t &, const Callback &c) override { c({}); }
  void getTransactionOutsGlobalIndices(const Hash &, std::vector<uint32_t> &, const Callback &c) override { c({}); }
  void getMultisignatureOutputByGlobalIndex(uint64_t, uint32_t, MultisignatureOutput &, const Callback &c) override { c({}); }
  void getTransaction(const Hash &, Transaction &, const Callback &c) override { c({}); }
  void getBlocks(const std::vector<uint32_t> &, std::vector<std::vector<BlockDetails>> &, const Callback &c) override { c({}); }
  void getBlocks(const std::vector<Hash> &, std::vector<BlockDetails> &, const Callback &c) override { c({}); }
  void getBlocks(uint64_t, uint64_t, uint32_t, std::vector<BlockDetails> &, uint32_t &, const Callback &c) override { c({}); }
  void getTransactions(const std::vector<Hash> &, std::vector<TransactionDetails> &, const Callback &c) override { c({}); }
  void getTransactionsByPaymentId(const Hash &, std::vector<TransactionDetails> &, const Callback &c) override { c({}); }
  void getPoolTransactions(uint64_t, uint64_t, uint32_t, std::vector<TransactionDetails> &, uint64_t &, const Callback &c) override { c({}); }
  void isSynchronized(bool &, const Callback &c) override { c({}); }

  void synchronizationCompleted(std::error_code ec) override { ev(J().t("op", "completed").b("ok", !ec)); st.add(ec ? "completed with error" : "completed"); meanwhile(); }
  void synchronizationProgressUpdated(uint32_t, uint32_t) override { st.add("progress"); }

  // the user's side
  bool halted() { std::lock_guard<std::recursive_mutex> l(m); return halting; }
  void finish() { std::unique_ptr<std::thread> t; { std::lock_guard<std::recursive_mutex> l(m); t = std::move(stopper); } t->join(); ev(J().t("op", "stopped")); running = halting = up = false; check(); }
  void check() { for (auto &x : cons) if (x.in) known(x); }
  void hang() { ev(J().t("op", "hang")); out.flush(); st.write(dir + "/stats.json"); std::ofstream(dir + "/t.defs.json") << "{}\n"; _exit(0); }
  template <class Fu> void wait(Fu &f) { if (f.wait_for(std::chrono::seconds(25)) != std::future_status::ready) hang(); }
  // the request is refused exactly when the synchroniser is being stopped, or its thread has not come up yet
  template <class Fn> bool request(Fn fn) { try { auto f = fn(); wait(f); return f.get(), true; } catch (const std::runtime_error &) { if (!halted()) { if (++waited > 5000) hang(); usleep(1000); return request(fn); } finish(); return false; } }
  void settle() {
    static Hash none = blob(9, 1); loose = false;
    for (int n = 0; n < 400 && running; ++n) {
      int before; { std::lock_guard<std::recursive_mutex> l(m); before = events; if (n > 20) busy = trouble = 0, batch = 100; }
      for (int k = 0; k < 2; ++k) if (!request([&] { return sync->removeUnconfirmedTransaction(none); })) return;
      if (halted()) { finish(); return; }
      std::lock_guard<std::recursive_mutex> l(m);
      if (!halting && events == before) { ev(J().t("op", "settled")); st.add("settled"); return; }
    }
    if (running) hang();
  }
  template <class X> bool throws(X x) { try { x(); return false; } catch (const std::exception &) { return true; } }
  void join(Consumer &c, const Ids &ch) { c.in = true; c.chain = ch; c.pool.clear(); if (rng.p(30)) for (int t : pool) if (rng.p(60)) c.pool.insert(blob(2, t)); if (rng.p(20)) c.pool.insert(blob(2, ++freshTx)); ev(J().t("op", "join").n("c", c.id).raw("chain", jnums(ch)).raw("pool", jnums(c.pooled()))); }
  void known(Consumer &c) { Ids r; for (auto &h : sync->getConsumerKnownBlocks(c)) r.push_back(num(h)); ev(J().t("op", "known").n("c", c.id).raw("ids", jnums(r))); }
  Ids members() { Ids v; for (auto &c : cons) if (c.in) v.push_back(c.id); return v; }
  void leave(Consumer &c) { c.in = false; ev(J().t("op", "leave").n("c", c.id)); }
  void guard(bool stopped, bool threw) { ev(J().t("op", "guard").b("stopped", stopped).b("threw", threw)); }
  void step() {
    { std::lock_guard<std::recursive_mutex> l(m); trouble = rng.p(40) ? 0 : rng.u(25); busy = rng.p(40) ? 0 : rng.u(40); batch = 2 + rng.u(rng.p(50) ? 3 : 12); ahead = rng.p(4) ? 1 + rng.u(2) : 0; }
    int op = rng.u(100); Consumer &c = cons[rng.u(4)]; bool b = false, p = false;
    if (!running) {
      if (op < 25) { if (!c.in) { sync->addConsumer(&c); c.from = {rng.p(50) ? 0 : (uint64_t)(900 + rng.u(600)), 0}; join(c, Ids{0}); } }
      else if (op < 32) { if (c.in) { guard(true, !sync->removeConsumer(&c)); leave(c); guard(true, throws([&] { if (sync->removeConsumer(&c)) throw std::runtime_error("twice"); })); } }
      else if (op < 45) { if (c.in) { std::ostringstream o; sync->getConsumerState(&c)->save(o); saved.push_back({c.id, c.chain, o.str()}); known(c); } }
      else if (op < 55) { if (saved.size()) { auto &s = saved[rng.p(60) ? saved.size() - 1 : rng.u(saved.size())]; Consumer &k = cons[s.c];
          if (rng.p(30)) { for (auto &x : cons) if (x.in) leave(x); fresh(); }
          if (k.in) { sync->removeConsumer(&k); leave(k); }
          sync->addConsumer(&k); std::istringstream i(s.state); sync->getConsumerState(&k)->load(i); join(k, s.chain); known(k); st.add("state loaded"); } }
      else if (op < 65) change(rng, b, p, false);
      else if (op < 70) { Hash h = blob(2, 1); auto t = createTransactionPrefix(TransactionPrefix(), h); guard(false, throws([&] { sync->addUnconfirmedTransaction(*t); })); guard(false, throws([&] { sync->removeUnconfirmedTransaction(h); })); }
      else { running = members().size(); ev(J().t("op", "start").b("threw", !running)); bool t = throws([&] { sync->start(); }); if (t == running) hang(); { std::lock_guard<std::recursive_mutex> l(m); up = running; } st.add("started"); loose = true; }
      return;
    }
    if (loose && rng.p(50)) { change(rng, b, p, true); tell(rng, true, false); if (rng.p(30)) return; }
    else if (loose) settle();
    if (!running) return;
    if (op < 55) { settle(); if (!running) return; change(rng, b, p, false); tell(rng, b, p); if (b && rng.p(25)) { loose = true; return; } }
    else if (op < 66) { settle(); if (!running) return; tell(rng, rng.p(40), true); }
    else if (op < 76) {
      int id = ++freshTx; auto t = createTransactionPrefix(TransactionPrefix(), blob(2, id)); refuse = rng.p(30) ? rng.u(4) : -1; bool ok = false;
      if (rng.p(30)) { settle(); if (!running) return; std::lock_guard<std::recursive_mutex> l(m); pool.insert(freshTx); node(); tell(rng, false, true); }
      bool heard = request([&] { auto f = sync->addUnconfirmedTransaction(*t); wait(f); ok = !f.get(); std::promise<int> q; q.set_value(1); return q.get_future(); });
      if (heard) { ev(J().t("op", "addtx").n("t", id).b("ok", ok).n("refuse", refuse)); st.add(ok ? "put" : "put refused"); } refuse = -1; if (!heard) return; }
    else if (op < 82) {
      Ids all; { std::lock_guard<std::recursive_mutex> l(m); for (auto &x : cons) if (x.in && !loose) for (int t : x.pooled()) all.push_back(t); } int t = all.size() && rng.p(80) ? rng.pick(all) : 999999; static Hash h; h = blob(2, t); asked.clear();
      if (!request([&] { return sync->removeUnconfirmedTransaction(h); })) return;
      std::lock_guard<std::recursive_mutex> l(m); std::sort(asked.begin(), asked.end()); ev(J().t("op", "removetx").n("t", t).raw("asked", jnums(asked))); }
    else if (op < 86) { settle(); if (!running) return; guard(true, throws([&] { Consumer x; sync->addConsumer(&x); })); guard(true, throws([&] { sync->removeConsumer(&c); })); guard(true, throws([&] { sync->getConsumerState(&c); })); guard(true, throws([&] { sync->getConsumerKnownBlocks(c); })); ev(J().t("op", "start").b("threw", throws([&] { sync->start(); }))); }
    else if (op < 94) { bool mine; { std::lock_guard<std::recursive_mutex> l(m); mine = !halting; halting = true; if (mine) ev(J().t("op", "stopping")); } if (mine) { sync->stop(); ev(J().t("op", "stopped")); running = halting = up = false; check(); } else finish(); return; }
    settle();
  }
};
void Consumer::onBlockchainDetach(uint32_t h) { d->ev(J().t("op", "detach").n("c", id).n("h", h)); chain.resize(std::min<size_t>(h, chain.size())); d->st.add("detached"); d->meanwhile(); }
bool Consumer::onNewBlocks(const CompleteBlock *b, uint32_t start, uint32_t count) {
  Ids ids; std::vector<int> full; bool content = true, ok; bool thrown;
  { std::lock_guard<std::recursive_mutex> l(d->m);
    for (uint32_t i = 0; i < count; ++i) {
      int n = num(b[i].blockHash); ids.push_back(n); full.push_back(!!b[i].block);
      if (!b[i].block) { content = content && b[i].transactions.empty(); continue; }
      content = content && b[i].block->nonce == (uint32_t)n && b[i].block->timestamp == d->blk[n].ts && (int)b[i].transactions.size() == d->blk[n].txs + 1; int k = -1;
      for (auto &t : b[i].transactions) { content = content && (k < 0 ? t->getTransactionHash() == getObjectHash(d->block(n).baseTransaction) && t->getUnlockTime() == (uint64_t)n : t->getTransactionHash() == blob(3, n * 4 + k) && t->getUnlockTime() == (uint64_t)(n * 4 + k)); ++k; }
    }
    ok = !d->wr.p(d->trouble); thrown = !ok && d->wr.p(30); }
  d->meanwhile();
  d->ev(J().t("op", "blocks").n("c", id).n("start", start).raw("ids", jnums(ids)).raw("full", jarr(full, [](int x) { return std::string(x ? "true" : "false"); })).b("content", content).b("ok", ok)); d->st.add(ok ? "blocks taken" : "blocks refused");
  if (ok) chain.insert(chain.end(), ids.begin(), ids.end()); if (thrown) throw std::runtime_error("cannot");
  return ok;
}
std::error_code Consumer::onPoolUpdated(const std::vector<std::unique_ptr<ITransactionReader>> &added, const std::vector<Hash> &deleted) {
  Ids a, g; bool content = true, ok;
  { std::lock_guard<std::recursive_mutex> l(d->m); for (auto &t : added) { a.push_back(num(t->getTransactionHash())); content = content && t->getUnlockTime() == (uint64_t)a.back(); } for (auto &h : deleted) g.push_back(num(h)); ok = !d->wr.p(d->trouble); }
  d->meanwhile();
  if (ok) { for (auto &h : deleted) pool.erase(h); for (auto &t : added) pool.insert(t->getTransactionHash()); }
  d->ev(J().t("op", "pool").n("c", id).raw("add", jnums(a)).raw("del", jnums(g)).b("content", content).b("ok", ok)); d->st.add(ok ? "pool taken" : "pool refused");
  return ok ? std::error_code() : std::make_error_code(std::errc::io_error);
}
std::error_code Consumer::addUnconfirmedTransaction(const ITransactionReader &t) { bool ok = d->refuse != id; d->ev(J().t("op", "put").n("c", id).n("t", num(t.getTransactionHash())).b("ok", ok)); if (!ok) return std::make_error_code(std::errc::io_error); pool.insert(t.getTransactionHash()); return {}; }
void Consumer::removeUnconfirmedTransaction(const Hash &h) { if (((const unsigned char *)&h)[0] == 9) return; std::lock_guard<std::recursive_mutex> l(d->m); d->asked.push_back(id); d->ev(J().t("op", "take").n("c", id).n("t", num(h))); pool.erase(h); }
int main(int, char **v) {
  Driver d(atoll(v[1]), v[2]); d.ev(J().t("op", "init")); d.grow(d.rng, d.rng.u(12)); d.node();
  for (int n = atoi(v[3]), i = 0; i < n; ++i) d.step();
  d.settle(); if (d.running) { d.ev(J().t("op", "stopping")); d.sync->stop(); d.ev(J().t("op", "stopped")); d.check(); }
  d.out.flush(); d.st.write(std::string(v[2]) + "/stats.json"); std::ofstream(std::string(v[2]) + "/t.defs.json") << "{}\n"; _exit(0);
}
