// Drives a TransfersContainer through a generated history.  usage: transfers <seed> <dir> <ops>
#include "jw.h"
#include "Transfers/TransfersContainer.h"
#include "CryptoNoteCore/Currency.h"
#include "Logging/ILogger.h"
#include "IWalletLegacy.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include <set>
#include <sstream>
using namespace cn; using crypto::Hash;
extern "C" time_t g_virtual_time;
struct Null : logging::ILogger { void operator()(const std::string &, logging::Level, boost::posix_time::ptime, const std::string &) override {} };
static const uint32_t UNCONF = WALLET_LEGACY_UNCONFIRMED_TRANSACTION_HEIGHT;
template <class X> static X blob(int kind, int n) { X x; memset(&x, 0, sizeof x); unsigned char *p = (unsigned char *)&x; uint64_t h = (uint64_t)n * 0x9E3779B97F4A7C15ull + kind; for (size_t i = 0; i < sizeof x; ++i) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; p[i] = h >> 32; } p[8] = kind; return x; }

struct In { int ty; int ki; uint64_t a; uint32_t g; };
struct Out { int k, ty; uint64_t a; int ki; uint32_t term; };
struct Tx : ITransactionReader {
  int id; uint64_t unlock; std::vector<In> ins; std::vector<Out> outs; int nouts; bool pid;
  Hash getTransactionHash() const override { return blob<Hash>(1, id); }
  Hash getTransactionPrefixHash() const override { return blob<Hash>(2, id); }
  Hash getTransactionInputsHash() const override { return blob<Hash>(3, id); }
  crypto::PublicKey getTransactionPublicKey() const override { return blob<crypto::PublicKey>(4, id); }
  bool getTransactionSecretKey(crypto::SecretKey &) const override { return false; }
  uint64_t getUnlockTime() const override { return unlock; }
  bool getPaymentId(Hash &p) const override { if (!pid) return false; p = blob<Hash>(5, id); return true; }
  bool getExtraNonce(BinaryArray &) const override { return false; }
  BinaryArray getExtra() const override { return BinaryArray(1 + id % 7, (uint8_t)id); }
  size_t getInputCount() const override { return ins.size(); }
  uint64_t getInputTotalAmount() const override { uint64_t s = 0; for (auto &i : ins) s += i.a; return s + 11; }
  transaction_types::InputType getInputType(size_t i) const override { return ins[i].ty == 1 ? transaction_types::InputType::Key : ins[i].ty == 2 ? transaction_types::InputType::Multisignature : transaction_types::InputType::Generating; }
  void getInput(size_t i, KeyInput &k) const override { k.amount = ins[i].a; k.keyImage = blob<crypto::KeyImage>(6, ins[i].ki); k.outputIndexes = {1}; }
  void getInput(size_t i, MultisignatureInput &m) const override { m.amount = ins[i].a; m.outputIndex = ins[i].g; m.signatureCount = 1; m.term = 0; }
  std::vector<TransactionInput> getInputs() const override { return {}; }
  size_t getOutputCount() const override { return nouts; }
  uint64_t getOutputTotalAmount() const override { uint64_t s = 0; for (auto &o : outs) s += o.a; return s + 5; }
  transaction_types::OutputType getOutputType(size_t i) const override { for (auto &o : outs) if (o.k == (int)i) return o.ty == 1 ? transaction_types::OutputType::Key : transaction_types::OutputType::Multisignature; return transaction_types::OutputType::Key; }
  void getOutput(size_t, KeyOutput &, uint64_t &) const override {}
  void getOutput(size_t, MultisignatureOutput &, uint64_t &) const override {}
  size_t getRequiredSignaturesCount(size_t) const override { return 1; }
  bool findOutputsToAccount(const AccountPublicAddress &, const crypto::SecretKey &, std::vector<uint32_t> &, uint64_t &) const override { return false; }
  bool validateInputs() const override { return true; }
  bool validateOutputs() const override { return true; }
  bool validateSignatures() const override { return true; }
  BinaryArray getTransactionData() const override { return {}; }
  TransactionPrefix getTransactionPrefix() const override { return {}; }
  std::vector<TransactionOutputInformationIn> transfers(const std::vector<uint32_t> &g) const {
    std::vector<TransactionOutputInformationIn> r;
    for (size_t j = 0; j < outs.size(); ++j) {
      auto &o = outs[j]; TransactionOutputInformationIn t; memset((void *)&t, 0, sizeof t);
      t.type = o.ty == 1 ? transaction_types::OutputType::Key : transaction_types::OutputType::Multisignature; t.amount = o.a; t.globalOutputIndex = g.empty() ? UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX : g[j]; t.outputInTransaction = o.k; t.transactionHash = getTransactionHash(); t.transactionPublicKey = getTransactionPublicKey();
      if (o.ty == 1) { t.outputKey = blob<crypto::PublicKey>(7, id * 64 + o.k); t.keyImage = blob<crypto::KeyImage>(6, o.ki); } else { t.requiredSignatures = 1 + o.k % 3; t.term = o.term; }
      r.push_back(t);
    }
    return r;
  }
};

// the driver's own idea of the state; only used to generate sensible steps
struct Led { int64_t h; uint32_t x; std::vector<uint32_t> g; };

int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[1], 0, 10); std::string dir = argv[2]; int ops = atoi(argv[3]); Rng rng(seed); Null lg; Stats st;
  Currency cu = CurrencyBuilder(lg).currency(); size_t age = rng.pick(std::vector<size_t>{1, 1, 2, 5, 10});
  std::unique_ptr<TransfersContainer> c(new TransfersContainer(cu, age)); std::vector<Tx> T; std::map<Hash, int, bool (*)(const Hash &, const Hash &)> ids([](const Hash &a, const Hash &b) { return memcmp(&a, &b, 32) < 0; });
  std::map<int, Led> led; std::map<std::pair<int, int>, int> sp; uint32_t H = 0; std::map<uint32_t, uint32_t> pos; uint32_t nextG = 1; int nki = 0;
  std::ofstream f(dir + "/trace.ndjson");
  auto oid = [&](const TransactionOutputInformation &o) -> std::pair<int, int> { auto it = ids.find(o.transactionHash); if (it == ids.end()) return {0, 0}; Tx &t = T[it->second - 1]; for (size_t j = 0; j < t.outs.size(); ++j) if (t.outs[j].k == (int)o.outputInTransaction) return {it->second, (int)j + 1}; return {it->second, 0}; };
  // [tx, output, global index, everything else as given]
  auto jout = [&](const TransactionOutputInformation &o) { auto i = oid(o); bool ok = i.second > 0; if (ok) { Tx &t = T[i.first - 1]; auto w = t.transfers({})[i.second - 1]; ok = o.type == w.type && o.amount == w.amount && !memcmp(&o.transactionPublicKey, &w.transactionPublicKey, 32) && (o.type == transaction_types::OutputType::Key ? !memcmp(&o.outputKey, &w.outputKey, 32) : o.requiredSignatures == w.requiredSignatures && o.term == w.term); }
    return "[" + std::to_string(i.first) + "," + std::to_string(i.second) + "," + std::to_string(o.globalOutputIndex == UNCONFIRMED_TRANSACTION_GLOBAL_OUTPUT_INDEX ? -1 : (int64_t)o.globalOutputIndex) + (ok ? ",1]" : ",0]"); };
  auto jouts = [&](const std::vector<TransactionOutputInformation> &v) { return jarr(v, jout); };
  auto bits = [&](uint32_t fl) { std::vector<int> s; for (int b : {1, 2, 4, 8}) if (fl & b) s.push_back(b); std::vector<int> k; for (int b : {1, 2, 4}) if (fl & (b << 8)) k.push_back(b); return "\"s\":" + jnums(s) + ",\"k\":" + jnums(k); };
  auto observe = [&](J &j) {
    std::vector<uint32_t> fl{0xffff, ITransfersContainer::IncludeAllLocked, ITransfersContainer::IncludeAllUnlocked, ITransfersContainer::IncludeDefault}; for (int q = 0; q < 3; ++q) fl.push_back(rng.u(16) | (rng.r(1, 7) << 8));
    j.raw("q", jarr(fl, [&](uint32_t x) { std::vector<TransactionOutputInformation> v; c->getOutputs(v, x); return "{" + bits(x) + ",\"b\":" + std::to_string(c->balance(x)) + ",\"o\":" + jouts(v) + "}"; }));
    j.n("tc", c->transfersCount()).n("xc", c->transactionsCount());
    std::vector<int> some; for (size_t t = 1; t <= T.size(); ++t) if (led.count(t) || rng.p(20)) some.push_back(t);
    j.raw("tx", jarr(some, [&](int t) { TransactionInformation i; uint64_t ai = 7, ao = 7; bool r = c->getTransactionInformation(T[t - 1].getTransactionHash(), i, &ai, &ao); Tx &x = T[t - 1]; J k; k.n("t", t).b("r", r); if (r) { Hash pid = NULL_HASH; x.getPaymentId(pid);
      k.n("h", i.blockHeight == UNCONF ? -1 : (int64_t)i.blockHeight).n("ts", i.timestamp).n("in", ai).n("out", ao).b("ok", i.transactionHash == x.getTransactionHash() && i.publicKey == x.getTransactionPublicKey() && i.unlockTime == x.unlock && i.totalAmountIn == x.getInputTotalAmount() && i.totalAmountOut == x.getOutputTotalAmount() && i.extra == x.getExtra() && i.paymentId == pid && i.messages == std::vector<std::string>{"m" + std::to_string(t)}); }
      uint32_t a = rng.p(40) ? 0xffff : rng.u(16) | (rng.r(1, 7) << 8), b = rng.r(1, 7) << 8; k.raw("o", "{" + bits(a) + ",\"l\":" + jouts(c->getTransactionOutputs(x.getTransactionHash(), a)) + "}").raw("i", "{" + bits(b) + ",\"l\":" + jouts(c->getTransactionInputs(x.getTransactionHash(), b)) + "}");
      k.raw("st", jarr(x.outs, [&](const Out &o) { TransactionOutputInformation tr; memset((void *)&tr, 0, sizeof tr); ITransfersContainer::TransferState s; if (!c->getTransfer(x.getTransactionHash(), o.k, tr, s)) return std::string("[-1]"); return "[" + std::to_string((int)s) + "," + jout(tr) + "]"; }));
      return k.str(); }));
    std::vector<Hash> u(2); c->getUnconfirmedTransactions(u); j.raw("un", jarr(u, [&](const Hash &h) { auto it = ids.find(h); return std::to_string(it == ids.end() ? 0 : it->second); }));
    j.raw("sp", jarr(c->getSpentOutputs(), [&](const TransactionSpentOutputInformation &s) { auto i = oid(s); bool ok = i.second > 0 && (s.type != transaction_types::OutputType::Key || s.keyImage == blob<crypto::KeyImage>(6, T[i.first - 1].outs[i.second - 1].ki)); auto it = ids.find(s.spendingTransactionHash); J k; k.raw("o", jout(s)).n("h", s.spendingBlockHeight == UNCONF ? -1 : (int64_t)s.spendingBlockHeight).n("ts", s.timestamp).n("t", it == ids.end() ? 0 : it->second).n("i", s.inputInTransaction + 1).b("ok", ok); return k.str(); }));
    j.n("now", g_virtual_time);
  };
  auto spent = [&](std::pair<int, int> o) { return sp.count(o) > 0; };
  auto kiOf = [&](std::pair<int, int> o) { return T[o.first - 1].outs[o.second - 1].ki; };
  // applies a spend to the driver's idea of the state; false: the container will refuse
  auto before = [&](std::pair<int, int> a, std::pair<int, int> b) { auto &x = led[a.first], &y = led[b.first]; return x.h < y.h || (x.h == y.h && x.x < y.x); };
  auto spend = [&](int t, std::map<std::pair<int, int>, int> &s) { for (auto &in : T[t - 1].ins) {
      std::vector<std::pair<int, int>> av, un; bool used = false;
      for (auto &l : led) for (size_t j = 0; j < T[l.first - 1].outs.size(); ++j) { auto &o = T[l.first - 1].outs[j]; std::pair<int, int> id{l.first, (int)j + 1}; if (in.ty == 1 ? !(o.ty == 1 && o.ki == in.ki) : !(in.ty == 2 && o.ty == 2 && o.a == in.a && l.second.h >= 0 && l.second.g[j] == in.g)) continue; if (s.count(id)) used = true; else if (l.second.h < 0) un.push_back(id); else av.push_back(id); }
      if (in.ty == 1 && used) return false; if (av.empty()) { if (in.ty == 1 && !un.empty()) return false; continue; }
      std::vector<std::pair<int, int>> fit; for (auto &a : av) if (in.ty == 2 || T[a.first - 1].outs[a.second - 1].a == in.a) fit.push_back(a); if (fit.empty()) return false; s[*std::min_element(fit.begin(), fit.end(), before)] = t; }
    return true; };
  auto drop = [&](const std::set<int> &gone) { for (int t : gone) led.erase(t); for (auto it = sp.begin(); it != sp.end();) if (gone.count(it->second) || gone.count(it->first.first)) it = sp.erase(it); else ++it; };
  auto tip = [&]() { int64_t h = H; for (auto &l : led) h = std::max(h, l.second.h); return (uint32_t)h; };
  auto jtx = [&](const Tx &t) { return J().n("unlock", t.unlock).raw("ins", jarr(t.ins, [](const In &i) { return J().n("ty", i.ty).n("ki", i.ki).n("a", i.a).n("g", i.g).str(); })).raw("outs", jarr(t.outs, [](const Out &o) { return J().n("k", o.k).n("ty", o.ty).n("a", o.a).n("ki", o.ki).n("term", o.term).str(); })).str(); };
  auto fresh = [&]() { // a new transaction: pays the wallet, spends from it, or both
    Tx t; t.id = T.size() + 1; t.pid = rng.p(40); t.unlock = rng.p(55) ? 0 : rng.p(70) ? H + rng.r(-3, 8) > 0x7fffffff ? 0 : std::max<int64_t>(0, (int64_t)H + rng.r(-3, 8)) : g_virtual_time + 120 + rng.r(-3, 3) * 60; int no = rng.u(4), k = 0; std::vector<int> kis;
    for (int j = 0; j < no; ++j) { Out o; k += rng.u(2); o.k = k++; o.ty = rng.p(65) ? 1 : 2; o.a = rng.p(60) ? rng.r(1, 6) * 100 : rng.r(1, 2000000); o.ki = 0; o.term = 0; if (o.ty == 1) { o.ki = nki > 2 && rng.p(25) ? rng.r(1, nki) : ++nki; if (std::count(kis.begin(), kis.end(), o.ki)) o.ki = ++nki; kis.push_back(o.ki); if (rng.p(50)) o.a = 100 * rng.r(1, 3); } else o.term = rng.p(35) ? 0 : rng.r(1, 9); t.outs.push_back(o); }
    t.nouts = k + rng.u(3) + 1; int ni = rng.u(4); std::vector<std::pair<int, int>> own; for (auto &l : led) for (size_t j = 0; j < T[l.first - 1].outs.size(); ++j) own.push_back({l.first, (int)j + 1}); std::set<int> used; std::set<std::pair<uint64_t, uint32_t>> usedm;
    for (int j = 0; j < ni; ++j) { In i{1, 0, 1, 0}; if (own.empty() || rng.p(25)) { int z = rng.u(3); i.ty = z; i.a = 100; if (z == 1) i.ki = ++nki; else if (z == 2) { i.g = 900000 + rng.u(100); } }
      else { auto o = rng.pick(own); auto &w = T[o.first - 1].outs[o.second - 1]; i.ty = w.ty; i.a = w.a; if (w.ty == 1) { i.ki = w.ki; if (used.count(i.ki)) continue; used.insert(i.ki); if (std::count(kis.begin(), kis.end(), i.ki)) continue; } else { if (led[o.first].h < 0) continue; i.g = led[o.first].g[o.second - 1]; if (!usedm.insert({i.a, i.g}).second) continue; } }
      t.ins.push_back(i); }
    return t; };
  f << "{\"age\":" << age << "}\n"; std::map<int, std::vector<uint32_t>> gids;
  std::vector<std::string> defs;
  for (int n = 0; n < ops; ++n) {
    J j; int k = rng.u(100); std::string op;
    std::vector<int> un; for (auto &l : led) if (l.second.h < 0) un.push_back(l.first);
    auto place = [&](uint32_t h) { return pos[h]++; };
    auto hit = [&](const std::vector<TransactionOutputInformation> &v) { j.raw("hit", jouts(v)); };
    if (k < 42) {
      op = "add"; int id; bool again = !T.empty() && rng.p(22); if (again) id = rng.r(1, T.size()); else { T.push_back(fresh()); id = T.size(); ids[T.back().getTransactionHash()] = id; defs.push_back(jtx(T.back())); }
      Tx &t = T[id - 1]; bool conf = rng.p(60); int64_t h = conf ? (int64_t)tip() + (rng.p(35) ? 0 : rng.p(80) ? rng.r(0, 3) : rng.r(0, 15)) : -1; if (conf && H > 0 && rng.p(4)) h = rng.u(H);
      auto s = sp; bool known = led.count(id), low = h >= 0 && h < H, fits; std::vector<uint32_t> g; if (conf) for (size_t q = 0; q < t.outs.size(); ++q) g.push_back(nextG++);
      led.insert({id, Led{h, 0, g}}); fits = known || spend(id, s); if (!known) led.erase(id);
      if (!known && !low && !fits && (!t.outs.empty() || s != sp)) { --n; if (!again) { T.pop_back(); defs.pop_back(); ids.erase(ids.find(t.getTransactionHash())); } continue; } // would be left half done
      uint32_t x = conf ? place(h) : 0; TransactionBlockInfo bi{conf ? (uint32_t)h : UNCONF, conf ? 1000u + (uint32_t)h * 7 : 5u, x}; std::vector<TransactionOutputInformation> ul; bool ok = true, ret = false; try { ret = c->addTransaction(bi, t, t.transfers(g), {"m" + std::to_string(id)}, &ul); } catch (const std::exception &) { ok = false; }
      j.n("t", id).n("h", h).n("x", x).n("ts", bi.timestamp).raw("g", jnums(g)).b("ok", ok).b("ret", ret); hit(ul); st.add(!ok ? "transfers.refused" : conf ? "transfers.block" : "transfers.pool");
      if (!known && !low && fits) { if (!t.outs.empty() || s != sp) { led[id] = Led{h, x, g}; sp = s; } if (h >= 0) H = h; }
    } else if (k < 55) {
      op = "confirm"; int id = !un.empty() && rng.p(90) ? rng.pick(un) : T.empty() ? 0 : rng.r(1, T.size()); if (!id) { --n; continue; } uint32_t h = tip() + (rng.p(50) ? 0 : rng.u(3)); std::vector<uint32_t> g, all(T[id - 1].nouts + 1, 7777); for (auto &o : T[id - 1].outs) { g.push_back(nextG); all[o.k] = nextG++; } uint32_t x = place(h); bool ok = true, ret = false;
      try { ret = c->markTransactionConfirmed(TransactionBlockInfo{h, 1000 + h * 7, x}, T[id - 1].getTransactionHash(), all); } catch (const std::exception &) { ok = false; }
      j.n("t", id).n("h", h).n("x", x).n("ts", 1000 + h * 7).raw("g", jnums(g)).b("ok", ok).b("ret", ret); st.add("transfers.confirm"); if (led.count(id) && led[id].h < 0) led[id] = Led{h, x, g};
    } else if (k < 60) {
      op = "delete"; int id = !un.empty() && rng.p(80) ? rng.pick(un) : T.empty() ? 0 : rng.r(1, T.size()); if (!id) { --n; continue; } bool ret = c->deleteUnconfirmedTransaction(T[id - 1].getTransactionHash()); j.n("t", id).b("ret", ret); st.add("transfers.delete"); if (led.count(id) && led[id].h < 0) drop({id});
    } else if (k < 75) {
      op = "advance"; int64_t h = rng.p(8) && H ? rng.u(H) : (int64_t)H + rng.u(rng.p(70) ? 3 : 12); if (h >= H && h < tip() && rng.p(80)) h = tip(); bool ok = true; std::vector<TransactionOutputInformation> v; try { v = c->advanceHeight(h); } catch (const std::exception &) { ok = false; }
      j.n("h", h).b("ok", ok); hit(v); st.add("transfers.advance"); if (h >= H) H = h;
    } else if (k < 85) {
      op = "detach"; uint32_t h = rng.p(15) ? rng.u(tip() + 1) : std::max<int64_t>(0, (int64_t)tip() - (int64_t)rng.u(6)); std::vector<Hash> gone; std::vector<TransactionOutputInformation> lk; c->detach(h, gone, lk);
      j.n("h", h).raw("gone", jarr(gone, [&](const Hash &x) { auto it = ids.find(x); return std::to_string(it == ids.end() ? 0 : it->second); })); hit(lk); st.add("transfers.detach");
      std::set<int> dead; for (auto &l : led) if (l.second.h >= (int64_t)h) dead.insert(l.first); else if (l.second.h < 0) for (auto &s : sp) if (s.second == l.first && led[s.first.first].h >= (int64_t)h) dead.insert(l.first); drop(dead); H = h ? h - 1 : 0; for (auto it = pos.lower_bound(h); it != pos.end();) it = pos.erase(it);
    } else if (k < 90) { op = "tick"; g_virtual_time += rng.r(0, 200); st.add("transfers.tick"); }
    else if (k < 97) {
      op = "reload"; std::stringstream ss; c->save(ss); std::string b = ss.str(); bool v0 = rng.p(20); if (v0 && !b.empty()) b[0] = 0; std::stringstream in(b); c.reset(new TransfersContainer(cu, age)); bool ok = true; try { c->load(in); } catch (const std::exception &) { ok = false; } j.b("ok", ok); st.add(v0 ? "transfers.load0" : "transfers.load");
    } else {
      op = "torn"; std::stringstream ss; c->save(ss); std::string b = ss.str(); b.resize(rng.u(b.size())); std::stringstream in(b); bool ok = true; try { c->load(in); } catch (const std::exception &) { ok = false; } j.b("ok", ok); st.add("transfers.torn");
    }
    j.t("op", op); observe(j); f << j.str() << "\n";
  }
  std::ofstream(dir + "/trace.defs.json") << "{\"age\":" << age << ",\"T\":[" << [&] { std::string s; for (size_t i = 0; i < defs.size(); ++i) s += (i ? "," : "") + defs[i]; return s; }() << "]}";
  st.write(dir + "/stats.json");
}
