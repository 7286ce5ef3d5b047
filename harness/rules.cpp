// Evaluates the currency rules on generated arguments.  usage: rules <seed> <dir> <main|test|custom> <count> <group>
#include "chain_types.h"
#include <cstring>
#include "CryptoNoteCore/TransactionUtils.h"
#include "CryptoNoteCore/TransactionPool.h"
#include "CryptoNoteCore/CryptoNoteBasicImpl.h"
#include "CryptoNoteCore/TransactionPool.h"
using namespace cn;
struct Null : logging::ILogger { void operator()(const std::string &, logging::Level, boost::posix_time::ptime, const std::string &) override {} };
struct Clock : ITimeProvider { time_t now() override { return 0; } };
struct V : ITransactionValidator {
  bool checkTransactionInputs(const cn::Transaction &, BlockInfo &) override { return true; } bool checkTransactionInputs(const cn::Transaction &, BlockInfo &, BlockInfo &) override { return true; }
  bool haveSpentKeyImages(const cn::Transaction &) override { return false; } bool checkTransactionSize(size_t) override { return true; }
};
static std::string big(u64 v) { std::string s = "["; while (v) { s += std::to_string(v % 10000); v /= 10000; if (v) s += ","; } return s + "]"; }
static std::string jbig(u64 v) { return big(v); }

int main(int argc, char **argv) {
  u64 seed = strtoull(argv[1], 0, 10); std::string dir = argv[2], prof = argv[3], group = argv[5]; int count = atoi(argv[4]); Rng rng(seed); Null lg; Stats st; g_random_state = seed * 7919 + 88172645463325252ull;
  // the published parameters of the two networks; for "custom" some of them varied
  struct { u64 uh[5] = {1, 12750, 104200, 195765, 661300}; uint32_t minTerm = 5040, maxTerm = 262800, maxTerm1 = 1296000, minTerm3 = 21900, maxTerm3 = 262800, dh3 = 413400, dh4 = 1162162, missing = 425799; u64 dmin = 1000000, zone = 100000, maxinit = 1000000, num = 102400, den = 262800;
    int win = 720, cut = 60, lag = 15, tcw = 30, tcw1 = 11, rbw = 100, unlockw = 10; u64 ftl = 7200, ftl1 = 360; bool zawy2 = true; uint32_t zawyidx = 0; u64 guess = 7200000; u64 dust = 10; bool testnet = false; u64 fusmax = 30000, fusmin = 12, fusratio = 4; } c;
  CurrencyBuilder cb(lg);
  if (prof == "test") { c.testnet = true; u64 t[5] = {1, 12, 48, 60, 72}; memcpy(c.uh, t, sizeof t); c.minTerm = c.minTerm3 = 30; c.maxTerm = c.maxTerm3 = 360; c.dh3 = 60; c.dh4 = 300000; c.missing = 0; c.guess = 10; cb.testnet(true); }
  if (prof == "custom") {
    u64 h = rng.r(1, 3000); for (int k = 0; k < 5; ++k) { c.uh[k] = h; h += rng.r(1, 200000); } c.minTerm3 = rng.pick(std::vector<uint32_t>{21900, 5040, 10000, 777}); c.maxTerm3 = c.minTerm3 * rng.r(1, 14); c.maxTerm1 = rng.pick(std::vector<uint32_t>{1296000, 648000, 400000}); c.dh3 = rng.r(10, 600000); c.dh4 = c.dh3 + rng.r(1, 900000); c.missing = rng.r(100000, 900000);
    c.dmin = rng.r(1, 5000000); c.zone = rng.r(1000, 400000); c.maxinit = rng.r(10000, 3000000); c.num = rng.r(1, 300000); c.den = rng.r(1, 300000); c.win = rng.r(17, 80); c.cut = rng.u((c.win - 2) / 2); c.lag = rng.u(20); c.zawy2 = rng.p(40); c.zawyidx = rng.p(50) ? rng.r(1, 900) : 0; c.unlockw = rng.r(1, 60);
    cb.upgradeHeightV2(c.uh[0]).upgradeHeightV3(c.uh[1]).upgradeHeightV6(c.uh[2]).upgradeHeightV7(c.uh[3]).upgradeHeightV8(c.uh[4]).depositMinTermV3(c.minTerm3).depositMaxTermV3(c.maxTerm3).depositMaxTermV1(c.maxTerm1).depositHeightV3(c.dh3).depositHeightV4(c.dh4).blockWithMissingInterest(c.missing)
      .depositMinAmount(c.dmin).blockGrantedFullRewardZone(c.zone).maxBlockSizeInitial(c.maxinit).maxBlockSizeGrowthSpeedNumerator(c.num).maxBlockSizeGrowthSpeedDenominator(c.den).zawyDifficultyV2(c.zawy2).zawyDifficultyBlockIndex(c.zawyidx).minedMoneyUnlockWindow(c.unlockw);
    cb.difficultyWindow(c.win); cb.difficultyLag(c.lag); cb.difficultyCut(c.cut);
  }
  Currency cu = cb.currency();
  { J j; j.raw("uh", jnums(std::vector<u64>(c.uh, c.uh + 5))).n("minTerm", c.minTerm).n("maxTerm", c.maxTerm).n("maxTerm1", c.maxTerm1).n("minTerm3", c.minTerm3).n("maxTerm3", c.maxTerm3).n("dh3", c.dh3).n("dh4", c.dh4).n("missing", c.missing).raw("dmin", jbig(c.dmin)).n("zone", c.zone).n("maxinit", c.maxinit).n("num", c.num).n("den", c.den)
    .n("win", c.win).n("cut", c.cut).n("lag", c.lag).n("tcw", c.tcw).n("tcw1", c.tcw1).n("rbw", c.rbw).n("unlockw", c.unlockw).n("ftl", c.ftl).n("ftl1", c.ftl1).b("zawy2", c.zawy2).n("zawyidx", c.zawyidx).n("guess", c.guess).n("dust", c.dust).n("fusmax", c.fusmax).n("fusmin", c.fusmin).n("fusratio", c.fusratio);
    std::ofstream(dir + "/trace.defs.json") << "{\"cfg\":" << j.str() << "}"; }
  std::ofstream f(dir + "/trace.ndjson");
  Clock clk; V val; tx_memory_pool pool(cu, val, clk, lg); Blockchain bc(cu, pool, lg, false, false);
  std::vector<u64> hs{0, 1, 2, 12749, 12750, 12751, 13499, 13500, 21899, 21900, 21901, 43799, 43800, 1072999, c.dh3, c.dh3 + 1, c.dh4, c.dh4 + 1, (u64)c.missing, (u64)c.missing + 1}; for (int k = 0; k < 5; ++k) for (int d = -1; d < 2; ++d) hs.push_back(c.uh[k] + d);
  auto height = [&](u64 cap) { for (;;) { u64 h = rng.p(45) ? rng.pick(hs) + (rng.p(25) ? rng.r(-2, 2) : 0) : rng.p(50) ? rng.u(1100000) : rng.p(50) ? rng.u(400) : rng.u(48) * 21900 + rng.r(0, 1); if ((int64_t)h >= 0 && h < cap) return h; } };
  auto amount = [&]() -> u64 { switch (rng.u(6)) { case 0: return rng.pick(std::vector<u64>{9999, 10000, 10001, 19999, 20000, 20001, 110000, 110001, 179999, 180000, 260000, 350000, 450000, 559999, 560000, 680000, 810000, 950000, 1100000, 1260000, 1430000, 1610000, 1799999, 1800000, 1999999, 2000000, 2000001}) * 1000000 + (rng.p(50) ? 0 : rng.p(50) ? rng.u(1000000) : (u64)-1);
    case 1: return rng.u(200000000000000ull); case 2: return rng.u(5000000000000ull); case 3: return rng.u(30000) * 1000000; case 4: return rng.u(2000000); default: { u64 a = 1; for (int k = rng.u(14); k; --k) a *= 10; return a * (1 + rng.u(9)); } } };
  auto term = [&]() -> uint32_t { switch (rng.u(6)) { case 0: return c.minTerm3 * rng.r(1, 14); case 1: return 64800 * rng.r(1, 20); case 2: return 5040 * rng.r(1, 60); case 3: return rng.r(1, 400000); case 4: return rng.pick(std::vector<uint32_t>{c.minTerm - 1, c.minTerm, c.maxTerm, c.maxTerm + 1, c.maxTerm1 - 1, c.maxTerm1, c.maxTerm1 + 1, c.minTerm3 - 1, c.minTerm3, c.minTerm3 + 1, c.maxTerm3 - 1, c.maxTerm3, c.maxTerm3 + 1, c.maxTerm3 + c.minTerm3}); default: return c.minTerm3 * rng.r(1, 12) + rng.r(-1, 1); } };
  auto size = [&](u64 med) -> u64 { u64 m = std::max<u64>(med, c.zone); return rng.p(20) ? rng.u(m) : rng.p(40) ? m + rng.r(-1, 2) : rng.p(40) ? 2 * m + rng.r(-2, 2) : m + rng.u(m); };
  u64 top = c.uh[4] + 1000000, rewardCap = std::max<u64>(std::min<u64>(c.uh[4], 1073100) + 1, 2);
  auto rheight = [&]() { for (;;) { u64 h = height(3000000); if (h > c.uh[4] || h < rewardCap) return h; } };
  const std::string groups[] = {"reward", "interest", "deposit", "difficulty", "version", "amounts", "checkpoint", "fusion"};
  for (int n = 0; n < count; ++n) {
    std::string g = group == "all" ? groups[rng.u(8)] : group; J j; st.add("rules." + g);
    if (g == "reward") {
      if (rng.p(15)) { u64 h = height(top); j.t("op", "maxsize").n("h", h).raw("r", jbig(cu.maxBlockCumulativeSize(h))); }
      else if (rng.p(25)) {
        u64 h = rheight(), med = rng.p(50) ? rng.u(c.zone) : rng.u(500000), gen = rng.p(80) ? rng.u(150000000000000ull) : 200000000000000ull - rng.u(20000000), fee = rng.p(30) ? 0 : amount(); size_t outs = rng.r(1, 12), sz = size(med); AccountBase a; a.generate(); Transaction t; BinaryArray en(rng.u(40), 7);
        bool ok = cu.constructMinerTx(h, med, gen, sz, fee, a.getAccountKeys().address, t, en, outs); std::vector<std::string> o; bool mine = true; std::vector<uint32_t> own; u64 tot = 0; if (ok) { findOutputsToAccount(t, a.getAccountKeys().address, a.getAccountKeys().viewSecretKey, own, tot); mine = own.size() == t.outputs.size(); for (auto &x : t.outputs) o.push_back(jbig(x.amount)); }
        j.t("op", "miner").n("h", h).n("med", med).n("size", sz).raw("gen", jbig(gen)).raw("fee", jbig(fee)).n("max", outs).b("ok", ok).raw("outs", jarr(o, [](const std::string &s) { return s; })).b("mine", mine).n("unlock", ok ? t.unlockTime : 0).n("v", ok ? t.version : 0).n("ins", ok ? t.inputs.size() : 0).n("at", ok ? boost::get<BaseInput>(t.inputs[0]).blockIndex : 0);
      } else {
        u64 h = rheight(), med = rng.p(40) ? rng.u(c.zone) : rng.p(50) ? rng.u(500000) : rng.u(500000000), gen = rng.p(70) ? rng.u(190000000000000ull) : 200000000000000ull - rng.u(20000000), fee = rng.p(30) ? 0 : amount(), sz = size(med), r = 0; int64_t ec = 0; bool ok = cu.getBlockReward(med, sz, gen, fee, h, r, ec);
        j.t("op", "reward").n("h", h).n("med", med).n("size", sz).raw("gen", jbig(gen)).raw("fee", jbig(fee)).b("ok", ok).raw("r", jbig(ok ? r : 0)).b("neg", ok && ec < 0).raw("ec", jbig(ok ? (ec < 0 ? (u64)-ec : (u64)ec) : 0));
      }
    } else if (g == "interest") {
      int k = rng.u(4);
      if (k == 0) { u64 a = amount(); uint32_t t = term(); u64 lock = rng.p(50) ? height(top) : rng.pick(std::vector<u64>{12750, 12751, c.dh3, (u64)c.dh3 + 1}); j.t("op", "interest").raw("a", jbig(a)).n("t", t).n("lock", lock).raw("r", jbig(cu.calculateInterest(a, t, lock))); }
      else if (k == 1) { u64 a = amount(); uint32_t t = rng.p(50) ? 64800 * rng.r(1, 20) : 5040 * rng.r(1, 200); j.t("op", "interest2").raw("a", jbig(a)).n("t", t).raw("r", jbig(cu.calculateInterestV2(a, t))); }
      else if (k == 2) { u64 a = amount(); uint32_t t = c.minTerm3 * rng.r(1, 14); j.t("op", "interest3").raw("a", jbig(a)).n("t", t).raw("r", jbig(cu.calculateInterestV3(a, t))); }
      else {
        Transaction t; t.version = 2; std::vector<std::string> is; u64 h = rng.p(20) ? c.missing : height(top); int ni = rng.r(1, 3); bool dep = false;
        for (int i = 0; i < ni; ++i) { u64 a = rng.p(80) ? amount() : (u64)1 << 40; if (rng.p(70)) { MultisignatureInput m; m.amount = a; m.signatureCount = 1; m.outputIndex = i; m.term = rng.p(15) ? 0 : rng.p(15) ? c.maxTerm1 + rng.u(3) : term(); if (rng.p(20) && m.term > h) m.term = h; t.inputs.push_back(m); is.push_back("[1," + jbig(a) + "," + std::to_string(m.term) + "]"); } else { KeyInput q; q.amount = a; q.outputIndexes = {1}; memset(&q.keyImage, i, 32); t.inputs.push_back(q); is.push_back("[0," + jbig(a) + ",0]"); } }
        u64 in = cu.getTransactionAllInputsAmount(t, h); std::vector<std::string> os; int no = rng.u(3); u64 left = rng.p(50) ? in : rng.p(50) ? in + 1 : rng.u(in + 1); for (int o = 0; o <= no; ++o) { u64 a = o == no ? left : rng.u(left + 1); left -= a; TransactionOutput x; x.amount = a; x.target = KeyOutput(); t.outputs.push_back(x); os.push_back(jbig(a)); }
        u64 fee = 7; bool ok = cu.getTransactionFee(t, fee, h); auto id = [](const std::string &s) { return s; };
        j.t("op", "fee").n("h", h).raw("ins", jarr(is, id)).raw("outs", jarr(os, id)).raw("in", jbig(in)).raw("int", jbig(cu.calculateTotalTransactionInterest(t, h))).b("ok", ok).raw("fee", jbig(ok ? fee : 0)).raw("fee2", jbig(cu.getTransactionFee(t, h)));
      }
    } else if (g == "deposit") {
      if (rng.p(60)) { u64 a = rng.p(60) ? c.dmin + rng.r(-1, 1) : amount(); MultisignatureOutput o; o.term = rng.p(10) ? 0 : term(); o.requiredSignatureCount = 1; u64 h = height(top); j.t("op", "output").raw("a", jbig(a)).n("t", o.term).n("h", h).b("r", cu.validateOutput(a, o, h)); }
      else {
        Transaction t; t.version = rng.p(70) ? 2 : 1; u64 h = height(top); std::vector<std::string> os; int no = rng.r(1, 3);
        for (int i = 0; i < no; ++i) { TransactionOutput x; x.amount = rng.p(15) ? 0 : c.dmin + rng.u(100) - (rng.p(10) ? 100 : 0); crypto::PublicKey good, bad; crypto::SecretKey s; crypto::generate_keys(good, s); memset(&bad, 0xff, 32); bool ok = !rng.p(12); int nk = rng.u(4), rq = rng.u(4); uint32_t te = 0;
          if (rng.p(50)) { KeyOutput k; k.key = ok ? good : bad; x.target = k; os.push_back("[0," + jbig(x.amount) + ",0,0,0," + (ok ? "true" : "false") + "]"); }
          else { MultisignatureOutput m; te = rng.p(50) ? 0 : term(); m.term = te; m.requiredSignatureCount = rq; for (int q = 0; q < nk; ++q) m.keys.push_back(ok || q + 1 < nk ? good : bad); if (!nk) ok = true; x.target = m; os.push_back("[1," + jbig(x.amount) + "," + std::to_string(te) + "," + std::to_string(rq) + "," + std::to_string(nk) + "," + (ok ? "true" : "false") + "]"); }
          t.outputs.push_back(x); }
        j.t("op", "outputs").n("v", t.version).n("h", h).raw("outs", jarr(os, [](const std::string &s) { return s; })).b("r", bc.check_tx_outputs(t, h));
      }
    } else if (g == "difficulty") {
      int k = rng.u(5); std::vector<uint64_t> ts, d; u64 t = 1000 + rng.u(100000), cum = rng.p(20) ? 0 : rng.u(1ull << (20 + rng.u(26)));
      int mode = rng.u(5); u64 per = 1 + rng.u(rng.p(30) ? 50 : rng.p(50) ? 5000000 : 1ull << 37); auto push = [&](int m) { for (int q = 0; q < m; ++q) { ts.push_back(t); cum += per + rng.u(1 + per / 4); d.push_back(cum); int64_t s = mode == 0 ? 120 : mode == 1 ? rng.r(0, 300) : mode == 2 ? rng.r(0, 20) : mode == 3 ? rng.r(400, 2000) : rng.r(-400, 800); if (mode == 4 && rng.p(10)) s = 7200; t = (int64_t)t + s < 1 ? 1 : t + s; } };
      if (k == 0) { push(61); u64 idx = rng.p(40) ? c.uh[4] + rng.pick(std::vector<int>{-1, 0, 1, 58, 59, 60, 61}) : c.uh[4] + 60 + rng.u(100000); j.t("op", "lwma1").n("n", idx).raw("r", jbig(cu.nextDifficultyLWMA1(ts, d, idx))); }
      else if (k == 1) { push(rng.p(60) ? 61 : rng.r(1, 60)); j.t("op", "lwma3").raw("r", jbig(cu.nextDifficultyLWMA3(ts, d))); }
      else { int v = rng.pick(std::vector<int>{1, 2, 3}); int w = v >= 2 ? c.win : 720; push(rng.p(30) ? rng.r(0, 20) : rng.p(40) ? std::max(0, w - (int)rng.u(15)) : rng.p(50) ? rng.r(1, w) : w + rng.u(c.lag + 1)); u64 idx = rng.p(20) ? rng.pick(std::vector<u64>{12749, 12750, 13499, 13500}) : rng.p(50) ? c.zawyidx + rng.r(-1, 1) + 1 : rng.u(12000); j.t("op", "classic").n("v", v).n("n", idx).raw("r", jbig(cu.nextDifficulty(v, idx, ts, d))); }
      auto id = [](u64 x) { return big(x); }; j.raw("ts", jnums(ts)).raw("cum", jarr(d, id));
    } else if (g == "version") {
      if (rng.p(70)) { u64 h = height(top); j.t("op", "version").n("h", h).n("r", bc.get_block_major_version_for_height(h)).n("r2", bc.getBlockMajorVersionForHeight(h)); }
      else { int v = rng.u(10); u64 u = cu.upgradeHeight(v); j.t("op", "params").n("v", v).n("uh", u == 0xffffffffu ? -1 : (int64_t)u).n("win", cu.difficultyWindowByBlockVersion(v)).n("cut", cu.difficultyCutByBlockVersion(v)).n("count", cu.difficultyBlocksCountByBlockVersion(v)).n("tcw", cu.timestampCheckWindow(v)).n("ftl", cu.blockFutureTimeLimit(v)); }
    } else if (g == "amounts") {
      if (rng.p(50)) {
        Transaction t; t.version = 2; auto big1 = [&]() -> u64 { return rng.p(40) ? amount() : rng.p(50) ? ~0ull - rng.u(5) : rng.next(); }; std::vector<std::string> is, os; auto id = [](const std::string &s) { return s; };
        int ni = rng.u(4), no = rng.u(4); for (int i = 0; i < ni; ++i) { u64 a = big1(); if (rng.p(50)) { MultisignatureInput m; m.amount = rng.p(40) ? 5 : a; m.outputIndex = rng.u(3); m.signatureCount = 1; m.term = rng.p(50) ? 0 : term(); t.inputs.push_back(m); is.push_back("[1," + jbig(m.amount) + "," + std::to_string(m.term) + "," + std::to_string(m.outputIndex) + "]"); } else { KeyInput q; q.amount = a; q.outputIndexes = {1}; int ki = rng.u(4); memset(&q.keyImage, ki, 32); t.inputs.push_back(q); is.push_back("[0," + jbig(a) + ",0," + std::to_string(ki) + "]"); } }
        u64 so = 0; for (int i = 0; i < no; ++i) { TransactionOutput x; x.amount = rng.p(30) ? 0 - so - rng.u(2) : big1(); so += x.amount; x.target = KeyOutput(); t.outputs.push_back(x); os.push_back(jbig(x.amount)); }
        j.t("op", "overflow").raw("ins", jarr(is, id)).raw("outs", jarr(os, id)).b("in", check_inputs_overflow(t)).b("out", check_outs_overflow(t)).b("both", check_money_overflow(t)).b("kid", checkInputsKeyimagesDiff(t)).b("mid", checkMultisignatureInputsDiff(t));
      } else { u64 a = rng.p(70) ? amount() : rng.u(10000000000000000ull), du = rng.p(50) ? c.dust : rng.p(50) ? 0 : amount(); std::vector<uint64_t> o; decomposeAmount(a, du, o); auto id = [](u64 x) { return big(x); }; j.t("op", "decompose").raw("a", jbig(a)).raw("dust", jbig(du)).raw("o", jarr(o, id)).b("pretty", is_valid_decomposed_amount(a)); }
    } else if (g == "checkpoint") {
      Checkpoints k(lg); std::map<uint32_t, int> m; int nc = rng.u(6); uint32_t range = rng.p(50) ? 60 : 2000; std::vector<std::string> adds; auto hash = [](int x) { crypto::Hash h; memset(&h, x, 32); return h; };
      for (int q = 0; q < nc; ++q) { uint32_t h = rng.u(range); int x = rng.u(3); std::string s = common::podToHex(hash(x)); int sort = rng.p(85) ? 0 : 1; if (sort) s = rng.p(50) ? s.substr(1) : s + "00"; adds.push_back("[" + std::to_string(h) + "," + std::to_string(x) + "," + std::to_string(sort) + "," + (k.add_checkpoint(h, s) ? "1" : "0") + "]"); }
      if (rng.p(25)) { // from a file
        std::string fn = dir + "/cps.csv"; { std::ofstream o(fn); int fl = rng.u(5); for (int q = 0; q < fl; ++q) { uint32_t h = rng.u(range); int x = rng.u(3); bool bad = rng.p(8); o << h << "," << (bad ? "zz" : common::podToHex(hash(x))) << "\n"; adds.push_back("[" + std::to_string(h) + "," + std::to_string(x) + "," + (bad ? "3" : "2") + ",0]"); } } bool r = k.load_checkpoints_from_file(fn); adds.push_back(std::string("[0,0,9,") + (r ? "1" : "0") + "]"); }
      std::vector<std::string> qs; for (int q = 0; q < 6; ++q) { uint32_t h = rng.u(range + 5), n = rng.p(60) ? h + rng.u(25) : rng.u(range); int x = rng.u(3); bool is = false; bool r = k.check_block(h, hash(x), is); bool r2 = k.check_block(h, hash(x)); qs.push_back("[" + std::to_string(h) + "," + std::to_string(x) + "," + std::to_string(n) + "," + (r && r2 ? "1" : "0") + "," + (is ? "1" : "0") + "," + (k.is_in_checkpoint_zone(h) ? "1" : "0") + "," + (k.is_alternative_block_allowed(n, h) ? "1" : "0") + "," + (r == r2 ? "1" : "0") + "]"); }
      auto id = [](const std::string &s) { return s; }; j.t("op", "checkpoint").raw("adds", jarr(adds, id)).raw("hs", jnums(k.getCheckpointHeights())).raw("qs", jarr(qs, id));
    } else {
      if (rng.p(60)) {
        std::vector<uint64_t> in, out; int ni = rng.r(rng.p(80) ? 12 : 1, 20); u64 s = 0; for (int i = 0; i < ni; ++i) { u64 a = 10; for (int q = rng.u(5); q; --q) a *= 10; a *= 1 + rng.u(9); if (rng.p(2)) a = rng.u(12); in.push_back(a); s += a; }
        decomposeAmount(s, c.dust, out); std::sort(out.begin(), out.end()); if (rng.p(15) && out.size() > 1) std::swap(out[0], out[1]); if (rng.p(15) && out.size()) out[rng.u(out.size())] += 1; if (rng.p(10)) out.push_back(10); while (rng.p(60) && in.size() > 12 && in.size() < 4 * out.size()) in.push_back(10), s += 10, out.clear(), decomposeAmount(s, c.dust, out), std::sort(out.begin(), out.end());
        u64 sz = rng.p(80) ? rng.u(30001) : 30000 + rng.u(3); auto id = [](u64 x) { return big(x); }; j.t("op", "fusion").raw("in", jarr(in, id)).raw("out", jarr(out, id)).n("size", sz).b("r", cu.isFusionTransaction(in, out, sz));
      } else { u64 a = rng.p(70) ? amount() : rng.u(30), th = rng.p(50) ? amount() : a + rng.u(2), h = rng.p(50) ? 45000 + rng.r(-1, 1) : height(top); uint8_t p = 99; bool r = cu.isAmountApplicableInFusionTransactionInput(a, th, p, h); j.t("op", "fusable").raw("a", jbig(a)).raw("th", jbig(th)).n("h", h).b("r", r).n("p", r ? p : 0); }
    }
    f << j.str() << "\n";
  }
  st.write(dir + "/stats.json"); return 0;
}
