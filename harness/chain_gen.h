// Generator: builds transactions and blocks on a lenient ledger; nothing here judges the node.
#pragma once
#include "chain_types.h"
static const int64_t G = 1527078920; // genesis timestamp
struct Null : logging::ILogger { bool on = getenv("CHAIN_LOG") != nullptr; void operator()(const std::string &, logging::Level, boost::posix_time::ptime, const std::string &m) override { if (on) fprintf(stderr, "LOG %s", m.c_str()); } };

struct Gen {
  Rng rng; Conf c; Null lg; std::unique_ptr<Currency> curp; Stats st;
  std::vector<std::unique_ptr<TxR>> T; std::vector<std::unique_ptr<BlkR>> B; Ids tid, bid; std::map<u64, int> aids; std::vector<u64> amts; std::map<std::string, int> kidOf; int nkeys = 0;
  std::vector<Hash> pids; int64_t now = 1000; AccountBase acc; int uniq = 0; size_t bulkPad = 0; bool sizeProfile = false, fastStart = false, prel = false;
  explicit Gen(u64 seed) : rng(seed) {}
  Currency &cur() { return *curp; }
  TxR &tx(int id) { return *T[id - 1]; }
  BlkR &blk(int id) { return *B[id - 1]; }
  int aid(u64 a) { auto it = aids.find(a); if (it != aids.end()) return it->second; amts.push_back(a); return aids[a] = (int)amts.size(); }
  int txId(const Hash &h) { auto it = tid.find(h); return it == tid.end() ? 0 : it->second; }
  int blkId(const Hash &h) { auto it = bid.find(h); return it == bid.end() ? 0 : it->second; }
  void setNow(int64_t t) { now = t; g_virtual_time = G + t; }
  int keyId(const void *p) { std::string s((const char *)p, 32); auto it = kidOf.find(s); return it == kidOf.end() ? 0 : it->second; }

  void makeCurrency() {
    CurrencyBuilder b(lg); b.testnet(true);
    b.minedMoneyUnlockWindow(c.unlockw).timestampCheckWindow(c.tcw).blockFutureTimeLimit(c.ftl).rewardBlocksWindow(c.rbw).zawyDifficultyV2(c.zawy2).zawyDifficultyBlockIndex(c.zawyIdx)
     .blockGrantedFullRewardZone(c.zone).minerTxBlobReservedSize(c.reserved).depositMinAmount(c.dmin).depositMinTerm(c.minTerm).depositMaxTerm(c.maxTerm).depositMinTermV3(c.minTerm3).depositMaxTermV3(c.maxTerm3)
     .depositMaxTermV1(c.maxTerm1).depositHeightV3(c.dh3).depositHeightV4(c.dh4).blockWithMissingInterest(1000000000).maxBlockSizeInitial(c.maxinit).maxBlockSizeGrowthSpeedNumerator(c.num)
     .maxBlockSizeGrowthSpeedDenominator(c.den).mempoolTxLiveTime(c.live).mempoolTxFromAltBlockLiveTime(c.altlive).numberOfPeriodsToForgetTxDeletedFromPool(c.periods)
     .upgradeHeightV2(c.uh[0]).upgradeHeightV3(c.uh[1]).upgradeHeightV6(c.uh[2]).upgradeHeightV7(c.uh[3]).upgradeHeightV8(c.uh[4]);
    b.difficultyWindow(c.win); b.difficultyLag(c.lag); b.difficultyCut(c.cut);
    curp.reset(new Currency(b.currency()));
  }
  int version(u64 h) { return h > c.uh[4] ? 8 : h > c.uh[3] ? 7 : h > c.uh[2] ? 4 : h > c.uh[1] ? 3 : h > c.uh[0] ? 2 : 1; }
  u64 need(const Led &L) {
    size_t n = L.ts.size(); int v = version(n); size_t cnt = v >= 4 ? 61 : v >= 2 ? c.win + c.lag : 720 + c.lag; size_t off = n - std::min(n, cnt); if (!off) ++off;
    std::vector<uint64_t> t; std::vector<difficulty_type> d; for (; off < n; ++off) { t.push_back(G + L.ts[off]); d.push_back(L.cum[off]); }
    int w = version(n + 1);
    return w >= 8 ? cur().nextDifficultyLWMA1(t, d, n) : w >= 4 ? cur().nextDifficultyLWMA3(t, d) : cur().nextDifficulty(w, n, t, d);
  }
  int64_t median(const Led &L) { if ((int)L.ts.size() < c.tcw) return 0; std::vector<int64_t> v(L.ts.end() - c.tcw, L.ts.end()); std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + G + v[n / 2] + G) / 2 - G; }

  // ---------- outputs
  OutR keyOut(u64 a) { OutR o; o.k = 0; o.a = a; crypto::generate_keys(o.pub, o.sec); o.have = true; o.key = ++nkeys; kidOf[std::string((char *)&o.pub, 32)] = o.key; return o; }
  OutR msigOut(u64 a, uint32_t term, int nk, int req) { OutR o; o.k = 1; o.a = a; o.term = term; o.nk = nk; o.req = req; for (int i = 0; i < nk; ++i) { KeyPair k; crypto::generate_keys(k.publicKey, k.secretKey); o.mk.push_back(k); } o.key = ++nkeys; o.have = true;
    if (nk) kidOf[std::string((char *)&o.mk[0].publicKey, 32)] = o.key; return o; }
  TransactionOutput target(const OutR &o) {
    TransactionOutput r; r.amount = o.a;
    if (o.k == 0) { KeyOutput k; k.key = o.pub; r.target = k; } else { MultisignatureOutput m; m.term = o.term; m.requiredSignatureCount = o.req; for (auto &x : o.mk) m.keys.push_back(x.publicKey); r.target = m; }
    return r;
  }
  std::vector<u64> digits(u64 a) { std::vector<u64> v; u64 m = 1; while (a) { if (a % 10) v.push_back((a % 10) * m); a /= 10; m *= 10; } return v; }
  int regTx(std::unique_ptr<TxR> t) {
    t->blob = toBinaryArray(t->tx); t->hash = getObjectHash(t->tx); int old = txId(t->hash); if (old) return old;
    t->id = (int)T.size() + 1; tid[t->hash] = t->id; for (auto &o : t->outs) aid(o.a); for (auto &i : t->ins) aid(i.a); int id = t->id; T.push_back(std::move(t)); return id;
  }
  void extraOf(TxR &t, bool wantPid) {
    crypto::PublicKey p; crypto::SecretKey s; crypto::generate_keys(p, s); addTransactionPublicKeyToExtra(t.tx.extra, p);
    if (wantPid) { t.pid = (int)rng.r(1, pids.size()); BinaryArray n; setPaymentIdToTransactionExtraNonce(n, pids[t.pid - 1]); addExtraNonceToTransactionExtra(t.tx.extra, n); }
    if (t.ttl) appendTTLToExtra(t.tx.extra, (u64)(G + t.ttl));
  }
  void pad(TxR &t, size_t n) { tx_extra_message m; m.data.assign(n, 'x'); append_message_to_extra(t.tx.extra, m); }
  bool unlocked(const Led &L, u64 ul) { return ul < 500000000 ? (u64)L.h >= ul : (int64_t)ul <= G + now + 120; }
  u64 interest3(u64 amount, uint32_t term) { // float32 exactly as the schedule defines it
    if (term > c.maxTerm1) term = c.maxTerm1;
    u64 whole = amount / 1000000; float base = 0.029f; if (whole >= 10000 && whole < 20000) base = 0.039f; if (whole >= 20000) base = 0.049f;
    float m = (float)(term / c.minTerm3); if (m > 12) m = 12; volatile float a = (m - 1) * 0.001f; volatile float ear = base + a; volatile float q = ear / 12; volatile float eir = q * m; volatile float r = (float)amount * eir; return (u64)r;
  }
  u64 interestAt(const InR &i, int h) {
    if (i.term == 0 || i.term > c.maxTerm1) return 0; uint32_t lock = (uint32_t)h - i.term;
    if (i.term % c.minTerm3 == 0 && lock > c.dh3) return i.int3;
    return cur().calculateInterest(i.a, i.term, lock);
  }
  u64 sumIn(const TxR &t, int h) { u64 s = 0; for (auto &i : t.ins) s += i.a + (i.k == 1 ? interestAt(i, h) : 0); return s; }
  u64 sumOut(const TxR &t) { u64 s = 0; for (auto &o : t.outs) s += o.a; return s; }
  u64 feeOf(const TxR &t, int h) { u64 a = sumIn(t, h), b = sumOut(t); if (b > a) { for (auto &i : t.ins) if (i.k == 1 && i.term) return 10; return 0; } return a - b; }
  // does t look includable on top of L?
  bool fits(const Led &L, const TxR &t, std::set<int> &used, std::set<std::pair<u64, uint32_t>> &mu) {
    if (t.cb || L.txh.count(t.id) || t.ins.empty()) return false;
    std::vector<int> ks; std::vector<std::pair<u64, uint32_t>> ms;
    for (auto &i : t.ins) {
      if (!i.ok) return false;
      if (i.k == 0) {
        if (L.spent.count(i.ki) || used.count(i.ki)) return false;
        auto it = L.outs.find(i.a); if (it == L.outs.end()) return false;
        for (size_t k = 0; k < i.off.size(); ++k) { if (i.off[k] >= it->second.size()) return false; Ref r = it->second[i.off[k]]; if (tx(r.tx).outs[r.pos].key != i.want[k] || !unlocked(L, tx(r.tx).tx.unlockTime)) return false; }
        ks.push_back(i.ki);
      } else {
        if (t.tx.version < 2) return false;
        auto it = L.mouts.find(i.a); if (it == L.mouts.end() || i.idx >= it->second.size() || L.mused.count({i.a, i.idx}) || mu.count({i.a, i.idx})) return false;
        Ref r = it->second[i.idx]; OutR &o = tx(r.tx).outs[r.pos]; if (o.key != i.by || o.term != i.term || o.req != i.ns || (o.term && r.h + (int)o.term > L.h) || !unlocked(L, tx(r.tx).tx.unlockTime)) return false; ms.push_back({i.a, i.idx});
      }
    }
    for (auto &o : t.outs) { if (!o.ok || o.a == 0) return false; if (o.k == 1 && (o.req > o.nk || t.tx.version < 2 || !goodDeposit(o, L.h))) return false; }
    if (version(L.h) == 1 && t.tx.version > 1) return false;
    if (sumOut(t) > sumIn(t, L.h)) return false;
    std::set<int> s1(ks.begin(), ks.end()); std::set<std::pair<u64, uint32_t>> s2(ms.begin(), ms.end()); if (s1.size() != ks.size() || s2.size() != ms.size()) return false;
    used.insert(ks.begin(), ks.end()); mu.insert(ms.begin(), ms.end()); return true;
  }
  bool goodDeposit(const OutR &o, int h) {
    if (!o.term) return true; if (o.a < c.dmin) return false;
    if (h > (int)c.dh4) return o.term >= c.minTerm3 && o.term <= c.maxTerm3 && o.term % c.minTerm3 == 0;
    return o.term >= c.minTerm && o.term <= c.maxTerm1;
  }
  struct Coin { u64 a; uint32_t idx; Ref r; };
  std::vector<Coin> coins(const Led &L, bool mature) {
    std::vector<Coin> v; for (auto &x : L.outs) for (size_t i = 0; i < x.second.size(); ++i) { Ref r = x.second[i]; TxR &t = tx(r.tx); OutR &o = t.outs[r.pos]; if (o.have && !L.spent.count(o.key) && unlocked(L, t.tx.unlockTime) == mature) v.push_back({x.first, (uint32_t)i, r}); } return v;
  }
  std::vector<Coin> msigs(const Led &L, int want) { // 0 ready, 1 locked, 2 used
    std::vector<Coin> v; for (auto &x : L.mouts) for (size_t i = 0; i < x.second.size(); ++i) { Ref r = x.second[i]; TxR &t = tx(r.tx); OutR &o = t.outs[r.pos]; bool u = L.mused.count({x.first, (uint32_t)i}) > 0; bool lock = (o.term && r.h + (int)o.term > L.h) || !unlocked(L, t.tx.unlockTime);
      if (o.nk && (want == 2 ? u : !u && lock == (want == 1))) v.push_back({x.first, (uint32_t)i, r}); } return v;
  }
  InR keyIn(const Led &L, const Coin &k, int mix, bool decoysMature = true) {
    InR i; i.k = 0; i.a = k.a; i.ki = tx(k.r.tx).outs[k.r.pos].key; std::set<uint32_t> s{k.idx}; auto &v = L.outs.at(k.a);
    for (int q = 0; q < mix * 3 && (int)s.size() < mix + 1; ++q) { uint32_t x = (uint32_t)rng.u(v.size()); if (unlocked(L, tx(v[x].tx).tx.unlockTime) == decoysMature || (!decoysMature && rng.p(50))) s.insert(x); }
    for (auto x : s) { i.off.push_back(x); i.want.push_back(tx(v[x].tx).outs[v[x].pos].key); }
    return i;
  }
  InR msigIn(const Coin &k) { OutR &o = tx(k.r.tx).outs[k.r.pos]; InR i; i.k = 1; i.a = k.a; i.idx = k.idx; i.term = o.term; i.ns = o.req; i.by = o.key; i.int3 = interest3(i.a, i.term); return i; }
  OutR *byKey(int key) { auto it = outOf.find(key); if (it == outOf.end()) return nullptr; return &tx(it->second.first).outs[it->second.second]; }
  std::map<int, std::pair<int, int>> outOf; // key id -> (tx, pos)
  void noteOuts(int id) { for (size_t p = 0; p < tx(id).outs.size(); ++p) { OutR &o = tx(id).outs[p]; if (!outOf.count(o.key)) outOf[o.key] = {id, (int)p}; } }
  // adds the point of order two: (x, y) -> (-x, -y)
  static void addTorsion(crypto::KeyImage &k) { uint8_t *b = (uint8_t *)&k; uint8_t sign = b[31] & 0x80; b[31] &= 0x7f; int br = 0; for (int i = 0; i < 32; ++i) { int p = i == 0 ? 0xed : i == 31 ? 0x7f : 0xff, v = p - b[i] - br; br = v < 0; b[i] = (uint8_t)(v & 0xff); } b[31] |= sign ^ 0x80; }
  // not the encoding of a curve point: no x for this y, or y not reduced
  crypto::PublicKey badKey() { static const uint8_t y[] = {2, 7, 8, 11, 12, 13, 17, 20, 22, 31, 34, 36, 38}; crypto::PublicKey k; if (rng.p(20)) memset(&k, 0xff, 32); else { memset(&k, 0, 32); ((uint8_t *)&k)[0] = y[rng.u(sizeof y)]; if (rng.p(30)) ((uint8_t *)&k)[31] = 0x80; } return k; }
  // writes inputs, outputs and signatures
  int finish(std::unique_ptr<TxR> t, int flaw) {
    for (auto &i : t->ins) {
      if (i.k == 0) { KeyInput k; k.amount = i.a; k.outputIndexes = absolute_output_offsets_to_relative(i.off); OutR *o = byKey(i.ki);
        if (i.own) { o = byKey(i.own); crypto::generate_key_image(o->pub, o->sec, k.keyImage); if (flaw == 26) addTorsion(k.keyImage); else { crypto::PublicKey fp; crypto::SecretKey fs; crypto::generate_keys(fp, fs); crypto::generate_key_image(fp, fs, k.keyImage); } }
        else crypto::generate_key_image(o->pub, o->sec, k.keyImage);
        t->tx.inputs.push_back(k); }
      else { MultisignatureInput m; m.amount = i.a; m.outputIndex = i.idx; m.term = i.term; m.signatureCount = i.ns; t->tx.inputs.push_back(m); }
    }
    if (flaw == 21) { BaseInput b; b.blockIndex = 3; t->tx.inputs.push_back(b); InR x; x.k = 2; x.a = 0; t->ins.push_back(x); }
    for (auto &o : t->outs) t->tx.outputs.push_back(target(o));
    if (flaw == 8 && !t->outs.empty()) { if (t->outs[0].k == 0) { KeyOutput k; k.key = badKey(); t->tx.outputs[0].target = k; } else { auto &m = boost::get<MultisignatureOutput>(t->tx.outputs[0].target); if (m.keys.empty()) return 0; m.keys[rng.u(m.keys.size())] = badKey(); } t->outs[0].ok = false; t->outs[0].have = false; t->outs[0].key = ++nkeys; }
    Hash ph; getObjectHash(*static_cast<TransactionPrefix *>(&t->tx), ph);
    for (size_t n = 0; n < t->ins.size(); ++n) {
      InR &i = t->ins[n];
      if (i.k == 0) {
        std::vector<const crypto::PublicKey *> pubs; size_t me = 0; for (size_t q = 0; q < i.want.size(); ++q) { OutR *o = byKey(i.want[q]); pubs.push_back(&o->pub); if (i.want[q] == (i.own ? i.own : i.ki)) me = q; }
        std::vector<crypto::Signature> s(pubs.size()); OutR *o = byKey(i.own ? i.own : i.ki); const crypto::KeyImage &ki = boost::get<KeyInput>(t->tx.inputs[n]).keyImage;
        Hash other = ph; ((uint8_t *)&other)[7] ^= 1; bool foreign = !i.ok && !i.own && rng.p(30); // a signature made for something else
        for (int q = 0; q < 40; ++q) { crypto::generate_ring_signature(foreign ? other : ph, ki, pubs, o->sec, me, s.data()); if (flaw != 26 || crypto::check_ring_signature(ph, ki, pubs, s.data())) break; }
        if (std::find(i.want.begin(), i.want.end(), i.own ? i.own : i.ki) == i.want.end()) i.ok = false;
        if (!i.ok && !i.own && !foreign) ((uint8_t *)&s[rng.u(s.size())])[rng.p(50) ? 3 : rng.u(60)] ^= 0x55; t->tx.signatures.push_back(s);
      } else if (i.k == 1) {
        std::vector<crypto::Signature> s(i.ns); OutR *o = byKey(i.by); std::vector<size_t> w; for (size_t q = 0; q < o->mk.size(); ++q) w.push_back(q); while ((int)w.size() > i.ns) w.erase(w.begin() + rng.u(w.size()));
        for (size_t q = 0; q < s.size(); ++q) if (q < w.size()) crypto::generate_signature(ph, o->mk[w[q]].publicKey, o->mk[w[q]].secretKey, s[q]); else memset(&s[q], 1, sizeof s[q]);
        if (!i.ok && !s.empty()) { unsigned how = rng.u(4); if (how == 0 && s.size() > 1) s.back() = s.front(); else if (how == 1 && s.size() > 1) std::swap(s.front(), s.back()); else if (how == 2) { KeyPair z; crypto::generate_keys(z.publicKey, z.secretKey); crypto::generate_signature(ph, z.publicKey, z.secretKey, s[rng.u(s.size())]); } else ((uint8_t *)&s[rng.u(s.size())])[3] ^= 0x55; } if (!i.ok && s.empty()) i.ok = true; t->tx.signatures.push_back(s);
      } else t->tx.signatures.push_back({});
    }
    int id = regTx(std::move(t)); noteOuts(id); return id;
  }
  void splitOuts(TxR &t, u64 total, int flawOuts = 0) {
    static const u64 den[] = {1000, 5000, 100000, 1000000, 5000000, 10000000, 1000000000ull, 10000000000ull, 20000000000ull, 1000000000000ull};
    int n = (int)rng.r(1, 4);
    for (int i = 0; i + 1 < n; ++i) { std::vector<u64> ok; for (u64 d : den) if (d < total) ok.push_back(d); if (ok.empty()) break; u64 a = ok[ok.size() - 1 - rng.u(std::min<size_t>(ok.size(), 4))]; t.outs.push_back(keyOut(a)); total -= a; }
    if (total) { if (rng.p(60)) { auto d = digits(total); if (d.size() > 6) { t.outs.push_back(keyOut(total)); } else for (u64 a : d) t.outs.push_back(keyOut(a)); } else t.outs.push_back(keyOut(total)); }
  }
  u64 someFee() { switch (rng.u(10)) { case 0: return 0; case 1: return 10; case 2: return 999; case 3: return rng.r(1, 100000); default: return 1000; } }
  // a transaction on ledger L; avoid: keys/deposits taken by pool transactions
  int makeTx(const Led &L, int flaw, const std::set<int> &avoid, const std::set<std::pair<u64, uint32_t>> &avoidM, int kind = -1) {
    auto t = std::make_unique<TxR>(); t->tx.version = 1; t->tx.unlockTime = 0;
    if (kind < 0) { unsigned q = rng.u(100); kind = q < 45 ? 0 : q < 68 ? 1 : q < 88 ? 2 : q < 95 ? 3 : 4; } // transfer, deposit, withdrawal, plain multisig, ttl
    if (flaw == 12 || flaw == 13 || flaw == 14 || flaw == 15 || flaw == 16) kind = 2; if (flaw == 10 || flaw == 11 || flaw == 17 || flaw == 18) kind = 1;
    u64 total = 0, fee = someFee();
    if (kind == 4) { t->ttl = now + rng.r(1, rng.p(85) ? (int64_t)c.live : (int64_t)c.live + 2 * c.ftl); if (rng.p(8)) t->ttl = now - rng.r(0, 200); fee = rng.p(92) ? 0 : 10; if (t->ttl < 1) t->ttl = 1; }
    if (kind == 2) {
      auto m = msigs(L, flaw == 12 ? 1 : flaw == 16 ? 2 : 0); std::vector<Coin> f; for (auto &x : m) if (!avoidM.count({x.a, x.idx}) || rng.p(7)) f.push_back(x);
      if (f.empty()) { if (flaw == 12 || flaw == 16) return 0; kind = 0; if (flaw >= 13 && flaw <= 15) return 0; }
      else { int n = rng.p(75) ? 1 : 2; for (int i = 0; i < n && !f.empty(); ++i) { size_t q = rng.u(f.size()); t->ins.push_back(msigIn(f[q])); f.erase(f.begin() + q); }
        if (flaw == 13) { InR &i = t->ins[0]; i.term = rng.p(50) ? 0 : i.term + c.minTerm3; i.int3 = interest3(i.a, i.term); }
        if (flaw == 14) { InR &i = t->ins[0]; if (i.ns > 1 && rng.p(60)) i.ns--; else i.ns++; }
        if (flaw == 15) t->ins.push_back(t->ins[0]);
        if (flaw == 5) t->ins[0].ok = false;
        for (auto &i : t->ins) total += i.a + interestAt(i, L.h);
      }
    }
    if (kind != 2 || rng.p(25)) {
      auto v = coins(L, true); auto im = coins(L, false); std::vector<Coin> f; for (auto &x : v) if (!avoid.count(tx(x.r.tx).outs[x.r.pos].key) || rng.p(4)) f.push_back(x);
      int n = rng.p(70) ? 1 : (int)rng.r(2, 3);
      if (flaw == 2) { if (im.empty()) return 0; Coin k = im[rng.u(im.size())]; t->ins.push_back(keyIn(L, k, (int)rng.u(2))); total += k.a; n = rng.p(50) ? 0 : 1; }
      if (flaw == 23) { if (im.empty() || f.empty()) return 0; /* immature decoy */ bool done = false; for (int q = 0; q < 12 && !done; ++q) { Coin k = f[rng.u(f.size())]; InR i = keyIn(L, k, 2, false); for (auto o : i.off) { Ref r = L.outs.at(i.a)[o]; if (!unlocked(L, tx(r.tx).tx.unlockTime)) done = true; } if (done) { t->ins.push_back(i); total += k.a; } } if (!done) return 0; n = 0; }
      if (flaw == 3 || ((flaw == 26 || flaw == 27) && rng.p(60))) { bool done = false; for (auto &x : L.outs) { for (size_t q = 0; q < x.second.size() && !done; ++q) { Ref r = x.second[q]; if (L.spent.count(tx(r.tx).outs[r.pos].key) && tx(r.tx).outs[r.pos].have && rng.p(30)) { t->ins.push_back(keyIn(L, {x.first, (uint32_t)q, r}, (int)rng.u(2))); total += x.first; done = true; } } } if (!done) return 0; n = rng.p(60) ? 0 : 1; }
      if (f.empty() && t->ins.empty()) return 0;
      // prefer bigger coins for deposits
      for (int q = 0; q < n && !f.empty(); ++q) { size_t w = rng.u(f.size()); if (rng.p(60)) for (int e = 0; e < 3; ++e) { size_t w2 = rng.u(f.size()); if (f[w2].a > f[w].a) w = w2; } t->ins.push_back(keyIn(L, f[w], rng.p(50) ? 0 : (int)rng.r(1, 2))); total += f[w].a; f.erase(f.begin() + w); }
    }
    if (flaw == 4) { InR &i = t->ins[rng.u(t->ins.size())]; if (i.k == 0) i.off.back() = (uint32_t)(L.outs.at(i.a).size() + rng.u(3)); else i.idx = (uint32_t)(L.mouts.at(i.a).size() + rng.u(3)); }
    if (flaw == 5) t->ins[rng.u(t->ins.size())].ok = false;
    if (flaw == 26 || flaw == 27) { size_t q = 0; while (q < t->ins.size() && t->ins[q].k) ++q; if (q == t->ins.size()) return 0; InR &i = t->ins[q]; i.own = i.ki; i.ki = ++nkeys; i.ok = false; }
    if (flaw == 6) { if (t->ins[0].k == 0) t->ins.push_back(t->ins[0]), total += t->ins[0].a; else return 0; }
    if (flaw == 24 && t->ins[0].k == 0) { // ring that does not contain the real key
      InR &i = t->ins[0]; auto &v = L.outs.at(i.a); std::vector<uint32_t> o; for (size_t q = 0; q < v.size(); ++q) if (tx(v[q].tx).outs[v[q].pos].key != i.ki) o.push_back(q); if (o.empty()) return 0; i.off = {o[rng.u(o.size())]}; i.want = {tx(v[i.off[0]].tx).outs[v[i.off[0]].pos].key}; }
    if (total < fee) fee = rng.p(50) ? 0 : total;
    u64 rest = total - fee;
    if (kind == 1 || kind == 3) {
      t->tx.version = 2; uint32_t term = 0;
      if (kind == 1) { term = c.minTerm3 * (uint32_t)(rng.p(80) ? rng.r(1, 3) : rng.r(1, c.maxTerm3 / c.minTerm3)); if (L.h <= (int)c.dh4 && rng.p(40)) term = (uint32_t)rng.r(c.minTerm, c.maxTerm1); }
      u64 a = 0; static const u64 da[] = {1000, 1001, 5000, 1000000, 3000000, 10000000, 9999999999ull, 10000000000ull, 19999999999ull, 20000000000ull, 500000000000ull};
      std::vector<u64> ok; for (u64 d : da) if (d <= rest) ok.push_back(d); a = ok.empty() ? rest : ok[rng.u(ok.size())];
      if (kind == 3 && rng.p(40)) a = std::min<u64>(rest, 10 + rng.u(900)); if (a == 0) return 0;
      if (flaw == 10) { switch (rng.u(4)) { case 0: term = c.minTerm3 + 1; break; case 1: term = c.minTerm3 - 1; break; case 2: term = c.maxTerm3 + c.minTerm3 + (rng.p(50) ? (c.maxTerm1 - c.maxTerm3) : 0); break; default: term = 100000 + rng.u(100); } }
      if (flaw == 11) a = std::min<u64>(a, rng.p(50) ? 999 : 1 + rng.u(999)), term = c.minTerm3;
      int nk = rng.p(60) ? 1 : (int)rng.r(2, 3), req = rng.p(70) ? nk : (int)rng.r(1, nk); if (flaw == 18) req = nk + 1; if (flaw == 17) t->tx.version = 1;
      t->outs.push_back(msigOut(a, term, nk, req)); rest -= a;
      if (rest > 2000 && rng.p(12) && kind == 1) { t->outs.push_back(msigOut(1000, c.minTerm3, 1, 1)); rest -= 1000; }
    } else if (t->ins.size() && kind == 2) t->tx.version = rng.p(96) ? 2 : 1;
    if (rest) splitOuts(*t, rest);
    if (flaw == 1) t->outs.push_back(keyOut(fee + 1 + (rng.p(50) ? 0 : rng.u(1000000))));
    if (flaw == 7) t->outs.push_back(keyOut(0));
    if (flaw == 9) { t->outs.push_back(keyOut(0xffffffffffffff00ull)); if (rng.p(50)) t->outs.push_back(keyOut(0xffffffffffffff00ull)); }
    if (flaw == 19) t->ins.clear();
    if (flaw == 25 && !t->outs.empty()) { for (auto &o : t->outs) if (o.k == 0 && t->ins.size() && t->ins[0].k == 0) { OutR *old = byKey(t->ins[0].ki); o.pub = old->pub; o.sec = old->sec; o.key = t->ins[0].ki; break; } } // output paid to an already used one-time key
    if (rng.p(6) && flaw == 0) t->tx.unlockTime = rng.p(60) ? (u64)(L.h + rng.r(-1, 6)) : (u64)(G + now + rng.r(0, 1500)); if ((int64_t)t->tx.unlockTime < 0) t->tx.unlockTime = 0;
    if (rng.p(2) && flaw == 0 && t->tx.version == 1) t->tx.version = 2;
    extraOf(*t, rng.p(35)); if (bulkPad) pad(*t, bulkPad); else if (sizeProfile ? rng.p(60) : rng.p(2)) pad(*t, rng.u(sizeProfile ? 900 : 200)); if (flaw == 22) pad(*t, c.zone * 2 + rng.u(2000));
    return finish(std::move(t), flaw);
  }
  // ---------- coinbase
  int makeCoinbase(int h, u64 total, int flaw, const Led &L) {
    auto t = std::make_unique<TxR>(); t->cb = true; t->tx.version = 1; t->tx.unlockTime = h + c.unlockw; BaseInput in; in.blockIndex = h;
    if (flaw == 1) in.blockIndex = h + (rng.p(50) ? 1 : -1); if (flaw == 2) t->tx.unlockTime = (int64_t)t->tx.unlockTime + (rng.p(50) ? -1 : 1) * (rng.p(70) ? 1 : rng.r(1, 3)); if (flaw == 10) t->tx.unlockTime = 0;
    if (flaw == 3) total += 11 + (rng.p(50) ? 0 : rng.u(1000)); if (flaw == 4) total -= std::min<u64>(total - 1, 1 + (rng.p(50) ? 0 : rng.u(1000))); if (flaw == 5) total += rng.u(10) + 1;
    t->cbh = in.blockIndex; t->tx.inputs.push_back(in); InR ir; ir.k = 2; ir.a = 0; t->ins.push_back(ir); if (flaw == 6) { t->tx.inputs.push_back(in); t->ins.push_back(ir); }
    u64 dep = 0; if (rng.p(4) && total > 5000 && flaw == 0) { dep = 1000 + rng.u(3); t->tx.version = 2; t->outs.push_back(msigOut(dep, c.minTerm3, 1, 1)); }
    std::vector<u64> d; if (rng.p(85)) d = digits(total - dep); else { u64 x = 1 + rng.u(total - dep); d.push_back(x); if (total - dep > x) d.push_back(total - dep - x); }
    for (u64 a : d) t->outs.push_back(keyOut(a));
    if (flaw == 7) t->outs.push_back(keyOut(0)); if (flaw == 8) { auto o = msigOut(1000, c.minTerm3 + 1, 1, 1); t->tx.version = 2; t->outs.push_back(o); }
    crypto::PublicKey p; crypto::SecretKey s; crypto::generate_keys(p, s); addTransactionPublicKeyToExtra(t->tx.extra, p);
    if (sizeProfile && rng.p(20)) pad(*t, rng.u(300));
    for (auto &o : t->outs) t->tx.outputs.push_back(target(o));
    if (flaw == 9 && t->outs[0].k == 0) { KeyOutput k; k.key = badKey(); t->tx.outputs[0].target = k; t->outs[0].ok = false; t->outs[0].have = false; t->outs[0].key = ++nkeys; }
    if (flaw == 6 || flaw == 11) { t->tx.signatures.resize(flaw == 6 ? 2 : 1); if (flaw == 11) t->tx.signatures[0].clear(); }
    t->nsig = (int)t->tx.signatures.size();
    int id = regTx(std::move(t)); noteOuts(id); return id;
  }
  // ---------- ledger
  std::shared_ptr<Led> extend(const Led &P, const BlkR &b) {
    auto L = std::make_shared<Led>(P); int h = P.h; u64 d = need(P); size_t sz = 0; u64 ins = 0, fee = 0; std::vector<int> all{b.cb}; all.insert(all.end(), b.txs.begin(), b.txs.end());
    for (int id : all) {
      TxR &t = tx(id); sz += t.blob.size(); L->txh[id] = h; if (!t.cb) fee += feeOf(t, h);
      for (auto &i : t.ins) { if (i.k == 0) L->spent.insert(i.ki); else if (i.k == 1) { L->mused.insert({i.a, i.idx}); ins += interestAt(i, h); } }
      for (size_t p = 0; p < t.outs.size(); ++p) (t.outs[p].k == 0 ? L->outs : L->mouts)[t.outs[p].a].push_back({id, (int)p, h});
    }
    u64 rew; int64_t em = 0; std::vector<size_t> ls(P.sizes.end() - std::min<size_t>(P.sizes.size(), c.rbw), P.sizes.end()); if (!cur().getBlockReward(medianSz(ls), sz, P.coins.empty() ? 0 : P.coins.back(), fee, h, rew, em)) em = 0;
    L->h = h + 1; L->ts.push_back(b.ts); L->cum.push_back((P.cum.empty() ? 0 : P.cum.back()) + d); L->coins.push_back((P.coins.empty() ? 0 : P.coins.back()) + em + ins); L->sizes.push_back(sz); return L;
  }
  size_t medianSz(std::vector<size_t> v) { if (v.empty()) return 0; std::sort(v.begin(), v.end()); size_t n = v.size(); return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2; }
  int regBlock(Block &b, int par, bool mal) {
    Hash h = get_block_hash(b); int old = blkId(h); if (old) return old;
    auto r = std::make_unique<BlkR>(); r->b = b; r->hash = h; r->id = (int)B.size() + 1; r->par = par; r->h = par ? blk(par).h + 1 : 0; r->mal = mal; r->ts = (int64_t)b.timestamp - G;
    r->claimed = get_block_height(b); r->dmax = maxDiff(powHash(b)); r->cb = txId(getObjectHash(b.baseTransaction)); for (auto &x : b.transactionHashes) r->txs.push_back(txId(x));
    bid[h] = r->id; int id = r->id; B.push_back(std::move(r)); return id;
  }
  struct BOpt { int flaw = 0; std::vector<int> txs; bool ok = true; };
  // flaws: 1 future, 2 old ts, 3 version, 4 low pow, 5.. coinbase flaw (5+k), 30 unknown tx, 31 double spend in block, 32 same block spend
  int makeBlock(int par, const std::vector<int> &txs, int flaw) {
    const Led &L = *blk(par).led; int h = L.h; Block b = boost::value_initialized<Block>(); b.majorVersion = version(h); b.minorVersion = 0; b.previousBlockHash = blk(par).hash; b.nonce = (uint32_t)rng.next();
    int64_t med = median(L), prev = L.ts.back(); int64_t ts = prev + (prel && fastStart ? rng.r(25, 80) : rng.p(85) ? rng.r(40, 220) : rng.r(-150, 900)); if (rng.p(6)) ts = med + rng.u(3);
    if (ts < med) ts = med; if (ts > now + c.ftl) ts = std::max(med, now + c.ftl - (rng.p(30) ? 0 : rng.r(0, 60)));
    if (flaw == 1) ts = now + c.ftl + 1 + (rng.p(60) ? 0 : rng.u(500)); if (flaw == 2) { if (!med) return 0; ts = med - 1 - (rng.p(60) ? 0 : rng.u(100)); } if (ts < 1) ts = 1; b.timestamp = G + ts;
    if (flaw == 3) { int v = version(h); b.majorVersion = rng.p(50) ? (v == 8 ? 7 : v == 7 ? 8 : v == 4 ? (rng.p(50) ? 3 : 7) : v == 3 ? (rng.p(50) ? 2 : 4) : v == 2 ? (rng.p(50) ? 1 : 3) : 2) : (v == 8 ? 9 : v + 1); }
    u64 fee = 0; size_t sz = 0; for (int id : txs) { fee += feeOf(tx(id), h); sz += tx(id).blob.size(); b.transactionHashes.push_back(tx(id).hash); }
    if (flaw == 33 && txs.size()) b.transactionHashes.push_back(b.transactionHashes[0]);
    std::vector<size_t> ls(L.sizes.end() - std::min<size_t>(L.sizes.size(), c.rbw), L.sizes.end()); u64 rew = 0; int64_t em; int cb = 0; size_t guess = 130;
    for (int k = 0; k < 6; ++k) { if (!cur().getBlockReward(medianSz(ls), sz + guess, L.coins.back(), fee, h, rew, em)) rew = 1000000; if (cb) { u64 s = 0; s = sumOut(tx(cb)); if (s >= rew && s <= rew + 10 && flaw < 5) break; if (flaw >= 5 && flaw < 20) break; }
      cb = makeCoinbase(h, std::max<u64>(rew, 1), flaw >= 5 && flaw < 20 ? flaw - 4 : 0, L); if (tx(cb).blob.size() == guess) break; guess = tx(cb).blob.size(); if (sz + guess <= std::max(c.zone, medianSz(ls))) break; }
    b.baseTransaction = tx(cb).tx;
    u64 d = need(L); if (!d) return 0; if (flaw == 4 && d < 6) return 0;
    for (int k = 0; k < 60000; ++k) { Hash p = powHash(b); bool ok = flaw == 4 ? (!powOk(p, d) && powOk(p, d - d / 4)) : powOk(p, d) && (!powOk(p, d + d / 4 + 1) || k > 3000); if (ok) break; b.nonce++; }
    int id = regBlock(b, par, false); if (!blk(id).led) blk(id).led = extend(L, blk(id)); return id;
  }
};
