// Drives transaction objects through generated building, signing and copying steps.  usage: builder <seed> <dir> <ops>
#include "jw.h"
#include "CryptoNoteCore/TransactionApi.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/Account.h"
#include <cstring>
#include <memory>
using namespace cn; using namespace crypto;
typedef transaction_types::InputType IT; typedef transaction_types::OutputType OT;
static std::string hex(const void *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; ++i) { s += d[((const uint8_t *)p)[i] >> 4]; s += d[((const uint8_t *)p)[i] & 15]; } return s; }
template <class V> static std::string hex(const V &v) { return hex(v.data(), v.size()); }
static std::string big(uint64_t v) { std::string s = "["; bool f = true; while (v) { if (!f) s += ','; f = false; s += std::to_string(v % 10000); v /= 10000; } return s + "]"; }
// numbers standing for distinct byte strings
struct Intern { std::map<std::string, int> m; int operator()(const std::string &s) { return m.emplace(s, (int)m.size() + 1).first->second; } };
template <class P> static std::string pod(const P &p) { return std::string((const char *)&p, sizeof p); }
// the transaction format, written down independently
struct Enc { std::string s; void v(uint64_t x) { while (x >= 128) { s += (char)(x | 128); x >>= 7; } s += (char)x; } void b(const std::string &x) { s += x; } };
struct In { int ty = 1; uint64_t a = 0; std::vector<uint32_t> x; KeyImage ki; uint32_t g = 0; uint32_t req = 0, term = 0; };
struct Out { int ty = 1; uint64_t a = 0; std::vector<PublicKey> keys; uint32_t req = 0, term = 0; };
static void enc(Enc &e, const std::vector<In> &ins) {
  e.v(ins.size());
  for (auto &i : ins) {
    if (i.ty == 0) { e.s += (char)0xff; e.v(i.g); }
    else if (i.ty == 1) { e.s += (char)2; e.v(i.a); e.v(i.x.size()); for (auto x : i.x) e.v(x); e.b(pod(i.ki)); }
    else { e.s += (char)3; e.v(i.a); e.v(i.req); e.v(i.g); e.v(i.term); }
  }
}
static void enc(Enc &e, const std::vector<Out> &outs) {
  e.v(outs.size());
  for (auto &o : outs) {
    e.v(o.a);
    if (o.ty == 1) { e.s += (char)2; e.b(pod(o.keys[0])); }
    else { e.s += (char)3; e.v(o.keys.size()); for (auto &k : o.keys) e.b(pod(k)); e.v(o.req); e.v(o.term); }
  }
}
struct Item { std::string k; std::string b; int v; };
struct Slot { std::unique_ptr<ITransaction> t; std::unique_ptr<ITransactionReader> r; ITransactionReader *get() const { return t ? (ITransactionReader *)t.get() : r.get(); } bool bad = false; std::map<size_t, std::pair<transaction_types::InputKeyInfo, KeyPair>> info; };

struct Driver {
  Rng rng; std::ofstream out; Stats st; Intern data, keys, images, pubs, sigs; std::map<std::string, int> hashes; Slot s[4]; std::vector<AccountKeys> acc; int fresh = 0;
  std::vector<TransactionInput> shared; std::vector<KeyPair> pool;
  Driver(uint64_t seed, const std::string &dir) : rng(seed), out(dir + "/t.ndjson") { for (int i = 0; i < 3; ++i) { AccountBase a; a.generate(); acc.push_back(a.getAccountKeys()); } for (int i = 0; i < 3; ++i) pool.push_back(generateKeyPair()); }
  int pubId(const PublicKey &k) { return k == NULL_PUBLIC_KEY ? 0 : pubs(pod(k)); }
  int keyId(const PublicKey &k) { return keys(pod(k)); }
  int dataId(const std::string &b) { int i = data(b); Hash h = getBinaryArrayHash(BinaryArray(b.begin(), b.end())); hashes.emplace(pod(h), i); return i; }
  static std::string str(const BinaryArray &b) { return std::string(b.begin(), b.end()); }
  std::string inj(const In &i) { return J().n("ty", i.ty).raw("a", big(i.a)).raw("x", jnums(i.x)).n("ki", i.ty == 1 ? images(pod(i.ki)) : 0).n("g", i.g).n("req", i.req).n("term", i.term).str(); }
  std::string outj(const Out &o) { bool good = true; for (auto &k : o.keys) good = good && check_key(k); return J().n("ty", o.ty).raw("a", big(o.a)).raw("keys", jarr(o.keys, [&](const PublicKey &k) { return std::to_string(keyId(k)); })).n("req", o.req).n("term", o.term).b("good", good).str(); }
  static In in(const TransactionInput &t) {
    In r; memset(&r.ki, 0, sizeof r.ki);
    if (auto k = boost::get<KeyInput>(&t)) { r.a = k->amount; r.x = k->outputIndexes; r.ki = k->keyImage; }
    else if (auto m = boost::get<MultisignatureInput>(&t)) { r.ty = 2; r.a = m->amount; r.g = m->outputIndex; r.req = m->signatureCount; r.term = m->term; }
    else { r.ty = 0; r.g = boost::get<BaseInput>(t).blockIndex; }
    return r;
  }
  template <class F> static bool throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
  std::string obs(const Slot &sl) {
    ITransactionReader *t = sl.get(); J q; TransactionPrefix p = t->getTransactionPrefix();
    q.n("ver", p.version).raw("unlock", big(t->getUnlockTime())).n("pk", pubId(t->getTransactionPublicKey()));
    SecretKey sk; bool hs = t->getTransactionSecretKey(sk); PublicKey sp = NULL_PUBLIC_KEY; if (hs) secret_key_to_public_key(sk, sp); q.b("sec", hs).n("secp", hs ? pubId(sp) : 0);
    Hash pid; BinaryArray nonce; q.t("pid", t->getPaymentId(pid) ? hex(&pid, 32) : "-"); q.t("nonce", t->getExtraNonce(nonce) ? hex(nonce) : "-");
    BinaryArray ex = t->getExtra(); q.t("extra", hex(ex));
    std::vector<In> ins; std::vector<Out> outs; bool gets = true, oob = true; size_t ni = t->getInputCount(), no = t->getOutputCount(); auto all = t->getInputs(); std::vector<size_t> req;
    gets = gets && all.size() == ni && p.inputs.size() == ni && p.outputs.size() == no && p.extra == ex && p.unlockTime == t->getUnlockTime();
    for (size_t i = 0; i < ni; ++i) {
      KeyInput k; MultisignatureInput m; req.push_back(t->getRequiredSignaturesCount(i));
      switch (t->getInputType(i)) {
      case IT::Key: t->getInput(i, k); ins.push_back(in(k)); oob = oob && throws([&] { t->getInput(i, m); }); break;
      case IT::Multisignature: t->getInput(i, m); ins.push_back(in(m)); oob = oob && throws([&] { t->getInput(i, k); }); break;
      default: ins.push_back(in(all[i])); oob = oob && throws([&] { t->getInput(i, m); }) && throws([&] { t->getInput(i, k); });
      }
      gets = gets && inj(in(all[i])) == inj(ins[i]) && inj(in(p.inputs[i])) == inj(ins[i]);
    }
    KeyInput k; MultisignatureInput m; KeyOutput ko; MultisignatureOutput mo; uint64_t a;
    oob = oob && throws([&] { t->getInput(ni, k); }) && throws([&] { t->getInput(ni + 1, m); }) && throws([&] { t->getInputType(ni); }) && throws([&] { t->getOutput(no, ko, a); }) && throws([&] { t->getOutput(no, mo, a); }) && throws([&] { t->getOutputType(no); }) && throws([&] { t->getRequiredSignaturesCount(ni); });
    for (size_t i = 0; i < no; ++i) {
      Out o;
      if (t->getOutputType(i) == OT::Key) { t->getOutput(i, ko, o.a); o.keys = {ko.key}; oob = oob && throws([&] { t->getOutput(i, mo, a); }); }
      else { t->getOutput(i, mo, o.a); o.ty = 2; o.keys = mo.keys; o.req = mo.requiredSignatureCount; o.term = mo.term; oob = oob && throws([&] { t->getOutput(i, ko, a); }); }
      gets = gets && p.outputs[i].amount == o.a; outs.push_back(o);
    }
    q.raw("ins", jarr(ins, [&](const In &i) { return inj(i); })).raw("outs", jarr(outs, [&](const Out &o) { return outj(o); })).raw("req", jnums(req)).b("gets", gets).b("oob", oob);
    q.raw("it", big(t->getInputTotalAmount())).raw("ot", big(t->getOutputTotalAmount())).b("vi", t->validateInputs()).b("vo", t->validateOutputs());
    int vs; try { vs = t->validateSignatures(); } catch (const std::exception &) { vs = -1; } q.n("vs", vs);
    q.raw("fo", jarr(acc, [&](const AccountKeys &ak) {
      std::vector<uint32_t> fo; uint64_t am = 7; std::vector<int> dk; KeyDerivation d; bool ok = generate_key_derivation(t->getTransactionPublicKey(), ak.viewSecretKey, d);
      if (ok) t->findOutputsToAccount(ak.address, ak.viewSecretKey, fo, am);
      for (size_t i = 0; i < no; ++i) { PublicKey k; if (ok && derive_public_key(d, i, ak.address.spendPublicKey, k)) dk.push_back(keyId(k)); else dk.push_back(0); }
      return J().b("ok", ok).raw("o", jnums(fo)).raw("a", big(am)).raw("dk", jnums(dk)).str(); }));
    Enc e, ei; e.v(p.version); e.v(t->getUnlockTime()); enc(e, ins); enc(e, outs); e.v(ex.size()); e.b(str(ex)); enc(ei, ins);
    std::string d = str(t->getTransactionData()); int di = dataId(d), pe = dataId(e.s), ie = dataId(ei.s);
    auto hid = [&](const Hash &h) { if (h == NULL_HASH) return -1; auto x = hashes.find(pod(h)); return x == hashes.end() ? -2 : x->second; };
    q.n("h", hid(t->getTransactionHash())).n("d", di).n("p", hid(t->getTransactionPrefixHash())).n("pe", pe).n("ih", hid(t->getTransactionInputsHash())).n("ie", ie).b("dp", d.compare(0, e.s.size(), e.s) == 0);
    // signatures that can be checked
    std::vector<int> sv(ni, -1); cn::Transaction tx;
    if (sl.t && fromBinaryArray(tx, t->getTransactionData())) for (size_t i = 0; i < ni; ++i) if (sl.info.count(i)) {
      auto &inf = sl.info.at(i); Hash ph = t->getTransactionPrefixHash();
      if (ins[i].ty == 1 && tx.signatures[i].size() == inf.first.outputs.size() && !tx.signatures[i].empty()) { std::vector<const PublicKey *> ks; for (auto &o : inf.first.outputs) ks.push_back(&o.targetKey); sv[i] = check_ring_signature(ph, ins[i].ki, ks, tx.signatures[i].data()); }
      if (ins[i].ty == 2 && !tx.signatures[i].empty()) { sv[i] = 1; for (auto &g : tx.signatures[i]) if (!check_signature(ph, inf.second.publicKey, g)) sv[i] = 0; }
    }
    q.raw("sv", jnums(sv));
    return q.str();
  }
  void ev(J &j, int o) {
    j.n("o", o + 1).raw("q", s[o].get() ? obs(s[o]) : "{}"); int x = rng.u(4); j.n("also", s[x].get() ? x + 1 : 0).raw("aq", s[x].get() ? obs(s[x]) : "{}");
    out << j.str() << "\n"; st.add("events");
  }
  uint64_t amount() { switch (rng.u(6)) { case 0: return rng.u(3); case 1: return ~0ull - rng.u(3); case 2: return 1ull << 63; case 3: return rng.next() >> rng.u(40); default: return rng.u(1000000); } }
  PublicKey anyKey() { if (rng.p(12)) { PublicKey k; memset(&k, 0xff, sizeof k); ((uint8_t *)&k)[3] = rng.u(200); return k; } return rng.pick(pool).publicKey; }
  std::string item(const Item &i) { return J().t("k", i.k).t("h", hex(i.b)).raw("v", i.k == "nonce" ? "\"" + hex(i.b.substr(2)) + "\"" : std::to_string(i.v)).t("p", i.k == "nonce" && i.b.size() == 35 && i.b[2] == 0 ? hex(i.b.substr(3)) : "-").str(); }
  Item pkItem(const PublicKey &k) { return {"pk", std::string(1, 1) + pod(k), pubId(k)}; }
  Item nonceItem(const std::string &n) { return {"nonce", std::string(1, 2) + (char)n.size() + n, 0}; }
  std::string bytes(size_t n) { std::string b; for (size_t i = 0; i < n; ++i) b += (char)rng.u(256); return b; }
  Item anyItem() {
    switch (rng.u(9)) {
    case 0: return pkItem(rng.pick(pool).publicKey);
    case 1: return nonceItem(rng.p(40) ? std::string(1, 0) + bytes(32) : bytes(rng.u(4) ? rng.u(40) : 255));
    case 2: { std::string v; for (uint64_t x = amount();; x >>= 7) { if (x < 128) { v += (char)x; break; } v += (char)(x | 128); } return {"field", std::string(1, 5) + (char)v.size() + v, 0}; }
    case 3: { size_t n = rng.u(30); return {"field", std::string(1, 4) + (char)n + bytes(n), 0}; }
    case 4: { uint64_t d = rng.u(128); return {"field", std::string(1, 3) + (char)33 + (char)d + bytes(32), 0}; }
    case 5: { size_t n = rng.u(3) ? 1 + rng.u(6) : 240 + rng.u(30); return {"pad", std::string(n, 0), (int)n}; }
    case 6: { std::string b; size_t n = 1 + rng.u(4); for (size_t i = 0; i < n; ++i) b += (char)(6 + rng.u(200)); return {"junk", b, 0}; }
    case 7: if (rng.p(40)) return {"bad", rng.p(50) ? std::string(1, 2) + (char)200 + bytes(5) : std::string(1, 1) + bytes(7), 0}; // fall through
    default: return nonceItem(bytes(rng.u(10)));
    }
  }
  TransactionInput anyInput() {
    if (!shared.empty() && rng.p(15)) return rng.pick(shared);
    if (rng.p(50)) { MultisignatureInput m; m.amount = amount(); m.signatureCount = rng.u(4); m.outputIndex = rng.u(5) ? rng.u(1000) : ~0u; m.term = rng.p(50) ? 0 : rng.u(100000); shared.push_back(m); return m; }
    KeyInput k; k.amount = amount(); size_t n = rng.u(4); for (size_t i = 0; i < n; ++i) k.outputIndexes.push_back(rng.u(4) ? rng.u(300) : (uint32_t)rng.next()); KeyPair kp = generateKeyPair(); generate_key_image(kp.publicKey, kp.secretKey, k.keyImage); shared.push_back(k); return k;
  }
  Out anyOut() { Out o; o.a = amount(); if (rng.p(50)) { o.keys = {anyKey()}; } else { o.ty = 2; size_t n = rng.u(4); for (size_t i = 0; i < n; ++i) o.keys.push_back(anyKey()); o.req = rng.u(n + 2); o.term = rng.u(3) ? 0 : rng.u(1u << 31); } return o; }
  static TransactionOutputTarget target(const Out &o) { if (o.ty == 1) return KeyOutput{o.keys[0]}; MultisignatureOutput m; m.keys = o.keys; m.requiredSignatureCount = o.req; m.term = o.term; return m; }
  template <class F> bool tried(F f) { try { f(); return true; } catch (const std::exception &) { return false; } }
  bool complete(const Slot &x) { Transaction tx; return x.t && x.t->getTransactionHash() != NULL_HASH && fromBinaryArray(tx, x.t->getTransactionData()) && x.t->validateSignatures(); }
  void step() {
    int o = rng.u(4); Slot &x = s[o]; J j;
    if (!x.get() || rng.p(3)) { // a new object
      x = Slot();
      if (rng.p(70)) { x.t = createTransaction(); j.t("op", "new").raw("pk", item(pkItem(x.t->getTransactionPublicKey()))); return ev(j, o); }
      // one made of a transaction that came from elsewhere
      Transaction tx; std::vector<Item> items; tx.version = 1 + rng.u(2); tx.unlockTime = amount(); std::vector<In> ins; std::vector<Out> outs;
      size_t n = rng.u(3); for (size_t i = 0; i < n; ++i) { TransactionInput t = anyInput(); if (rng.p(10)) t = BaseInput{(uint32_t)rng.u(100000)}; tx.inputs.push_back(t); ins.push_back(in(t)); }
      n = rng.u(3); for (size_t i = 0; i < n; ++i) { Out t = anyOut(); outs.push_back(t); tx.outputs.push_back({t.a, target(t)}); }
      n = rng.u(4); for (size_t i = 0; i < n && !x.bad; ++i) { Item it = anyItem(); items.push_back(it); x.bad = it.k == "bad"; tx.extra.insert(tx.extra.end(), it.b.begin(), it.b.end()); }
      int form = rng.u(4); Hash h = NULL_HASH; int hid = 0; bool sg = rng.p(50) || form == 1; std::vector<std::vector<int>> sid;
      if (sg) for (auto &i : ins) { size_t c = i.ty == 1 ? i.x.size() : i.ty == 2 ? i.req : 0; std::vector<Signature> v(c); std::vector<int> ids; for (auto &g : v) { std::string b = bytes(64); memcpy(&g, b.data(), 64); ids.push_back(++fresh); } tx.signatures.push_back(v); sid.push_back(ids); }
      if (form == 0) x.t = createTransaction(tx); else if (form == 1) x.t = createTransaction(toBinaryArray(tx));
      else if (form == 2) { h = rand<Hash>(); hid = dataId(hex(&h, 32)); hashes[pod(h)] = hid; x.r = createTransactionPrefix(tx, h); }
      else { x.r = createTransactionPrefix(tx); BinaryArray b; hid = toBinaryArray(tx, b) ? dataId(str(b)) : -1; }
      j.t("op", "wrap").n("form", form).n("hid", hid).n("ver", tx.version).raw("unlock", big(tx.unlockTime)).raw("ins", jarr(ins, [&](const In &i) { return inj(i); })).raw("outs", jarr(outs, [&](const Out &i) { return outj(i); })).raw("items", jarr(items, [&](const Item &i) { return item(i); })).raw("sigs", jarr(sid, [](const std::vector<int> &v) { return jnums(v); }));
      return ev(j, o);
    }
    if (rng.p(6)) { // a copy
      int d = rng.u(4); if (d == o) d = (d + 1) % 4; Slot y; y.bad = x.bad; std::string how;
      if (x.r) { if (rng.p(50)) { y.r = createTransactionPrefix(x.r->getTransactionPrefix(), x.r->getTransactionHash()); how = "prefix"; } else { Transaction tx; static_cast<TransactionPrefix &>(tx) = x.r->getTransactionPrefix(); y.t = createTransaction(tx); how = "unsigned"; } }
      else {
        Transaction tx; bool full = complete(x);
        if (full && rng.p(70)) {
          y.info = x.info; int f = rng.u(3); BinaryArray b = x.t->getTransactionData();
          if (f == 0) { if (!tried([&] { y.t = createTransaction(b); })) { st.add("reload failed"); y.t = createTransaction(); } how = "blob"; }
          else { if (!fromBinaryArray(tx, b)) throw std::runtime_error("parse"); if (f == 1) { y.t = createTransaction(tx); how = "struct"; } else { y.r = createTransactionPrefix(tx); how = "full"; y.info.clear(); } }
        } else if (rng.p(50)) { static_cast<TransactionPrefix &>(tx) = x.t->getTransactionPrefix(); y.t = createTransaction(tx); how = "unsigned"; }
        else { y.r = createTransactionPrefix(x.t->getTransactionPrefix(), x.t->getTransactionHash()); how = "prefix"; }
      }
      s[d] = std::move(y); j.t("op", "copy").n("from", o + 1).t("how", how); st.add("copy " + how); return ev(j, d);
    }
    if (x.t && rng.p(4) && complete(x)) { // damaged bytes are refused, or mean exactly what they say
      BinaryArray b = x.t->getTransactionData(); int kind = rng.u(3); if (kind == 0) b[rng.u(b.size())] ^= 1 << rng.u(8); else if (kind == 1) b.resize(rng.u(b.size())); else for (int n = 1 + rng.u(3); n--;) b.insert(b.begin() + rng.u(b.size() + 1), (uint8_t)rng.u(256));
      bool ok = true, same = true, hash = true; try { auto t = createTransaction(b); same = t->getTransactionData() == b; hash = t->getTransactionHash() == getBinaryArrayHash(b); } catch (const std::exception &) { ok = false; }
      j.t("op", "damaged").b("ok", ok).b("same", same).b("hash", hash); st.add(ok ? "damaged read" : "damaged refused"); return ev(j, o);
    }
    if (!x.t) { j.t("op", "look"); return ev(j, o); }
    ITransaction &t = *x.t; bool ok = false; int64_t ret = -1;
    // mostly building, later signing
    int op = rng.u(100);
    if (op < 8) { uint64_t u = amount(); ok = tried([&] { t.setUnlockTime(u); }); j.t("op", "unlock").raw("u", big(u)); }
    else if (op < 14) { Hash h = rand<Hash>(); ok = tried([&] { t.setPaymentId(h); }); if (ok) x.bad = false; j.t("op", "nonce").raw("it", item(nonceItem(std::string(1, 0) + pod(h)))).n("size", 33); }
    else if (op < 20) { std::string n = bytes(rng.u(5) ? rng.u(30) : 240 + rng.u(40)); ok = tried([&] { t.setExtraNonce(BinaryArray(n.begin(), n.end())); }); if (ok) x.bad = false; j.t("op", "nonce").raw("it", item(nonceItem(n))).n("size", n.size()); }
    else if (op < 32) { if (x.bad) { j.t("op", "look"); return ev(j, o); } Item it = anyItem(); ok = tried([&] { t.appendExtra(BinaryArray(it.b.begin(), it.b.end())); }); if (ok) x.bad = it.k == "bad"; j.t("op", "append").raw("it", item(it)); }
    else if (op < 40) { TransactionInput in = anyInput(); size_t n = t.getInputCount(); ok = tried([&] { if (auto k = boost::get<KeyInput>(&in)) ret = t.addInput(*k); else ret = t.addInput(boost::get<MultisignatureInput>(in)); }); if (ok) { x.info.erase(n); if (in.type() == typeid(MultisignatureInput)) x.info[n] = {{}, rng.pick(pool)}; } j.t("op", "addin").raw("in", inj(Driver::in(in))); }
    else if (op < 48) { // an input of an account's own output
      transaction_types::InputKeyInfo inf; KeyPair eph, txk = generateKeyPair(); auto &a = rng.pick(acc); inf.amount = amount(); size_t n = 1 + rng.u(4), real = rng.u(n); uint32_t idx = 0; std::vector<uint32_t> rel;
      KeyImage ki; inf.realOutput = {txk.publicKey, real, rng.u(5)}; generate_key_image_helper(a, txk.publicKey, inf.realOutput.outputInTransaction, eph, ki);
      for (size_t i = 0; i < n; ++i) { uint32_t d = 1 + rng.u(1000); idx += d; rel.push_back(d); inf.outputs.push_back({i == real ? eph.publicKey : generateKeyPair().publicKey, idx}); }
      KeyPair got; size_t at = t.getInputCount(); ok = tried([&] { ret = t.addInput(a, inf, got); }); if (ok && !(got.publicKey == eph.publicKey && got.secretKey == eph.secretKey)) ret = -7; if (ok) x.info[at] = {inf, eph};
      In in; in.a = inf.amount; in.x = rel; in.ki = ki; j.t("op", "addin").raw("in", inj(in)); }
    else if (op < 58) { // outputs to addresses
      Out u; u.a = amount(); bool multi = rng.p(50); std::vector<AccountPublicAddress> to; size_t n = multi ? rng.u(4) : 1; for (size_t i = 0; i < n; ++i) to.push_back(rng.pick(acc).address); if (multi) { u.ty = 2; u.req = rng.u(n + 2); u.term = rng.u(2) ? 0 : rng.u(1u << 31); }
      SecretKey sk; bool has = t.getTransactionSecretKey(sk); size_t at = t.getOutputCount(); for (auto &a : to) { KeyDerivation d; PublicKey k = NULL_PUBLIC_KEY; if (has && generate_key_derivation(a.viewPublicKey, sk, d)) derive_public_key(d, at, a.spendPublicKey, k); u.keys.push_back(k); }
      ok = tried([&] { ret = multi ? t.addOutput(u.a, to, u.req, u.term) : t.addOutput(u.a, to[0]); }); j.t("op", "outto").raw("out", outj(u)); }
    else if (op < 66) { Out u = anyOut(); auto g = target(u); ok = tried([&] { ret = u.ty == 1 ? t.addOutput(u.a, boost::get<KeyOutput>(g)) : t.addOutput(u.a, boost::get<MultisignatureOutput>(g)); }); j.t("op", "addout").raw("out", outj(u)); }
    else if (op < 70) { KeyPair k = rng.pick(pool); if (rng.p(50)) { SecretKey sk; if (t.getTransactionSecretKey(sk)) { k.secretKey = sk; secret_key_to_public_key(sk, k.publicKey); } } ok = tried([&] { t.setTransactionSecretKey(k.secretKey); }); j.t("op", "secret").n("pub", pubId(k.publicKey)); }
    else if (op < 75) { KeyPair k; SecretKey v = rng.pick(acc).viewSecretKey; generateDeterministicTransactionKeys(getObjectHash(t.getTransactionPrefix().inputs), v, k); ok = tried([&] { t.setDeterministicTransactionSecretKey(v); }); if (ok) x.bad = false; j.t("op", "det").raw("pk", item(pkItem(k.publicKey))); }
    else if (op < 78) { // signing what is not there, or not of that kind
      size_t at = t.getInputCount() + rng.u(2); KeyPair k = rng.pick(pool); if (rng.p(50)) ok = tried([&] { t.signInputMultisignature(at, k); }); else { transaction_types::InputKeyInfo inf; inf.outputs.push_back({k.publicKey, 1}); inf.realOutput.transactionIndex = 0; ok = tried([&] { t.signInputKey(at, inf, k); }); }
      j.t("op", "signbad").n("at", at + 1); }
    else if (t.getInputCount()) {
      if (rng.p(70) && op < 97) { j.t("op", "look"); return ev(j, o); }
      // sign one or all
      size_t n = t.getInputCount(), from = 0, to = n; if (rng.p(40)) { from = rng.u(n); to = from + 1; }
      for (size_t i = from; i < to; ++i) {
        J k; ok = false; auto ty = t.getInputType(i); std::vector<int> ids; bool good = false;
        if (ty == IT::Key) {
          transaction_types::InputKeyInfo inf; KeyPair eph;
          if (x.info.count(i)) { inf = x.info[i].first; eph = x.info[i].second; good = true; } else { eph = generateKeyPair(); size_t c = t.getRequiredSignaturesCount(i); if (!c) continue; for (size_t a = 0; a < c; ++a) inf.outputs.push_back({a ? generateKeyPair().publicKey : eph.publicKey, 1}); inf.realOutput.transactionIndex = 0; }
          for (size_t a = 0; a < inf.outputs.size(); ++a) ids.push_back(++fresh); ok = tried([&] { t.signInputKey(i, inf, eph); }); k.t("op", "signkey");
        } else if (ty == IT::Multisignature) {
          bool g = x.info.count(i); size_t c = t.getRequiredSignaturesCount(i); if (rng.p(15)) c += 1; if (rng.p(15) && c) c -= 1;
          for (size_t a = 0; a < c; ++a) { J m; KeyPair kp = g ? x.info[i].second : rng.pick(pool); int id = ++fresh; ok = tried([&] { if (!g && rng.p(50)) t.signInputMultisignature(i, rng.pick(pool).publicKey, rng.u(3), rng.pick(acc)); else t.signInputMultisignature(i, kp); }); m.t("op", "signmulti").n("at", i + 1).n("id", id).b("good", g).b("ok", ok); ev(m, o); }
          continue;
        } else continue;
        k.n("at", i + 1).raw("ids", jnums(ids)).b("good", good).b("ok", ok); ev(k, o);
      }
      st.add("signed"); return;
    } else j.t("op", "look");
    if (j.s.find("\"op\":\"look\"") == std::string::npos) { j.b("ok", ok); if (ret != -1) j.n("ret", ret); st.add(ok ? "accepted" : "refused"); }
    ev(j, o);
  }
};
int main(int, char **v) {
  Driver d(atoll(v[1]), v[2]); d.out << J().t("op", "init").str() << "\n";
  for (int n = atoi(v[3]), i = 0; i < n; ++i) d.step();
  d.st.write(std::string(v[2]) + "/stats.json"); std::ofstream(std::string(v[2]) + "/t.defs.json") << "{}\n"; return 0;
}
