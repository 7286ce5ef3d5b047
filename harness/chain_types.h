// Generator side of the chain driver: transactions, blocks, a lenient ledger per block, own proof-of-work bookkeeping.
#pragma once
#include "jw.h"
#include <set>
#include <list>
#include <memory>
#include <algorithm>
#include <cstring>
#include <unordered_map>
#include <boost/utility/value_init.hpp>
#include "crypto/crypto.h"
#include "crypto/hash.h"
#include "CryptoNoteCore/Core.h"
#include "CryptoNoteCore/CoreConfig.h"
#include "CryptoNoteCore/MinerConfig.h"
#include "CryptoNoteCore/Currency.h"
#include "CryptoNoteCore/Account.h"
#include "CryptoNoteCore/CryptoNoteFormatUtils.h"
#include "CryptoNoteCore/CryptoNoteTools.h"
#include "CryptoNoteCore/CryptoNoteBasic.h"
#include "CryptoNoteCore/TransactionExtra.h"
#include "CryptoNoteCore/VerificationContext.h"
#include "CryptoNoteCore/Checkpoints.h"
#include "CryptoNoteProtocol/CryptoNoteProtocolDefinitions.h"
#include "Rpc/CoreRpcServerCommandsDefinitions.h"
#include "System/Dispatcher.h"
#include "Common/StringTools.h"
using namespace cn;
using crypto::Hash;
typedef uint64_t u64;
extern "C" time_t g_virtual_time;
extern u64 g_random_state;
extern std::vector<std::string> g_dns_records;

struct HashLess { bool operator()(const Hash &a, const Hash &b) const { return memcmp(&a, &b, 32) < 0; } };
typedef std::map<Hash, int, HashLess> Ids;

struct OutR { int k = 0; u64 a = 0; int key = 0; crypto::PublicKey pub; crypto::SecretKey sec; bool have = false, ok = true; // k: 0 key, 1 multisig; key: id of the key (or key group)
  uint32_t term = 0; int req = 0, nk = 0; std::vector<KeyPair> mk; };
struct InR { int k = 0; u64 a = 0; std::vector<uint32_t> off; int ki = 0; std::vector<int> want; bool ok = true; // key input
  uint32_t idx = 0, term = 0; int ns = 0, by = 0, own = 0; u64 int3 = 0; };
struct TxR { int id = 0; Transaction tx; BinaryArray blob; Hash hash; std::vector<OutR> outs; std::vector<InR> ins; int64_t ttl = 0; int pid = 0; bool fus = false, cb = false; int cbh = 0, nsig = 0; };
struct Ref { int tx, pos, h; };
struct Led {
  int h = 0; std::vector<int64_t> ts; std::vector<u64> cum, coins; std::vector<size_t> sizes;
  std::map<u64, std::vector<Ref>> outs, mouts; std::set<int> spent; std::set<std::pair<u64, uint32_t>> mused; std::map<int, int> txh;
};
struct BlkR { int id = 0; Block b; Hash hash; int par = 0, h = 0; uint32_t claimed = 0; int64_t ts = 0; u64 dmax = 0; int cb = 0; std::vector<int> txs; bool mal = false; std::shared_ptr<Led> led; };

// largest d with hash * d < 2^256
static bool powOk(const Hash &hash, u64 d) {
  u64 w[4]; memcpy(w, &hash, 32); unsigned __int128 c = 0;
  for (int i = 0; i < 4; ++i) { c += (unsigned __int128)w[i] * d; c >>= 64; }
  return c == 0;
}
static u64 maxDiff(const Hash &hash) {
  u64 lo = 1, hi = 1000000000000000000ull; // capped
  while (lo < hi) { u64 m = lo + (hi - lo + 1) / 2; if (powOk(hash, m)) lo = m; else hi = m - 1; }
  return lo;
}
static Hash powHash(const Block &b) {
  static crypto::cn_context ctx; BinaryArray bb; get_block_hashing_blob(b, bb); Hash h;
  if (b.majorVersion >= 8) crypto::cn_gpu_hash_v0(ctx, bb.data(), bb.size(), h);
  else if (b.majorVersion >= 7) crypto::cn_conceal_slow_hash_v0(ctx, bb.data(), bb.size(), h);
  else if (b.majorVersion >= 3) crypto::cn_fast_slow_hash_v1(ctx, bb.data(), bb.size(), h);
  else crypto::cn_slow_hash_v0(ctx, bb.data(), bb.size(), h);
  return h;
}

struct Conf { // generated currency parameters, mirrored in the defs file
  int win = 12, cut = 2, lag = 3; bool zawy2 = true; int tcw = 6, ftl = 600, unlockw = 4, rbw = 6; size_t zone = 100000, reserved = 600, maxinit = 100000; u64 num = 100, den = 100;
  u64 dmin = 1000; uint32_t minTerm = 4, minTerm3 = 4, maxTerm3 = 48, maxTerm1 = 60, maxTerm = 60, dh3 = 0, dh4 = 0; u64 uh[5] = {1, 2, 3, 4, 5}; u64 live = 4000, altlive = 7000, periods = 2; int zawyIdx = 0;
};
