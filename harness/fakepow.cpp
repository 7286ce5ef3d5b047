// Stand-ins used by the drivers: cheap slow hashes (one tag per algorithm), seeded random source, injectable DNS.
#include <cstring>
#include <string>
#include <vector>
#include <mutex>
#include "crypto/hash.h"
#include "Common/DnsTools.h"

namespace crypto {
static void tagged(char tag, const void *data, size_t length, Hash &hash) {
  std::vector<uint8_t> b(length + 1);
  b[0] = tag;
  if (length) memcpy(b.data() + 1, data, length);
  cn_fast_hash(b.data(), b.size(), hash);
}
void cn_slow_hash_v0(cn_context &, const void *data, size_t length, Hash &hash) { tagged('s', data, length, hash); }
void cn_fast_slow_hash_v1(cn_context &, const void *data, size_t length, Hash &hash) { tagged('f', data, length, hash); }
void cn_conceal_slow_hash_v0(cn_context &, const void *data, size_t length, Hash &hash) { tagged('c', data, length, hash); }
void cn_gpu_hash_v0(cn_context &, const void *data, size_t length, Hash &hash) { tagged('g', data, length, hash); }
}

uint64_t g_random_state = 88172645463325252ull;
static std::mutex g_random_lock;
extern "C" void generate_random_bytes(size_t n, void *result) {
  std::lock_guard<std::mutex> l(g_random_lock);
  uint8_t *p = static_cast<uint8_t *>(result);
  for (size_t i = 0; i < n; ++i) {
    g_random_state ^= g_random_state << 13; g_random_state ^= g_random_state >> 7; g_random_state ^= g_random_state << 17;
    p[i] = static_cast<uint8_t>((g_random_state * 0x2545F4914F6CDD1Dull) >> 56);
  }
}

std::vector<std::string> g_dns_records;
namespace common {
bool fetch_dns_txt(const std::string, std::vector<std::string> &records) {
  records = g_dns_records;
  return true;
}
}
