// Bit-level reference: a plain sequence of bits, most significant bit first.
#ifndef VERIF_REF_BITS_H_
#define VERIF_REF_BITS_H_
#include <cstdint>
#include <string>
#include <vector>
namespace ref {
struct Bits {
  std::vector<uint8_t> b;  // one element per bit
  void Put(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back((v >> i) & 1); }
  void PutBytes(const std::vector<uint8_t>& v) { for (uint8_t x : v) Put(x, 8); }
  void PutStr(const std::string& s) { for (unsigned char c : s) Put(c, 8); Put(0, 8); }
  void PutS(int64_t v, int n) { Put(static_cast<uint64_t>(v) & ((n == 64 ? 0 : (1ull << n)) - 1), n); }
  // ULEB128 with at least `len` bytes (0: shortest).
  void PutLeb(uint64_t v, int len = 0) {
    int n = 0;
    do { uint8_t x = v & 0x7f; v >>= 7; ++n; bool more = v != 0 || n < len; Put(x | (more ? 0x80 : 0), 8); if (!more) break; } while (true);
  }
  void Append(const Bits& o) { b.insert(b.end(), o.b.begin(), o.b.end()); }
  std::vector<uint8_t> Bytes() const {
    std::vector<uint8_t> r((b.size() + 7) / 8, 0);
    for (size_t i = 0; i < b.size(); ++i) if (b[i]) r[i / 8] |= 0x80 >> (i % 8);
    return r;
  }
};
struct BitsIn {
  const std::vector<uint8_t>* d;
  size_t pos = 0;
  bool bad = false;
  explicit BitsIn(const std::vector<uint8_t>& v) : d(&v) {}
  size_t Left() const { return d->size() * 8 - pos; }
  uint64_t Get(int n) {
    if (Left() < static_cast<size_t>(n)) { bad = true; return 0; }
    uint64_t r = 0;
    for (int i = 0; i < n; ++i, ++pos) r = r << 1 | (((*d)[pos / 8] >> (7 - pos % 8)) & 1);
    return r;
  }
  int64_t GetS(int n) { uint64_t v = Get(n); if (n < 64 && (v >> (n - 1))) v |= ~0ull << n; return static_cast<int64_t>(v); }
  // Returns the length used; value must fit 32 bits within 8 bytes.
  uint32_t GetLeb(int* len = nullptr) {
    uint64_t v = 0;
    for (int i = 0; i < 8; ++i) {
      uint64_t x = Get(8);
      if (bad) return 0;
      v |= (x & 0x7f) << (7 * i);
      if (v > 0xffffffffull) { bad = true; return 0; }
      if (!(x & 0x80)) { if (len) *len = i + 1; return static_cast<uint32_t>(v); }
    }
    bad = true;
    return 0;
  }
  std::vector<uint8_t> GetBytes(size_t n) { std::vector<uint8_t> r; if (Left() / 8 < n) { bad = true; return r; } for (size_t i = 0; i < n; ++i) r.push_back(static_cast<uint8_t>(Get(8))); return r; }
};
}  // namespace ref
#endif
