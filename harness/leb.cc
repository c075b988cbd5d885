// C06: variable length codes and OBU framing against the bit-level definition.
#include <memory>
#include "iamf/common/leb_generator.h"
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/obu/obu_header.h"
#include "harness/ref/bits.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
namespace {

int MinU(uint64_t v) { int n = 1; while (v >>= 7) ++n; return n; }
int MinS(int64_t v) { int n = 1; while (!(v >= -64 && v <= 63)) { v >>= 7; ++n; } return n; }

void Generator(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 40; ++k) {
    const bool fixed = r.Chance(2, 3);
    const int size = static_cast<int>(r.Chance(1, 10) ? r.Range(-3, 12) : r.Range(1, 8));
    auto g = LebGenerator::Create(fixed ? LebGenerator::GenerationMode::kFixedSize : LebGenerator::GenerationMode::kMinimum, static_cast<int8_t>(size));
    const bool valid = !fixed || (size >= 1 && size <= 8);
    V_CHECK(c, (g != nullptr) == valid, "leb-generator-validity", "fixed " << fixed << " size " << size);
    if (!valid) { c.Count("bad-generators"); continue; }
    const uint32_t u = r.Edge32();
    std::vector<uint8_t> out = r.Bytes(r.Below(4));
    auto st = g->Uleb128ToUint8Vector(u, out);
    const int need = MinU(u);
    const bool ok = !fixed || need <= size;
    V_CHECK(c, st.ok() == ok, "uleb-status", u << " size " << size << " fixed " << fixed << " " << st);
    if (ok) {
      ref::Bits b;
      b.PutLeb(u, fixed ? size : 0);
      V_CHECK(c, out == b.Bytes(), "uleb-bytes", u << " " << Hex(out) << " want " << Hex(b.Bytes()));
    }
    const int32_t s = static_cast<int32_t>(r.Edge32());
    std::vector<uint8_t> so = r.Bytes(r.Below(4));
    st = g->Sleb128ToUint8Vector(s, so);
    const int sneed = MinS(s);
    const bool sok = !fixed || sneed <= size;
    V_CHECK(c, st.ok() == sok, "sleb-status", s << " size " << size << " fixed " << fixed << " " << st);
    if (sok) {
      std::vector<uint8_t> w;
      const int len = fixed ? size : sneed;
      int64_t t = s;
      for (int i = 0; i < len; ++i) { w.push_back(static_cast<uint8_t>((t & 0x7f) | (i + 1 < len ? 0x80 : 0))); t >>= 7; }
      V_CHECK(c, so == w, "sleb-bytes", s << " " << Hex(so) << " want " << Hex(w));
    }
    c.Eval(2);
    c.Count(fixed ? "fixed" : "minimum");
    c.Distinct((uint64_t{u} << 8) ^ static_cast<uint64_t>(size + 64 * fixed));
  }
}

// Every coded form of length 1..8, valid or not.
void Decode(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 40; ++k) {
    std::vector<uint8_t> d;
    const int len = static_cast<int>(r.Range(0, 11));
    for (int i = 0; i < len; ++i) d.push_back(static_cast<uint8_t>(0x80 | (r.Chance(1, 3) ? 0 : r.Chance(1, 4) ? 0x7f : r.U8())));
    if (!d.empty() && r.Chance(4, 5)) d.back() &= 0x7f;
    if (len > 5 && r.Chance(2, 3)) for (int i = 5; i < len; ++i) d[i] &= 0x80;
    if (len >= 5 && r.Chance(2, 3)) d[4] &= 0x8f;
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(d);
    ref::BitsIn in(d);
    int wl = 0;
    const uint32_t w = in.GetLeb(&wl);
    uint32_t v = 0; int8_t sz = 0;
    auto st = rb->ReadULeb128(v, sz);
    V_CHECK(c, st.ok() == !in.bad, "uleb-accept", Hex(d) << " " << st);
    if (!in.bad) {
      V_CHECK(c, v == w && sz == wl && rb->Tell() == wl * 8, "uleb-value", Hex(d) << " got " << v << "/" << int(sz) << " want " << w << "/" << wl);
      c.Count("decoded");
    } else c.Count("refused");
    // ISO 14496-1 expandable size: most significant group first, bounded by the class size.
    const uint32_t max = r.Bool() ? 0xffffffffu : r.Edge32();
    uint64_t e = 0; bool bad = true; size_t i = 0;
    for (; i < d.size() && i < 8; ++i) { e = e << 7 | (d[i] & 0x7f); if (e > max) break; if (!(d[i] & 0x80)) { bad = false; ++i; break; } }
    auto rb2 = MemoryBasedReadBitBuffer::CreateFromSpan(d);
    uint32_t ev = 0;
    st = rb2->ReadIso14496_1Expanded(max, ev);
    V_CHECK(c, st.ok() == !bad, "iso-accept", Hex(d) << " max " << max << " " << st);
    if (!bad) V_CHECK(c, ev == e && rb2->Tell() == static_cast<int64_t>(i) * 8, "iso-value", Hex(d) << " got " << ev << " want " << e);
    c.Eval(2);
    c.Distinct(HashVec(d));
  }
}

bool AudioFrame(int t) { return t >= 5 && t <= 23; }
bool RedundantOk(int t) { return !(AudioFrame(t) || t == 3 || t == 4); }
bool FlagOk(int t) { return AudioFrame(t) || t == 4 || t == 2; }

void HeaderWrite(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 20; ++k) {
    ObuHeader h;
    const int type = static_cast<int>(r.Below(32));
    h.obu_type = static_cast<ObuType>(type);
    h.obu_redundant_copy = r.Chance(1, 4);
    h.type_specific_flag = r.Chance(1, 3);
    const bool trim = AudioFrame(type) && h.type_specific_flag;
    h.num_samples_to_trim_at_end = trim || r.Chance(1, 8) ? r.Edge32() : 0;
    h.num_samples_to_trim_at_start = trim || r.Chance(1, 8) ? r.Edge32() : 0;
    if (r.Chance(1, 3)) h.extension_header_bytes = r.Bytes(r.Chance(1, 8) ? r.Below(70000) : r.Below(40));
    int64_t payload = r.Chance(1, 10) ? static_cast<int64_t>(r.Edge32()) + r.Range(-2, 2) : r.Chance(1, 3) ? (1 << 21) + r.Range(-60, 20) : r.Range(0, 300);
    if (r.Chance(1, 40)) payload = r.Pick<int64_t>({-1, int64_t{1} << 32, (int64_t{1} << 32) - 1, INT64_MIN, INT64_MAX});
    const bool fixed = r.Bool();
    const int fs = static_cast<int>(r.Range(1, 8));
    auto g = fixed ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, static_cast<int8_t>(fs)) : LebGenerator::Create();
    auto fits = [&](uint64_t v) { return !fixed || MinU(v) <= fs; };
    ref::Bits after;
    bool ok = true;
    if (trim) { ok = ok && fits(h.num_samples_to_trim_at_end) && fits(h.num_samples_to_trim_at_start); after.PutLeb(h.num_samples_to_trim_at_end, fixed ? fs : 0); after.PutLeb(h.num_samples_to_trim_at_start, fixed ? fs : 0); }
    if (h.extension_header_bytes) { ok = ok && fits(h.extension_header_bytes->size()); after.PutLeb(h.extension_header_bytes->size(), fixed ? fs : 0); after.PutBytes(*h.extension_header_bytes); }
    const int64_t obu_size = payload < 0 || payload > (int64_t{1} << 40) ? (int64_t{1} << 40) : static_cast<int64_t>(after.b.size() / 8) + payload;
    ok = ok && payload >= 0 && payload <= 0xffffffffll && obu_size <= 0xffffffffll && fits(obu_size);
    const int size_len = fixed ? fs : MinU(static_cast<uint64_t>(obu_size < 0 ? 0 : obu_size));
    ok = ok && 1 + size_len + obu_size <= (1 << 21);
    if (h.obu_redundant_copy && !RedundantOk(type)) ok = false;
    if (h.type_specific_flag && !FlagOk(type)) ok = false;
    WriteBitBuffer wb(16, *g);
    auto st = h.ValidateAndWrite(payload, wb);
    V_CHECK(c, st.ok() == ok, "header-accept", "type " << type << " red " << h.obu_redundant_copy << " flag " << h.type_specific_flag << " trim " << h.num_samples_to_trim_at_end << "," << h.num_samples_to_trim_at_start << " payload " << payload << " fixed " << fixed << fs << " ext " << (h.extension_header_bytes ? int(h.extension_header_bytes->size()) : -1) << " " << st);
    c.Eval();
    if (!ok) { c.Count("headers-refused"); continue; }
    c.Count("headers-written");
    ref::Bits w;
    w.Put(type, 5); w.Put(h.obu_redundant_copy, 1); w.Put(h.type_specific_flag, 1); w.Put(h.extension_header_bytes.has_value(), 1);
    w.PutLeb(obu_size, fixed ? fs : 0);
    w.Append(after);
    const auto want = w.Bytes();
    V_CHECK(c, wb.bit_buffer() == want, "header-bytes", Hex(wb.bit_buffer()) << " want " << Hex(want));
    // Reading restores the fields and the payload size.
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(want);
    ObuHeader back; int64_t ps = -1;
    V_CHECK(c, back.ReadAndValidate(*rb, ps).ok() && ps == payload, "header-read", ps << " vs " << payload << " " << Hex(want));
    ObuHeader exp = h;
    if (!trim) exp.num_samples_to_trim_at_end = exp.num_samples_to_trim_at_start = 0;
    V_CHECK(c, back == exp, "header-fields", Hex(want));
    c.Distinct(HashVec(want));
  }
}

void HeaderRead(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 20; ++k) {
    // Built from fields, then possibly damaged, so that most parse deep.
    ref::Bits b;
    const int type = static_cast<int>(r.Below(32));
    bool red = r.Chance(1, 6), flag = r.Chance(1, 3), ext = r.Chance(1, 3);
    b.Put(type, 5); b.Put(red, 1); b.Put(flag, 1); b.Put(ext, 1);
    ref::Bits rest;
    if (AudioFrame(type) && flag) { rest.PutLeb(r.Edge32(), static_cast<int>(r.Below(9))); rest.PutLeb(r.Edge32(), static_cast<int>(r.Below(9))); }
    std::vector<uint8_t> eb = r.Bytes(r.Below(30));
    if (ext) { rest.PutLeb(r.Chance(1, 4) ? r.Edge32() : eb.size(), static_cast<int>(r.Below(9))); rest.PutBytes(eb); }
    rest.PutBytes(r.Bytes(r.Below(10)));
    b.PutLeb(r.Chance(1, 4) ? r.Edge32() : r.Chance(1, 3) ? rest.b.size() / 8 + r.Below(4) : r.Chance(1, 5) ? (1 << 21) + r.Range(-12, 2) : rest.b.size() / 8 + r.Below(1000), static_cast<int>(r.Below(9)));
    b.Append(rest);
    auto d = b.Bytes();
    if (r.Chance(1, 3) && !d.empty()) d[r.Below(d.size())] ^= 1 << r.Below(8);
    if (r.Chance(1, 4)) d.resize(r.Below(d.size() + 1));
    // Model.
    ref::BitsIn in(d);
    ObuHeader w;
    const int t = static_cast<int>(in.Get(5));
    w.obu_type = static_cast<ObuType>(t);
    w.obu_redundant_copy = in.Get(1); w.type_specific_flag = in.Get(1); const bool we = in.Get(1);
    int sl = 0;
    const int64_t size = in.GetLeb(&sl);
    const bool peek_ok = !in.bad;
    bool ok = !in.bad && 1 + sl + size <= (1 << 21);
    int64_t used = 0;
    if (ok && AudioFrame(t) && w.type_specific_flag) { int a = 0, e = 0; w.num_samples_to_trim_at_end = in.GetLeb(&a); w.num_samples_to_trim_at_start = in.GetLeb(&e); used += a + e; }
    if (ok && we && !in.bad) { int a = 0; const int64_t n = in.GetLeb(&a); used += a + n; if (!in.bad && used <= size) w.extension_header_bytes = in.GetBytes(n); }
    ok = ok && !in.bad && used <= size;
    if (w.obu_redundant_copy && !RedundantOk(t)) ok = false;
    if (w.type_specific_flag && !FlagOk(t)) ok = false;
    auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(d);
    auto pk = ObuHeader::PeekObuTypeAndTotalObuSize(*rb);
    V_CHECK(c, pk.ok() == peek_ok && rb->Tell() == 0, "peek", Hex(d) << " " << pk.status() << " position " << rb->Tell());
    if (peek_ok) V_CHECK(c, pk->obu_type == t && pk->total_obu_size == 1 + sl + size, "peek-value", Hex(d) << " total " << pk->total_obu_size << " want " << 1 + sl + size);
    ObuHeader h; int64_t ps = -7;
    auto st = h.ReadAndValidate(*rb, ps);
    V_CHECK(c, st.ok() == ok, "read-accept", Hex(d) << " " << st << " want " << ok);
    if (ok) {
      V_CHECK(c, h == w && ps == size - used && rb->Tell() == static_cast<int64_t>(in.pos), "read-fields", Hex(d) << " payload " << ps << " want " << size - used);
      V_CHECK(c, ObuHeader::IsTemporalUnitObuType(h.obu_type) == (AudioFrame(t) || t == 3 || t == 4), "temporal-unit-type", t);
      V_CHECK(c, h.GetObuTrimmingStatusFlag() == (AudioFrame(t) && w.type_specific_flag) && h.GetIsKeyFrame() == (t == 4 && !w.type_specific_flag) && h.GetOptionalFieldsFlag() == (t == 2 && w.type_specific_flag), "flag-meaning", t);
      c.Count("headers-read");
    } else c.Count("headers-refused");
    c.Eval();
    c.Distinct(HashVec(d));
    if (c.WantSample()) c.Sample(Hex(d) + (ok ? " accepted" : " refused"));
  }
}
}  // namespace
V_MAIN({{"generator", 6000, 200000, Generator}, {"decode", 6000, 200000, Decode}, {"header_write", 6000, 150000, HeaderWrite}, {"header_read", 8000, 200000, HeaderRead}})
