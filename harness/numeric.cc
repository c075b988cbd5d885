// C07: numeric conversions, overflow checks and validation helpers.
#include <cmath>
#include <limits>
#include "iamf/common/q_format_or_floating_point.h"
#include "iamf/common/utils/map_utils.h"
#include "iamf/common/utils/numeric_utils.h"
#include "iamf/common/utils/validation_utils.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;
namespace {
float AnyFloat(Rng& r) {
  switch (r.Below(6)) {
    case 0: { uint32_t b = r.U32(); float f; memcpy(&f, &b, 4); return f; }
    case 1: return static_cast<float>(r.Real(-130, 130));
    case 2: return static_cast<float>(r.Range(-33000, 33000)) / 256.f;
    case 3: { float f = static_cast<float>(r.Range(-33000, 33000)) / 256.f; return std::nextafter(f, r.Bool() ? 1e9f : -1e9f); }
    case 4: return r.Pick<float>({0.f, -0.f, 1.f, -1.f, 128.f, -128.f, 127.99609375f, INFINITY, -INFINITY, NAN, 255.f / 256, 1e-45f, -1e-45f, 2147483648.f, -2147483648.f, 3.4e38f});
    default: return static_cast<float>(r.Real(-1.2, 1.2));
  }
}
double AnyDouble(Rng& r) {
  switch (r.Below(6)) {
    case 0: { uint64_t b = r.U64(); double f; memcpy(&f, &b, 8); return f; }
    case 1: return r.Real(-2.5e9, 2.5e9);
    case 2: { double v = r.Pick<double>({2147483647., 2147483648., -2147483648., -2147483649., 0., 1., -1.}); return r.Bool() ? v : std::nextafter(v, r.Bool() ? 1e300 : -1e300); }
    case 3: return r.Pick<double>({INFINITY, -INFINITY, NAN, -0.0, 0.5, -0.5, 0.999999999999, 2147483647.5, -2147483648.5});
    case 4: return r.Real(-1.1, 1.1);
    default: return static_cast<double>(static_cast<int32_t>(r.Edge32()));
  }
}
void QFormats(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 200; ++k) {
    const float f = AnyFloat(r);
    int16_t q = 77;
    auto st = FloatToQ7_8(f, q);
    const bool ok = !std::isnan(f) && f >= -128.f && static_cast<double>(f) <= 128.0 - 1.0 / 256;
    V_CHECK(c, st.ok() == ok, "q78-range", f << " " << st);
    if (ok) {
      const double s = static_cast<double>(f) * 256;
      // Never further than one step, exact when representable, rounded down when positive.
      V_CHECK(c, std::fabs(s - q) < 1.0 && (s < 0 || q == std::floor(s)) && (s >= 0 || q == std::trunc(s) || q == std::floor(s)), "q78-value", f << " -> " << q);
    }
    auto qf = QFormatOrFloatingPoint::CreateFromFloatingPoint(f);
    V_CHECK(c, qf.ok() == ok, "qformat-range", f);
    if (ok) V_CHECK(c, qf->GetQ7_8() == q && qf->GetFloatingPoint() == q / 256.0f, "qformat-consistent", f << " " << qf->GetQ7_8() << " " << qf->GetFloatingPoint());
    uint8_t u = 77;
    st = FloatToQ0_8(f, u);
    const bool uok = !std::isnan(f) && f >= 0 && f < 1;
    V_CHECK(c, st.ok() == uok && (!uok || u == std::floor(static_cast<double>(f) * 256)), "q08", f << " -> " << int(u));
    c.Eval(3);
    uint32_t b; memcpy(&b, &f, 4);
    c.Distinct(b);
    c.Count(ok ? "in-range" : "out-of-range");
  }
}
// All representable values.
void QExhaustive(Ctx& c) {
  for (int v = -32768; v <= 32767; ++v) {
    const float f = Q7_8ToFloat(static_cast<int16_t>(v));
    int16_t q = 0;
    V_CHECK(c, f == v / 256.0 && FloatToQ7_8(f, q).ok() && q == v, "q78-roundtrip", v << " " << f << " " << q);
    V_CHECK(c, QFormatOrFloatingPoint::MakeFromQ7_8(static_cast<int16_t>(v)).GetFloatingPoint() == f, "qformat-from", v);
  }
  for (int v = 0; v < 256; ++v) {
    const float f = Q0_8ToFloat(static_cast<uint8_t>(v));
    uint8_t q = 0;
    V_CHECK(c, f == v / 256.0 && FloatToQ0_8(f, q).ok() && q == v, "q08-roundtrip", v);
  }
  c.Eval(65536 + 256);
  c.Distinct(1);
}
template <class I, class O>
void Cast(Ctx& c, Rng& r, const char* name) {
  I in;
  switch (r.Below(4)) {
    case 0: in = static_cast<I>(r.U64()); break;
    case 1: in = std::numeric_limits<I>::min(); break;
    case 2: in = std::numeric_limits<I>::max(); break;
    default: in = static_cast<I>(r.Range(-70000, 70000)); break;
  }
  if (r.Chance(1, 4)) {
    __int128 lim = r.Bool() ? static_cast<__int128>(std::numeric_limits<O>::max()) : static_cast<__int128>(std::numeric_limits<O>::min());
    lim += r.Range(-1, 1);
    if (lim >= static_cast<__int128>(std::numeric_limits<I>::min()) && lim <= static_cast<__int128>(std::numeric_limits<I>::max())) in = static_cast<I>(lim);
  }
  const __int128 w = static_cast<__int128>(in);
  const bool ok = w >= static_cast<__int128>(std::numeric_limits<O>::min()) && w <= static_cast<__int128>(std::numeric_limits<O>::max());
  O out = 1;
  auto st = StaticCastIfInRange<I, O>("field", in, out);
  V_CHECK(c, st.ok() == ok, "cast-range", name << " " << static_cast<int64_t>(in) << " " << st);
  if (ok) V_CHECK(c, static_cast<__int128>(out) == w, "cast-value", name << " " << static_cast<int64_t>(in));
  else V_CHECK(c, out == static_cast<O>(1) && st.message().find("field") != std::string::npos, "cast-untouched", name);
  c.Eval();
  c.Distinct(static_cast<uint64_t>(in) * 31 + HashStr(name));
}
void Casts(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 30; ++k) {
    Cast<uint32_t, uint8_t>(c, r, "u32-u8"); Cast<uint32_t, uint16_t>(c, r, "u32-u16"); Cast<int32_t, int16_t>(c, r, "i32-i16");
    Cast<int32_t, int8_t>(c, r, "i32-i8"); Cast<uint64_t, uint8_t>(c, r, "u64-u8"); Cast<uint64_t, uint32_t>(c, r, "u64-u32");
    Cast<int32_t, uint32_t>(c, r, "i32-u32"); Cast<uint32_t, int32_t>(c, r, "u32-i32"); Cast<int64_t, uint32_t>(c, r, "i64-u32");
    Cast<int64_t, int32_t>(c, r, "i64-i32"); Cast<int8_t, int32_t>(c, r, "i8-i32"); Cast<int8_t, uint8_t>(c, r, "i8-u8");
    Cast<int32_t, uint8_t>(c, r, "i32-u8"); Cast<uint64_t, int64_t>(c, r, "u64-i64"); Cast<int64_t, uint64_t>(c, r, "i64-u64");
    Cast<uint32_t, bool>(c, r, "u32-bool"); Cast<uint16_t, int16_t>(c, r, "u16-i16"); Cast<int16_t, int32_t>(c, r, "i16-i32");
    std::vector<uint32_t> in(r.Below(12));
    for (auto& v : in) v = r.Chance(1, 20) ? r.Edge32() : static_cast<uint32_t>(r.Below(256));
    const size_t on = r.Chance(1, 8) ? r.Below(12) : in.size();
    std::vector<uint8_t> out(on, 9);
    bool ok = on == in.size();
    for (auto v : in) ok = ok && v < 256;
    auto st = StaticCastSpanIfInRange("f", absl::MakeConstSpan(in), absl::MakeSpan(out));
    V_CHECK(c, st.ok() == ok, "cast-span", in.size() << " " << on << st);
    if (ok) for (size_t i = 0; i < on; ++i) V_CHECK(c, out[i] == in[i], "cast-span-value", i);
    // Raw bytes keep their value whatever the signedness of char.
    std::string s; std::vector<uint8_t> sb;
    for (int i = 0; i < 8; ++i) { s.push_back(static_cast<char>(r.U8())); }
    sb.resize(8);
    V_CHECK(c, StaticCastSpanIfInRange("b", absl::MakeConstSpan(s.data(), 8), absl::MakeSpan(sb)).ok() && memcmp(sb.data(), s.data(), 8) == 0, "cast-raw-bytes", Hex(s));
  }
}
void Ints(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 200; ++k) {
    const uint32_t a = r.Edge32(), b = r.Chance(1, 3) ? 0xffffffffu - a + static_cast<uint32_t>(r.Range(-1, 1)) : r.Edge32();
    uint32_t s = 5;
    const uint64_t w = uint64_t{a} + b;
    auto st = AddUint32CheckOverflow(a, b, s);
    V_CHECK(c, st.ok() == (w <= 0xffffffffull) && (!st.ok() || s == w), "add-overflow", a << "+" << b << " " << st << " " << s);
    auto bytes = r.Bytes(r.Below(7));
    int32_t le = 3, be = 3;
    auto s1 = LittleEndianBytesToInt32(bytes, le), s2 = BigEndianBytesToInt32(bytes, be);
    const size_t n = bytes.size();
    const bool ok = n >= 1 && n <= 4;
    V_CHECK(c, s1.ok() == ok && s2.ok() == ok, "bytes-accept", n);
    if (ok) {
      // The value is left-justified: as a fraction of full scale it keeps its meaning.
      int64_t vl = 0, vb = 0;
      for (size_t i = 0; i < n; ++i) { vl |= static_cast<int64_t>(bytes[i]) << (8 * i); vb = vb << 8 | bytes[i]; }
      const int64_t half = int64_t{1} << (8 * n - 1), mul = int64_t{1} << (8 * (4 - n));
      if (vl >= half) vl -= 2 * half;
      if (vb >= half) vb -= 2 * half;
      V_CHECK(c, le == vl * mul && be == vb * mul, "bytes-value", Hex(bytes) << " le " << le << " be " << be);
    }
    const double d = AnyDouble(r);
    int32_t o = 9;
    st = ClipDoubleToInt32(d, o);
    V_CHECK(c, st.ok() == !std::isnan(d), "clip-nan", d);
    if (st.ok()) {
      const double t = std::trunc(std::fmin(std::fmax(d, -2147483648.0), 2147483647.0));
      V_CHECK(c, o == t, "clip-value", d << " -> " << o);
    }
    // Samples: int32 -> [-1, 1) -> int32 is lossless in double and monotone in float.
    const int32_t x = static_cast<int32_t>(r.Bool() ? r.U32() : r.Edge32());
    const double dn = Int32ToNormalizedFloatingPoint<double>(x);
    const float fn = Int32ToNormalizedFloatingPoint<float>(x);
    V_CHECK(c, dn == x / 2147483648.0 && fn == static_cast<float>(x / 2147483648.0), "normalize", x << " " << dn);
    int32_t back = 0;
    V_CHECK(c, NormalizedFloatingPointToInt32(dn, back).ok() && back == x, "normalize-roundtrip", x << " " << back);
    const double v = AnyDouble(r);
    st = NormalizedFloatingPointToInt32(v, back);
    V_CHECK(c, st.ok() == std::isfinite(v), "denormalize-accept", v);
    if (st.ok()) { const double t = std::fmin(std::fmax(v, -1.0), 1.0) * 2147483648.0; V_CHECK(c, back == std::trunc(std::fmin(t, 2147483647.0)), "denormalize-value", v << " " << back); }
    const float vf = AnyFloat(r);
    st = NormalizedFloatingPointToInt32(vf, back);
    V_CHECK(c, st.ok() == std::isfinite(vf), "denormalize-accept-f", vf);
    if (st.ok()) { const double t = std::fmin(std::fmax(static_cast<double>(vf), -1.0), 1.0) * 2147483648.0; V_CHECK(c, back == std::trunc(std::fmin(t, 2147483647.0)), "denormalize-value-f", vf << " " << back); }
    c.Eval(8);
    c.Distinct((uint64_t{a} << 32) | b);
    c.Count("int-cases");
  }
  V_CHECK(c, !IsNativeBigEndian(), "endianness", "x86");
}
void Validation(Ctx& c) {
  Rng& r = c.rng;
  for (int k = 0; k < 60; ++k) {
    const int a = static_cast<int>(r.Range(-3, 3)), b = static_cast<int>(r.Range(-3, 3)), v = static_cast<int>(r.Range(-4, 4));
    V_CHECK(c, ValidateEqual(a, b, "x").ok() == (a == b) && ValidateNotEqual(a, b, "x").ok() == (a != b), "validate-equal", a << b);
    V_CHECK(c, ValidateInRange(v, {a, b}, "x").ok() == (a <= b && v >= a && v <= b), "validate-range", v << " [" << a << "," << b << "]");
    const double nan = NAN, lo = 0, hi = 1;
    V_CHECK(c, !ValidateInRange(nan, {lo, hi}, "x").ok(), "validate-range-nan", "");
    V_CHECK(c, Validate(a, std::less<int>(), b, "<").ok() == (a < b) && Validate(a, std::greater_equal<int>(), b, ">=").ok() == (a >= b), "validate-cmp", a << b);
    std::vector<int> u(r.Below(7));
    for (auto& x : u) x = static_cast<int>(r.Below(12));
    V_CHECK(c, ValidateUnique(u.begin(), u.end(), "x").ok() == (std::set<int>(u.begin(), u.end()).size() == u.size()), "validate-unique", u.size());
    std::optional<int> o; if (r.Bool()) o = 3;
    int* p = r.Bool() ? &u.emplace_back(1) : nullptr;
    V_CHECK(c, ValidateHasValue(o, "x").ok() == o.has_value() && ValidateNotNull(p, "x").ok() == (p != nullptr), "validate-present", "");
    const uint32_t rep = static_cast<uint32_t>(r.Below(8));
    V_CHECK(c, ValidateContainerSizeEqual("x", u, rep).ok() == (u.size() == rep), "validate-size", u.size() << " " << rep);
    absl::flat_hash_map<int, int> m; std::map<int, int> model;
    for (int i = 0; i < 6; ++i) { int kk = static_cast<int>(r.Below(8)), vv = static_cast<int>(r.Below(100)); m[kk] = vv; model[kk] = vv; }
    const int q = static_cast<int>(r.Below(10));
    auto look = LookupInMap(m, q, "ctx");
    int cv = -5, sv = -5;
    auto cp = CopyFromMap(m, q, "ctx", cv);
    auto se = SetFromMap<int, int>(m, q, "ctx", [&](int x) { sv = x; });
    const bool has = model.count(q);
    V_CHECK(c, look.ok() == has && cp.ok() == has && se.ok() == has, "lookup-presence", q);
    V_CHECK(c, has ? (*look == model[q] && cv == model[q] && sv == model[q]) : (cv == -5 && sv == -5 && absl::IsNotFound(look.status())), "lookup-value", q);
    std::vector<std::pair<int, int>> pairs;
    for (size_t i = 0, n = r.Below(6); i < n; ++i) pairs.push_back({static_cast<int>(r.Below(9)), static_cast<int>(r.Below(9))});
    std::map<int, int> f, inv; bool df = false, di = false;
    for (auto& [x, y] : pairs) { df |= !f.insert({x, y}).second; di |= !inv.insert({y, x}).second; }
    auto bm = BuildStaticMapFromPairs(pairs); auto im = BuildStaticMapFromInvertedPairs(pairs);
    V_CHECK(c, bm->size() == (df ? 0 : f.size()) && im->size() == (di ? 0 : inv.size()), "static-map-size", bm->size());
    if (!df) for (auto& [x, y] : f) V_CHECK(c, bm->at(x) == y, "static-map", x);
    if (!di) for (auto& [x, y] : inv) V_CHECK(c, im->at(x) == y, "static-map-inverted", x);
    c.Eval(10);
    c.Distinct(r.s);
  }
}
}  // namespace
V_MAIN({{"q_formats", 3200, 60000, QFormats}, {"q_exhaustive", 1, 1, QExhaustive}, {"casts", 3200, 60000, Casts}, {"ints", 3200, 60000, Ints}, {"validation", 1600, 20000, Validation}})
