// C38: Legendre polynomials, spherical harmonic weights and histories of sources of the ambisonic encoder,
// against closed forms in long double.
#include <cmath>
#include <map>
#include <vector>
#include "harness/vlib.h"
#include "iamf/cli/ambisonic_encoder/ambisonic_encoder.h"
#include "iamf/cli/ambisonic_encoder/ambisonic_utils.h"
#include "iamf/cli/ambisonic_encoder/associated_legendre_polynomials_generator.h"
using namespace vlib;
using namespace iamf_tools;
namespace {
using Ld = long double;
constexpr Ld kPi = 3.14159265358979323846264338327950288L;
Ld Fact(int n) { Ld r = 1; for (; n > 1; --n) r *= n; return r; }
// P_n^m without the Condon-Shortley phase, by the explicit finite sum.
Ld Legendre(int n, int m, Ld x) {
  Ld s = 0;
  for (int k = m; k <= n; ++k) {
    // 2^n * C(n,k) * C((n+k-1)/2, n) * k!/(k-m)! * x^(k-m)
    Ld c = 1;
    for (int i = 0; i < n; ++i) c *= ((n + k - 1) / 2.0L - i) / (i + 1);
    s += std::pow(Ld(2), n) * Fact(n) / Fact(k) / Fact(n - k) * c * Fact(k) / Fact(k - m) * std::pow(x, Ld(k - m));
  }
  return std::pow(std::max<Ld>(0, 1 - x * x), m / 2.0L) * s;
}
Ld Norm(int n, int m) { m = std::abs(m); return std::sqrt((m ? 2 : 1) * Fact(n - m) / Fact(n + m)); }
Ld Weight(int acn, Ld az, Ld el) {
  int n = 0; while ((n + 1) * (n + 1) <= acn) ++n;
  int m = acn - n * n - n;
  Ld a = az * kPi / 180, e = el * kPi / 180;
  return Norm(n, m) * Legendre(n, std::abs(m), std::sin(e)) * (m >= 0 ? std::cos(m * a) : std::sin(-m * a));
}
int DegreeOf(int acn) { int n = 0; while ((n + 1) * (n + 1) <= acn) ++n; return n; }
// Float arithmetic near the poles cannot tell angles apart better than this.
Ld AngleError(Ld c) { return std::min<Ld>(4e-7L / std::max<Ld>(std::abs(c), 1e-9L), 9e-4L); }

void Polynomials(Ctx& x) {
  auto& r = x.rng;
  int n = static_cast<int>(r.Below(9));
  bool cs = r.Bool(), neg = r.Bool();
  AssociatedLegendrePolynomialsGenerator g(n, cs, neg);
  size_t want = neg ? (n + 1) * (n + 1) : (n + 1) * (n + 2) / 2;
  x.Eval();
  V_CHECK(x, g.GetNumValues() == want, "count", std::to_string(g.GetNumValues()));
  float v = r.Chance(1, 4) ? r.Pick<float>({0, 1, -1, 0.5f, -0.5f, 1e-4f, 0.9999f}) : static_cast<float>(r.Unit() * 2 - 1);
  auto got = g.Generate(v);
  V_CHECK(x, got.size() == want, "size", std::to_string(got.size()));
  std::vector<bool> seen(want);
  for (int l = 0; l <= n; ++l) for (int m = neg ? -l : 0; m <= l; ++m) {
    size_t i = g.GetIndex(l, m);
    V_CHECK(x, i < want && !seen[i], "index", std::to_string(l) + "," + std::to_string(m) + " -> " + std::to_string(i));
    seen[i] = true;
    int q = std::abs(m);
    Ld w = Legendre(l, q, v) * (cs && (q & 1) ? -1 : 1);
    Ld scale = std::sqrt(Fact(l + q) / Fact(l - q));
    if (m < 0) { Ld f = Fact(l - q) / Fact(l + q) * (q & 1 ? -1 : 1); w *= f; scale *= std::abs(f); }
    Ld tol = scale * (2e-6L * (l + 1) * (l + 1) + 2 * l * AngleError(std::sqrt(std::max<Ld>(0, 1 - Ld(v) * v))));
    V_CHECK(x, std::abs(got[i] - w) <= tol, "value", "P(" + std::to_string(l) + "," + std::to_string(m) + ")(" + std::to_string(v) + ") = " + std::to_string(got[i]) + ", want " + std::to_string(static_cast<double>(w)));
    x.Count("polynomials");
  }
  x.Distinct(Mix(HashVec(got) + n));
}

struct Src { float g, az, el, d; };
void Sources(Ctx& x) {
  auto& r = x.rng;
  int order = static_cast<int>(r.Below(8)), C = (order + 1) * (order + 1);
  size_t N = r.Range(1, 12), in = r.Range(1, 10);
  AmbisonicEncoder enc(N, in, order);
  std::map<size_t, Src> src, gone;
  std::string log = "order " + std::to_string(order) + " channels " + std::to_string(in);
  int steps = static_cast<int>(r.Range(1, 14));
  for (int t = 0; t < steps; ++t) {
    int what = static_cast<int>(r.Below(8));
    size_t c = r.Below(in);
    if (what < 4) {
      auto angle = [&](float lim) { return r.Chance(1, 3) ? static_cast<float>(static_cast<int>(r.Range(-static_cast<int>(lim) / 15, static_cast<int>(lim) / 15)) * 15) : static_cast<float>(r.Real(-lim, lim)); };
      Src s{r.Chance(1, 8) ? 0 : static_cast<float>(r.Real(0.001, 3)), angle(r.Chance(1, 4) ? 720 : 180), angle(90), r.Chance(1, 3) ? r.Pick<float>({0, 0.25f, 0.5f, 1, 2}) : static_cast<float>(r.Real(0, 20))};
      if (src.count(c) && r.Chance(1, 2)) { auto o = src[c]; switch (r.Below(5)) { case 0: o.g = s.g; break; case 1: o.az = s.az; break; case 2: o.el = s.el; break; case 3: o.d = s.d; break; default: x.Count("same-again"); } s = o; x.Count("moves"); }
      else if (gone.count(c) && r.Chance(1, 2)) { s = gone[c]; x.Count("back-again"); }
      else if (!src.empty() && r.Chance(1, 6)) { s = src.begin()->second; x.Count("same-place"); }
      enc.SetSource(c, s.g, s.az, s.el, s.d);
      src[c] = s;
      if (s.g == 0) x.Count("mutes");
      x.Count("sets");
      char b[120]; snprintf(b, sizeof b, " set %zu %g az %g el %g d %g", c, s.g, s.az, s.el, s.d); log += b;
    } else if (what == 4) {
      enc.RemoveSource(c); if (src.count(c)) gone[c] = src[c]; src.erase(c); x.Count("removes"); log += " remove " + std::to_string(c);
    } else {
      std::vector<float> a(in * N), b(C * N, r.Chance(1, 2) ? 7.5f : 0);
      for (auto& v : a) v = r.Chance(1, 6) ? r.Pick<float>({0, 1, -1}) : static_cast<float>(r.Unit() * 2 - 1);
      enc.ProcessPlanarAudioData(a, b);
      log += " process";
      x.Eval();
      for (int k = 0; k < C; ++k) {
        int n = DegreeOf(k);
        std::map<size_t, std::pair<Ld, Ld>> w;  // weight and its tolerance
        for (auto& [ch, s] : src) {
          Ld g = Ld(s.g) / std::max<Ld>(s.d, 0.5L);
          w[ch] = {g * Weight(k, s.az, s.el), g * (5e-6L * (n + 1) * (n + 1) + 2 * n * (AngleError(std::cos(Ld(s.el) * kPi / 180)) + 2e-6L))};
        }
        for (size_t i = 0; i < N; ++i) {
          Ld want = 0, tol = 1e-6L;
          for (auto& [ch, p] : w) { want += p.first * a[ch * N + i]; tol += (p.second + 1e-6L * std::abs(p.first)) * std::abs(Ld(a[ch * N + i])); }
          Ld got = b[k * N + i];
          V_CHECK(x, std::abs(got - want) <= tol, "output", "channel " + std::to_string(k) + " sample " + std::to_string(i) + " is " + std::to_string(static_cast<double>(got)) + ", want " + std::to_string(static_cast<double>(want)) + ": " + log);
          x.Count("samples");
        }
      }
      x.Distinct(HashVec(b));
      x.Count("processes");
    }
  }
  if (x.WantSample()) x.Sample(log);
}
// Every order against a grid of directions, through unit impulses.
void Grid(Ctx& x) {
  int order = static_cast<int>(x.index % 8), step = static_cast<int>(x.index / 8), C = (order + 1) * (order + 1);
  float el = -90 + 7.5f * (step % 25), az0 = step / 25 * 0.37f;
  AmbisonicEncoder enc(1, 1, order);
  for (int k = -24; k <= 24; ++k) {
    float az = 15 * k + az0;
    enc.SetSource(0, 1, az, el, 1);
    std::vector<float> in{1}, out(C);
    enc.ProcessPlanarAudioData(in, out);
    x.Eval();
    for (int c = 0; c < C; ++c) {
      int n = DegreeOf(c);
      Ld w = Weight(c, az, el), tol = 5e-6L * (n + 1) * (n + 1) + 2 * n * (AngleError(std::cos(Ld(el) * kPi / 180)) + 2e-6L);
      V_CHECK(x, std::abs(out[c] - w) <= tol, "grid", "order " + std::to_string(order) + " channel " + std::to_string(c) + " az " + std::to_string(az) + " el " + std::to_string(el) + " weighs " + std::to_string(out[c]) + ", want " + std::to_string(static_cast<double>(w)));
    }
    x.Count("directions");
    x.Distinct(Mix(HashVec(out) + order));
  }
}
}  // namespace
V_MAIN({{"polynomials", 120000, 200000, Polynomials}, {"sources", 120000, 300000, Sources}, {"grid", 3000, 4000, Grid}})
