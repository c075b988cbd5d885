// Model of the IAMF OBU syntax, written from the specification: plain structs,
// an encoder to bits, and random generators of legal values. Nothing here uses
// the code under test.
#ifndef VERIF_REF_OBUS_H_
#define VERIF_REF_OBUS_H_
#include <cstdint>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include "harness/ref/bits.h"
#include "harness/vlib.h"
namespace ref {
using Bytes = std::vector<uint8_t>;
using vlib::Rng;

// How ULEB128 fields are coded: 0 shortest, n>0 always n bytes, -1 randomly padded.
struct Lp {
  int mode = 0;
  Rng* rng = nullptr;
  // When set, the value of the call that finds 0 here is a lie.
  int* lie = nullptr;
  static int Min(uint64_t v) { int n = 1; while (v >>= 7) ++n; return n; }
  void operator()(Bits& b, uint64_t v) const {
    if (lie && (*lie)-- == 0) v = rng->Chance(1, 3) ? v + rng->Pick<int>({1, 2, 127, 128, 100000}) : rng->Chance(1, 2) ? rng->Pick<uint32_t>({0xffffffffu, 0x7fffffffu, 0x80000000u, 0x10000000u, 0x3fffffffu}) : rng->Edge32();
    if (mode == 0) b.PutLeb(v);
    else if (mode > 0) b.PutLeb(v, mode);
    else b.PutLeb(v, rng->Chance(1, 3) ? static_cast<int>(rng->Range(Min(v), 8)) : 0);
  }
};

inline uint32_t GenId(Rng& r) { return r.Chance(1, 3) ? r.Edge32() : static_cast<uint32_t>(r.Below(300)); }
inline std::string GenStr(Rng& r, int max = 127) {
  std::string s;
  size_t n = r.Chance(1, 12) ? static_cast<size_t>(max) : r.Below(20);
  for (size_t i = 0; i < n && i < static_cast<size_t>(max); ++i) s += static_cast<char>(r.Chance(1, 10) ? r.Range(1, 127) : r.Range('a', 'z'));
  return s;
}
inline int16_t GenS16(Rng& r) { return r.Chance(1, 4) ? r.Pick<int16_t>({0, 1, -1, 32767, -32768, 256, -256, 255}) : static_cast<int16_t>(r.U32()); }

struct Hdr {
  int type = 0;
  bool redundant = false, flag = false, ext = false;
  uint32_t trim_end = 0, trim_start = 0;
  Bytes ext_bytes;
};
inline bool IsFrame(int t) { return t >= 5 && t <= 23; }
// The whole OBU.
inline Bytes EncodeObu(const Hdr& h, const Bytes& payload, const Lp& lp) {
  Bits mid;
  if (IsFrame(h.type) && h.flag) { lp(mid, h.trim_end); lp(mid, h.trim_start); }
  if (h.ext) { lp(mid, h.ext_bytes.size()); mid.PutBytes(h.ext_bytes); }
  Bytes m = mid.Bytes();
  Bits b;
  b.Put(h.type, 5); b.Put(h.redundant, 1); b.Put(h.flag, 1); b.Put(h.ext, 1);
  lp(b, m.size() + payload.size());
  b.PutBytes(m);
  b.PutBytes(payload);
  return b.Bytes();
}
inline Hdr GenHdr(Rng& r, int type) {
  Hdr h;
  h.type = type;
  h.redundant = !(IsFrame(type) || type == 3 || type == 4) && r.Chance(1, 4);
  if (IsFrame(type) && r.Chance(1, 3)) { h.flag = true; h.trim_end = GenId(r); h.trim_start = GenId(r); }
  if (type == 4) h.flag = r.Chance(1, 3);
  if (r.Chance(1, 4)) { h.ext = true; h.ext_bytes = r.Bytes(r.Below(12)); }
  return h;
}

// ---- decoder configurations ----

struct Lpcm { uint8_t flags = 1, size = 16; uint32_t rate = 48000; };
struct Opus { uint8_t version = 1, channels = 2; uint16_t preskip = 312; uint32_t rate = 48000; int16_t gain = 0; uint8_t family = 0; };
struct FlacBlock { int type = 0; int64_t length = -1; Bytes data; };
struct FlacInfo { uint16_t min = 0, max = 0; uint32_t minf = 0, maxf = 0, rate = 48000; uint8_t ch = 1, bits = 15; uint64_t total = 0; Bytes md5 = Bytes(16, 0); };
struct Flac { FlacInfo info; std::vector<FlacBlock> rest; int first_type = 0; };
struct Aac {
  uint8_t tag1 = 4, oti = 0x40, stream = 5; bool up = false, res = true; uint32_t buf = 0, maxb = 0, avgb = 0;
  uint8_t tag2 = 5, aot = 2, freq = 3, ch = 2; bool f1 = false, f2 = false, f3 = false; uint32_t esc = 0; Bytes dsi_ext, dcd_ext;
};
enum Fourcc : uint32_t { kOpus = 0x4f707573, kFlac = 0x664c6143, kLpcm = 0x6970636d, kAac = 0x6d703461 };
struct Codec {
  uint32_t id = 0, fourcc = kLpcm, nsamples = 8; int16_t roll = 0;
  Lpcm lpcm; Opus opus; Flac flac; Aac aac;
};
inline Bits EncodeFlacInfo(const FlacInfo& i) {
  Bits b;
  b.Put(i.min, 16); b.Put(i.max, 16); b.Put(i.minf, 24); b.Put(i.maxf, 24); b.Put(i.rate, 20); b.Put(i.ch, 3); b.Put(i.bits, 5); b.Put(i.total, 36); b.PutBytes(i.md5);
  return b;
}
// The ISO 14496-1 "expanded size": 7 bits per byte, most significant group first.
inline void PutIso(Bits& b, uint64_t v, int minlen = 1) {
  int n = 1; while (n < 5 && (v >> (7 * n))) ++n;
  if (n < minlen) n = minlen;
  for (int i = n - 1; i >= 0; --i) b.Put(((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0), 8);
}
inline Bytes EncodeCodec(const Codec& c, const Lp& lp, int iso_len = 1) {
  Bits b;
  lp(b, c.id); b.Put(c.fourcc, 32); lp(b, c.nsamples); b.PutS(c.roll, 16);
  switch (c.fourcc) {
    case kLpcm: b.Put(c.lpcm.flags, 8); b.Put(c.lpcm.size, 8); b.Put(c.lpcm.rate, 32); break;
    case kOpus: b.Put(c.opus.version, 8); b.Put(c.opus.channels, 8); b.Put(c.opus.preskip, 16); b.Put(c.opus.rate, 32); b.PutS(c.opus.gain, 16); b.Put(c.opus.family, 8); break;
    case kFlac: {
      Bits i = EncodeFlacInfo(c.flac.info);
      b.Put(c.flac.rest.empty(), 1); b.Put(c.flac.first_type, 7); b.Put(34, 24); b.Append(i);
      for (size_t k = 0; k < c.flac.rest.size(); ++k) {
        auto& x = c.flac.rest[k];
        b.Put(k + 1 == c.flac.rest.size(), 1); b.Put(x.type, 7); b.Put(x.length >= 0 ? x.length : x.data.size(), 24); b.PutBytes(x.data);
      }
      break;
    }
    case kAac: {
      const Aac& a = c.aac;
      Bits asc;
      asc.Put(a.aot, 5); asc.Put(a.freq, 4); if (a.freq == 15) asc.Put(a.esc, 24); asc.Put(a.ch, 4); asc.Put(a.f1, 1); asc.Put(a.f2, 1); asc.Put(a.f3, 1);
      asc.PutBytes(a.dsi_ext);
      Bits d;
      d.Put(a.oti, 8); d.Put(a.stream, 6); d.Put(a.up, 1); d.Put(a.res, 1); d.Put(a.buf, 24); d.Put(a.maxb, 32); d.Put(a.avgb, 32);
      d.Put(a.tag2, 8); PutIso(d, asc.Bytes().size(), iso_len); d.PutBytes(asc.Bytes()); d.PutBytes(a.dcd_ext);
      b.Put(a.tag1, 8); PutIso(b, d.Bytes().size(), iso_len); b.PutBytes(d.Bytes());
      break;
    }
    default: break;
  }
  return b.Bytes();
}
inline const std::vector<uint32_t>& LpcmRates() { static const std::vector<uint32_t> v{16000, 32000, 44100, 48000, 96000}; return v; }
inline const std::vector<uint32_t>& FlacRates() { static const std::vector<uint32_t> v{88200, 176400, 192000, 8000, 16000, 22050, 24000, 32000, 44100, 48000, 96000}; return v; }
inline const std::vector<uint32_t>& AacRates() { static const std::vector<uint32_t> v{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}; return v; }
inline int16_t OpusRoll(uint32_t n) { return static_cast<int16_t>(-static_cast<int32_t>((3840 + n - 1) / n)); }
inline Codec GenCodec(Rng& r, uint32_t fourcc = 0) {
  Codec c;
  c.id = GenId(r);
  c.fourcc = fourcc ? fourcc : r.Pick<uint32_t>({kLpcm, kOpus, kFlac, kAac});
  c.nsamples = r.Chance(1, 3) ? r.Pick<uint32_t>({1, 2, 120, 240, 480, 960, 1024, 1920, 2880, 3840, 3841, 96000}) : static_cast<uint32_t>(r.Range(1, 9000));
  c.lpcm.flags = r.Below(2); c.lpcm.size = r.Pick<uint8_t>({16, 24, 32}); c.lpcm.rate = r.Pick(LpcmRates());
  c.opus.version = r.Range(1, 15); c.opus.preskip = r.U32(); c.opus.rate = r.Edge32();
  if (c.fourcc == kOpus) c.roll = OpusRoll(c.nsamples);
  if (c.fourcc == kAac) c.roll = -1;
  if (c.fourcc == kFlac) {
    c.nsamples = r.Chance(1, 4) ? r.Pick<uint32_t>({16, 17, 65535, 96 * 100}) : static_cast<uint32_t>(r.Range(16, 9000));
    auto& i = c.flac.info;
    i.min = i.max = c.nsamples; i.rate = r.Pick(FlacRates()); i.ch = 1; i.bits = r.Pick<uint8_t>({15, 23, 31}); i.total = r.U64() >> r.Range(28, 63);
    int n = r.Chance(1, 2) ? 0 : static_cast<int>(r.Below(5));
    for (int k = 0; k < n; ++k) { FlacBlock x; x.type = static_cast<int>(r.Chance(1, 3) ? r.Range(1, 127) : r.Range(1, 6)); x.data = r.Bytes(r.Below(40)); c.flac.rest.push_back(x); }
  }
  auto& a = c.aac;
  a.buf = r.U32() & 0xffffff; a.maxb = r.Edge32(); a.avgb = r.Edge32(); a.freq = r.Below(13);
  if (r.Chance(1, 3)) a.dsi_ext = r.Bytes(r.Below(150));
  if (r.Chance(1, 3)) a.dcd_ext = r.Bytes(r.Below(150));
  return c;
}

// ---- parameter definitions ----
struct Sched { uint32_t dur = 0, csd = 0; std::vector<uint32_t> subs; std::optional<uint32_t> num;
  uint32_t Count() const { return csd ? static_cast<uint32_t>((uint64_t{dur} + csd - 1) / csd) : static_cast<uint32_t>(subs.size()); }
  uint32_t At(uint32_t i) const { return csd ? (i + 1 == Count() && dur % csd ? dur % csd : csd) : subs[i]; }
};
struct Pd {
  uint32_t type = 0, id = 0, rate = 48000; uint8_t res = 0; bool mode1 = false; Sched s;
  int16_t mix = 0; uint8_t dmode = 0, dres = 0, dw = 0, dres2 = 0; Bytes ext; int pos[6] = {};
};
inline void EncodeSched(Bits& b, const Sched& s, const Lp& lp) {
  lp(b, s.dur); lp(b, s.csd);
  if (s.csd == 0) { lp(b, s.num ? *s.num : s.subs.size()); for (uint32_t d : s.subs) lp(b, d); }
}
inline void EncodePd(Bits& b, const Pd& p, const Lp& lp) {
  if (p.type >= 9) { lp(b, p.ext.size()); b.PutBytes(p.ext); return; }
  lp(b, p.id); lp(b, p.rate); b.Put(p.mode1, 1); b.Put(p.res, 7);
  if (!p.mode1) EncodeSched(b, p.s, lp);
  switch (p.type) {
    case 0: b.PutS(p.mix, 16); break;
    case 1: b.Put(p.dmode, 3); b.Put(p.dres, 5); b.Put(p.dw, 4); b.Put(p.dres2, 4); break;
    case 2: break;
    case 3: b.PutS(p.pos[0], 9); b.PutS(p.pos[1], 8); b.Put(p.pos[2], 7); break;
    case 4: for (int i = 0; i < 3; ++i) b.PutS(p.pos[i], 8); break;
    case 5: for (int i = 0; i < 3; ++i) b.PutS(p.pos[i], 16); break;
    case 6: for (int k = 0; k < 2; ++k) { b.PutS(p.pos[3 * k], 9); b.PutS(p.pos[3 * k + 1], 8); b.Put(p.pos[3 * k + 2], 7); } break;
    case 7: for (int i = 0; i < 6; ++i) b.PutS(p.pos[i], 8); break;
    case 8: for (int i = 0; i < 6; ++i) b.PutS(p.pos[i], 16); break;
  }
}
inline Sched GenSched(Rng& r, uint32_t max_blocks = 40) {
  Sched s;
  if (r.Chance(1, 2)) {
    uint32_t n = 1 + static_cast<uint32_t>(r.Below(max_blocks));
    s.csd = 1 + static_cast<uint32_t>(r.Chance(1, 4) ? r.Below(100000) : r.Below(200));
    uint64_t d = static_cast<uint64_t>(s.csd) * (n - 1) + static_cast<uint64_t>(r.Range(1, s.csd));
    s.dur = static_cast<uint32_t>(d);
    if (s.dur < s.csd) s.dur = s.csd;
  } else {
    uint32_t n = 1 + static_cast<uint32_t>(r.Below(max_blocks));
    uint32_t t = 0;
    for (uint32_t i = 0; i < n; ++i) { uint32_t d = 1 + static_cast<uint32_t>(r.Chance(1, 6) ? r.Below(100000) : r.Below(100)); s.subs.push_back(d); t += d; }
    s.dur = t;
  }
  return s;
}
inline Pd GenPd(Rng& r, uint32_t type) {
  Pd p;
  p.type = type; p.id = GenId(r); p.rate = r.Chance(1, 2) ? 48000 : std::max<uint32_t>(1, r.Edge32()); p.res = r.U8() & 0x7f;
  if (type == 1 || type == 2) { p.mode1 = false; p.s.dur = p.s.csd = 1 + static_cast<uint32_t>(r.Below(100000)); }
  else if (r.Bool()) p.mode1 = true;
  else p.s = GenSched(r);
  p.mix = GenS16(r);
  p.dmode = r.Pick<uint8_t>({0, 1, 2, 4, 5, 6}); p.dres = r.U8() & 31; p.dw = r.Below(11); p.dres2 = r.U8() & 15;
  if (type >= 9) p.ext = r.Bytes(r.Below(30));
  for (int i = 0; i < 6; ++i) {
    int lo, hi;
    if (type == 3 || type == 6) { int k = i % 3; lo = k == 0 ? -180 : k == 1 ? -90 : 0; hi = k == 0 ? 180 : k == 1 ? 90 : 127; }
    else if (type == 4 || type == 7) { lo = -128; hi = 127; }
    else { lo = -32768; hi = 32767; }
    p.pos[i] = r.Chance(1, 4) ? (r.Bool() ? lo : hi) : static_cast<int>(r.Range(lo, hi));
  }
  return p;
}

// ---- audio element ----
struct Layer { uint8_t layout = 1; bool og = false, rg = false; uint8_t res_a = 0, sub = 1, coupled = 1, og_flags = 0, res_b = 0; int16_t gain = 0; uint8_t expanded = 0; };
struct Element {
  uint32_t id = 0; uint8_t type = 0, res = 0; uint32_t codec = 0;
  std::vector<uint32_t> subs;
  std::optional<uint32_t> num_params;
  std::vector<Pd> params;  // type 1, 2 or >= 3 (as extension)
  uint8_t ch_res = 0; std::vector<Layer> layers;
  uint32_t amb_mode = 0; uint8_t C = 1, N = 1, M = 0; Bytes mapping; std::vector<int16_t> matrix;
  uint8_t num_objects = 1; Bytes obj_ext; Bytes ext;
};
// A parameter definition inside an element: every type but demixing and recon gain is opaque.
inline void EncodeElementParam(Bits& b, const Pd& p, const Lp& lp) {
  lp(b, p.type);
  if (p.type == 1 || p.type == 2) EncodePd(b, p, lp);
  else { lp(b, p.ext.size()); b.PutBytes(p.ext); }
}
inline Bytes EncodeElement(const Element& e, const Lp& lp) {
  Bits b;
  lp(b, e.id); b.Put(e.type, 3); b.Put(e.res, 5); lp(b, e.codec); lp(b, e.subs.size());
  for (uint32_t s : e.subs) lp(b, s);
  lp(b, e.num_params ? *e.num_params : e.params.size());
  for (auto& p : e.params) EncodeElementParam(b, p, lp);
  switch (e.type) {
    case 0:
      b.Put(e.layers.size(), 3); b.Put(e.ch_res, 5);
      for (auto& l : e.layers) {
        b.Put(l.layout, 4); b.Put(l.og, 1); b.Put(l.rg, 1); b.Put(l.res_a, 2); b.Put(l.sub, 8); b.Put(l.coupled, 8);
        if (l.og) { b.Put(l.og_flags, 6); b.Put(l.res_b, 2); b.PutS(l.gain, 16); }
        if (l.layout == 15) b.Put(l.expanded, 8);
      }
      break;
    case 1:
      lp(b, e.amb_mode);
      if (e.amb_mode == 0) { b.Put(e.C, 8); b.Put(e.N, 8); b.PutBytes(e.mapping); }
      else if (e.amb_mode == 1) { b.Put(e.C, 8); b.Put(e.N, 8); b.Put(e.M, 8); for (int16_t m : e.matrix) b.PutS(m, 16); }
      break;
    case 2: b.Put(1 + e.obj_ext.size(), 8); b.Put(e.num_objects, 8); b.PutBytes(e.obj_ext); break;
    default: lp(b, e.ext.size()); b.PutBytes(e.ext); break;
  }
  return b.Bytes();
}
inline void GenAmbisonics(Rng& r, Element& e) {
  int n = static_cast<int>(r.Chance(1, 6) ? r.Range(0, 14) : r.Range(0, 4));
  int C = (n + 1) * (n + 1);
  e.type = 1; e.C = C;
  if (r.Bool()) {
    e.amb_mode = 0;
    int N = static_cast<int>(r.Chance(1, 2) ? C : r.Range(1, C));
    if (N > 255) N = 255;
    e.N = N;
    e.mapping.assign(C, 255);
    std::vector<int> ch;
    for (int i = 0; i < C; ++i) ch.push_back(i);
    r.Shuffle(ch);
    for (int i = 0; i < N; ++i) e.mapping[ch[i]] = i;
    for (int i = N; i < C; ++i) if (r.Bool()) e.mapping[ch[i]] = r.Below(N);
  } else {
    e.amb_mode = 1;
    int total = static_cast<int>(r.Range(1, C));
    int M = static_cast<int>(r.Range(0, total / 2));
    e.N = total - M; e.M = M;
    for (int i = 0; i < total * C; ++i) e.matrix.push_back(GenS16(r));
  }
}
inline Element GenElement(Rng& r, int type = -1) {
  Element e;
  e.id = GenId(r); e.res = r.U8() & 31; e.codec = GenId(r);
  e.type = type >= 0 ? type : static_cast<int>(r.Chance(1, 8) ? r.Range(3, 7) : r.Below(3));
  std::set<uint32_t> types;
  int np = r.Chance(1, 2) ? 0 : static_cast<int>(r.Below(4));
  for (int i = 0; i < np; ++i) {
    uint32_t t = r.Chance(1, 2) ? static_cast<uint32_t>(r.Range(1, 2)) : r.Chance(1, 2) ? static_cast<uint32_t>(r.Range(3, 12)) : std::max<uint32_t>(3, r.Edge32());
    if (!types.insert(t).second) continue;
    Pd p = GenPd(r, t);
    if (t >= 3) p.ext = r.Bytes(r.Below(30));
    e.params.push_back(p);
  }
  uint32_t nsub = 0;
  switch (e.type) {
    case 0: {
      int n = static_cast<int>(r.Range(1, 6));
      e.ch_res = r.U8() & 31;
      bool binaural = r.Chance(1, 10);
      if (binaural) n = 1;
      for (int i = 0; i < n; ++i) {
        Layer l;
        l.layout = r.Chance(1, 6) ? 15 : static_cast<uint8_t>(r.Below(15));
        while (l.layout == 9) l.layout = static_cast<uint8_t>(r.Below(16));
        if (binaural) l.layout = 9;
        l.og = r.Bool(); l.rg = r.Bool(); l.res_a = r.Below(4); l.sub = static_cast<uint8_t>(r.Chance(1, 20) ? r.Below(256) : r.Below(8)); l.coupled = static_cast<uint8_t>(r.Below(l.sub + 1u));
        l.og_flags = r.U8() & 63; l.res_b = r.U8() & 3; l.gain = GenS16(r); l.expanded = r.U8();
        nsub += l.sub;
        e.layers.push_back(l);
      }
      break;
    }
    case 1: GenAmbisonics(r, e); nsub = e.N; break;
    case 2: nsub = 1; e.num_objects = static_cast<uint8_t>(r.Range(1, 2)); e.obj_ext = r.Bytes(r.Below(20)); break;
    default: nsub = static_cast<uint32_t>(r.Below(6)); e.ext = r.Bytes(r.Below(60)); break;
  }
  std::set<uint32_t> ids;
  while (ids.size() < nsub) { uint32_t v = r.Chance(1, 4) ? r.Edge32() : static_cast<uint32_t>(r.Below(600)); if (ids.insert(v).second) e.subs.push_back(v); }
  return e;
}

// ---- mix presentation ----
struct GainOffset { int type = 0; int16_t v = 0, def = 0, lo = 0, hi = 0; Bytes ext; };
struct Rendering {
  uint8_t mode = 0, profile = 0, res = 0;
  std::vector<Pd> params;  // positional
  std::optional<GainOffset> go; Bytes ext;
  bool force_ext_size0_flag = false;  // non-canonical: flag set, no extension
  bool force_empty_ext = false;       // non-canonical: extension with zero parameters
};
struct MixElement { uint32_t id = 0; std::vector<std::string> notes; Rendering rc; Pd gain; };
struct Anchor { uint8_t what = 0; int16_t v = 0; };
struct MixLayout { uint8_t type = 2, ss = 0, res = 0, info = 0; int16_t il = 0, dp = 0, tp = 0; std::vector<Anchor> anchors; Bytes ext; };
struct SubMix { std::vector<MixElement> el; Pd out; std::vector<MixLayout> layouts; };
struct Mix {
  uint32_t id = 0; std::vector<std::string> lang, note; std::vector<SubMix> sm;
  std::optional<std::vector<std::pair<std::string, std::string>>> tags;
  bool opt = false; uint8_t lr = 0, br = 0; Bytes opt_rest;
};
inline void EncodeRendering(Bits& b, const Rendering& c, const Lp& lp) {
  b.Put(c.mode, 2); b.Put(c.go.has_value() || c.force_ext_size0_flag, 1); b.Put(c.profile, 2); b.Put(c.res, 3);
  if (c.params.empty() && !c.go && c.ext.empty() && !(c.force_empty_ext && !c.force_ext_size0_flag)) { lp(b, 0); return; }
  Bits e;
  lp(e, c.params.size());
  for (auto& p : c.params) { lp(e, p.type); EncodePd(e, p, lp); }
  if (c.go) {
    e.Put(c.go->type, 8);
    if (c.go->type == 0) e.PutS(c.go->v, 16);
    else if (c.go->type == 1) { e.PutS(c.go->def, 16); e.PutS(c.go->lo, 16); e.PutS(c.go->hi, 16); }
    else { lp(e, c.go->ext.size()); e.PutBytes(c.go->ext); }
  }
  e.PutBytes(c.ext);
  auto eb = e.Bytes();
  lp(b, eb.size()); b.PutBytes(eb);
}
inline Bytes EncodeMix(const Mix& m, const Lp& lp) {
  Bits b;
  lp(b, m.id); lp(b, m.lang.size());
  for (auto& s : m.lang) b.PutStr(s);
  for (auto& s : m.note) b.PutStr(s);
  lp(b, m.sm.size());
  for (auto& s : m.sm) {
    lp(b, s.el.size());
    for (auto& e : s.el) {
      lp(b, e.id);
      for (auto& n : e.notes) b.PutStr(n);
      EncodeRendering(b, e.rc, lp);
      EncodePd(b, e.gain, lp);
    }
    EncodePd(b, s.out, lp);
    lp(b, s.layouts.size());
    for (auto& l : s.layouts) {
      b.Put(l.type, 2);
      if (l.type == 2) { b.Put(l.ss, 4); b.Put(l.res, 2); } else b.Put(l.res, 6);
      b.Put(l.info, 8); b.PutS(l.il, 16); b.PutS(l.dp, 16);
      if (l.info & 1) b.PutS(l.tp, 16);
      if (l.info & 2) { b.Put(l.anchors.size(), 8); for (auto& a : l.anchors) { b.Put(a.what, 8); b.PutS(a.v, 16); } }
      if (l.info & 0xfc) { lp(b, l.ext.size()); b.PutBytes(l.ext); }
    }
  }
  if (m.tags) { b.Put(m.tags->size(), 8); for (auto& [k, v] : *m.tags) { b.PutStr(k); b.PutStr(v); } }
  if (m.opt) { lp(b, 2 + m.opt_rest.size()); b.Put(m.lr, 8); b.Put(m.br, 8); b.PutBytes(m.opt_rest); }
  return b.Bytes();
}
inline Rendering GenRendering(Rng& r, bool canonical = true) {
  Rendering c;
  c.mode = r.Below(4); c.profile = r.Below(4); c.res = r.Below(8);
  if (r.Chance(1, 3)) { int n = static_cast<int>(r.Range(1, 3)); for (int i = 0; i < n; ++i) c.params.push_back(GenPd(r, static_cast<uint32_t>(r.Range(3, 8)))); }
  if (r.Chance(1, 4)) {
    GainOffset g;
    g.type = static_cast<int>(r.Below(3)); if (g.type == 2 && r.Bool()) g.type = static_cast<int>(r.Range(2, 255));
    g.v = GenS16(r);
    int16_t x[3] = {GenS16(r), GenS16(r), GenS16(r)};
    std::sort(x, x + 3);
    g.lo = x[0]; g.def = x[1]; g.hi = x[2];
    g.ext = r.Bytes(r.Below(10));
    c.go = g;
  }
  if (r.Chance(1, 5)) c.ext = r.Bytes(r.Range(1, 12));
  if (!canonical && c.params.empty() && !c.go && c.ext.empty()) { if (r.Bool()) c.force_ext_size0_flag = true; else c.force_empty_ext = true; }
  return c;
}
inline MixLayout GenLayout(Rng& r) {
  MixLayout l;
  l.type = r.Chance(2, 3) ? 2 : static_cast<uint8_t>(r.Below(4));
  l.ss = r.Below(16); l.res = l.type == 2 ? r.Below(4) : r.Below(64);
  l.info = r.Chance(1, 2) ? static_cast<uint8_t>(r.Below(4)) : r.U8();
  l.il = GenS16(r); l.dp = GenS16(r); l.tp = GenS16(r);
  std::set<int> used;
  int n = static_cast<int>(r.Below(4));
  for (int i = 0; i < n; ++i) { Anchor a; a.what = static_cast<uint8_t>(r.Chance(1, 3) ? r.U8() : r.Below(3)); a.v = GenS16(r); if (used.insert(a.what).second) l.anchors.push_back(a); }
  l.ext = r.Bytes(r.Below(10));
  return l;
}
inline Mix GenMix(Rng& r, bool canonical = true) {
  Mix m;
  m.id = GenId(r);
  int labels = static_cast<int>(r.Chance(1, 20) ? r.Below(30) : r.Below(4));
  std::set<std::string> langs;
  while (static_cast<int>(langs.size()) < labels) { auto s = GenStr(r); if (langs.insert(s).second) { m.lang.push_back(s); m.note.push_back(GenStr(r)); } }
  int ns = static_cast<int>(r.Chance(1, 20) ? r.Range(1, 28) : r.Range(1, 2));
  std::set<uint32_t> ids;
  for (int i = 0; i < ns; ++i) {
    SubMix s;
    int ne = static_cast<int>(r.Range(1, ns > 2 ? 1 : 3));
    for (int k = 0; k < ne; ++k) {
      MixElement e;
      do e.id = GenId(r); while (!ids.insert(e.id).second);
      for (int q = 0; q < labels; ++q) e.notes.push_back(GenStr(r));
      e.rc = GenRendering(r, canonical);
      e.gain = GenPd(r, 0);
      s.el.push_back(e);
    }
    s.out = GenPd(r, 0);
    int nl = static_cast<int>(r.Range(1, 3));
    for (int k = 0; k < nl; ++k) s.layouts.push_back(GenLayout(r));
    bool st = false;
    for (auto& l : s.layouts) st |= l.type == 2 && l.ss == 0;
    if (!st) { auto l = GenLayout(r); l.type = 2; l.ss = 0; l.res &= 3; s.layouts.insert(s.layouts.begin() + r.Below(s.layouts.size() + 1), l); }
    m.sm.push_back(s);
  }
  m.opt = r.Chance(1, 4);
  if (m.opt || r.Chance(1, 3)) {
    m.tags.emplace();
    int n = static_cast<int>(r.Below(4));
    for (int i = 0; i < n; ++i) m.tags->push_back({GenStr(r), GenStr(r)});
    if (r.Chance(1, 3)) m.tags->push_back({"content_language", r.Pick<const char*>({"eng", "fre", "und"})});
    r.Shuffle(*m.tags);
  }
  m.lr = r.U8(); m.br = r.U8();
  if (r.Bool()) m.opt_rest = r.Bytes(r.Below(8));
  return m;
}

// ---- parameter block ----
struct Recon { uint32_t flags = 0; uint8_t g[12] = {}; };
struct PData {
  uint32_t anim = 0; int16_t a = 0, b = 0, c = 0; uint8_t t = 0;  // mix gain
  uint8_t dmode = 0, dres = 0;
  std::vector<std::optional<Recon>> recon;
  Bytes ext;
};
struct PBlock { Pd def; std::vector<bool> recon_flags; Sched s; std::vector<PData> data; };
inline void EncodePData(Bits& b, const Pd& d, const PData& p, const Lp& lp) {
  switch (d.type) {
    case 0: lp(b, p.anim); b.PutS(p.a, 16); if (p.anim >= 1) b.PutS(p.b, 16); if (p.anim == 2) { b.PutS(p.c, 16); b.Put(p.t, 8); } break;
    case 1: b.Put(p.dmode, 3); b.Put(p.dres, 5); break;
    case 2: for (auto& x : p.recon) if (x) { lp(b, x->flags); for (int i = 0; i < 12; ++i) if (x->flags >> i & 1) b.Put(x->g[i], 8); } break;
    default: lp(b, p.ext.size()); b.PutBytes(p.ext);
  }
}
inline Bytes EncodePBlock(const PBlock& p, const Lp& lp) {
  Bits b;
  lp(b, p.def.id);
  if (!p.def.mode1) { for (auto& d : p.data) EncodePData(b, p.def, d, lp); return b.Bytes(); }
  lp(b, p.s.dur); lp(b, p.s.csd);
  if (p.s.csd == 0) lp(b, p.s.num ? *p.s.num : p.s.subs.size());
  for (size_t i = 0; i < p.data.size(); ++i) { if (p.s.csd == 0) lp(b, p.s.subs[i]); EncodePData(b, p.def, p.data[i], lp); }
  return b.Bytes();
}
inline PBlock GenPBlock(Rng& r, uint32_t type) {
  PBlock p;
  p.def = GenPd(r, type);
  if (p.def.type == 1 || p.def.type == 2) p.def.mode1 = false;
  if (!p.def.mode1) p.s = p.def.s; else p.s = GenSched(r);
  int layers = static_cast<int>(r.Range(1, 6));
  for (int i = 0; i < layers; ++i) p.recon_flags.push_back(r.Bool());
  for (uint32_t i = 0; i < p.s.Count(); ++i) {
    PData d;
    d.anim = r.Below(3); d.a = GenS16(r); d.b = GenS16(r); d.c = GenS16(r); d.t = r.U8();
    d.dmode = r.Pick<uint8_t>({0, 1, 2, 4, 5, 6}); d.dres = r.U8() & 31;
    for (bool f : p.recon_flags) { if (!f) { d.recon.push_back(std::nullopt); continue; } Recon x; x.flags = r.U32() & 0xfff; if (r.Chance(1, 8)) x.flags = r.Pick<uint32_t>({0, 0xfff, 0x800, 0x7f, 0x80}); for (auto& g : x.g) g = r.U8(); d.recon.push_back(x); }
    d.ext = r.Bytes(r.Below(10));
    p.data.push_back(d);
  }
  return p;
}
}  // namespace ref
#endif
