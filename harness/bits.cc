// C05: bit buffers against a plain bit sequence.
#include <fstream>
#include <memory>
#include "iamf/common/read_bit_buffer.h"
#include "iamf/common/write_bit_buffer.h"
#include "iamf/common/leb_generator.h"
#include "harness/ref/bits.h"
#include "harness/vlib.h"
using namespace iamf_tools;
using namespace vlib;

namespace {

struct Op { int kind; uint64_t v; int n; std::vector<uint8_t> bytes; std::string s; };

std::string Str(const std::string& s) { return Hex(s); }

// Random writes; the buffer must always hold exactly the model's bits.
void WriteModel(Ctx& c) {
  Rng& r = c.rng;
  const bool fixed = r.Chance(1, 3);
  const int fixed_size = static_cast<int>(r.Range(1, 8));
  auto gen = fixed ? LebGenerator::Create(LebGenerator::GenerationMode::kFixedSize, fixed_size) : LebGenerator::Create();
  V_CHECK(c, gen != nullptr, "leb-create", "fixed=" << fixed << " " << fixed_size);
  WriteBitBuffer wb(r.Below(64), *gen);
  ref::Bits m;
  std::vector<Op> ops;
  const int n_ops = static_cast<int>(r.Range(1, 60));
  std::ostringstream trace;
  for (int k = 0; k < n_ops; ++k) {
    Op o{static_cast<int>(r.Below(10)), 0, 0, {}, ""};
    bool want_ok = true;
    absl::Status st;
    switch (o.kind) {
      case 0: case 1: {  // literal
        const int max = o.kind == 0 ? 32 : 64;
        o.n = static_cast<int>(r.Chance(1, 20) ? r.Range(-3, max + 8) : r.Range(0, max));
        o.v = r.Chance(1, 2) ? r.U64() : r.Edge32();
        if (max == 32) o.v &= 0xffffffffull;
        if (o.n >= 0 && o.n < 64 && r.Chance(9, 10)) o.v &= (1ull << o.n) - 1;
        want_ok = o.n >= 0 && o.n <= max && (o.n == 64 || (o.n < 64 && (o.v >> o.n) == 0));
        // Zero bits are a no-op whatever the value is.
        if (o.n == 0) want_ok = true;
        st = max == 32 ? wb.WriteUnsignedLiteral(static_cast<uint32_t>(o.v), o.n) : wb.WriteUnsignedLiteral64(o.v, o.n);
        if (want_ok) m.Put(o.v, o.n);
        break;
      }
      case 2: { int16_t v = static_cast<int16_t>(r.U64()); o.v = static_cast<uint16_t>(v); st = wb.WriteSigned16(v); m.PutS(v, 16); break; }
      case 3: { int8_t v = static_cast<int8_t>(r.U64()); o.v = static_cast<uint8_t>(v); st = wb.WriteSigned8(v); m.PutS(v, 8); break; }
      case 4: { int16_t v = static_cast<int16_t>(r.Chance(1, 8) ? r.Pick<int>({-32768, -258, -257, -256, 255, 256, 257, 32767, 511}) : r.Range(-256, 255)); want_ok = v >= -256 && v <= 255; o.v = static_cast<uint16_t>(v); st = wb.WriteSigned9(v); if (want_ok) m.PutS(v, 9); break; }
      case 5: { o.v = r.Bool(); st = wb.WriteBoolean(o.v); m.Put(o.v, 1); break; }
      case 6: {
        size_t len = r.Chance(1, 6) ? r.Range(120, 135) : r.Below(20);
        for (size_t i = 0; i < len; ++i) o.s.push_back(static_cast<char>(r.Chance(1, 400) ? 0 : r.Range(1, 255)));
        want_ok = o.s.size() <= 127 && o.s.find('\0') == std::string::npos;
        st = wb.WriteString(o.s);
        if (want_ok) m.PutStr(o.s);
        break;
      }
      case 7: { o.bytes = r.Bytes(r.Chance(1, 10) ? r.Below(600) : r.Below(12)); st = wb.WriteUint8Span(absl::MakeConstSpan(o.bytes)); m.PutBytes(o.bytes); break; }
      case 8: {
        o.v = r.Edge32();
        want_ok = !fixed || fixed_size >= 5 || o.v < (1ull << (7 * fixed_size));
        st = wb.WriteUleb128(static_cast<uint32_t>(o.v));
        if (want_ok) m.PutLeb(o.v, fixed ? fixed_size : 0);
        break;
      }
      case 9: {
        o.v = r.Edge32();
        st = wb.WriteIso14496_1Expanded(static_cast<uint32_t>(o.v));
        int groups = 1;
        while (groups < 5 && (o.v >> (7 * groups)) != 0) ++groups;
        for (int g = groups - 1; g >= 0; --g) m.Put(((o.v >> (7 * g)) & 0x7f) | (g ? 0x80 : 0), 8);
        break;
      }
    }
    trace << o.kind << "(" << o.v << "," << o.n << "," << o.bytes.size() << "," << o.s.size() << ") ";
    V_CHECK(c, st.ok() == want_ok, "write-status", "op " << k << " status " << st << " want_ok " << want_ok << " trace " << trace.str());
    V_CHECK(c, wb.bit_offset() == static_cast<int64_t>(m.b.size()), "write-offset", wb.bit_offset() << " vs " << m.b.size() << " trace " << trace.str());
    V_CHECK(c, wb.IsByteAligned() == (m.b.size() % 8 == 0), "write-aligned", trace.str());
    if (want_ok) ops.push_back(o);
    if (want_ok && o.kind <= 1 && o.n == 0) ops.pop_back();
    c.Count(want_ok ? "writes" : "rejected-writes");
  }
  const auto want = m.Bytes();
  V_CHECK(c, wb.bit_buffer() == want, "write-bytes", "got " << Hex(wb.bit_buffer()) << " want " << Hex(want) << " trace " << trace.str());
  // The same operations read back the same values, from every kind of source.
  std::string path = c.scratch + "/bits.bin";
  { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(reinterpret_cast<const char*>(want.data()), want.size()); }
  for (int src = 0; src < 3; ++src) {
    std::unique_ptr<ReadBitBuffer> rb;
    std::unique_ptr<StreamBasedReadBitBuffer> sb;
    if (src == 0) rb = MemoryBasedReadBitBuffer::CreateFromSpan(want);
    else if (src == 1) rb = FileBasedReadBitBuffer::CreateFromFilePath(r.Range(1, 40), path);
    else {
      sb = StreamBasedReadBitBuffer::Create(r.Range(1, 40));
      V_CHECK(c, sb != nullptr && sb->PushBytes(absl::MakeConstSpan(want)).ok(), "stream-push", want.size());
    }
    ReadBitBuffer* b = sb ? sb.get() : rb.get();
    V_CHECK(c, b != nullptr, "reader-create", src);
    int i = 0;
    for (auto& o : ops) {
      absl::Status st;
      std::ostringstream got;
      bool eq = true;
      switch (o.kind) {
        case 0: if (o.n <= 8) { uint8_t v = 1; st = b->ReadUnsignedLiteral(o.n, v); eq = v == o.v; } else if (o.n <= 16) { uint16_t v = 1; st = b->ReadUnsignedLiteral(o.n, v); eq = v == o.v; } else { uint32_t v = 1; st = b->ReadUnsignedLiteral(o.n, v); eq = v == o.v; } break;
        case 1: { uint64_t v = 1; st = b->ReadUnsignedLiteral(o.n, v); eq = v == o.v; got << v; break; }
        case 2: { int16_t v = 1; st = b->ReadSigned16(v); eq = static_cast<uint16_t>(v) == o.v; got << v; break; }
        case 3: { int8_t v = 1; st = b->ReadSigned8(v); eq = static_cast<uint8_t>(v) == o.v; got << int(v); break; }
        case 4: { int16_t v = 1; st = b->ReadSigned9(v); eq = static_cast<uint16_t>(v) == o.v; got << v; break; }
        case 5: { bool v = false; st = b->ReadBoolean(v); eq = v == (o.v != 0); break; }
        case 6: { std::string v = "junk"; st = b->ReadString(v); eq = v == o.s; got << Str(v); break; }
        case 7: { std::vector<uint8_t> v(o.bytes.size(), 7); st = b->ReadUint8Span(absl::MakeSpan(v)); eq = v == o.bytes; got << Hex(v); break; }
        case 8: { uint32_t v = 1; int8_t sz = -1; st = b->ReadULeb128(v, sz); int min = 1; while (min < 5 && (o.v >> (7 * min))) ++min; eq = v == o.v && sz == (fixed ? fixed_size : min); got << v << "/" << int(sz); break; }
        case 9: { uint32_t v = 1; st = b->ReadIso14496_1Expanded(0xffffffffu, v); eq = v == o.v; got << v; break; }
      }
      V_CHECK(c, st.ok() && eq, "read-back", "source " << src << " op#" << i << " kind " << o.kind << " want " << o.v << " got " << got.str() << " status " << st << " bytes " << Hex(want) << " trace " << trace.str());
      ++i;
      c.Count("reads");
    }
    V_CHECK(c, b->Tell() == static_cast<int64_t>(m.b.size()), "read-position", b->Tell());
  }
  // Flushing to a file writes the same bytes, once, and empties the buffer.
  if (m.b.size() % 8 == 0) {
    std::string out = c.scratch + "/flush.bin";
    std::optional<std::fstream> f(std::fstream(out, std::ios::binary | std::ios::out | std::ios::trunc));
    V_CHECK(c, wb.FlushAndWriteToFile(f).ok(), "flush-status", "");
    f->close();
    std::ifstream in(out, std::ios::binary);
    std::vector<uint8_t> back((std::istreambuf_iterator<char>(in)), {});
    V_CHECK(c, back == want && wb.bit_offset() == 0 && wb.bit_buffer().empty(), "flush-bytes", Hex(back) << " vs " << Hex(want));
    c.Count("flushes");
  } else {
    std::optional<std::fstream> none;
    V_CHECK(c, !wb.FlushAndWriteToFile(none).ok(), "flush-unaligned-accepted", m.b.size());
    V_CHECK(c, wb.bit_buffer() == want, "flush-unaligned-lost-data", "");
  }
  c.Eval();
  if (ops.size() > 2) c.Distinct(HashVec(want));
  if (c.WantSample()) c.Sample(trace.str());
}

// Random reads, seeks, pushes and flushes over random bytes.
void ReadModel(Ctx& c) {
  Rng& r = c.rng;
  std::vector<uint8_t> data = r.Bytes(r.Chance(1, 10) ? r.Below(2000) : r.Below(80));
  if (r.Bool()) for (auto& x : data) if (r.Chance(1, 3)) x = r.Pick<uint8_t>({0, 0x80, 0xff, 0x7f});
  const int src = static_cast<int>(r.Below(3));
  std::unique_ptr<ReadBitBuffer> rb;
  StreamBasedReadBitBuffer* sb = nullptr;
  const int cap = static_cast<int>(r.Range(1, r.Bool() ? 8 : 200));
  size_t avail = data.size();  // bytes the reader has been given
  size_t base = 0;             // bytes flushed away
  if (src == 0) rb = MemoryBasedReadBitBuffer::CreateFromSpan(data);
  else if (src == 1) {
    std::string path = c.scratch + "/in.bin";
    { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(reinterpret_cast<const char*>(data.data()), data.size()); }
    rb = FileBasedReadBitBuffer::CreateFromFilePath(cap, path);
  } else {
    auto s = StreamBasedReadBitBuffer::Create(cap);
    sb = s.get();
    rb = std::move(s);
    avail = 0;
  }
  V_CHECK(c, rb != nullptr, "reader-create", src);
  bool seekable = true;  // false between a Flush and the next Tell
  int64_t pos = 0;       // absolute bit position
  const int n_ops = static_cast<int>(r.Range(1, 80));
  std::ostringstream tr;
  tr << "src" << src << " cap" << cap << " data " << Hex(data) << " :: ";
  auto left = [&] { return static_cast<int64_t>(avail) * 8 - pos; };
  for (int k = 0; k < n_ops; ++k) {
    const int kind = static_cast<int>(r.Below(sb ? 14 : 11));
    ref::BitsIn in(data);
    in.pos = pos;
    // The model may only see the bytes pushed so far.
    std::vector<uint8_t> seen(data.begin(), data.begin() + avail);
    in.d = &seen;
    tr << kind << " ";
    switch (kind) {
      case 0: case 1: case 2: {
        const int n = static_cast<int>(r.Chance(1, 15) ? r.Range(-2, 70) : r.Range(0, kind == 0 ? 8 : 64));
        uint64_t v = 0xdeadbeef;
        tr << n << " ";
        absl::Status st;
        uint64_t got = 0;
        int max = 64;
        switch (r.Below(4)) {
          case 0: st = rb->ReadUnsignedLiteral(n, v); got = v; break;
          case 1: { uint32_t w = 0; max = 32; st = rb->ReadUnsignedLiteral(n, w); got = w; break; }
          case 2: { uint16_t w = 0; max = 16; st = rb->ReadUnsignedLiteral(n, w); got = w; break; }
          case 3: { uint8_t w = 0; max = 8; st = rb->ReadUnsignedLiteral(n, w); got = w; break; }
        }
        const bool want_ok = n >= 0 && n <= max && n <= left();
        V_CHECK(c, st.ok() == want_ok, "literal-status", "n " << n << " max " << max << " left " << left() << " " << st << " " << tr.str());
        if (want_ok) {
          uint64_t w = in.Get(n);
          V_CHECK(c, got == w, "literal-value", got << " vs " << w << " " << tr.str());
          pos += n;
        } else if (n >= 0 && n <= max) {
          V_CHECK(c, absl::IsResourceExhausted(st), "literal-code", st << " " << tr.str());
        }
        seekable = seekable || n <= 0 ? seekable : seekable;
        break;
      }
      case 3: { int16_t v = 0; bool ok = left() >= 16; auto st = rb->ReadSigned16(v); V_CHECK(c, st.ok() == ok && (!ok || v == in.GetS(16)), "signed16", v << st << tr.str()); if (ok) pos += 16; break; }
      case 4: { int8_t v = 0; bool ok = left() >= 8; auto st = rb->ReadSigned8(v); V_CHECK(c, st.ok() == ok && (!ok || v == in.GetS(8)), "signed8", int(v) << st << tr.str()); if (ok) pos += 8; break; }
      case 5: { int16_t v = 0; bool ok = left() >= 9; auto st = rb->ReadSigned9(v); V_CHECK(c, st.ok() == ok && (!ok || v == in.GetS(9)), "signed9", v << st << tr.str()); if (ok) pos += 9; break; }
      case 6: {  // string
        std::string want, got;
        bool ok = false;
        for (int i = 0; i < 128; ++i) { uint64_t ch = in.Get(8); if (in.bad) break; if (ch == 0) { ok = true; break; } want.push_back(static_cast<char>(ch)); }
        auto st = rb->ReadString(got);
        V_CHECK(c, st.ok() == ok && (!ok || got == want), "string", Hex(got) << " vs " << Hex(want) << st << tr.str());
        if (ok) pos = in.pos; else { pos = rb->Tell() + static_cast<int64_t>(base) * 8; seekable = true; }
        break;
      }
      case 7: {
        uint32_t v = 0; int8_t sz = 0; int len = 0;
        uint32_t w = in.GetLeb(&len);
        auto st = rb->ReadULeb128(v, sz);
        V_CHECK(c, st.ok() == !in.bad && (in.bad || (v == w && sz == len)), "uleb128", v << "/" << int(sz) << " want " << w << "/" << len << " bad " << in.bad << st << tr.str());
        if (!in.bad) pos = in.pos; else { pos = rb->Tell() + static_cast<int64_t>(base) * 8; seekable = true; }
        break;
      }
      case 8: {
        const int64_t d = r.Chance(1, 2) ? r.Range(-6, 6) : r.Range(0, 300);
        const int64_t np = pos + d * 8;
        // Every position in [flushed start, end] can be reached.
        rb->Tell();
        seekable = true;
        auto st = rb->IgnoreBytes(d);
        const bool ok = np >= static_cast<int64_t>(base) * 8 && np <= static_cast<int64_t>(avail) * 8;
        V_CHECK(c, st.ok() == ok, "ignore", d << " pos " << pos << " avail " << avail << st << tr.str());
        if (ok) pos = np;
        break;
      }
      case 9: {
        const int64_t t = rb->Tell();
        seekable = true;
        V_CHECK(c, t == pos - static_cast<int64_t>(base) * 8, "tell", t << " vs " << pos << " base " << base << tr.str());
        const int64_t target = r.Chance(1, 10) ? r.Range(-9, 9 + static_cast<int64_t>(avail) * 8) : r.Range(0, static_cast<int64_t>(avail - base) * 8);
        auto st = rb->Seek(target);
        const bool ok = target >= 0 && target <= static_cast<int64_t>(avail - base) * 8;
        V_CHECK(c, st.ok() == ok, "seek", target << st << tr.str());
        if (ok) pos = target + static_cast<int64_t>(base) * 8;
        c.Count("seeks");
        break;
      }
      case 10: {
        size_t n = r.Below(20);
        std::vector<uint8_t> v(n, 3);
        bool ok = left() >= static_cast<int64_t>(n) * 8;
        auto st = rb->ReadUint8Span(absl::MakeSpan(v));
        V_CHECK(c, st.ok() == ok && (!ok || v == in.GetBytes(n)), "span", Hex(v) << st << tr.str());
        if (ok) pos += n * 8; else { pos = rb->Tell() + static_cast<int64_t>(base) * 8; seekable = true; }
        break;
      }
      case 11: case 12: {
        size_t n = std::min<size_t>(data.size() - avail, r.Below(30));
        auto st = sb->PushBytes(absl::MakeConstSpan(data).subspan(avail, n));
        V_CHECK(c, st.ok(), "push", st << tr.str());
        avail += n;
        c.Count("pushes");
        break;
      }
      case 13: {
        sb->Flush();
        base = pos / 8;
        if (r.Bool()) {
          // A position taken before the flush must not be usable afterwards.
          V_CHECK(c, !sb->Seek(0).ok(), "seek-after-flush", tr.str());
        }
        c.Count("flushes");
        break;
      }
    }
    V_CHECK(c, rb->NumBytesAvailable() <= (left() + 7) / 8 && rb->NumBytesAvailable() >= left() / 8 - 0, "available", rb->NumBytesAvailable() << " left bits " << left() << tr.str());
    if (pos % 8 == 0) {
      V_CHECK(c, rb->NumBytesAvailable() == left() / 8 && rb->IsDataAvailable() == (left() > 0), "available-aligned", rb->NumBytesAvailable() << " left bits " << left() << tr.str());
    }
    c.Count("read-ops");
  }
  // Whatever happened, the position is still exact.
  const int64_t t = rb->Tell();
  V_CHECK(c, t == pos - static_cast<int64_t>(base) * 8, "tell-final", t << " vs " << pos << " base " << base << tr.str());
  c.Eval();
  c.Distinct(HashStr(tr.str()));
}

// A fresh reader starts at 0 and can be positioned before anything is read.
void FreshSeek(Ctx& c) {
  Rng& r = c.rng;
  std::vector<uint8_t> data = r.Bytes(r.Range(1, 40));
  auto rb = MemoryBasedReadBitBuffer::CreateFromSpan(data);
  const int64_t p = r.Range(0, static_cast<int64_t>(data.size()) * 8 - 1);
  auto st = rb->Seek(p);
  V_CHECK(c, st.ok(), "fresh-seek", st << " " << p);
  bool v = false;
  V_CHECK(c, rb->ReadBoolean(v).ok() && v == (((data[p / 8] >> (7 - p % 8)) & 1) != 0), "fresh-seek-value", p << " " << Hex(data));
  c.Eval();
  c.Distinct(p * 64 + data.size());
}

// Streams are bounded: what is accepted is never lost, what is refused leaves no trace.
void StreamBound(Ctx& c) {
  Rng& r = c.rng;
  auto sb = StreamBasedReadBitBuffer::Create(r.Range(1, 5000));
  std::vector<uint8_t> big(static_cast<size_t>(r.Range(1, 3 << 20)));
  for (size_t i = 0; i < big.size(); i += 1 + i / 50) big[i] = r.U8();
  uint64_t pushed = 0, read = 0;
  std::vector<uint8_t> expect;
  for (int k = 0; k < 6; ++k) {
    auto before = sb->NumBytesAvailable();
    bool ok = sb->PushBytes(absl::MakeConstSpan(big)).ok();
    const uint64_t limit = 2ull * (1 << 21);
    V_CHECK(c, ok == (before + big.size() <= limit), "stream-capacity", "held " << before << " push " << big.size() << " ok " << ok);
    if (ok) pushed += big.size();
    V_CHECK(c, sb->NumBytesAvailable() == static_cast<int64_t>(pushed - read), "stream-conservation", sb->NumBytesAvailable() << " vs " << pushed - read);
    const uint64_t n = std::min<uint64_t>(r.Below(3000), pushed - read);
    std::vector<uint8_t> got(n);
    V_CHECK(c, sb->ReadUint8Span(absl::MakeSpan(got)).ok(), "stream-read", n);
    for (uint64_t i = 0; i < n; ++i) V_CHECK(c, got[i] == big[(read + i) % big.size()], "stream-bytes", read + i);
    read += n;
    if (r.Chance(1, 3) && pushed > read) {
      const uint64_t skip = r.Below(pushed - read + 1);
      V_CHECK(c, sb->IgnoreBytes(static_cast<int64_t>(skip)).ok(), "stream-skip", skip);
      read += skip;
    }
    sb->Flush();
    V_CHECK(c, sb->Tell() == 0, "stream-flush-position", sb->Tell());
  }
  c.Eval();
  c.Distinct(big.size());
}
}  // namespace

V_MAIN({{"write_model", 60000, 400000, WriteModel}, {"read_model", 160000, 800000, ReadModel}, {"fresh_seek", 200, 2000, FreshSeek}, {"stream_bound", 60, 600, StreamBound}})
