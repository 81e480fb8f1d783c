// C29 EBML primitives: what the muxer's writers emit, against an independent
// encoder, the file parser's primitives and the streaming parser.
#include <cmath>

#include "../lib/ebml.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/status.h"
#include "webm/webm_parser.h"

using namespace vf;

namespace {

struct W : mkvmuxer::IMkvWriter {
  Bytes b; uint64_t ops = 0, fail_at = 0, big = 0; bool count_only = false;
  std::vector<std::pair<uint64_t, int64_t>> notes;
  mkvmuxer::int32 Write(const void* p, mkvmuxer::uint32 n) override {
    if (++ops == fail_at) return -1;
    if (count_only && n > 64) { big += n; return 0; }
    b.append((const char*)p, n);
    return 0;
  }
  mkvmuxer::int64 Position() const override { return (int64_t)(b.size() + big); }
  mkvmuxer::int32 Position(mkvmuxer::int64) override { return -1; }
  bool Seekable() const override { return false; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) override { notes.push_back({id, p}); }
};
struct Mem : mkvparser::IMkvReader {
  const Bytes& d;
  explicit Mem(const Bytes& b) : d(b) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0 || pos + len > (long long)d.size()) return -1;
    if (len) memcpy(buf, d.data() + pos, len);
    return 0;
  }
  int Length(long long* total, long long* avail) override { *total = *avail = (long long)d.size(); return 0; }
};

struct Cb : webm::Callback {
  webm::Info info; bool have_info = false;
  std::vector<std::pair<uint32_t, uint64_t>> unknown; std::vector<uint64_t> unknown_header;
  std::vector<uint64_t> voids;
  webm::BlockGroup bg; bool have_bg = false;
  webm::Tag tag; bool have_tag = false;
  webm::Status OnInfo(const webm::ElementMetadata&, const webm::Info& i) override { info = i; have_info = true; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnBlockGroupEnd(const webm::ElementMetadata&, const webm::BlockGroup& g) override { bg = g; have_bg = true; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnTag(const webm::ElementMetadata&, const webm::Tag& t) override { tag = t; have_tag = true; return webm::Status(webm::Status::kOkCompleted); }
  webm::Status OnUnknownElement(const webm::ElementMetadata& m, webm::Reader* r, uint64_t* left) override {
    unknown.push_back({(uint32_t)m.id, m.size}); unknown_header.push_back(m.header_size);
    return webm::Callback::OnUnknownElement(m, r, left);
  }
  webm::Status OnVoid(const webm::ElementMetadata& m, webm::Reader* r, uint64_t* left) override { voids.push_back(m.size); return webm::Callback::OnVoid(m, r, left); }
};

Bytes El1(uint32_t id, const Bytes& body) { Bytes o; PutId(&o, id); PutSize(&o, body.size(), SizeLen(body.size())); return o + body; }
// Feeds a segment with the given children to the streaming parser.
int Stream(const Bytes& children, Cb* cb) {
  Bytes d = El1(ID_EBML, El1(ID_DocType, "webm"));
  PutId(&d, ID_Segment); PutUnknownSize(&d, 8);
  d += children;
  webm::BufferReader r(std::vector<uint8_t>(d.begin(), d.end()));
  webm::WebmParser p;
  return p.Feed(cb, &r).code;
}

std::string Show(const Bytes& b) { return Hex(b, 40); }

const uint32_t kUnknownIds[] = {0x81, 0xFE, 0x4001, 0x7FFE, 0x200001, 0x3FFFFE, 0x10000001, 0x1FFFFFFE};

// The element in |b| must be exactly what the format says.
bool Exact(const char* what, const Bytes& seen, const Bytes& want, const std::string& v) {
  if (seen == want) return true;
  R().viol(std::string("c29:bytes:") + what, v + " written as " + Show(seen) + " should be " + Show(want));
  return false;
}
void Header(const Bytes& b, uint32_t id, uint64_t size, size_t head) {
  Mem m(b);
  long long pos = 0, i = 0, s = 0;
  if (mkvparser::ParseElementHeader(&m, pos, -1, i, s) != 0 || i != id || (uint64_t)s != size || (size_t)pos != head)
    R().viol("c29:header", Fmt("id %x size %llu read back as %llx %lld (%lld bytes) from ", id, (unsigned long long)size, i, s, pos) + Show(b));
  R().count("headers");
}
void Note(const W& w, uint32_t id) {
  if (w.notes.size() != 1 || w.notes[0].first != id || w.notes[0].second != 0) R().viol("c29:notify", Fmt("element %x not announced at its start", id));
}
template <class F> void Faults(Rng& r, const char* what, uint64_t ops, F f) {
  if (!r.chance(15) || !ops) return;
  W w; w.fail_at = r.range(1, ops);
  if (f(&w)) R().viol(std::string("c29:fault:") + what, Fmt("reported done although write %llu of %llu failed", (unsigned long long)w.fail_at, (unsigned long long)ops));
  R().count("faults");
}

// Match(): an element of that id, complete, whatever stands around it.
void Matches(Rng& r, const Bytes& el, uint32_t id, const uint64_t* u, const Bytes* bin) {
  Bytes pre = r.bytes(r.u(9)), d = pre + el + r.bytes(r.u(9));
  bool cut = r.chance(25), other = r.chance(25);
  if (cut) d.resize(pre.size() + r.u(el.size()));
  Mem m(d);
  long long pos = (long long)pre.size(), v = -1;
  uint32_t ask = other ? r.pick<uint32_t>({ID_Void, ID_Segment, ID_Duration, ID_DateUTC, ID_TrackNumber}) : id;
  bool want = !cut && !other && (u ? *u < (1ULL << 63) : !bin->empty());
  unsigned char* buf = nullptr; size_t len = 0;
  bool ok = u ? mkvparser::Match(&m, pos, ask, v) : mkvparser::Match(&m, pos, ask, buf, len);
  R().count(want ? "matches" : "matches_refused");
  if (ok != want) R().viol("c29:match", Show(el) + Fmt(" at %zu of %zu bytes, asked for %x: %d", pre.size(), d.size(), ask, ok));
  else if (ok && pos != (long long)(pre.size() + el.size())) R().viol("c29:match position", Show(el));
  else if (ok && (u ? v != (long long)*u : Bytes((const char*)buf, len) != *bin)) R().viol("c29:match value", Show(el));
  if (ok) delete[] buf;
}
void Unsigned(Rng& r) {
  uint64_t v = r.edgy();
  int fixed = r.chance(40) ? (int)r.range(1, 8) : 0;
  if (r.chance(5)) fixed = 9 + (int)r.u(3);
  W w;
  uint64_t ask = (uint64_t)fixed;
  if (r.chance(2)) { ask = (1ULL << 32) + r.range(1, 8); fixed = 99; }
  bool ok = ask ? mkvmuxer::WriteEbmlElement(&w, ID_TimecodeScale, (mkvmuxer::uint64)v, (mkvmuxer::uint64)ask) : mkvmuxer::WriteEbmlElement(&w, ID_TimecodeScale, (mkvmuxer::uint64)v);
  int n = fixed ? fixed : UIntLen(v);
  bool can = n <= 8 && (!fixed || UIntLen(v) <= fixed);
  std::string s = Fmt("%llu (fixed %llu)", (unsigned long long)v, (unsigned long long)ask);
  R().count(can ? "uints" : "uints_refused");
  R().sig(Mix(v, ask));
  if (ok != can) { R().viol(can ? "c29:uint refused" : "c29:uint truncated", s); return; }
  if (!ok) return;
  if (!Exact("uint", w.b, El1(ID_TimecodeScale, UIntBytes(v, n)), s)) return;
  Note(w, ID_TimecodeScale);
  uint64_t size = ask ? mkvmuxer::EbmlElementSize(ID_TimecodeScale, (mkvmuxer::uint64)v, (mkvmuxer::uint64)ask) : mkvmuxer::EbmlElementSize(ID_TimecodeScale, (mkvmuxer::uint64)v);
  if (size != w.b.size()) R().viol("c29:size:uint", s + Fmt(": computed %llu, wrote %zu", (unsigned long long)size, w.b.size()));
  if (mkvmuxer::GetUIntSize(v) != UIntLen(v)) R().viol("c29:uintsize", s);
  Header(w.b, ID_TimecodeScale, n, 4);
  Mem m(w.b);
  long long got = mkvparser::UnserializeUInt(&m, 4, n);
  if (v < (1ULL << 63) ? got != (long long)v : got >= 0) R().viol("c29:uint file parser", s + Fmt(" read as %lld", got));
  Matches(r, w.b, ID_TimecodeScale, &v, nullptr);
  Cb cb;
  Stream(El1(ID_Info, w.b), &cb);
  if (!cb.have_info || !cb.info.timecode_scale.is_present() || cb.info.timecode_scale.value() != v) R().viol("c29:uint streaming parser", s + Fmt(" read as %llu", (unsigned long long)cb.info.timecode_scale.value()));
  Faults(r, "uint", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlElement(x, ID_TimecodeScale, (mkvmuxer::uint64)v, (mkvmuxer::uint64)ask); });
}

void Signed(Rng& r) {
  int64_t v = (int64_t)r.edgy();
  if (r.coin()) v = (int64_t)(0 - (uint64_t)v);
  if (r.chance(40)) { int k = (int)r.range(1, 8); v = (int64_t)((1ULL << (8 * k - 1)) - 2 + r.u(5)); if (r.coin()) v = (int64_t)(0 - (uint64_t)v); }
  W w;
  bool ok = mkvmuxer::WriteEbmlElement(&w, ID_DiscardPadding, (mkvmuxer::int64)v);
  int n = IntLen(v);
  std::string s = Fmt("%lld", (long long)v);
  R().count("ints"); R().sig(Mix(v, 7));
  if (!ok) { R().viol("c29:int refused", s); return; }
  if (!Exact("int", w.b, El1(ID_DiscardPadding, UIntBytes((uint64_t)v, n)), s)) return;
  Note(w, ID_DiscardPadding);
  if (mkvmuxer::EbmlElementSize(ID_DiscardPadding, (mkvmuxer::int64)v) != w.b.size() || mkvmuxer::GetIntSize(v) != n) R().viol("c29:size:int", s);
  Mem m(w.b);
  long long got = 0;
  if (mkvparser::UnserializeInt(&m, 3, n, got) != 0 || got != v) R().viol("c29:int file parser", s + Fmt(" read as %lld", got));
  Cb cb;
  Bytes ref; { W y; mkvmuxer::WriteEbmlElement(&y, ID_ReferenceBlock, (mkvmuxer::int64)v); ref = y.b; }
  Stream(El1(ID_Cluster, El1(ID_Timecode, Bytes(1, '\0')) + El1(ID_BlockGroup, El1(ID_Block, Bytes("\x81\0\0\0x", 5)) + w.b + ref)), &cb);
  if (!cb.have_bg || !cb.bg.discard_padding.is_present() || cb.bg.discard_padding.value() != v || cb.bg.references.size() != 1 || cb.bg.references[0].value() != v) R().viol("c29:int streaming parser", s + Fmt(" read as %lld", (long long)cb.bg.discard_padding.value()));
  Faults(r, "int", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlElement(x, ID_DiscardPadding, (mkvmuxer::int64)v); });
}

void Floats(Rng& r) {
  uint32_t bits = (uint32_t)r.next();
  if (r.chance(30)) bits = (uint32_t)(r.u(2) << 31 | r.pick<uint32_t>({0, 1, 0x7fffff, 0x800000, 0x3f800000, 0x7f7fffff, 0x7f800000, 0x7fc00000}));
  float f; memcpy(&f, &bits, 4);
  W w;
  bool ok = mkvmuxer::WriteEbmlElement(&w, ID_Duration, f);
  std::string s = Fmt("%08x %g", bits, f);
  R().count("floats"); R().sig(Mix(bits, 11));
  if (!ok) { R().viol("c29:float refused", s); return; }
  if (!Exact("float", w.b, El1(ID_Duration, UIntBytes(bits, 4)), s)) return;
  Note(w, ID_Duration);
  if (mkvmuxer::EbmlElementSize(ID_Duration, f) != w.b.size()) R().viol("c29:size:float", s);
  Mem m(w.b);
  double d = 0;
  long st = mkvparser::UnserializeFloat(&m, 3, 4, d);
  bool finite = std::isfinite(f);
  if (finite ? (st != 0 || d != (double)f) : st == 0) R().viol("c29:float file parser", s + Fmt(" read as %g (%ld)", d, st));
  Cb cb;
  Stream(El1(ID_Info, w.b), &cb);
  double g = cb.info.duration.value();
  if (!cb.have_info || !(std::isnan(f) ? std::isnan(g) : g == (double)f)) R().viol("c29:float streaming parser", s + Fmt(" read as %g", g));
  Faults(r, "float", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlElement(x, ID_Duration, f); });
  // Eight-byte floats are only read.
  uint64_t b8 = r.next(); double e; memcpy(&e, &b8, 8);
  Bytes eb = UIntBytes(b8, 8); Mem em(eb);
  st = mkvparser::UnserializeFloat(&em, 0, 8, d);
  if (std::isfinite(e) ? (st != 0 || d != e) : st == 0) R().viol("c29:double file parser", Fmt("%016llx", (unsigned long long)b8));
  Cb c8;
  Stream(El1(ID_Info, El1(ID_Duration, eb)), &c8);
  if (!c8.have_info || !(std::isnan(e) ? std::isnan(c8.info.duration.value()) : c8.info.duration.value() == e)) R().viol("c29:double streaming parser", Fmt("%016llx", (unsigned long long)b8));
}

void Dates(Rng& r) {
  int64_t v = (int64_t)r.edgy();
  if (r.coin()) v = (int64_t)(0 - (uint64_t)v);
  W w;
  std::string s = Fmt("%lld", (long long)v);
  R().count("dates"); R().sig(Mix(v, 13));
  if (!mkvmuxer::WriteEbmlDateElement(&w, ID_DateUTC, v)) { R().viol("c29:date refused", s); return; }
  if (!Exact("date", w.b, El1(ID_DateUTC, UIntBytes((uint64_t)v, 8)), s)) return;
  Note(w, ID_DateUTC);
  if (mkvmuxer::EbmlDateElementSize(ID_DateUTC) != w.b.size()) R().viol("c29:size:date", s);
  Mem m(w.b);
  long long got = 0;
  if (mkvparser::UnserializeInt(&m, 3, 8, got) != 0 || got != v) R().viol("c29:date file parser", s);
  Cb cb;
  Stream(El1(ID_Info, w.b), &cb);
  if (!cb.have_info || cb.info.date_utc.value() != v) R().viol("c29:date streaming parser", s);
  Faults(r, "date", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlDateElement(x, ID_DateUTC, v); });
}

size_t Len(Rng& r) {
  switch (r.u(5)) {
    case 0: return (size_t)r.u(4);
    case 1: return (size_t)r.range(124, 131);
    case 2: return (size_t)r.u(2000);
    case 3: return r.chance(20) ? (size_t)r.range(16380, 16390) : (size_t)r.u(300);
    default: return r.chance(1) ? (size_t)r.range(2097148, 2097156) : (size_t)r.u(60);
  }
}

void Strings(Rng& r) {
  Bytes v = r.bytes(Len(r));
  for (auto& c : v) if (!c) c = 'x';
  W w;
  std::string s = Fmt("string of %zu", v.size());
  R().count("strings"); R().sig(Hash(v));
  if (!mkvmuxer::WriteEbmlElement(&w, ID_Title, v.c_str())) { R().viol("c29:string refused", s); return; }
  if (!Exact("string", w.b, El1(ID_Title, v), s)) return;
  Note(w, ID_Title);
  if (mkvmuxer::EbmlElementSize(ID_Title, v.c_str()) != w.b.size()) R().viol("c29:size:string", s);
  size_t head = w.b.size() - v.size();
  Header(w.b, ID_Title, v.size(), head);
  Mem m(w.b);
  char* got = nullptr;
  if (mkvparser::UnserializeString(&m, head, v.size(), got) != 0 || !got || v != got) R().viol("c29:string file parser", s);
  delete[] got;
  Cb cb;
  Stream(El1(ID_Info, w.b), &cb);
  if (!cb.have_info || cb.info.title.value() != v) R().viol("c29:string streaming parser", s);
  Faults(r, "string", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlElement(x, ID_Title, v.c_str()); });
}

void Binaries(Rng& r) {
  Bytes v = r.bytes(std::max<size_t>(1, Len(r)));
  const uint8_t* p = (const uint8_t*)v.data();
  W w;
  std::string s = Fmt("binary of %zu", v.size());
  R().count("binaries"); R().sig(Hash(v));
  if (!mkvmuxer::WriteEbmlElement(&w, ID_TagBinary, p, (mkvmuxer::uint64)v.size())) { R().viol("c29:binary refused", s); return; }
  if (!Exact("binary", w.b, El1(ID_TagBinary, v), s)) return;
  Note(w, ID_TagBinary);
  if (mkvmuxer::EbmlElementSize(ID_TagBinary, p, (mkvmuxer::uint64)v.size()) != w.b.size()) R().viol("c29:size:binary", s);
  Header(w.b, ID_TagBinary, v.size(), w.b.size() - v.size());
  Matches(r, w.b, ID_TagBinary, nullptr, &v);
  Cb cb;
  Stream(El1(ID_Tags, El1(ID_Tag, El1(ID_SimpleTag, w.b))), &cb);
  if (!cb.have_tag || cb.tag.tags.size() != 1 || Bytes(cb.tag.tags[0].value().binary.value().begin(), cb.tag.tags[0].value().binary.value().end()) != v) R().viol("c29:binary streaming parser", s);
  Faults(r, "binary", w.ops, [&](W* x) { return mkvmuxer::WriteEbmlElement(x, ID_TagBinary, p, (mkvmuxer::uint64)v.size()); });
  if (r.chance(5)) {  // lengths beyond one write, without such a buffer
    W y; y.count_only = true;
    uint64_t n = 100 + r.edgy(1ULL << 40);
    bool ok = mkvmuxer::WriteEbmlElement(&y, ID_TagBinary, p, (mkvmuxer::uint64)n);
    if (ok && y.big != n && y.b.size() + y.big != 2 + (uint64_t)SizeLen(n) + n) R().viol("c29:binary truncated", Fmt("%llu bytes asked, %llu written", (unsigned long long)n, (unsigned long long)y.big));
    R().count("huge_binaries");
  }
}

// Coded numbers: data sizes.
void Coded(Rng& r) {
  uint64_t v = r.edgy(r.chance(90) ? (1ULL << 56) + 3 : ~0ULL);
  int width = r.chance(50) ? (int)r.range(0, 8) : -2;
  if (r.chance(4)) width = r.pick<int>({-1, 9, 10, 100, INT32_MIN, INT32_MAX});
  W w;
  int st = width == -2 ? mkvmuxer::WriteUInt(&w, v) : mkvmuxer::WriteUIntSize(&w, v, width);
  bool bad_width = width == -1 || width > 8 || width < -2;
  int n = width > 0 ? width : SizeLen(v);
  bool can = !bad_width && v <= (1ULL << (7 * std::min(n, 8))) - 2;
  std::string s = Fmt("%llu (width %d)", (unsigned long long)v, width);
  R().count(can ? "coded" : "coded_refused"); R().sig(Mix(v, (uint64_t)width + 100));
  if ((st == 0) != can) { R().viol(can ? "c29:coded refused" : "c29:coded truncated", s); return; }
  if (!can) { if (!w.b.empty()) R().viol("c29:coded partial", s); return; }
  Bytes want; PutSize(&want, v, n);
  if (!Exact("coded", w.b, want, s)) return;
  if (width <= 0 && mkvmuxer::GetCodedUIntSize(v) != n) R().viol("c29:codedsize", s + Fmt(" computed %d", mkvmuxer::GetCodedUIntSize(v)));
  Mem m(w.b);
  long len = 0;
  long long got = mkvparser::ReadUInt(&m, 0, len);
  if (got != (long long)v || len != n) R().viol("c29:coded file parser", s + Fmt(" read as %lld in %ld", got, len));
  long l2 = 0;
  if (mkvparser::GetUIntLength(&m, 0, l2) != 0 || l2 != n) R().viol("c29:coded length", s);
  // As the size of an element, with its id.
  uint32_t id = kUnknownIds[r.u(8)];
  W x;
  if (r.coin()) { if (mkvmuxer::WriteID(&x, id) || mkvmuxer::WriteUIntSize(&x, v, n)) R().viol("c29:id", s); }
  else {
    if (!mkvmuxer::WriteEbmlMasterElement(&x, id, v)) R().viol("c29:master refused", s);
    if (mkvmuxer::EbmlMasterElementSize(id, v) != x.b.size()) R().viol("c29:size:master", s);
    n = SizeLen(v);
    R().count("masters");
  }
  Note(x, id);
  Bytes h; PutId(&h, id); PutSize(&h, v, n);
  if (!Exact("element header", x.b, h, s)) return;
  Header(x.b, id, v, h.size());
  Mem xm(x.b);
  long il = 0;
  if (mkvparser::ReadID(&xm, 0, il) != id || il != IdLen(id)) R().viol("c29:id file parser", Fmt("%x", id));
  Cb cb;
  Stream(x.b, &cb);
  if (cb.unknown.size() != 1 || cb.unknown[0].first != id || cb.unknown[0].second != v || cb.unknown_header[0] != h.size()) R().viol("c29:header streaming parser", Fmt("id %x size %llu: ", id, (unsigned long long)v) + Show(x.b) + (cb.unknown.empty() ? " not seen" : Fmt(" seen as %x %llu", cb.unknown[0].first, (unsigned long long)cb.unknown[0].second)));
  // Cut short, nothing may be taken for the value.
  if (n > 1) {
    Bytes cut = want.substr(0, r.range(1, want.size() - 1));
    if (cut.size() < want.size()) { Mem c(cut); long l3 = 0; if (mkvparser::ReadUInt(&c, 0, l3) >= 0) R().viol("c29:coded cut", s); }
  }
}

void Ids(Rng& r) {
  int n = (int)r.range(1, 4);
  uint32_t id = (uint32_t)((1ULL << (7 * n)) | r.u(1ULL << (7 * n)));
  uint32_t bits = id & ((1u << (7 * n)) - 1);
  if (bits == (1u << (7 * n)) - 1) return;  // reserved
  W w;
  R().count("ids"); R().sig(id);
  if (mkvmuxer::WriteID(&w, id)) { R().viol("c29:id refused", Fmt("%x", id)); return; }
  if (!Exact("id", w.b, UIntBytes(id, n), Fmt("%x", id))) return;
  Note(w, id);
  Mem m(w.b);
  long len = 0;
  long long got = mkvparser::ReadID(&m, 0, len);
  if (got != id || len != n) R().viol("c29:id file parser", Fmt("%x read as %llx in %ld", id, got, len));
  for (const El& e : Schema()) if (e.id == id) return;
  if (id == ID_Void) return;
  W x;
  Bytes body = r.bytes(r.u(6));
  mkvmuxer::WriteEbmlMasterElement(&x, id, body.size());
  Cb cb;
  int st = Stream(x.b + body, &cb);
  if (st != webm::Status::kOkCompleted || cb.unknown.size() != 1 || cb.unknown[0].first != id || cb.unknown[0].second != body.size()) R().viol("c29:id streaming parser", Fmt("%x (status %d)", id, st));
}

void Voids(Rng& r) {
  uint64_t size = r.chance(60) ? r.u(300) : r.chance(90) ? r.u(20000) : r.range(2097140, 2097170);
  W w;
  uint64_t got = mkvmuxer::WriteVoidElement(&w, size);
  std::string s = Fmt("void of %llu", (unsigned long long)size);
  R().sig(Mix(size, 17));
  if (got == 0) {
    R().count("voids_refused");
    if (!w.b.empty()) R().viol("c29:void partial", s + " refused after writing " + Show(w.b));
    // Only sizes at the steps of the size field's width may be refused.
    if (size >= 2 && SizeLen(size - 1) == SizeLen(size - 1 - SizeLen(size - 1))) R().viol("c29:void refused", s);
    return;
  }
  R().count("voids");
  if (got != size || w.b.size() != size) { R().viol("c29:void size", s + Fmt(": reported %llu, wrote %zu", (unsigned long long)got, w.b.size())); return; }
  int n = 1; while (SizeLen(size - 1 - n) != n) ++n;
  Exact("void", w.b, El1(ID_Void, Bytes(size - 1 - n, '\0')), s);
  Header(w.b, ID_Void, size - 1 - n, 1 + n);
  Cb cb;
  if (Stream(w.b + El1(ID_Info, ""), &cb) != webm::Status::kOkCompleted || cb.voids.size() != 1 || cb.voids[0] != size - 1 - n || !cb.have_info) R().viol("c29:void streaming parser", s);
  if (size < 400) Faults(r, "void", w.ops, [&](W* x) { return mkvmuxer::WriteVoidElement(x, size) != 0; });
}

void Raw(Rng& r) {
  int n = (int)r.range(0, 10);
  int64_t v = (int64_t)r.edgy();
  W w;
  int st = mkvmuxer::SerializeInt(&w, v, n);
  R().count("raws"); R().sig(Mix(v, 50 + n));
  if (n < 1 || n > 8) { if (st == 0 || !w.b.empty()) R().viol("c29:raw width", Fmt("%d", n)); }
  else if (st || w.b != UIntBytes((uint64_t)v, n)) R().viol("c29:raw", Fmt("%lld in %d: ", (long long)v, n) + Show(w.b));
  // Hostile reads: every primitive on arbitrary short data.
  Bytes b = r.bytes(r.u(12));
  if (r.coin() && !b.empty()) b[0] = (char)(1 << r.u(8));
  Mem m(b);
  long len = 0; long long i, res = 0, pos = 0; double d;
  int64_t at = (int64_t)r.u(14) - 1, size = r.chance(90) ? (int64_t)r.u(12) - 1 : (int64_t)r.edgy();
  i = mkvparser::ReadUInt(&m, at, len);
  if (i >= 0 && (at < 0 || at + len > (int64_t)b.size() || len < 1 || len > 8)) R().viol("c29:hostile", "ReadUInt past the end");
  i = mkvparser::ReadID(&m, at, len);
  if (i >= 0 && (at < 0 || at + len > (int64_t)b.size() || len < 1 || len > 4)) R().viol("c29:hostile", "ReadID past the end");
  i = mkvparser::UnserializeUInt(&m, at, size);
  if (i >= 0 && (at < 0 || size < 1 || size > 8 || at + size > (int64_t)b.size())) R().viol("c29:hostile", "UnserializeUInt past the end");
  if (mkvparser::UnserializeInt(&m, at, size, res) == 0 && (at < 0 || size < 1 || size > 8 || at + size > (int64_t)b.size())) R().viol("c29:hostile", "UnserializeInt past the end");
  if (mkvparser::UnserializeFloat(&m, at, size, d) == 0 && (at < 0 || (size != 4 && size != 8) || at + size > (int64_t)b.size())) R().viol("c29:hostile", "UnserializeFloat past the end");
  char* str = nullptr;
  if (size < (1 << 24) && mkvparser::UnserializeString(&m, at, size, str) == 0 && (at < 0 || size < 0 || at + size > (int64_t)b.size())) R().viol("c29:hostile", "UnserializeString past the end");
  delete[] str;
  long long id, sz;
  pos = std::max<int64_t>(at, 0);
  if (mkvparser::ParseElementHeader(&m, pos, r.coin() ? -1 : (long long)r.u(14), id, sz) == 0 && (pos > (long long)b.size() || id < 0 || sz < 0)) R().viol("c29:hostile", "ParseElementHeader past the end");
  pos = at; unsigned char* mb = nullptr; size_t ml = 0;
  if (mkvparser::Match(&m, pos, (unsigned long)r.u(300), i) && (at < 0 || pos > (long long)b.size())) R().viol("c29:hostile", "Match past the end");
  pos = at;
  if (mkvparser::Match(&m, pos, (unsigned long)r.u(300), mb, ml)) { if (at < 0 || pos > (long long)b.size()) R().viol("c29:hostile", "Match past the end"); delete[] mb; }
  R().count("hostile_reads");
  const uint8_t x = 1;
  mkvmuxer::IMkvWriter* no = nullptr;
  if (!mkvmuxer::SerializeInt(no, 1, 1) || !mkvmuxer::SerializeFloat(no, 1) || !mkvmuxer::WriteUInt(no, 1) || !mkvmuxer::WriteUIntSize(no, 1, 1) || !mkvmuxer::WriteID(no, 1) || mkvmuxer::WriteEbmlMasterElement(no, 1, 1) || mkvmuxer::WriteEbmlElement(no, 1, (mkvmuxer::uint64)1) || mkvmuxer::WriteEbmlElement(no, 1, (mkvmuxer::int64)1) || mkvmuxer::WriteEbmlElement(no, 1, 1.f) || mkvmuxer::WriteEbmlElement(no, 1, "") || mkvmuxer::WriteEbmlElement(no, 1, &x, 1) || mkvmuxer::WriteEbmlDateElement(no, 1, 1) || mkvmuxer::WriteVoidElement(no, 9))
    R().viol("c29:null", "a null writer was reported as success");
  W y;
  if (mkvmuxer::WriteEbmlElement(&y, 1, (const char*)nullptr) || mkvmuxer::WriteEbmlElement(&y, 1, (const mkvmuxer::uint8*)nullptr, 4) || !y.b.empty()) R().viol("c29:null", "a null value was written");
}

void C29(uint64_t, Rng& r) {
  switch (r.u(12)) {
    case 0: case 1: Unsigned(r); break;
    case 2: Signed(r); break;
    case 3: Floats(r); break;
    case 4: Dates(r); break;
    case 5: Strings(r); break;
    case 6: Binaries(r); break;
    case 7: case 8: Coded(r); break;
    case 9: Ids(r); break;
    case 10: Voids(r); break;
    default: Raw(r); break;
  }
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C29", C29}}); }
