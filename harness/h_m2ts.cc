// C22 WebM to PES, C23 PES parser, C24 transport stream.
#include "m2ts_common.h"

namespace {

// ------------------------------------------------- an independent PES reader
struct Pkt { size_t pos = 0; int sid = 0; unsigned len = 0; Bytes body; };

bool Split(const Bytes& b, std::vector<Pkt>* out, std::string* err) {
  std::vector<size_t> at;
  for (size_t i = 0; i + 2 < b.size(); ++i) if (b[i] == 0 && b[i + 1] == 0 && b[i + 2] == 1) at.push_back(i);
  if (at.empty() || at[0] != 0) { *err = "does not begin with a start code"; return false; }
  at.push_back(b.size());
  for (size_t k = 0; k + 1 < at.size(); ++k) {
    Pkt p; p.pos = at[k];
    if (at[k + 1] - at[k] < 6) { *err = Fmt("start code at %zu has no header", at[k]); return false; }
    p.sid = (unsigned char)b[p.pos + 3];
    p.len = (unsigned char)b[p.pos + 4] << 8 | (unsigned char)b[p.pos + 5];
    int z = 0;
    for (size_t i = p.pos + 6; i < at[k + 1]; ++i) {
      unsigned char c = b[i];
      if (c == 3 && z >= 2) { z = 0; R().count("emulation_bytes"); continue; }
      z = c == 0 ? z + 1 : 0;
      p.body += (char)c;
    }
    out->push_back(p);
  }
  return true;
}

int64_t WantPts(int64_t ns) { return (int64_t)((__int128)ns * 9 / 100000); }
bool NearPts(int64_t ns, uint64_t got) {
  for (int d = -1; d <= 1; ++d) if (((uint64_t)(WantPts(ns) + d) & 0x1ffffffffULL) == got) return true;
  return false;
}

// Checks |b| against the frames it has to carry.
bool CheckPes(const Bytes& b, const std::vector<Fr>& frames, const char* what) {
  auto bad = [&](const std::string& k, const std::string& m) { R().viol(std::string(what) + ":" + k, m); return false; };
  std::vector<Pkt> ps; std::string err;
  if (frames.empty()) return b.empty() || bad("extra", "output without frames");
  if (!Split(b, &ps, &err)) return bad("framing", err);
  size_t n = 0;
  for (size_t fi = 0; fi < frames.size(); ++fi) for (size_t si = 0; si < frames[fi].subs.size(); ++si) {
    const Bytes& want = frames[fi].subs[si];
    Bytes got; bool first = true; uint64_t total = 0;
    std::string where = Fmt("frame %zu.%zu of %zu bytes", fi, si, want.size());
    do {
      if (n >= ps.size()) return bad("missing", where + ": no packet");
      const Pkt& p = ps[n++];
      if (p.sid != 0xE0) return bad("stream_id", Fmt("%s: stream id %02x (start code at %zu)", where.c_str(), p.sid, p.pos));
      if (p.body.size() != p.len) return bad("length", Fmt("%s: length %u, %zu bytes follow", where.c_str(), p.len, p.body.size()));
      if (p.body.size() < 9) return bad("short", where);
      const unsigned char* h = (const unsigned char*)p.body.data();
      if (h[0] != 0x80) return bad("flags", Fmt("%s: %02x", where.c_str(), h[0]));
      if (h[1] != (first ? 0x80 : 0)) return bad("pts_flag", Fmt("%s: %02x in packet %zu", where.c_str(), h[1], n));
      if (h[2] != 6) return bad("header_size", Fmt("%s: %u", where.c_str(), h[2]));
      size_t stuff = 3;
      if (first) {
        if (h[3] >> 4 != 2 || !(h[3] & 1) || !(h[5] & 1) || !(h[7] & 1)) return bad("pts_markers", where);
        uint64_t pts = (uint64_t)(h[3] >> 1 & 7) << 30 | (uint64_t)h[4] << 22 | (uint64_t)(h[5] >> 1) << 15 | h[6] << 7 | h[7] >> 1;
        if (!NearPts(frames[fi].ns, pts)) return bad("pts", Fmt("%s: %llu for %lld ns", where.c_str(), (unsigned long long)pts, (long long)frames[fi].ns));
        stuff = 8;
      }
      for (; stuff < 9; ++stuff) if (h[stuff] != 0xff) return bad("stuffing", where);
      size_t at = 9;
      if (first) {
        if (p.body.size() < 19 || p.body.compare(9, 4, "BCMV") || h[17] || h[18]) return bad("bcmv", where);
        total = (uint64_t)h[13] << 24 | h[14] << 16 | h[15] << 8 | h[16];
        if (total != want.size() + 10) return bad("bcmv_length", Fmt("%s: %llu", where.c_str(), (unsigned long long)total));
        at = 19;
      }
      if (p.body.size() == at) return bad("empty_packet", where);
      got.append(p.body, at, Bytes::npos);
      R().count(first ? "first_packets" : "fragments");
      first = false;
    } while (got.size() < want.size());
    if (got != want) {
      size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      return bad("payload", Fmt("%s: %zu bytes, differ at %zu", where.c_str(), got.size(), i));
    }
  }
  if (n != ps.size()) return bad("extra", Fmt("%zu packets after the last frame (start code at %zu)", ps.size() - n, ps[n].pos));
  return true;
}

// An independent PES writer.
void Esc(const Bytes& in, Bytes* out) {
  int z = 0;
  for (unsigned char c : in) {
    if (z >= 2 && (c == 1 || c == 3)) { *out += (char)3; z = 0; }
    z = c == 0 ? z + 1 : 0;
    *out += (char)c;
  }
}
void PutPkt(Bytes* out, bool first, uint64_t pts, uint32_t total, const Bytes& payload) {
  Bytes b;
  b += (char)0x80; b += (char)(first ? 0x80 : 0); b += (char)6;
  if (first) { b += (char)(0x21 | (pts >> 30 & 7) << 1); b += (char)(pts >> 22); b += (char)(pts >> 14 | 1); b += (char)(pts >> 7); b += (char)(pts << 1 | 1); }
  while (b.size() < 9) b += (char)0xff;
  if (first) { uint32_t t = total + 10; b += "BCMV"; b += (char)(t >> 24); b += (char)(t >> 16); b += (char)(t >> 8); b += (char)t; b += Bytes(2, '\0'); }
  b += payload;
  *out += Bytes("\0\0\1\xe0", 4); *out += (char)(b.size() >> 8); *out += (char)b.size();
  Esc(b, out);
}
void PutFrame(Bytes* out, const Bytes& f, uint64_t pts, size_t max) {
  for (size_t at = 0; at < f.size(); at += max) PutPkt(out, at == 0, pts, (uint32_t)f.size(), f.substr(at, max));
}

bool Convert(const Fr& f, bool vp9, Bytes* out) {
  lw::VideoFrame v(f.ns, vp9 ? lw::VideoFrame::kVP9 : lw::VideoFrame::kVP8);
  if (!v.Init(f.data.size())) return false;
  memcpy(v.buffer().data.get(), f.data.data(), f.data.size());
  if (!v.SetBufferLength(f.data.size())) return false;
  lw::PacketDataBuffer p;
  if (!lw::Webm2Pes::WritePesPacket(v, &p)) return false;
  out->append((const char*)p.data(), p.size());
  return true;
}

struct Sink : lw::PacketReceiverInterface {
  std::vector<Bytes> got; size_t fail_at = ~(size_t)0; size_t calls = 0;
  bool ReceivePacket(const lw::PacketDataBuffer& p) override {
    if (calls++ == fail_at) return false;
    got.push_back(Bytes((const char*)p.data(), p.size()));
    return true;
  }
};

std::string In() { return A().tmp + "/in.webm"; }
std::string Out() { return A().tmp + "/out.bin"; }

void C22(uint64_t, Rng& r) {
  if (r.chance(60)) {  // one frame at a time
    bool vp9 = r.coin();
    Fr f = GenFr(r, vp9);
    f.ns = r.chance(30) ? (int64_t)r.edgy(95000000000000000ULL) : (int64_t)r.u(40000000000000ULL);
    Bytes b;
    if (!Convert(f, vp9, &b)) { R().viol("write:refused", Fmt("%s frame of %zu bytes, %zu sub-frames", vp9 ? "VP9" : "VP8", f.data.size(), f.subs.size())); return; }
    CheckPes(b, {f}, "write");
    R().count("frames_direct"); R().sig(Mix(Hash(f.data), 1));
    return;
  }
  Movie m = GenMovie(r, false);
  if (r.chance(15)) {  // malformed: anything but a crash
    Bytes b = m.bytes;
    if (r.coin()) b.resize(r.u(b.size())); else b = MutateBytes(b, r);
    WriteFile(In(), b);
    { lw::Webm2Pes c(In(), Out()); R().count(c.ConvertToFile() ? "hostile_ok" : "hostile_failed"); }
    { Sink s; lw::Webm2Pes c(In(), &s); c.ConvertToPacketReceiver(); }
    R().count("hostile"); R().sig(Hash(b));
    return;
  }
  WriteFile(In(), m.bytes);
  Bytes file; uint64_t written;
  {
    lw::Webm2Pes c(In(), Out());
    bool ok = c.ConvertToFile();
    written = c.bytes_written();
    if (ok != m.good) { R().viol(m.good ? "file:refused" : "file:accepted", "ConvertToFile"); return; }
  }
  Sink s;
  { lw::Webm2Pes c(In(), &s); bool ok = c.ConvertToPacketReceiver(); if (ok != m.good) { R().viol(m.good ? "receiver:refused" : "receiver:accepted", "ConvertToPacketReceiver"); return; }
    if (!m.good) { R().count("unsupported"); return; }
    Bytes all; for (auto& g : s.got) all += g;
    ReadFile(Out(), &file);
    if (all != file) { R().viol("file:differs", Fmt("file %zu bytes, packets %zu", file.size(), all.size())); return; }
    if (written != file.size() || c.bytes_written() != file.size()) { R().viol("bytes_written", Fmt("%llu for %zu", (unsigned long long)written, file.size())); return; }
  }
  if (s.got.size() != m.frames.size()) { R().viol("receiver:count", Fmt("%zu packets for %zu frames", s.got.size(), m.frames.size())); return; }
  for (size_t i = 0; i < s.got.size(); ++i) if (!CheckPes(s.got[i], {m.frames[i]}, "receiver")) return;
  if (!CheckPes(file, m.frames, "file")) return;
  if (!s.got.empty() && r.chance(30)) {
    Sink t; t.fail_at = r.u(s.got.size());
    lw::Webm2Pes c(In(), &t);
    if (c.ConvertToPacketReceiver()) { R().viol("receiver:failure_hidden", "the receiver failed"); return; }
    if (t.calls != t.fail_at + 1) { R().viol("receiver:called_after_failure", "ReceivePacket was called again"); return; }
    R().count("receiver_failures");
  }
  if (r.chance(5)) {
    lw::Webm2Pes a(A().tmp + "/nope.webm", Out()), b(In(), A().tmp + "/no/such/dir"), c("", Out()), d(In(), std::string());
    lw::Webm2Pes e(In(), (lw::PacketReceiverInterface*)nullptr);
    if (a.ConvertToFile() || b.ConvertToFile() || c.ConvertToFile() || d.ConvertToFile() || e.ConvertToPacketReceiver()) R().viol("file:error_hidden", "unusable input or output");
    R().count("io_errors");
  }
  R().count("movies"); R().count("movie_frames", m.frames.size()); R().sig(Hash(m.bytes));
}

void C23(uint64_t, Rng& r) {
  struct Exp { Bytes data; uint64_t pts, len; };
  std::vector<Exp> want; Bytes b;
  std::vector<size_t> ends; bool ends_known = true;  // where the packets of each frame end
  int n = (int)r.range(1, 4);
  bool conv = r.coin(), vp9 = r.coin();
  for (int i = 0; i < n; ++i) {
    Fr f = GenFr(r, vp9);
    f.ns = r.chance(30) ? (int64_t)r.edgy(95443717000000ULL) : (int64_t)r.u(40000000000000ULL);
    size_t max = 32768;
    uint64_t pts = 0;
    Bytes one;
    if (conv) {
      if (!Convert(f, vp9, &one)) { R().viol("convert", "refused"); return; }
      const unsigned char* h = (const unsigned char*)one.data();
      // The time as coded (the escape byte can lie inside it).
      Bytes hd; int z = 0; for (size_t k = 6; hd.size() < 9; ++k) { if (h[k] == 3 && z >= 2) { z = 0; continue; } z = h[k] ? 0 : z + 1; hd += (char)h[k]; }
      h = (const unsigned char*)hd.data();
      pts = (uint64_t)(h[3] >> 1 & 7) << 30 | (uint64_t)h[4] << 22 | (uint64_t)(h[5] >> 1) << 15 | h[6] << 7 | h[7] >> 1;
      if (!NearPts(f.ns, pts)) { R().viol("convert_pts", Fmt("%llu for %lld", (unsigned long long)pts, (long long)f.ns)); return; }
      b += one;
    } else {
      pts = r.chance(50) ? r.edgy(0x1ffffffffULL) : r.next() & 0x1ffffffffULL;
      for (auto& s : f.subs) PutFrame(&b, s, pts, max);
    }
    size_t at = conv ? b.size() - one.size() : 0;
    Bytes again;
    for (auto& s : f.subs) {
      want.push_back({s, pts, std::min<uint64_t>(s.size(), max) + 19});
      PutFrame(&again, s, pts, max);
      ends.push_back(at + again.size());
    }
    if (conv ? again != one : false) ends_known = false;
    if (!conv) for (size_t k = ends.size() - f.subs.size(); k < ends.size(); ++k) ends[k] += b.size() - again.size();
  }
  bool hostile = r.chance(35);
  size_t expect = want.size();  // packets that are whole
  const char* defect = nullptr;
  if (ends_known && r.chance(20)) {
    // A known defect: the packets before it come out, the damaged one does not.
    hostile = false;
    size_t j = r.u(want.size()), from = j ? ends[j - 1] : 0;
    bool plain = true;  // no escapes in the header
    { int z = 0; for (size_t k = from + 6; k < from + 25; ++k) { unsigned char c = (unsigned char)b[k]; if (c == 3 && z >= 2) plain = false; z = c ? 0 : z + 1; } }
    int how = plain ? (int)r.u(8) : 0;
    auto set = [&](size_t k, int v) { b[from + k] = (char)v; };
    switch (how) {
      case 1: defect = "stream_id"; set(3, r.pick<int>({0xc0, 0xdf, 0xf0, 0xbd, 0xff, 0x80})); break;
      case 2: defect = "header_size"; set(8, r.pick<int>({5, 7, 10, 255})); break;
      case 3: { size_t k = r.pick<size_t>({9, 11, 13}); if (((unsigned char)b[from + k] & 0xfe) > 3) { defect = "marker"; set(k, (unsigned char)b[from + k] & 0xfe); } break; }
      case 4: defect = "stuffing"; set(14, r.pick<int>({0x7f, 0xfe, 0x80})); break;
      case 5: defect = "magic"; set(15 + r.u(4), r.pick<int>({'X', 'b', 0xff})); break;
      case 6: defect = "padding"; set(23 + r.u(2), r.pick<int>({1, 0xff, 4})); break;
      case 7: defect = "length"; set(19, 0); set(20, 0); set(21, 0); set(22, (int)r.pick<int>({4, 9, 10})); break;
      default: break;
    }
    if (!defect) { defect = "cut"; size_t cut = r.chance(40) ? ends[j] - 1 - r.u(std::min<size_t>(3, ends[j] - from)) : from + r.u(ends[j] - from); b.resize(cut); }
    expect = j;
  }
  if (hostile) {
    switch (r.u(4)) {
      case 0: b.resize(r.u(b.size() + 1)); break;
      case 1: b = r.bytes(r.u(80)); if (r.coin()) b = Bytes("\0\0\1\xe0", 4) + b; break;
      case 2: { size_t k = r.range(1, 3); for (size_t i = 0; i < k; ++i) { size_t at = r.chance(60) ? r.u(std::min<size_t>(b.size(), 30)) : r.u(b.size()); b[at] = r.pick<char>({0, 1, 3, (char)0xff, (char)0x80, (char)r.next()}); } break; }
      default: b = MutateBytes(b, r);
    }
  }
  std::string path = A().tmp + "/p.pes";
  WriteFile(path, b);
  lw::VpxPesParser p;
  bool opened = p.Open(path);
  if (opened != !b.empty()) { R().viol("open", Fmt("%d for %zu bytes", opened, b.size())); return; }
  if (p.pes_file_size() != b.size() || (opened && Bytes((const char*)p.pes_file_data().data(), p.pes_file_data().size()) != b)) { R().viol("file_data", ""); return; }
  if (r.chance(2)) { lw::VpxPesParser q; if (q.Open(A().tmp + "/none.pes") || q.Open(A().tmp)) { R().viol("open_missing", ""); return; } R().count("open_failures"); }
  if (!opened) return;
  uint8_t sid = 0; uint16_t len = 0;
  bool v = p.VerifyPacketStartCode(), s1 = p.ReadStreamId(&sid), s2 = p.ReadPacketLength(&len);
  if (v != (b.size() >= 3 && !b[0] && !b[1] && b[2] == 1)) { R().viol("verify_start", Fmt("%d", v)); return; }
  if (s1 != (b.size() >= 4) || (s1 && sid != (uint8_t)b[3]) || s2 != (b.size() >= 6) || (s2 && len != ((uint8_t)b[4] << 8 | (uint8_t)b[5]))) { R().viol("peek", ""); return; }
  if (p.BytesAvailable() != (int)b.size()) { R().viol("bytes_available", Fmt("%d", p.BytesAvailable())); return; }
  lw::VideoFrame reuse; size_t k = 0; bool fresh = r.coin();
  for (size_t guard = 0;; ++guard) {
    if (guard > b.size() + 10) { R().viol("endless", ""); return; }
    lw::VpxPesParser::PesHeader h; lw::VideoFrame own; lw::VideoFrame& f = fresh ? own : reuse;
    int before = p.BytesAvailable();
    if (!p.ParseNextPacket(&h, &f)) break;
    if (p.BytesAvailable() >= before || p.BytesAvailable() < 0) { R().viol("no_progress", Fmt("%d then %d", before, p.BytesAvailable())); return; }
    if (hostile) { R().count("hostile_packets"); if (f.buffer().length > b.size()) { R().viol("hostile_length", ""); return; } volatile uint8_t x = 0; for (size_t i = 0; i < f.buffer().length; ++i) x ^= f.buffer().data[i]; continue; }
    if (k >= expect) { R().viol(defect ? std::string("defect_") + defect : "extra_packet", Fmt("%zu packets are whole, %zu of %zu bytes came as another", expect, f.buffer().length, k < want.size() ? want[k].data.size() : 0)); return; }
    const Exp& e = want[k];
    std::string where = Fmt("packet %zu (%zu bytes)", k, e.data.size());
    if (f.buffer().length != e.data.size() || memcmp(f.buffer().data.get(), e.data.data(), e.data.size())) { R().viol("payload", where + Fmt(": got %zu bytes", f.buffer().length)); return; }
    if (h.start_code[0] || h.start_code[1] || h.start_code[2] != 1 || h.stream_id != 0xe0 || h.packet_length != e.len) { R().viol("header", where + Fmt(": length %u", h.packet_length)); return; }
    if (h.bcmv_header.length != e.data.size() + 10 || !h.bcmv_header.Valid() || !(h.bcmv_header == lw::VpxPesParser::BcmvHeader((uint32_t)e.data.size() + 10))) { R().viol("bcmv", where); return; }
    auto& o = h.opt_header;
    if (o.marker != 2 || o.scrambling || o.priority || o.data_alignment || o.copyright || o.original || o.has_pts != 1 || o.has_dts || o.unused_fields || o.remaining_size != 6 || o.pts_dts_flag != 2) { R().viol("optional_header", where); return; }
    if (o.pts != e.pts) { R().viol("pts", where + Fmt(": %llu, coded %llu", (unsigned long long)o.pts, (unsigned long long)e.pts)); return; }
    int64_t ns = (int64_t)((__int128)e.pts * 100000 / 9);
    if (f.nanosecond_pts() > ns + 40 || f.nanosecond_pts() < ns - 40) { R().viol("nanoseconds", where + Fmt(": %lld, want %lld", (long long)f.nanosecond_pts(), (long long)ns)); return; }
    ++k;
    R().count("packets"); if (e.data.size() > 32768) R().count("reassembled");
  }
  if (!hostile && k != expect) { R().viol("lost_packet", Fmt("packet %zu of %zu (%zu bytes) was not returned", k, want.size(), want[k].data.size())); return; }
  if (defect) R().count(std::string("defect_") + defect);
  R().count(hostile ? "hostile" : conv ? "from_converter" : "from_reference"); R().sig(Hash(b));
}

void C24(uint64_t, Rng& r) {
  Movie m = GenMovie(r, r.coin());
  WriteFile(In(), m.bytes);
  Sink s;
  bool ok; { lw::Webm2Pes c(In(), &s); ok = c.ConvertToPacketReceiver(); }
  { lw::VpxPes2Ts t(In(), Out()); bool o2 = t.ConvertToFile(); if (o2 != ok) { R().viol("status", Fmt("%d, PES %d", o2, ok)); return; } }
  if (!ok) { R().count("unsupported"); return; }
  if (r.chance(3)) { lw::VpxPes2Ts t(In(), A().tmp + "/no/such/dir"), u(A().tmp + "/nope.webm", A().tmp + "/out2.bin"); if (t.ConvertToFile() || u.ConvertToFile()) { R().viol("error_hidden", ""); return; } R().count("io_errors"); }
  Bytes b; ReadFile(Out(), &b);
  if (b.size() % 188) { R().viol("whole_packets", Fmt("%zu bytes", b.size())); return; }
  size_t at = 0; int cc = -1, pid = -1;
  for (size_t i = 0; i < s.got.size(); ++i) {
    const Bytes& want = s.got[i]; Bytes got; bool first = true;
    R().count(Fmt("residue%zu", want.size() % 184 >= 182 ? want.size() % 184 : want.size() % 184 < 2 ? want.size() % 184 : 100));
    while (got.size() < want.size()) {
      if (at >= b.size()) { R().viol("missing", Fmt("frame %zu: %zu of %zu bytes", i, got.size(), want.size())); return; }
      const unsigned char* p = (const unsigned char*)b.data() + at; at += 188;
      std::string where = Fmt("frame %zu, packet %zu", i, at / 188 - 1);
      if (p[0] != 0x47) { R().viol("sync", where); return; }
      if (p[1] & 0xa0) { R().viol("flags", where); return; }
      if ((p[1] >> 6 & 1) != first) { R().viol("unit_start", where + Fmt(": %d", p[1] >> 6 & 1)); return; }
      int id = (p[1] & 0x1f) << 8 | p[2];
      if (pid >= 0 && id != pid) { R().viol("pid", where + Fmt(": %x", id)); return; }
      pid = id;
      if (id < 0x10 || id == 0x1fff) { R().viol("reserved_pid", where); return; }
      if (p[3] & 0xc0 || !(p[3] & 0x10)) { R().viol("control", where + Fmt(": %02x", p[3])); return; }
      if (cc >= 0 && (p[3] & 15) != ((cc + 1) & 15)) { R().viol("continuity", where + Fmt(": %d after %d", p[3] & 15, cc)); return; }
      cc = p[3] & 15;
      int from = 4;
      if (p[3] & 0x20) {
        int n = p[4]; from = 5 + n;
        if (from > 187) { R().viol("adaptation_size", where + Fmt(": %d", n)); return; }
        if (n > 0 && p[5]) { R().viol("adaptation_flags", where); return; }
        for (int k = 6; k < from; ++k) if (p[k] != 0xff) { R().viol("stuffing", where); return; }
        R().count("adaptations");
      }
      got.append((const char*)p + from, 188 - from);
      first = false; R().count("ts_packets");
    }
    if (got != want) { R().viol("payload", Fmt("frame %zu: %zu bytes, want %zu", i, got.size(), want.size())); return; }
  }
  if (at != b.size()) { R().viol("extra", Fmt("%zu bytes after the last frame", b.size() - at)); return; }
  R().count("movies"); R().count("frames", s.got.size()); R().sig(Hash(m.bytes));
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C22", C22}, {"C23", C23}, {"C24", C24}}); }
