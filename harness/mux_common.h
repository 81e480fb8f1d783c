// Random muxing scenarios, the writers they run against, and an executable
// model of what the muxer documents. Uses only mkvmuxer's public interface.
#ifndef VERIF_MUX_COMMON_H_
#define VERIF_MUX_COMMON_H_
#include <cfloat>
#include <list>

#include "../lib/ebml.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvmuxer/mkvmuxertypes.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvparser.h"

namespace mux {
using namespace vf;

// ------------------------------------------------------------- writers
struct MemWriter : mkvmuxer::IMkvWriter {
  Bytes buf;
  int64_t pos = 0;
  int64_t base = 0;  // the position the writer reports before the first write
  bool seekable = true;
  // observation
  uint64_t ops = 0, writes = 0, seeks = 0, notifies = 0;
  bool overwrote = false, seek_on_unseekable = false;
  uint64_t pending_id = 0; int64_t pending_pos = -1;
  std::string notify_error;
  // fault injection: fail op number fail_at (1-based), only once or from then on
  uint64_t fail_at = 0; bool sticky = false; int status = -1; uint64_t faults = 0;
  int fail_keeps = 0;  // a failed write moves on by: 0 nothing, 1 half of it, 2 all of it (as a hole)
  bool Fault() {
    ++ops;
    if (fail_at && (ops == fail_at || (sticky && ops > fail_at))) { ++faults; return true; }
    return false;
  }
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 len) override {
    ++writes;
    if (Fault()) {
      uint64_t k = fail_keeps == 2 ? len : fail_keeps ? len / 2 : 0;
      if (pos + (int64_t)k > (int64_t)buf.size()) buf.resize(pos + k);
      pos += (int64_t)k;
      return status;
    }
    if (len && !b) { notify_error = "null buffer"; return -1; }
    if (pos < (int64_t)buf.size() && len) overwrote = true;
    if (pos + (int64_t)len > (int64_t)buf.size()) buf.resize(pos + len);
    if (len) memcpy(&buf[pos], b, len);
    if (pending_pos >= 0 && !fail_at) {
      if (pending_pos != base + pos) notify_error = Fmt("ElementStartNotify position %" PRId64 " but the id was written at %" PRId64, pending_pos, base + pos);
      else { int n = IdLen((uint32_t)pending_id); uint8_t first = (uint8_t)(pending_id >> (8 * (n - 1))); if (len && (uint8_t)buf[pos] != first) notify_error = "ElementStartNotify id differs from the id written"; }
      pending_pos = -1;
    }
    pos += len;
    return 0;
  }
  mkvmuxer::int64 Position() const override { return base + pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override {
    ++seeks;
    if (!seekable) seek_on_unseekable = true;
    if (Fault()) return status;
    p -= base;
    if (p < 0 || p > (int64_t)buf.size()) return -1;
    pos = p;
    return 0;
  }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) override { ++notifies; pending_id = id; pending_pos = p; }
};

struct MemReader : mkvparser::IMkvReader {
  const Bytes& d;
  explicit MemReader(const Bytes& b) : d(b) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0 || pos + len > (long long)d.size()) return -1;
    memcpy(buf, d.data() + pos, len);
    return 0;
  }
  int Length(long long* total, long long* avail) override {
    if (total) *total = d.size();
    if (avail) *avail = d.size();
    return 0;
  }
};

// ------------------------------------------------------------- scenario
struct Colours {
  uint64_t v[13];  // matrix,bits,chroma h,v,cb h,v,siting h,v,range,transfer,primaries,cll,fall
  bool mm = false, mm_twice = false;
  float lmax = FLT_MAX, lmin = FLT_MAX;
  bool has_pc[4] = {false, false, false, false};
  float pc[4][2];
};
struct Enc { Bytes key; uint64_t algo = 5, order = 0, scope = 1, type = 1; };
struct TrackCfg {
  char kind = 'V';  // V video, A audio, S other
  int req_number = 0;
  uint64_t number = 0;  // model
  uint64_t uid = 1;
  std::string codec; bool set_codec = false;
  Bytes priv; std::string lang, name; bool has_lang = false, has_name = false;
  uint64_t max_add = 0, delay = 0, preroll = 0, defdur = 0, type = 0;
  std::vector<Enc> enc;
  // video
  int w = 320, h = 240;
  uint64_t pw = 0, ph = 0, dw = 0, dh = 0, cl = 0, cr = 0, ct = 0, cb = 0, stereo = 0, alpha = 0;
  double rate = 0;
  std::string cspace; bool has_cspace = false;
  bool has_colour = false; Colours col;
  bool has_proj = false; uint64_t ptype = 0; Bytes ppriv; float yaw = 0, pitch = 0, roll = 0;
  // audio
  int srate = 48000, chans = 2; uint64_t depth = 0; double srate2 = 0; uint64_t chans2 = 0;
};
struct Disp { std::string title, lang, country; bool has_lang, has_country; };
struct Chap { std::string id; uint64_t uid, start, end; std::vector<Disp> disp; };
struct TagC { std::vector<std::pair<std::string, std::string>> st; };

struct Op {
  enum Kind { kFrame, kForce, kMaxDur, kMaxSize, kBad } kind = kFrame;
  int api = 0;  // 0 AddFrame 1 additional 2 discard 3 metadata 4 generic
  uint64_t track = 1, ts = 0, v = 0;
  bool key = false;
  Bytes data, add;
  uint64_t add_id = 1, dur = 0;
  int64_t dpad = 0;
  bool dur_set = false, ref_set = false;
  int64_t ref = 0;
  int bad = 0;
};

struct Scenario {
  bool live = false, cues = true, accurate = false, fixed_tc = false, estimate = false, block_num = true;
  double set_duration = 0;
  uint64_t scale = 1000000;
  bool set_scale = false;
  uint64_t max_dur = ~0ULL, max_size = ~0ULL;  // ~0: not set
  std::string muxing, writing; bool has_mux = false, has_writ = false;
  int64_t date = INT64_MIN;
  int cues_track = -1;  // index
  std::vector<TrackCfg> tracks;
  std::vector<Chap> chapters;
  std::vector<TagC> tags;
  std::vector<Op> ops;
  bool monotone = true;
};

inline const char* PickCodec(Rng& r, char kind) {
  if (kind == 'V') return r.pick<const char*>({"V_VP8", "V_VP9", "V_AV1", "V_VP9", "V_MPEG4/ISO/AVC"});
  if (kind == 'A') return r.pick<const char*>({"A_OPUS", "A_VORBIS", "A_AAC"});
  return r.pick<const char*>({"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/METADATA", "D_WEBVTT/DESCRIPTIONS", "S_TEXT/UTF8"});
}

struct GenCfg { int max_frames = 60; bool meta = true; bool media = true; bool bad = false; bool nonmono = true; };

inline Colours GenColours(Rng& r) {
  Colours c;
  static const std::vector<uint64_t> mat = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, tr = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18}, pr = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 22};
  auto opt = [&](uint64_t v) { return r.chance(60) ? v : ~0ULL; };
  c.v[0] = opt(r.pick(mat)); c.v[1] = opt(r.range(1, 300));
  for (int i = 2; i < 6; ++i) c.v[i] = opt(r.u(300));
  c.v[6] = opt(r.u(3)); c.v[7] = opt(r.u(3)); c.v[8] = opt(r.u(4));
  c.v[9] = opt(r.pick(tr)); c.v[10] = opt(r.pick(pr));
  c.v[11] = opt(r.edgy(1ULL << 40)); c.v[12] = opt(r.edgy(1ULL << 40));
  if (r.chance(60)) {
    c.mm = true; c.mm_twice = r.chance(25);
    if (r.chance(60)) c.lmax = (float)(r.unit() * 9000.0 + 999.99);
    if (r.chance(60)) c.lmin = (float)(r.unit() * 999.0);
    for (int i = 0; i < 4; ++i) {
      c.has_pc[i] = r.chance(60);
      c.pc[i][0] = r.chance(20) ? (float)r.u(2) : (float)r.unit(); c.pc[i][1] = r.chance(20) ? (float)r.u(2) : (float)r.unit();
    }
  }
  return c;
}

inline Scenario GenScenario(Rng& r, const GenCfg& g) {
  Scenario s;
  s.live = r.chance(15);
  s.cues = !r.chance(20);
  s.accurate = r.chance(25);
  s.fixed_tc = r.chance(25);
  s.estimate = r.chance(20);
  s.block_num = !r.chance(20);
  if (r.chance(15)) s.set_duration = r.unit() * 100000 + 0.5;
  if (r.chance(45)) { s.set_scale = true; s.scale = r.pick<uint64_t>({1000000, 1, 1000, 100000, 1000000000ULL, 33333, 999999, 10000000}); }
  if (r.chance(50)) s.max_dur = r.chance(20) ? 0 : r.range(1, 40) * r.pick<uint64_t>({1000000ULL, 100000000ULL, 1000000000ULL});
  if (r.chance(50)) s.max_size = r.chance(20) ? 0 : r.edgy(20000);
  if (r.chance(30)) { s.has_mux = true; s.muxing = r.text(30); }
  if (r.chance(30)) { s.has_writ = true; s.writing = r.text(r.chance(10) ? 200 : 30); }
  if (r.chance(30)) s.date = r.chance(50) ? (int64_t)r.next() : r.irange(-1000, 1000);
  if (s.date == INT64_MIN) s.date = 1;
  if (!r.chance(30)) s.date = INT64_MIN;
  int nt = (int)r.range(1, r.chance(5) ? 12 : 4);
  std::set<uint64_t> used;
  std::string kinds = r.pick<const char*>({"VA", "VA", "V", "A", "AV", "VAS", "AS", "VVA", "VAA", "S", "AVS"});
  std::set<uint64_t> uids;
  for (int i = 0; i < nt; ++i) {
    TrackCfg t;
    t.kind = i < (int)kinds.size() ? kinds[i] : "VAS"[r.u(3)];
    t.req_number = r.chance(50) ? 0 : (int)(r.chance(20) ? r.range(100, 126) : r.range(1, 20));
    if (t.req_number && used.count(t.req_number)) t.req_number = 0;
    if (t.req_number) t.number = t.req_number;
    else { t.number = i + 1; while (used.count(t.number)) ++t.number; }
    if (t.number > 126) continue;
    used.insert(t.number);
    do t.uid = r.chance(20) ? r.next() : r.range(1, 1ULL << 40); while (!t.uid || uids.count(t.uid));
    uids.insert(t.uid);
    if (t.kind == 'S' || r.chance(60)) { t.set_codec = true; t.codec = PickCodec(r, t.kind); }
    if (!t.set_codec) t.codec = t.kind == 'V' ? "V_VP8" : "A_VORBIS";
    t.type = t.kind == 'V' ? 1 : t.kind == 'A' ? 2 : r.pick<uint64_t>({0x11, 0x21});
    if (t.codec == "V_AV1" || r.chance(40)) t.priv = r.bytes(r.range(1, r.chance(20) ? 400 : 20));
    if (g.meta) {
      if (r.chance(40)) { t.has_lang = true; t.lang = r.pick<const char*>({"eng", "und", "de", "fr-CA", ""}); }
      if (r.chance(40)) { t.has_name = true; t.name = r.text(r.chance(15) ? 150 : 20); }
      if (r.chance(25)) t.max_add = r.edgy(1ULL << 50);
      if (r.chance(25)) t.delay = r.edgy(1ULL << 60);
      if (r.chance(25)) t.preroll = r.edgy(1ULL << 60);
      if (r.chance(25)) t.defdur = r.edgy(1ULL << 60);
      int ne = t.kind != 'S' && r.chance(20) ? (int)r.range(1, 3) : 0;
      for (int k = 0; k < ne; ++k) {
        Enc e; e.key = r.bytes(r.range(1, r.chance(20) ? 200 : 16));
        t.enc.push_back(e);
      }
    }
    t.w = (int)r.range(1, r.chance(20) ? 70000 : 2000); t.h = (int)r.range(1, r.chance(20) ? 70000 : 2000);
    if (g.meta && t.kind == 'V') {
      if (r.chance(25)) t.pw = r.range(1, 100000);
      if (r.chance(25)) t.ph = r.range(1, 100000);
      if (r.chance(25)) t.dw = r.range(1, 100000);
      if (r.chance(25)) t.dh = r.range(1, 100000);
      if (r.chance(20)) t.cl = r.range(1, 500);
      if (r.chance(20)) t.cr = r.range(1, 500);
      if (r.chance(20)) t.ct = r.range(1, 500);
      if (r.chance(20)) t.cb = r.range(1, 500);
      if (r.chance(30)) t.stereo = r.pick<uint64_t>({0, 1, 2, 3, 11});
      if (r.chance(30)) t.alpha = r.u(2);
      if (r.chance(30)) t.rate = r.unit() * 120 + 1;
      if (r.chance(20)) { t.has_cspace = true; t.cspace = r.text(4); }
      if (r.chance(40)) { t.has_colour = true; t.col = GenColours(r); }
      if (r.chance(30)) {
        t.has_proj = true; t.ptype = r.u(4);
        if (r.chance(60)) t.ppriv = r.bytes(r.range(1, 60));
        t.yaw = (float)(r.unit() * 360 - 180); t.pitch = (float)(r.unit() * 180 - 90); t.roll = (float)(r.unit() * 360 - 180);
      }
    }
    t.srate = (int)r.pick<uint64_t>({8000, 44100, 48000, 96000, 22050}); t.chans = (int)r.range(1, 300);
    if (g.meta && t.kind == 'A') {
      if (r.chance(40)) t.depth = r.pick<uint64_t>({8, 16, 24, 32, 300});
      if (r.chance(20)) t.srate2 = r.unit() * 100000 + 1;
      if (r.chance(20)) t.chans2 = r.range(1, 20);
    }
    s.tracks.push_back(t);
  }
  if (r.chance(30)) s.cues_track = (int)r.u(s.tracks.size());
  if (g.meta) {
    int nc = r.chance(30) ? (int)r.range(1, 9) : 0, ntag = r.chance(30) ? (int)r.range(1, 9) : 0;
    for (int i = 0; i < nc; ++i) {
      Chap c; c.id = r.text(20); if (c.id.empty()) c.id = "x"; c.uid = r.chance(50) ? r.range(1, 1ULL << 50) : r.chance(50) ? r.next() : r.range(1, 1000);
      if (!c.uid) c.uid = 1;
      c.start = r.edgy(1ULL << 50); c.end = c.start + r.edgy(1ULL << 50);
      int nd = (int)r.range(0, 5);
      for (int k = 0; k < nd; ++k) c.disp.push_back({r.text(30) + "t", r.pick<const char*>({"eng", "und", "fr"}), r.pick<const char*>({"us", "ca"}), r.coin(), r.coin()});
      s.chapters.push_back(c);
    }
    for (int i = 0; i < ntag; ++i) {
      TagC t; int ns = (int)r.range(1, 6);
      for (int k = 0; k < ns; ++k) t.st.push_back({r.text(15) + "n", r.chance(10) ? std::string() : r.text(40)});
      s.tags.push_back(t);
    }
  }
  // frames
  int nf = (int)r.range(1, r.chance(20) ? 8 : g.max_frames);
  if (g.nonmono && r.chance(12)) s.monotone = false;
  if (!s.monotone) s.accurate = false;
  uint64_t step_ns = r.pick<uint64_t>({1000000ULL, 20000000ULL, 33333333ULL, 500000000ULL, 3000000000ULL, s.scale, s.scale * 1000});
  uint64_t ts = r.chance(25) ? r.edgy(1ULL << 52) : 0;
  uint64_t hi = ts;
  int gap_pct = (int)r.pick<uint64_t>({0, 0, 3, 20});
  bool first_key = r.chance(80);
  for (int i = 0; i < nf; ++i) {
    Op o;
    bool last = i + 1 == nf;
    if (!last && r.chance(3)) { o.kind = Op::kForce; s.ops.push_back(o); continue; }
    if (!last && r.chance(1)) { o.kind = Op::kMaxDur; o.v = r.range(1, 50) * 100000000ULL; s.ops.push_back(o); continue; }
    if (!last && r.chance(1)) { o.kind = Op::kMaxSize; o.v = r.edgy(5000); s.ops.push_back(o); continue; }
    const TrackCfg& t = s.tracks[r.u(s.tracks.size())];
    o.track = t.number;
    o.ts = ts;
    if (!s.monotone && r.chance(30)) { uint64_t back = r.u(5 * step_ns + 1); o.ts = ts > back ? ts - back : 0; }
    bool first_for_track = true;
    for (auto& p : s.ops) if (p.kind == Op::kFrame && p.track == t.number) first_for_track = false;
    o.key = t.kind == 'V' ? ((first_key && first_for_track) || r.chance(20)) : !r.chance(5);
    o.data = r.bytes(r.chance(4) ? r.range(1, 20000) : r.chance(10) ? r.pick<uint64_t>({1, 122, 123, 124, 16378, 16379, 16380}) : r.range(1, 300));
    o.api = r.chance(55) ? 0 : (int)r.range(1, 4);
    if (o.api == 1 || (o.api == 4 && r.chance(40))) { o.add = r.bytes(r.range(1, r.chance(10) ? 300 : 20)); o.add_id = r.chance(70) ? 1 : r.range(1, 1ULL << 40); }
    if (o.api == 2 || (o.api == 4 && r.chance(40))) { o.dpad = r.chance(10) ? 0 : r.chance(50) ? r.irange(-200000000, 200000000) : r.irange(-300, 300); }
    if (o.api == 3 || (o.api == 4 && r.chance(40))) { o.dur_set = true; o.dur = r.chance(10) ? 0 : r.chance(30) ? r.u(s.scale * 3) : r.range(1, 400) * s.scale; }
    if (o.api == 3) o.key = true;
    if (o.api == 4 && r.chance(30)) { o.ref_set = true; o.ref = (int64_t)(ts > step_ns ? ts - step_ns : 0); }
    s.ops.push_back(o);
    hi = std::max(hi, o.ts);
    if (!r.chance(25)) ts += r.chance(30) ? step_ns : r.u(2 * step_ns + 1);
    if (r.chance(gap_pct)) ts += s.scale * r.pick<uint64_t>({32766, 32767, 32768, 40000, 100000});
    if (ts > (1ULL << 61)) ts = 1ULL << 61;
  }
  return s;
}

// ------------------------------------------------------------- running
struct RunResult {
  bool setup = true;           // configuration calls succeeded
  std::vector<int> op_ok;      // -1 n/a, 0 refused, 1 accepted
  bool finalized = false;
  bool all_ok = false;
  uint64_t bad_accepted = 0; std::string bad_what;
};

// A request the interface calls invalid; returns true if it was (wrongly) accepted.
const int kBadKinds = 27;
inline bool BadRequest(mkvmuxer::Segment& seg, const Scenario& s, int which, Rng& r, uint64_t last_ts, std::string* what) {
  using namespace mkvmuxer;
  uint64_t t = s.tracks[0].number;
  uint8_t b[4] = {1, 2, 3, 4};
  uint64_t unused = 0;
  for (uint64_t n = 126; n > 0 && !unused; --n) { bool u = false; for (auto& x : s.tracks) u |= x.number == n; if (!u) unused = n; }
  auto W = [&](const char* w) { *what = w; };
  uint64_t big = 1ULL << 61;
  switch (which % kBadKinds) {
    case 0: W("AddFrame null data"); return seg.AddFrame(nullptr, 4, t, big, true);
    case 1: W("AddFrame length 0"); return seg.AddFrame(b, 0, t, big, true);
    case 2: W("AddFrame unknown track"); return seg.AddFrame(b, 4, unused, big, true);
    case 3: W("AddFrame track 0"); return seg.AddFrame(b, 4, 0, big, true);
    case 4: W("AddFrame track 127"); return seg.AddFrame(b, 4, r.pick<uint64_t>({127, 128, 1000, ~0ULL}), big, true);
    case 5: W("AddFrameWithAdditional null additional"); return seg.AddFrameWithAdditional(b, 4, nullptr, 4, 1, t, big, true);
    case 6: W("AddFrameWithAdditional empty additional"); return seg.AddFrameWithAdditional(b, 4, b, 0, 1, t, big, true);
    case 7: W("AddMetadata null"); return seg.AddMetadata(nullptr, 4, t, big, 1);
    case 8: W("AddFrameWithDiscardPadding null"); return seg.AddFrameWithDiscardPadding(nullptr, 4, 5, t, big, true);
    case 9: W("AddGenericFrame null"); return seg.AddGenericFrame(nullptr);
    case 10: W("AddGenericFrame empty frame"); { Frame f; f.set_track_number(t); f.set_timestamp(big); f.set_is_key(true); return seg.AddGenericFrame(&f); }
    case 11: W("AddVideoTrack negative number"); return seg.AddVideoTrack(10, 10, -1) != 0;
    case 12: W("AddAudioTrack number > 126"); return seg.AddAudioTrack(48000, 2, (int)r.pick<uint64_t>({127, 128, 1000})) != 0;
    case 13: W("AddTrack duplicate number"); return seg.AddTrack((int)t) != nullptr;
    case 14: W("CuesTrack unknown"); return seg.CuesTrack(unused);
    case 15: W("Init null writer"); return seg.Init(nullptr);
    case 16: W("SetChunking null name"); return seg.SetChunking(true, nullptr);
    case 17: { Track* k = seg.GetTrackByNumber(t); W("SetCodecPrivate null/0"); return k && (k->SetCodecPrivate(nullptr, 3) || k->SetCodecPrivate(b, 0)); }
    case 18: { if (s.tracks[0].kind != 'V') return false; VideoTrack* v = static_cast<VideoTrack*>(seg.GetTrackByNumber(t)); W("SetStereoMode/SetAlphaMode out of range"); return v->SetStereoMode(r.pick<uint64_t>({4, 5, 10, 12, 99})) || v->SetAlphaMode(r.range(2, 9)); }
    case 19: W("GetTrackByNumber unknown"); return seg.GetTrackByNumber(unused) != nullptr;
    case 20: W("GetCueByIndex out of range"); return seg.GetCues()->GetCueByIndex(-1) != nullptr || seg.GetCues()->GetCueByIndex(INT32_MAX) != nullptr;
    case 21: {
      W("AddFrame timestamp before the last written one");
      if (!last_ts) return false;
      uint64_t n = 0;  // a track whose frames are written at once
      for (auto& x : s.tracks) if (x.kind == 'V' && !n) n = x.number;
      if (!n) n = t;
      return seg.AddFrame(b, 4, n, r.u(last_ts), r.coin());
    }
    case 22: W("invalid primary chromaticity / mastering data"); { MasteringMetadata m; PrimaryChromaticity p(1.5f, 0.5f); m.SetChromaticity(&p, nullptr, nullptr, nullptr); Colour c; c.set_bits_per_channel(8); c.SetMasteringMetadata(m); return c.Valid(); }
    case 23: W("projection empty private data"); { Projection p; return p.SetProjectionPrivate(nullptr, 4) || p.SetProjectionPrivate(b, 0); }
    case 24: W("AddGenericFrame track 0"); { Frame f; if (!f.Init(b, 4)) return false; f.set_track_number(r.chance(50) ? 0 : 127); f.set_timestamp(big); f.set_is_key(true); return seg.AddGenericFrame(&f); }
    case 25: W("colour value out of range"); { Colour c; switch (r.u(5)) { case 0: c.set_matrix_coefficients(r.range(11, 99)); break; case 1: c.set_chroma_siting_horz(r.range(3, 99)); break; case 2: c.set_range(r.range(4, 99)); break; case 3: c.set_transfer_characteristics(r.range(19, 99)); break; default: c.set_primaries(r.range(23, 99)); } return c.Valid(); }
    default: W("content encoding empty id"); { ContentEncoding e; return e.SetEncryptionID(nullptr, 1) || e.SetEncryptionID(b, 0); }
  }
}

inline bool Configure(mkvmuxer::Segment& seg, const Scenario& s) {
  using namespace mkvmuxer;
  bool ok = true;
  seg.set_mode(s.live ? Segment::kLive : Segment::kFile);
  seg.OutputCues(s.cues);
  seg.AccurateClusterDuration(s.accurate);
  seg.UseFixedSizeClusterTimecode(s.fixed_tc);
  seg.set_estimate_file_duration(s.estimate);
  if (s.set_duration > 0) seg.set_duration(s.set_duration);
  if (!s.block_num) seg.GetCues()->set_output_block_number(false);
  if (s.max_dur != ~0ULL) seg.set_max_cluster_duration(s.max_dur);
  if (s.max_size != ~0ULL) seg.set_max_cluster_size(s.max_size);
  SegmentInfo* info = seg.GetSegmentInfo();
  if (s.set_scale) info->set_timecode_scale(s.scale);
  if (s.has_mux) info->set_muxing_app(s.muxing.c_str());
  if (s.has_writ) info->set_writing_app(s.writing.c_str());
  if (s.date != INT64_MIN) info->set_date_utc(s.date);
  for (auto& t : s.tracks) {
    Track* tr = nullptr;
    if (t.kind == 'V') {
      uint64_t n = seg.AddVideoTrack(t.w, t.h, t.req_number);
      if (n != t.number) { ok = false; continue; }
      VideoTrack* v = static_cast<VideoTrack*>(seg.GetTrackByNumber(n));
      tr = v;
      if (t.pw) v->set_pixel_width(t.pw);
      if (t.ph) v->set_pixel_height(t.ph);
      if (t.dw) v->set_display_width(t.dw);
      if (t.dh) v->set_display_height(t.dh);
      if (t.cl) v->set_crop_left(t.cl);
      if (t.cr) v->set_crop_right(t.cr);
      if (t.ct) v->set_crop_top(t.ct);
      if (t.cb) v->set_crop_bottom(t.cb);
      if (t.stereo) ok &= v->SetStereoMode(t.stereo);
      if (t.alpha) ok &= v->SetAlphaMode(t.alpha);
      if (t.rate > 0) v->set_frame_rate(t.rate);
      if (t.has_cspace) v->set_colour_space(t.cspace.c_str());
      if (t.has_colour) {
        Colour c;
        const Colours& k = t.col;
        void (Colour::*set[13])(uint64_t) = {&Colour::set_matrix_coefficients, &Colour::set_bits_per_channel, &Colour::set_chroma_subsampling_horz, &Colour::set_chroma_subsampling_vert, &Colour::set_cb_subsampling_horz, &Colour::set_cb_subsampling_vert, &Colour::set_chroma_siting_horz, &Colour::set_chroma_siting_vert, &Colour::set_range, &Colour::set_transfer_characteristics, &Colour::set_primaries, &Colour::set_max_cll, &Colour::set_max_fall};
        for (int i = 0; i < 13; ++i) if (k.v[i] != ~0ULL) (c.*set[i])(k.v[i]);
        if (k.mm) {
          MasteringMetadata m;
          PrimaryChromaticity p[4];
          for (int i = 0; i < 4; ++i) { p[i].set_x(k.pc[i][0]); p[i].set_y(k.pc[i][1]); }
          if (k.lmax != FLT_MAX) m.set_luminance_max(k.lmax);
          if (k.lmin != FLT_MAX) m.set_luminance_min(k.lmin);
          if (k.mm_twice) { PrimaryChromaticity q(0.25f, 0.5f); ok &= m.SetChromaticity(&q, &q, &q, &q); }
          ok &= m.SetChromaticity(k.has_pc[0] ? &p[0] : nullptr, k.has_pc[1] ? &p[1] : nullptr, k.has_pc[2] ? &p[2] : nullptr, k.has_pc[3] ? &p[3] : nullptr);
          ok &= c.SetMasteringMetadata(m);
          if (k.mm_twice) ok &= c.SetMasteringMetadata(m);
        }
        ok &= v->SetColour(c);
        if (k.mm_twice) ok &= v->SetColour(c);
      }
      if (t.has_proj) {
        Projection p;
        p.set_type((Projection::ProjectionType)t.ptype);
        if (!t.ppriv.empty()) ok &= p.SetProjectionPrivate((const uint8_t*)t.ppriv.data(), t.ppriv.size());
        p.set_pose_yaw(t.yaw); p.set_pose_pitch(t.pitch); p.set_pose_roll(t.roll);
        ok &= v->SetProjection(p);
      }
    } else if (t.kind == 'A') {
      uint64_t n = seg.AddAudioTrack(t.srate, t.chans, t.req_number);
      if (n != t.number) { ok = false; continue; }
      AudioTrack* a = static_cast<AudioTrack*>(seg.GetTrackByNumber(n));
      tr = a;
      if (t.depth) a->set_bit_depth(t.depth);
      if (t.srate2 > 0) a->set_sample_rate(t.srate2);
      if (t.chans2) a->set_channels(t.chans2);
    } else {
      tr = seg.AddTrack(t.req_number);
      if (!tr || tr->number() != t.number) { ok = false; continue; }
      tr->set_type(t.type);
    }
    tr->set_uid(t.uid);
    if (t.set_codec) tr->set_codec_id(t.codec.c_str());
    if (!t.priv.empty()) ok &= tr->SetCodecPrivate((const uint8_t*)t.priv.data(), t.priv.size());
    if (t.has_lang) tr->set_language(t.lang.c_str());
    if (t.has_name) tr->set_name(t.name.c_str());
    if (t.max_add) tr->set_max_block_additional_id(t.max_add);
    if (t.delay) tr->set_codec_delay(t.delay);
    if (t.preroll) tr->set_seek_pre_roll(t.preroll);
    if (t.defdur) tr->set_default_duration(t.defdur);
    for (size_t i = 0; i < t.enc.size(); ++i) {
      ok &= tr->AddContentEncoding();
      ContentEncoding* e = tr->GetContentEncodingByIndex((uint32_t)i);
      if (!e) { ok = false; continue; }
      const Enc& k = t.enc[i];
      ok &= e->SetEncryptionID((const uint8_t*)k.key.data(), k.key.size());
    }
  }
  if (s.cues_track >= 0) ok &= seg.CuesTrack(s.tracks[s.cues_track].number);
  for (auto& c : s.chapters) {
    Chapter* ch = seg.AddChapter();
    if (!ch) { ok = false; continue; }
    ok &= ch->set_id(c.id.c_str());
    ch->set_time(seg, c.start, c.end);
    ch->set_uid(c.uid);
    for (auto& d : c.disp) ok &= ch->add_string(d.title.c_str(), d.has_lang ? d.lang.c_str() : nullptr, d.has_country ? d.country.c_str() : nullptr);
  }
  for (auto& t : s.tags) {
    Tag* tg = seg.AddTag();
    if (!tg) { ok = false; continue; }
    for (auto& st : t.st) ok &= tg->add_simple_tag(st.first.c_str(), st.second.c_str());
  }
  return ok;
}

inline bool DoFrame(mkvmuxer::Segment& seg, const Op& o) {
  const uint8_t* d = (const uint8_t*)o.data.data();
  const uint8_t* a = (const uint8_t*)o.add.data();
  switch (o.api) {
    case 0: return seg.AddFrame(d, o.data.size(), o.track, o.ts, o.key);
    case 1: return seg.AddFrameWithAdditional(d, o.data.size(), a, o.add.size(), o.add_id, o.track, o.ts, o.key);
    case 2: return seg.AddFrameWithDiscardPadding(d, o.data.size(), o.dpad, o.track, o.ts, o.key);
    case 3: return seg.AddMetadata(d, o.data.size(), o.track, o.ts, o.dur);
    default: {
      mkvmuxer::Frame f;
      if (!f.Init(d, o.data.size())) return false;
      if (!o.add.empty() && !f.AddAdditionalData(a, o.add.size(), o.add_id)) return false;
      f.set_track_number(o.track); f.set_timestamp(o.ts); f.set_is_key(o.key);
      if (o.dpad) f.set_discard_padding(o.dpad);
      if (o.dur_set) f.set_duration(o.dur);
      if (o.ref_set) f.set_reference_block_timestamp(o.ref);
      return seg.AddGenericFrame(&f);
    }
  }
}

inline char TrackKind(const Scenario& s, uint64_t n) { for (auto& t : s.tracks) if (t.number == n) return t.kind; return 0; }

// Runs the scenario. |bad| > 0 inserts that percentage of invalid requests.
inline RunResult Run(mkvmuxer::Segment& seg, const Scenario& s, mkvmuxer::IMkvWriter* w, int bad = 0, uint64_t bad_seed = 0, const char* chunk = nullptr, bool stop_on_fail = false) {
  RunResult res;
  Rng br(bad_seed + 17);
  uint64_t last_ts = 0;
  auto maybe_bad = [&]() {
    while (bad && br.chance(bad)) {
      std::string what;
      if (BadRequest(seg, s, (int)br.u(kBadKinds), br, last_ts, &what)) { ++res.bad_accepted; res.bad_what = what; }
      R().count("bad:" + what);
    }
  };
  res.setup = seg.Init(w);
  if (chunk) res.setup &= seg.SetChunking(true, chunk);
  res.setup &= Configure(seg, s);
  maybe_bad();
  bool ok = res.setup;
  if (stop_on_fail && !ok) { res.op_ok.assign(s.ops.size(), -1); return res; }
  for (auto& o : s.ops) {
    int v = -1;
    switch (o.kind) {
      case Op::kForce: seg.ForceNewClusterOnNextFrame(); break;
      case Op::kMaxDur: seg.set_max_cluster_duration(o.v); break;
      case Op::kMaxSize: seg.set_max_cluster_size(o.v); break;
      case Op::kFrame: v = DoFrame(seg, o); if (!v) ok = false; if (v && TrackKind(s, o.track) == 'V') last_ts = std::max(last_ts, o.ts); break;
      default: break;
    }
    res.op_ok.push_back(v);
    maybe_bad();
  }
  res.finalized = seg.Finalize();
  res.all_ok = ok && res.finalized;
  return res;
}

// ------------------------------------------------------------- model
// What the documentation and the comments of the public headers say about how
// frames are distributed over clusters, as an executable specification.
struct MFrame { int op; uint64_t track, ts, dur; bool key, dur_set, simple; uint64_t len, add, add_id; int64_t dpad; char kind; };
struct MBlock { MFrame f; uint64_t rel; };
struct MCluster { uint64_t tc; std::vector<MBlock> blocks; std::map<uint64_t, std::list<MFrame>> held; uint64_t payload = 0; };
struct MCue { uint64_t time, track; size_t cluster; uint64_t number; };
struct Model {
  const Scenario& s;
  std::vector<MCluster> clusters;
  std::vector<MFrame> queue;
  std::vector<MCue> cues;
  bool force = false, want_cue = false, has_video = false;
  uint64_t last_ts = 0, last_dur = 0, max_dur, max_size, cues_track = 0;
  std::map<uint64_t, uint64_t> track_ts, track_n;
  bool failed = false;  // a frame the model itself cannot place
  // Sizes of the blocks found in the output, in file order. The size of a
  // block is not something the model predicts, only how sizes are used.
  const std::vector<uint64_t>* actual = nullptr;
  size_t written = 0;
  explicit Model(const Scenario& sc) : s(sc) {
    max_dur = s.max_dur == ~0ULL ? 30000000000ULL : s.max_dur;
    max_size = s.max_size == ~0ULL ? 0 : s.max_size;
    for (auto& t : s.tracks) if (t.kind == 'V') has_video = true;
    if (s.cues_track >= 0) cues_track = s.tracks[s.cues_track].number;
    else if (s.cues) {
      for (auto& t : s.tracks) if (t.kind == 'V' && !cues_track) cues_track = t.number;
      if (!cues_track) cues_track = s.tracks[0].number;
    }
  }
  const TrackCfg* track(uint64_t n) const { for (auto& t : s.tracks) if (t.number == n) return &t; return nullptr; }
  uint64_t tc(uint64_t ns) const { return ns / s.scale; }
  static uint64_t El1(int idlen, uint64_t payload) { return idlen + SizeLen(payload) + payload; }
  uint64_t BlockSize(const MFrame& f) const {
    if (f.simple) return El1(1, f.len + 4);
    uint64_t g = El1(1, f.len + 4);
    if (f.add) { uint64_t more = El1(1, UIntLen(f.add_id)) + El1(1, f.add); g += El1(2, El1(1, more)); }
    if (f.dpad) g += El1(2, IntLen(f.dpad));
    if (!f.key) g += 1 + 1 + 1;  // at least; exact width is not modelled
    if (f.dur / s.scale) g += El1(1, UIntLen(f.dur / s.scale));
    return El1(1, g);
  }
  bool Write(MCluster& c, const MFrame& f) {
    if (tc(f.ts) < c.tc || tc(f.ts) - c.tc > 32767) return false;
    if (c.blocks.empty()) c.payload += s.fixed_tc ? 10 : 2 + UIntLen(c.tc);
    c.blocks.push_back({f, tc(f.ts) - c.tc});
    c.payload += actual && written < actual->size() ? (*actual)[written] : BlockSize(f);
    ++written;
    return true;
  }
  static void Settle(MFrame& f) { f.simple = !f.add && !f.dpad && !f.dur; }
  bool Add(MCluster& c, const MFrame& f) {
    if (!s.accurate) return Write(c, f);
    c.held[f.track].push_back(f);
    auto& l = c.held[f.track];
    while (l.size() > 1) {
      bool ok = true;
      for (auto& k : c.held) if (k.first != f.track && !k.second.empty() && k.second.front().ts < l.front().ts) ok = false;
      if (!ok) break;
      if (!Write(c, l.front())) return false;
      l.pop_front();
    }
    return true;
  }
  bool Close(MCluster& c, bool set, uint64_t end) {
    while (true) {
      uint64_t best = 0; bool any = false;
      for (auto& k : c.held) if (!k.second.empty() && (!any || k.second.front().ts < c.held[best].front().ts)) { best = k.first; any = true; }
      if (!any) return true;
      MFrame f = c.held[best].front();
      if (set && c.held[best].size() == 1 && !f.dur_set) { f.dur = end - f.ts; f.dur_set = true; Settle(f); }
      c.held[best].pop_front();
      if (!Write(c, f)) return false;
    }
  }
  uint64_t CountBlocks(const MCluster& c) const { return c.blocks.size(); }
  void Cue(uint64_t ts, uint64_t trk) {
    cues.push_back({tc(ts), trk, clusters.size() - 1, CountBlocks(clusters.back())});
    want_cue = false;
  }
  bool Put(const MFrame& f, bool queued) {
    if (!Add(clusters.back(), f)) return false;
    if (want_cue && cues_track == f.track) Cue(f.ts, f.track);
    if (!queued) { last_ts = f.ts; track_ts[f.track] = f.ts; last_dur = f.dur; track_n[f.track]++; }
    else if (f.ts > last_ts) { last_ts = f.ts; track_ts[f.track] = f.ts; last_dur = f.dur; }
    return true;
  }
  bool NewCluster(uint64_t ts) {
    if (!clusters.empty()) {
      size_t n = 0;
      while (n + 1 < queue.size() && queue[n + 1].ts <= ts) { if (!Put(queue[n], true)) return false; ++n; }
      queue.erase(queue.begin(), queue.begin() + n);
      if (!Close(clusters.back(), true, ts)) return false;
    }
    if (s.cues) want_cue = true;
    MCluster c; c.tc = tc(ts);
    if (!queue.empty()) c.tc = std::min(c.tc, tc(queue[0].ts));
    clusters.push_back(c);
    return true;
  }
  bool Flush() {
    if (queue.empty()) return true;
    if (clusters.empty()) return false;
    for (auto& f : queue) if (!Put(f, true)) return false;
    queue.clear();
    return true;
  }
  int Need(const MFrame& f) {
    if (force) return 1;
    if (clusters.empty()) return 1;
    MCluster& c = clusters.back();
    if (tc(f.ts) < c.tc) return -1;
    uint64_t d = tc(f.ts) - c.tc;
    if (d > 32767) return 1;
    if (f.key && f.kind == 'V') return 1;
    if (max_dur && d * s.scale >= max_dur) return 1;
    if (max_size && c.payload >= max_size) return 1;
    return 0;
  }
  // 1 accepted, 0 refused
  int AddFrame(const Op& o, int idx) {
    if (o.ts < last_ts) return 0;
    const TrackCfg* t = track(o.track);
    if (!t || o.data.empty()) return 0;
    MFrame f; f.op = idx; f.track = o.track; f.ts = o.ts; f.dur = o.dur; f.dur_set = o.dur_set; f.key = o.key; f.len = o.data.size();
    f.add = o.add.size(); f.add_id = o.add_id; f.dpad = o.dpad; f.kind = t->type == 1 ? 'V' : t->type == 2 ? 'A' : 'S';
    Settle(f);
    if (!clusters.empty()) { uint64_t d = tc(o.ts) - clusters.back().tc; if (d > 32767) force = true; }
    else if (!queue.empty() && tc(o.ts) > tc(queue[0].ts) + 32767) force = true;
    if (has_video && f.kind == 'A' && !force) { queue.push_back(f); track_n[f.track]++; return 1; }
    for (;;) {
      int n = Need(f);
      if (n < 0) return 0;
      force = false;
      if (n && !NewCluster(o.ts)) { failed = true; return 0; }
      if (!Flush()) { failed = true; return 0; }
      if (!n || tc(o.ts) - clusters.back().tc <= 32767) break;
    }
    if (!Put(f, false)) { failed = true; return 0; }
    return 1;
  }
  bool Finish() {
    if (!Flush()) return false;
    if ((!s.live || s.accurate) && !clusters.empty()) return Close(clusters.back(), false, 0);
    return true;
  }
  // Replays the scenario; expected[i] per op, returns whether finalization is expected to succeed.
  bool Replay(std::vector<int>* expected) {
    for (size_t i = 0; i < s.ops.size(); ++i) {
      const Op& o = s.ops[i];
      int v = -1;
      switch (o.kind) {
        case Op::kForce: force = true; break;
        case Op::kMaxDur: max_dur = o.v; break;
        case Op::kMaxSize: max_size = o.v; break;
        case Op::kFrame: v = failed ? 0 : AddFrame(o, (int)i); break;
        default: break;
      }
      expected->push_back(v);
      if (failed) return false;
    }
    return Finish();
  }
  double Duration() const {
    if (s.set_duration > 0) return s.set_duration;
    return ((double)last_ts + last_dur) / s.scale;
  }
};

}  // namespace mux
#endif
