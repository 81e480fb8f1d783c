// C26 VP9 headers and superframe indexes, C27 VP9 level statistics, C28 shared
// helpers.
#include <cfloat>
#include <climits>
#include <cmath>
#include <new>

#include "vp9_gen.h"
#include "common/file_util.h"
#include "common/hdr_util.h"
#include "common/libwebm_util.h"
#include "common/video_frame.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
#include "common/webm_endian.h"
#include "mkvmuxer/mkvmuxer.h"
#include "mkvparser/mkvparser.h"

using namespace vf;
using vp9_parser::Vp9HeaderParser;
using vp9_parser::Vp9LevelStats;

namespace {

void Quiet() {  // the code under test writes diagnostics to stderr
  static bool done = false;
  if (done) return;
  done = true;
  // Sanitizer reports go to stderr as well, so keep it but drop stdio's copy.
  FILE* f = fopen("/dev/null", "w");
  if (f) { setvbuf(f, nullptr, _IOFBF, 1 << 16); stderr = f; }
}

void SameI(const char* what, int64_t seen, int64_t want, const std::string& ctx, const char* key) {
  if (seen != want) R().viol(key + std::string(":") + what, Fmt("%s is %lld, the stream says %lld; ", what, (long long)seen, (long long)want) + ctx);
}

// Exactly sized copy, so that a read outside it is seen.
struct Exact {
  std::unique_ptr<uint8_t[]> p; size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
};

std::string All(const Vp9HeaderParser& p) {
  return Fmt("%zu %d %d %d %d %d %d %d %d %d %d %d %d %d %d", p.frame_size(), p.profile(), p.key(), p.altref(), p.error_resilient_mode(), p.bit_depth(), p.color_space(), p.width(), p.height(), p.display_width(), p.display_height(), p.refresh_frame_flags(), p.row_tiles(), p.column_tiles(), p.frame_parallel_mode());
}

// A parser in memory that held something else before, to expose members the
// constructor forgets.
struct Dirty {
  alignas(Vp9HeaderParser) unsigned char mem[sizeof(Vp9HeaderParser)];
  Vp9HeaderParser* p;
  explicit Dirty(int fill) { memset(mem, fill, sizeof mem); p = new (mem) Vp9HeaderParser(); }
  ~Dirty() { p->~Vp9HeaderParser(); }
};

void Headers(Rng& r) {
  Dirty a((int)r.u(256));
  Vp9HeaderParser& p = *a.p;
  State st;
  std::string hist;
  int n = (int)r.range(1, 12);
  uint64_t h = 0;
  for (int i = 0; i < n; ++i) {
    Hdr e;
    Bytes b = Header(r, st, e, Want());
    Exact x(b);
    if (hist.size() < 1500) hist += Fmt("frame %d ", i) + Hex(b, 40) + "; ";
    bool ok = p.ParseUncompressedHeader(x.p.get(), x.n);
    R().count("headers");
    h = Mix(h, Hash(b));
    if (!ok) { R().viol("c26:rejected", "a correct header was rejected: " + hist); return; }
    const char* k = "c26:field";
    SameI("frame_size", (int64_t)p.frame_size(), (int64_t)b.size(), hist, k);
    SameI("profile", p.profile(), e.profile, hist, k);
    if (e.existing) { R().count("show_existing"); continue; }
    SameI("key", p.key(), e.key, hist, k);
    SameI("altref", p.altref(), e.altref, hist, k);
    SameI("error_resilient_mode", p.error_resilient_mode(), e.erm, hist, k);
    SameI("width", p.width(), e.w, hist, k);
    SameI("height", p.height(), e.h, hist, k);
    SameI("bit_depth", p.bit_depth(), e.bit_depth, hist, k);
    if (e.color_space >= 0) SameI("color_space", p.color_space(), e.color_space, hist, k);
    if (e.dw >= 0) { SameI("display_width", p.display_width(), e.dw, hist, k); SameI("display_height", p.display_height(), e.dh, hist, k); }
    if (e.refresh >= 0) SameI("refresh_frame_flags", p.refresh_frame_flags(), e.refresh, hist, k);
    if (e.fpm >= 0) SameI("frame_parallel_mode", p.frame_parallel_mode(), e.fpm, hist, k);
    if (e.cols >= 0) { SameI("column_tiles", p.column_tiles(), e.cols, hist, k); SameI("row_tiles", p.row_tiles(), e.rows, hist, k); }
    // Defects in the fixed parts.
    if (r.chance(10)) {
      Bytes d = b;
      const char* what;
      if (e.key && r.coin()) {
        // The sync code follows 8 or 9 bits.
        int bit = (e.profile == 3 ? 9 : 8) + (int)r.u(24);
        d[bit / 8] ^= (char)(0x80 >> (bit % 8)); what = "sync code";
      } else { d[0] ^= (char)(r.range(1, 3) << 6); what = "frame marker"; }
      Exact y(d);
      Vp9HeaderParser q;
      R().count("defects");
      if (q.ParseUncompressedHeader(y.p.get(), y.n)) R().viol("c26:accepted", std::string("a header with a wrong ") + what + " was accepted: " + Hex(d));
    }
  }
  R().sig(h);
  R().sample(hist);
}

void Superframes(Rng& r) {
  int n = (int)r.range(1, 8), bytes = (int)r.range(1, 4);
  uint64_t max = bytes == 1 ? 255 : bytes == 2 ? 3000 : 2000;
  std::vector<uint32_t> len(n);
  size_t sum = 0;
  for (auto& l : len) { l = (uint32_t)(r.chance(10) ? r.u(2) : r.chance(2) && bytes > 2 ? r.range(65536, 70000) : r.range(1, max)); sum += l; }
  size_t slack = r.chance(20) ? r.u(9) : 0;
  Bytes idx, marker(1, (char)(0xc0 | (bytes - 1) << 3 | (n - 1)));
  idx += marker;
  for (auto l : len) for (int j = 0; j < bytes; ++j) idx.push_back((char)(l >> (8 * j)));
  idx += marker;
  Bytes b = r.bytes(sum + slack) + idx;
  int want = 1;  // 1 index, 0 none, -1 error
  const char* what = "correct";
  switch (r.u(10)) {
    case 0: b[sum + slack] ^= (char)(1 << r.u(8)); want = -1; what = "first marker byte differs"; break;
    case 1: {  // sub frames larger than what precedes the index
      size_t over = r.range(1, 3);
      if (sum >= over) { b.erase(0, slack + over); want = -1; what = "sub frames too large"; }
      break;
    }
    case 2: b = b.substr(b.size() - r.range(1, idx.size() - 1)); want = -1; what = "shorter than its index"; break;
    case 3: { uint8_t m; do m = (uint8_t)r.u(256); while ((m & 0xe0) == 0xc0); b.back() = (char)m; want = 0; what = "no marker"; break; }
    case 4: if (bytes == 4) { b[b.size() - 2] = (char)r.range(1, 255); want = -1; what = "sub frame of 16 MiB or more"; } break;
    default: break;
  }
  Exact x(b);
  libwebm::Ranges g;
  bool err = false;
  bool ok = libwebm::ParseVP9SuperFrameIndex(x.p.get(), x.n, &g, &err);
  std::string ctx = Fmt("%s; %d frames, %d-byte lengths, slack %zu, size %zu, tail ", what, n, bytes, slack, b.size()) + Hex(b.size() > 40 ? b.substr(b.size() - 40) : b);
  R().count(want > 0 ? "indexes" : want == 0 ? "no_index" : "bad_indexes");
  R().sig(Mix(Hash(idx), Mix(b.size(), (uint64_t)want)));
  if (want > 0) {
    if (!ok || err) { R().viol("c26:index rejected", ctx); return; }
    if ((int)g.size() != n) { R().viol("c26:index count", Fmt("%zu ranges; ", g.size()) + ctx); return; }
    size_t off = 0;
    for (int i = 0; i < n; ++i) {
      if (g[i].offset != off || g[i].length != len[i]) R().viol("c26:index range", Fmt("range %d is (%zu,%zu), should be (%zu,%u); ", i, g[i].offset, g[i].length, off, len[i]) + ctx);
      off += len[i];
    }
  } else if (want == 0) {
    if (ok || err || !g.empty()) R().viol("c26:index invented", ctx);
  } else if (ok || !err) R().viol("c26:bad index accepted", ctx);
}

void HostileVp9(Rng& r) {
  Dirty a(0x00), c(0xff);
  int n = (int)r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Bytes b;
    if (r.coin()) { State st; Hdr e; b = Header(r, st, e, Want()); for (int k = (int)r.u(4); k > 0; --k) b[r.u(b.size())] ^= (char)(1 << r.u(8)); if (r.chance(40)) b.resize(r.u(b.size() + 1)); }
    else { b = r.bytes(r.range(0, 40)); if (!b.empty() && r.chance(80)) b[0] = (char)(0x80 | (b[0] & 0x3f)); }
    Exact x(b);
    bool ok1 = a.p->ParseUncompressedHeader(x.p.get(), x.n);
    bool ok2 = c.p->ParseUncompressedHeader(x.p.get(), x.n);
    R().count("hostile_headers");
    R().sig(Hash(b));
    if (ok1 != ok2 || (ok1 && All(*a.p) != All(*c.p))) R().viol("c26:undefined state", "the same bytes gave two different answers: " + Hex(b) + " | " + All(*a.p) + " | " + All(*c.p));
    if (ok1) R().count("hostile_accepted");
    libwebm::Ranges g; bool err = false;
    if (r.chance(60) && !b.empty()) { b.back() = (char)(0xc0 | r.u(32)); }
    Exact y(b);
    bool ok = libwebm::ParseVP9SuperFrameIndex(y.p.get(), y.n, &g, &err);
    if (ok) {
      size_t end = 0;
      for (auto& q : g) { if (q.offset > y.n || q.length > y.n - q.offset || q.offset < end) R().viol("c26:range outside", Fmt("(%zu,%zu) in %zu bytes ", q.offset, q.length, y.n) + Hex(b)); end = q.offset + q.length; }
      R().count("hostile_indexes");
    }
  }
  Vp9HeaderParser q;
  if (q.ParseUncompressedHeader(nullptr, 5) || q.ParseUncompressedHeader((const uint8_t*)"", 0)) R().viol("c26:null", "an empty frame was accepted");
}

void C26(uint64_t, Rng& r) {
  Quiet();
  switch (r.u(5)) {
    case 0: Superframes(r); break;
    case 1: HostileVp9(r); break;
    default: Headers(r); break;
  }
}

// ------------------------------------------------------------------- C27
struct Lim { int level; int64_t rate, size, breadth, kbps, cpb, ratio; int tiles, altref, refs; };
// The published table of VP9 levels (0: no CPB limit).
const Lim kLim[] = {
    {10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8},
    {11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8},
    {20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8},
    {21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8},
    {30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8},
    {31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8},
    {40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8},
    {41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6},
    {50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4},
    {51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4},
    {52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4},
    {60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4},
    {61, 2353004544LL, 35651584, 16832, 240000, 0, 8, 16, 10, 4},
    {62, 4706009088LL, 35651584, 16832, 480000, 0, 8, 16, 10, 4}};

struct Fr { int64_t t; int64_t w, h, size; bool key, alt; int refresh, cols, depth; };

bool Close(double a, long double b) { return fabsl((long double)a - b) <= 1e-9L * std::max<long double>(1, fabsl(b)); }

void C27(uint64_t, Rng& r) {
  Quiet();
  static std::vector<uint8_t> big(24 << 20, 0x5a);
  const Lim& L = kLim[r.u(14)];
  bool tight = r.chance(70);
  Vp9LevelStats s;
  Vp9HeaderParser p;
  State st;
  // The shape of the stream, near the limits of one level.
  int w, h;
  if (tight) {
    int64_t area = (int64_t)(L.size * r.pick<double>({0.3, 0.5, 0.9, 0.99, 1.0, 1.0, 1.01, 1.1}));
    if (r.chance(25)) { w = (int)(L.breadth + r.u(3) - 1); h = (int)std::max<int64_t>(1, std::min<int64_t>(65536, area / w)); }
    else { double aspect = 0.5 + 2 * r.unit(); w = (int)std::max(1.0, std::sqrt((double)area * aspect)); h = (int)std::max<int64_t>(1, area / w); }
    if (r.coin()) std::swap(w, h);
    if (r.chance(25)) for (int d = 8; d <= 4096; d *= 2) if (L.size % d == 0 && L.size / d <= L.breadth && d <= L.breadth) { w = d; h = (int)(L.size / d); }
    if (r.chance(20)) {  // one sample above or below
      int64_t area = L.size + (int64_t)r.u(5) - 2;
      std::vector<int> ds;
      for (int64_t d = 1; d * d <= area; ++d) if (area % d == 0 && area / d <= L.breadth) ds.push_back((int)d);
      if (!ds.empty()) { w = ds[r.u(ds.size())]; h = (int)(area / w); if (r.coin()) std::swap(w, h); }
    }
  } else { w = (int)r.range(1, r.chance(10) ? 65536 : 4000); h = (int)r.range(1, r.chance(10) ? 65536 : 4000); }
  w = std::min(w, 65536); h = std::min(h, 65536);
  double fps = tight ? (double)L.rate / ((double)w * h) * r.pick<double>({0.3, 0.6, 0.85, 0.95, 1.0, 1.01, 1.02, 1.2}) : r.pick<double>({1, 5, 15, 24, 29.97, 30, 60, 120});
  fps = std::max(0.5, std::min(fps, 400.0));
  int n = (int)r.range(2, 60);
  if (r.chance(25)) n = (int)std::min(300.0, fps * 1.3 + 4);
  double bytes_per = tight ? L.kbps * 125.0 / fps * r.pick<double>({0.1, 0.5, 0.9, 0.97, 1.03, 1.3}) : (double)r.range(50, 200000);
  if (tight && L.cpb && r.chance(25)) bytes_per = L.cpb * 125.0 / 4 * r.pick<double>({0.9, 0.999, 1.0, 1.001, 1.1});
  if (r.chance(15)) bytes_per = (double)w * h * 1.5 / (L.ratio * r.pick<double>({0.5, 0.95, 1.0, 1.05, 2.0}));
  bytes_per = std::max(30.0, std::min(bytes_per, (double)big.size()));
  int period = r.chance(25) ? 0 : (int)r.range(1, 1 + L.altref + 4);
  int depth = r.pick<int>({8, 8, 10, 12});
  int tiles_log2 = (int)r.u(6);
  bool vary = r.chance(20), jitter = r.chance(40), same_refresh = r.coin();
  int refs = (int)r.range(0, 8);
  if (r.chance(30)) s.set_max_luma_sample_rate_grace_percent(r.pick<double>({0, 0.5, 1.5, 10, 50}));
  // Frames of one second that add up to exactly the rate limit, or one more.
  std::vector<std::pair<int, int>> exact;
  if (r.chance(4)) {
    int64_t left = L.rate + (int64_t)r.u(4) - 1;
    int64_t b = std::min<int64_t>(L.breadth, 65536);
    while (left > 0 && exact.size() < 600) {
      int64_t area = std::min(left, L.size), fw = std::min<int64_t>(b, area), fh = std::min<int64_t>(b, area / fw);
      if (exact.size() < 40 && r.chance(20)) { fw = 1 + (int64_t)r.u(fw); fh = std::max<int64_t>(1, std::min<int64_t>(b, area / fw)); }
      exact.emplace_back((int)fw, (int)fh);
      left -= fw * fh;
    }
    s.set_max_luma_sample_rate_grace_percent(0);
    n = (int)exact.size(); fps = n * 1.01; bytes_per = 30; period = 0; tiles_log2 = 0; refs = (int)r.range(0, 4); jitter = vary = false;
    if (n < 2) return;
    R().count("exact_rates");
  }
  double grace = s.max_luma_sample_rate_grace_percent();
  std::vector<Fr> v;
  int64_t start = r.chance(70) ? 0 : (int64_t)r.u(5000000000LL), t = start;
  int since = 0;
  bool multi_key = exact.empty() && r.chance(40);
  std::string hist = Fmt("near level %d: %dx%d fps %.2f bytes %.0f period %d; ", L.level, w, h, fps, bytes_per, period);
  for (int i = 0; i < n; ++i) {
    Want q; q.plain = true; q.no_seg = true; q.depth = depth; q.cols_log2 = tiles_log2;
    q.w = w; q.h = h;
    if (!exact.empty()) { q.w = exact[i].first; q.h = exact[i].second; }
    if (vary && r.chance(30)) { q.w = (int)r.range(1, w); q.h = (int)r.range(1, h); }
    q.force_key = i == 0 || (multi_key && r.chance(6));
    bool alt = period && i > 0 && since >= period + (r.chance(20) ? (int)r.u(3) - 1 : 0);
    if (period == 1 && i > 0 && r.chance(20)) alt = true;
    if (alt) q.force_key = 0;
    q.force_altref = alt || (i == 0 && r.chance(3));
    q.refresh = same_refresh ? (refs ? 1 << r.u(refs) : 0) : (int)(r.u(256) & ((1 << refs) - 1));
    if (q.force_key && i) q.cols_log2 = (int)r.u(6);
    Hdr e;
    Bytes b = Header(r, st, e, q);
    // Bytes beyond the buffer are never looked at: the length is what counts.
    memcpy(big.data(), b.data(), b.size());
    size_t size = std::max<size_t>(b.size(), (size_t)std::min<double>((double)big.size(), bytes_per * (jitter ? 0.5 + r.unit() : 1)));
    if (!p.ParseUncompressedHeader(big.data(), size)) { R().viol("c27:header", "a correct header was rejected " + Hex(b)); return; }
    Fr f{t, e.w, e.h, (int64_t)size, e.key != 0, e.altref != 0, e.refresh, e.cols, e.bit_depth};
    s.AddFrame(p, t);
    v.push_back(f);
    since = e.altref ? 0 : since + 1;
    if (!e.altref || r.chance(20)) t += (int64_t)(1e9 / fps * (jitter ? 0.6 + 0.8 * r.unit() : 1));
    if (r.chance(1)) t += (int64_t)r.pick<int64_t>({999999999, 1000000000, 1000000001, 5000000000LL});
    if (i + 1 < n && r.chance(25)) continue;
    if (i + 1 < n && r.chance(exact.empty() ? 80 : 99)) continue;
    // The statistics so far, from their definitions.
    int64_t m_size = 0, m_breadth = 0, m_rate = 0, m_cpb = 0, total = 0, raw = 0; int cols = 0, shown = 0, m_refs = 0, slots = 0, alt_min = -1, gap = 0; bool seen_alt = false; int carried = 0;
    for (size_t a = 0; a < v.size(); ++a) {
      const Fr& x = v[a];
      m_size = std::max(m_size, x.w * x.h); m_breadth = std::max(m_breadth, std::max(x.w, x.h));
      int64_t win = 0;
      for (size_t c = a + 1; c-- > 0 && v[c].t > x.t - 1000000000LL;) win += v[c].w * v[c].h;
      m_rate = std::max(m_rate, win);
      int64_t four = 0;
      for (size_t c = a + 1, k = 0; c-- > 0 && k < 4; ++k) four += v[c].size;
      m_cpb = std::max(m_cpb, four);
      total += x.size;
      if (x.alt) { if (seen_alt && (alt_min < 0 || gap < alt_min)) alt_min = gap; seen_alt = true; gap = 0; }
      else { ++gap; ++shown; raw += x.w * x.h * x.depth * 3 / 2; }
      if (x.key) slots = 0; else { slots |= x.refresh; m_refs = std::max(m_refs, __builtin_popcount(slots)); }
      if (x.cols > 0) carried = x.cols;
      cols = std::max(cols, carried);
    }
    R().count("checks");
    std::string ctx = hist + Fmt("%zu frames to %lld", v.size(), (long long)v.back().t);
    const char* k = "c27:stat";
    SameI("luma sample rate", s.GetMaxLumaSampleRate(), m_rate, ctx, k);
    SameI("luma picture size", s.GetMaxLumaPictureSize(), m_size, ctx, k);
    SameI("luma picture breadth", s.GetMaxLumaPictureBreadth(), m_breadth, ctx, k);
    SameI("column tiles", s.GetMaxColumnTiles(), cols, ctx, k);
    SameI("altref distance", s.GetMinimumAltrefDistance(), alt_min, ctx, k);
    SameI("reference frames", s.GetMaxReferenceFrames(), m_refs, ctx, k);
    if (!Close(s.GetMaxCpbSize(), m_cpb / 125.0L)) R().viol("c27:stat:cpb", Fmt("CPB size %.9g, should be %.9Lg; ", s.GetMaxCpbSize(), m_cpb / 125.0L) + ctx);
    long double ratio = (long double)raw / (total * 8);
    if (!Close(s.GetCompressionRatio(), ratio)) R().viol("c27:stat:ratio", Fmt("compression ratio %.9g, should be %.9Lg; ", s.GetCompressionRatio(), ratio) + ctx);
    int64_t span = v.back().t - v.front().t;
    if (shown < 2 || span <= 0) { R().count("too_short"); continue; }
    bool last = i + 1 == n;
    bool est = !(last && r.chance(30));
    s.set_estimate_last_frame_duration(est);
    int64_t dur = -1;
    if (last && r.chance(35)) dur = start == 0 && r.coin() ? span : v.back().t + (int64_t)r.range(1, 2000000000);
    if (dur >= 0) { s.set_duration(dur); R().count("durations_set"); }
    long double secs = (dur < 0 ? span : dur) / 1e9L;
    if (est && (dur < 0 || dur <= span)) { secs += span / 1e9L / (shown - 1); R().count("last_estimated"); }
    long double kbps = total / secs / 125;
    if (!Close(s.GetAverageBitRate(), kbps)) R().viol("c27:stat:bitrate", Fmt("average bitrate %.9g, should be %.9Lg; ", s.GetAverageBitRate(), kbps) + ctx);
    // The level.
    int level = 0;
    bool near_equal = false;
    for (const Lim& l : kLim) {
      long double rate_lim = l.rate * (1 + grace / 100.0L);
      if (fabsl(m_rate - rate_lim) < 1e-6L * rate_lim && grace != 0) near_equal = true;
      if (fabsl(kbps - l.kbps) < 1e-9L * l.kbps) near_equal = true;
      if (m_rate > rate_lim || m_size > l.size || m_breadth > l.breadth || kbps > l.kbps || (l.cpb && m_cpb > l.cpb * 125) || raw < l.ratio * total * 8 || cols > l.tiles || (alt_min >= 0 && alt_min < l.altref) || m_refs > l.refs) continue;
      level = l.level;
      break;
    }
    if (near_equal) { R().count("on_a_limit"); continue; }
    R().count(Fmt("level_%d", level));
    R().sig(Mix(Mix(m_rate, m_cpb), Mix(total, (uint64_t)level)));
    int seen = (int)s.GetLevel();
    if (seen != level) R().viol("c27:level", Fmt("level %d, should be %d (rate %lld size %lld breadth %lld kbps %.3Lf cpb %.3Lf ratio %.3Lf tiles %d altref %d refs %d grace %.2f); ", seen, level, (long long)m_rate, (long long)m_size, (long long)m_breadth, kbps, m_cpb / 125.0L, ratio, cols, alt_min, m_refs, grace) + ctx);
  }
  R().sample(hist);
}

// ------------------------------------------------------------------- C28
typedef __int128 i128;
void Times(Rng& r) {
  for (int i = 0; i < 40; ++i) {
    int64_t ns = (int64_t)r.edgy(INT64_MAX - 2048);
    if (r.chance(40)) ns = (int64_t)r.u(INT64_MAX / 2);
    if (r.chance(30)) ns = (int64_t)(r.u(900000000) * 11111) + (int64_t)r.u(3);
    bool neg = r.chance(15);
    if (neg) ns = -ns;
    int64_t k = libwebm::NanosecondsTo90KhzTicks(ns);
    long double exact = (long double)ns * 9 / 100000;
    R().count("to_ticks");
    if (fabsl(k - truncl(exact)) > 1.0L) R().viol("c28:ticks", Fmt("%lld ns gave %lld ticks, exactly %.6Lf", (long long)ns, (long long)k, exact));
    int64_t d = (int64_t)r.pick<int64_t>({1, 1000, 11111, 11112, 22223, 1000000, 1000000000});
    if (ns <= INT64_MAX - 2048 - d) {
      int64_t k2 = libwebm::NanosecondsTo90KhzTicks(ns + d);
      if (k2 < k) R().viol("c28:ticks order", Fmt("%lld ns gave %lld ticks but %lld ns later %lld", (long long)ns, (long long)k, (long long)d, (long long)k2));
      R().count("orders");
    }
    const int64_t kMaxTicks = 830103483316928LL;  // whose nanoseconds fit
    int64_t q = (int64_t)r.u(kMaxTicks);
    if (r.coin()) q = (int64_t)r.edgy(kMaxTicks);
    if (r.chance(30)) q = (int64_t)r.u(1ULL << 33);
    if (r.chance(10)) q = -q;
    int64_t back = libwebm::Khz90TicksToNanoseconds(q);
    long double bexact = (long double)q * 100000 / 9;
    if (fabsl(back - bexact) > 11112.0L) R().viol("c28:nanoseconds", Fmt("%lld ticks gave %lld ns, exactly %.3Lf", (long long)q, (long long)back, bexact));
    if (q < kMaxTicks && libwebm::Khz90TicksToNanoseconds(q + 1) < back) R().viol("c28:nanoseconds order", Fmt("%lld ticks", (long long)q));
    int64_t again = libwebm::NanosecondsTo90KhzTicks(back);
    if (again < q - 1 || again > q + 1) R().viol("c28:tick round trip", Fmt("%lld ticks came back as %lld", (long long)q, (long long)again));
    R().count("to_ns");
    R().sig(Mix(ns, q));
  }
}

const int NP = INT_MAX;
struct Feat { int f[4] = {NP, NP, NP, NP}; };
bool RefPrivate(const Bytes& b, Feat* o) {
  if (b.size() < 3) return false;
  for (size_t i = 0; i + 3 <= b.size(); i += 3) {
    int id = (uint8_t)b[i], len = (uint8_t)b[i + 1], v = (uint8_t)b[i + 2];
    if (len != 1 || id < 1 || id > 4) return false;
    static const std::set<int> ok[] = {{0, 1, 2, 3}, {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}, {8, 10, 12}, {0, 1, 2, 3}};
    if (!ok[id - 1].count(v)) return false;
    if (o->f[id - 1] != NP && o->f[id - 1] != v) return false;
    o->f[id - 1] = v;
  }
  return true;
}
void Private(Rng& r) {
  Bytes b;
  int n = (int)r.range(0, 7);
  static const int kLevels[] = {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62};
  int chosen[5] = {0, (int)r.u(4), kLevels[r.u(14)], r.pick<int>({8, 10, 12}), (int)r.u(4)};
  for (int i = 0; i < n; ++i) {
    int id = (int)r.range(1, 4);
    int v = r.chance(93) ? chosen[id] : r.coin() ? (int)r.u(70) : (int)r.u(256);
    b.push_back((char)(r.chance(97) ? id : (int)r.u(256)));
    b.push_back((char)(r.chance(97) ? 1 : (int)r.u(4)));
    b.push_back((char)v);
  }
  if (r.chance(20)) b += r.bytes(r.range(1, 2));
  if (r.chance(8)) b = r.bytes(r.u(12));
  Exact x(b);
  Feat want;
  bool ok = RefPrivate(b, &want);
  libwebm::Vp9CodecFeatures f;
  f.profile = f.level = f.bit_depth = f.chroma_subsampling = 77;
  bool got = libwebm::ParseVpxCodecPrivate(x.p.get(), (int32_t)x.n, &f);
  R().count(ok ? "private_ok" : "private_bad");
  R().sig(Hash(b));
  if (got != ok) { R().viol(ok ? "c28:private rejected" : "c28:private accepted", Hex(b)); return; }
  if (ok && (f.profile != want.f[0] || f.level != want.f[1] || f.bit_depth != want.f[2] || f.chroma_subsampling != want.f[3]))
    R().viol("c28:private values", Hex(b) + Fmt(" gave %d %d %d %d", f.profile, f.level, f.bit_depth, f.chroma_subsampling));
  if (libwebm::ParseVpxCodecPrivate(nullptr, 3, &f) || libwebm::ParseVpxCodecPrivate(x.p.get(), -3, &f) || libwebm::ParseVpxCodecPrivate((const uint8_t*)"\1\1\1", 3, nullptr))
    R().viol("c28:private null", "null or negative arguments accepted");
}

void Colours(Rng& r) {
  mkvparser::Colour c;
  long long* f[] = {&c.matrix_coefficients, &c.bits_per_channel, &c.chroma_subsampling_horz, &c.chroma_subsampling_vert, &c.cb_subsampling_horz, &c.cb_subsampling_vert, &c.chroma_siting_horz, &c.chroma_siting_vert, &c.range, &c.transfer_characteristics, &c.primaries, &c.max_cll, &c.max_fall};
  for (auto p : f) if (r.coin()) *p = r.coin() ? (long long)r.u(25) : (long long)r.edgy(INT64_MAX - 1);
  auto chroma = [&]() -> mkvparser::PrimaryChromaticity* {
    if (r.coin()) return nullptr;
    auto* p = new mkvparser::PrimaryChromaticity;
    p->x = (float)r.unit(); p->y = (float)r.unit();
    if (r.chance(10)) p->x = r.coin() ? 0.f : 1.f;
    return p;
  };
  bool mm = r.chance(60);
  if (mm) {
    auto* m = c.mastering_metadata = new mkvparser::MasteringMetadata;
    m->r = chroma(); m->g = chroma(); m->b = chroma(); m->white_point = chroma();
    if (r.coin()) m->luminance_max = (float)(r.unit() * 9999);
    if (r.coin()) m->luminance_min = (float)(r.unit() * 999);
  }
  mkvmuxer::Colour o;
  R().count(mm ? "colours_mastering" : "colours");
  if (!libwebm::CopyColour(c, &o)) { R().viol("c28:colour", "CopyColour failed"); return; }
  uint64_t g[] = {o.matrix_coefficients(), o.bits_per_channel(), o.chroma_subsampling_horz(), o.chroma_subsampling_vert(), o.cb_subsampling_horz(), o.cb_subsampling_vert(), o.chroma_siting_horz(), o.chroma_siting_vert(), o.range(), o.transfer_characteristics(), o.primaries(), o.max_cll(), o.max_fall()};
  uint64_t hsh = 0;
  for (int i = 0; i < 13; ++i) {
    uint64_t want = *f[i] == mkvparser::Colour::kValueNotPresent ? mkvmuxer::Colour::kValueNotPresent : (uint64_t)*f[i];
    hsh = Mix(hsh, want);
    if (g[i] != want) R().viol(Fmt("c28:colour field %d", i), Fmt("%llu copied as %llu", (unsigned long long)want, (unsigned long long)g[i]));
  }
  R().sig(hsh);
  const mkvmuxer::MasteringMetadata* om = o.mastering_metadata();
  if (!mm) { if (om) R().viol("c28:mastering invented", "mastering metadata appeared"); return; }
  if (!om) { R().viol("c28:mastering lost", "mastering metadata not copied"); return; }
  auto* m = c.mastering_metadata;
  auto lum = [&](const char* w, float a, float b) {
    float want = a == mkvparser::MasteringMetadata::kValueNotPresent ? mkvmuxer::MasteringMetadata::kValueNotPresent : a;
    if (b != want) R().viol(std::string("c28:") + w, Fmt("%g copied as %g", want, b));
  };
  lum("luminance_max", m->luminance_max, om->luminance_max());
  lum("luminance_min", m->luminance_min, om->luminance_min());
  auto chr = [&](const char* w, const mkvparser::PrimaryChromaticity* a, const mkvmuxer::PrimaryChromaticity* b) {
    if (!a != !b || (a && (a->x != b->x() || a->y != b->y()))) R().viol(std::string("c28:chromaticity ") + w, a && b ? Fmt("(%g,%g) copied as (%g,%g)", a->x, a->y, b->x(), b->y()) : "presence differs");
  };
  chr("r", m->r, om->r()); chr("g", m->g, om->g()); chr("b", m->b, om->b()); chr("white", m->white_point, om->white_point());
  if (libwebm::CopyColour(c, nullptr)) R().viol("c28:colour null", "null target accepted");
}

void Frames(Rng& r) {
  using libwebm::VideoFrame;
  int64_t pts = (int64_t)r.next();
  bool key = r.coin();
  VideoFrame::Codec codec = r.coin() ? VideoFrame::kVP8 : VideoFrame::kVP9;
  VideoFrame f1(key, pts, codec), f2(pts, codec), f3;
  if (f1.codec() != codec || f1.nanosecond_pts() != pts || f1.keyframe() != key || f2.codec() != codec || f2.nanosecond_pts() != pts || f2.keyframe()) R().viol("c28:frame", "constructor arguments lost");
  VideoFrame* const any[] = {&f1, &f2, &f3};
  VideoFrame& f = *any[r.u(3)];
  if (f.SetBufferLength(1)) R().viol("c28:frame", "length accepted without a buffer");
  for (int i = (int)r.range(1, 4); i > 0; --i) {
    size_t cap = r.chance(10) ? 0 : (size_t)r.edgy(100000);
    int64_t p2 = (int64_t)r.next();
    bool three = r.coin();
    if (!(three ? f.Init(cap, p2, codec) : f.Init(cap))) { R().viol("c28:frame init", Fmt("%zu", cap)); return; }
    if (three && (f.nanosecond_pts() != p2 || f.codec() != codec)) R().viol("c28:frame", "time or codec lost");
    if (f.buffer().capacity != cap || f.buffer().length != 0) R().viol("c28:frame", "capacity or length wrong after Init");
    size_t len = (size_t)r.u(cap + 1);
    Bytes d = r.bytes(cap);
    if (cap) memcpy(f.buffer().data.get(), d.data(), cap);
    if (f.SetBufferLength(cap + 1 + r.u(5)) || f.buffer().length != 0) R().viol("c28:frame", "length beyond the capacity accepted");
    if (!f.SetBufferLength(len) || f.buffer().length != len) R().viol("c28:frame", "length refused");
    if (cap && memcmp(f.buffer().data.get(), d.data(), cap)) R().viol("c28:frame", "bytes changed");
    f.set_nanosecond_pts(p2 + 1);
    if (f.nanosecond_pts() != p2 + 1) R().viol("c28:frame", "time lost");
    R().count("frames");
    R().sig(Mix(cap, len));
  }
}

void Small(Rng& r) {
  for (int i = 0; i < 20; ++i) {
    uint32_t a = (uint32_t)r.next(); uint64_t b = r.next();
    if (r.coin()) { a = (uint32_t)r.edgy(0xffffffff); b = r.edgy(); }
    uint8_t x[8]; uint32_t ba = libwebm::host_to_bigendian(a); uint64_t bb = libwebm::host_to_bigendian(b);
    memcpy(x, &ba, 4);
    uint32_t ra = (uint32_t)x[0] << 24 | x[1] << 16 | x[2] << 8 | x[3];
    memcpy(x, &bb, 8);
    uint64_t rb = 0; for (uint8_t y : x) rb = rb << 8 | y;
    if (ra != a || rb != b) R().viol("c28:endian", Fmt("%08x %016llx", a, (unsigned long long)b));
    if (libwebm::bigendian_to_host(ba) != a || libwebm::bigendian_to_host(bb) != b) R().viol("c28:endian back", Fmt("%08x", a));
    Exact two(r.bytes(2));
    if (libwebm::ReadUint16(two.p.get()) != (two.p[0] << 8 | two.p[1])) R().viol("c28:uint16", Fmt("%02x %02x", two.p[0], two.p[1]));
    R().count("words");
  }
  if (libwebm::ReadUint16(nullptr) != 0) R().viol("c28:uint16", "null");
  std::string dir = A().tmp + Fmt("/c28.%d", (int)getpid());
  mkdir(dir.c_str(), 0700);
  setenv("TEST_TMPDIR", dir.c_str(), 1);
  std::string name, kept = dir + "/kept";
  Bytes d = r.bytes(r.chance(5) ? 100000 + r.u(100000) : r.u(3000));
  {
    libwebm::TempFileDeleter t, t2;
    name = t.name();
    if (name.empty() || name == t2.name() || access(name.c_str(), F_OK)) R().viol("c28:tempfile", "no new temporary file: " + name);
    FILE* f = fopen(name.c_str(), "wb");
    for (unsigned char c : d) if (!libwebm::WriteUint8(c, f)) { R().viol("c28:write8", Fmt("%02x", c)); break; }
    fclose(f);
    if (libwebm::GetFileSize(name) != d.size()) R().viol("c28:filesize", Fmt("%zu", d.size()));
    std::string got = "junk";
    if (!libwebm::GetFileContents(name, &got) || got != d) R().viol("c28:contents", Fmt("%zu bytes came back as %zu", d.size(), got.size()));
    R().count("files");
  }
  if (!access(name.c_str(), F_OK)) R().viol("c28:tempfile", "temporary file left behind");
  std::string got;
  if (libwebm::GetFileContents(name, &got)) R().viol("c28:contents", "contents of a missing file");
  if (libwebm::GetFileSize(name) != 0) R().viol("c28:filesize", "size of a missing file");
  if (libwebm::WriteUint8(1, nullptr)) R().viol("c28:write8", "null file");
  if (FILE* f = fopen("/dev/full", "wb")) {
    setvbuf(f, nullptr, _IONBF, 0);
    if (libwebm::WriteUint8((uint8_t)r.u(256), f)) R().viol("c28:write8", "a failed write was reported as done");
    fclose(f);
    R().count("failed_writes");
  }
  rmdir(dir.c_str());
}

void C28(uint64_t, Rng& r) {
  Quiet();
  switch (r.u(16)) {
    case 0: Small(r); break;
    case 1: case 2: Times(r); break;
    case 3: case 4: Frames(r); break;
    case 5: case 6: case 7: case 8: Colours(r); break;
    default: Private(r); break;
  }
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C26", C26}, {"C27", C27}, {"C28", C28}}); }
