// C30: independent objects used from several threads at once. Built with
// ThreadSanitizer. Inputs are generated first, then every task runs
// concurrently with others, then alone, and the results are compared.
#include <pthread.h>
#include <sched.h>
#include <atomic>
#include <list>
#include <thread>

#include "m2ts_common.h"
#include "vp9_gen.h"
#include "webm_common.h"
#include "mux_common.h"
#include "mkvdump.h"
#include "common/file_util.h"
#include "common/hdr_util.h"
#include "common/vp9_header_parser.h"
#include "common/vp9_level_stats.h"
#include "mkvparser/mkvreader.h"
#include "webm/file_reader.h"
#include "webvtt/webvttparser.h"

namespace {

// Yield points. Relaxed atomics and no locks, so that the harness creates no
// ordering between the threads that would hide a race.
std::atomic<uint32_t> g_ticket;
struct Ctx {
  Rng rng{1}; int yield_pct = 0; std::vector<uint32_t> tickets; std::string dir;
  void Point() {
    if (tickets.size() < 4000) tickets.push_back(g_ticket.fetch_add(1, std::memory_order_relaxed));
    if (yield_pct && rng.chance(yield_pct)) { if (rng.chance(10)) usleep(1 + rng.u(40)); else sched_yield(); }
  }
};

struct YWriter : mkvmuxer::IMkvWriter {
  mux::MemWriter m; Ctx& c;
  explicit YWriter(Ctx& x) : c(x) {}
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 n) override { c.Point(); return m.Write(b, n); }
  mkvmuxer::int64 Position() const override { return m.Position(); }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override { c.Point(); return m.Position(p); }
  bool Seekable() const override { return m.Seekable(); }
  void ElementStartNotify(mkvmuxer::uint64 i, mkvmuxer::int64 p) override { m.ElementStartNotify(i, p); }
};
struct YReader : mkvparser::IMkvReader {
  const Bytes& d; Ctx& c;
  YReader(const Bytes& b, Ctx& x) : d(b), c(x) {}
  int Read(long long p, long n, unsigned char* b) override {
    c.Point();
    if (p < 0 || n < 0 || p > (long long)d.size() || n > (long long)d.size() - p) return -1;
    memcpy(b, d.data() + p, (size_t)n);
    return 0;
  }
  int Length(long long* t, long long* a) override { if (t) *t = (long long)d.size(); if (a) *a = (long long)d.size(); return 0; }
};
struct YStream : webm::Reader {
  const Bytes& d; Ctx& c; uint64_t pos = 0; uint64_t seed;
  YStream(const Bytes& b, Ctx& x, uint64_t s) : d(b), c(x), seed(s) {}
  Status Go(uint64_t n, uint8_t* b, uint64_t* got) {
    c.Point();
    uint64_t left = d.size() - pos;
    *got = 0;
    if (!left) return Status(Status::kEndOfFile);
    uint64_t k = std::min(n, left);
    if (seed) k = 1 + Mix(seed, pos) % k;
    if (b) memcpy(b, d.data() + pos, (size_t)k);
    pos += k; *got = k;
    return Status(k == n ? Status::kOkCompleted : Status::kOkPartial);
  }
  Status Read(std::size_t n, std::uint8_t* b, std::uint64_t* g) override { return Go(n, b, g); }
  Status Skip(std::uint64_t n, std::uint64_t* g) override { return Go(n, nullptr, g); }
  std::uint64_t Position() const override { return pos; }
};
struct YVtt : libwebvtt::Reader {
  const Bytes& d; Ctx& c; size_t pos = 0;
  YVtt(const Bytes& b, Ctx& x) : d(b), c(x) {}
  int GetChar(char* p) override { if (pos % 16 == 0) c.Point(); if (pos >= d.size()) return 1; *p = d[pos++]; return 0; }
};
struct YSink : libwebm::PacketReceiverInterface {
  Ctx& c; Bytes all; size_t n = 0;
  explicit YSink(Ctx& x) : c(x) {}
  bool ReceivePacket(const libwebm::PacketDataBuffer& p) override { c.Point(); ++n; all.append((const char*)p.data(), p.size()); return true; }
};

enum { kMux, kMkv, kWebm, kVtt, kPes, kTs, kVp9, kHdr, kFiles, kKindsN };
const char* const kTask[] = {"mux", "mkv", "webm", "vtt", "pes", "ts", "vp9", "hdr", "files"};

struct Task {
  int kind = 0;
  mux::Scenario sc; Bytes in; std::vector<Bytes> parts; uint64_t seed = 0; std::string file; int option = 0;
};

std::string WalkMkv(mkvparser::IMkvReader* rd, int option) {
  long long pos = 0;
  mkvparser::EBMLHeader h;
  if (long long st = h.Parse(rd, pos)) return Fmt("ebml %lld", st);
  std::string o = Fmt("%s %lld %lld\n", h.m_docType ? h.m_docType : "", h.m_docTypeVersion, h.m_maxSizeLength);
  mkvparser::Segment* s = nullptr;
  if (long long st = mkvparser::Segment::CreateInstance(rd, pos, s)) { delete s; return o + Fmt("create %lld", st); }
  std::unique_ptr<mkvparser::Segment> own(s);
  long st = s->Load();
  o += Fmt("load %ld\n", st);
  if (st < 0 || !s->GetInfo() || !s->GetTracks()) return o;
  o += dump::Segment(s);
  uint64_t hash = 1; int n = 0; std::vector<uint8_t> buf;
  for (const mkvparser::Cluster* c = s->GetFirst(); c && !c->EOS(); c = s->GetNext(c)) {
    const mkvparser::BlockEntry* e = nullptr;
    if (c->GetFirst(e)) break;
    while (e && !e->EOS()) {
      const mkvparser::Block* b = e->GetBlock();
      hash = Mix(hash, (uint64_t)b->GetTime(c)); hash = Mix(hash, (uint64_t)b->GetTrackNumber());
      for (int i = 0; i < b->GetFrameCount(); ++i) {
        const mkvparser::Block::Frame& f = b->GetFrame(i);
        if (f.len < 0) continue;
        buf.resize((size_t)f.len + 1);
        if (!f.Read(rd, buf.data())) hash = Hash(buf.data(), (size_t)f.len, hash);
        ++n;
      }
      const mkvparser::BlockEntry* nx = nullptr;
      if (c->GetNext(e, nx)) break;
      e = nx;
    }
  }
  o += Fmt("%d frames %" PRIx64 " duration %lld\n", n, hash, s->GetDuration());
  if (const mkvparser::Cues* q = s->GetCues()) {
    int k = 0;
    while (!q->DoneParsing() && ++k < 10000) if (!q->LoadCuePoint()) break;
    for (const mkvparser::CuePoint* p = q->GetFirst(); p; p = q->GetNext(p)) o += Fmt("cue %lld\n", p->GetTimeCode());
  }
  if (option & 1) for (long long t = 0; t < 4; ++t) { const mkvparser::Cluster* c = s->FindCluster(t * 700000000LL); o += Fmt("at %lld\n", c ? c->GetTime() : -1); }
  return o;
}

std::string FileHash(const std::string& p) { Bytes b; if (!ReadFile(p, &b)) return "(none)"; return Fmt("%zu#%" PRIx64, b.size(), Hash(b)); }

// Must not touch R() or anything else shared.
std::string Do(const Task& t, Ctx& c) {
  switch (t.kind) {
    case kMux: {
      YWriter w(c);
      std::string o;
      {
        mkvmuxer::Segment seg;
        mux::RunResult rr = mux::Run(seg, t.sc, &w);
        o = Fmt("%d%d%d ", rr.setup, rr.finalized, rr.all_ok);
        for (int v : rr.op_ok) o += Fmt("%d,", v);
        o += Fmt(" %zu#%" PRIx64, w.m.buf.size(), Hash(w.m.buf));
        if (rr.all_ok && (t.option & 1)) {
          YReader rd(w.m.buf, c); YWriter w2(c);
          bool ok = seg.CopyAndMoveCuesBeforeClusters(&rd, &w2);
          o += Fmt(" moved %d %zu#%" PRIx64, ok, w2.m.buf.size(), Hash(w2.m.buf));
        }
      }
      // ids made from a seed of our own
      unsigned seed = (unsigned)t.seed;
      for (int i = 0; i < 3; ++i) o += Fmt(" uid %" PRIu64, (uint64_t)mkvmuxer::MakeUID(&seed));
      return o;
    }
    case kMkv: { YReader rd(t.in, c); return WalkMkv(&rd, t.option); }
    case kWebm: {
      webm::WebmParser p; Rec rec; rec.plan.seed = t.seed; rec.plan.skip_pct = t.option & 1 ? 15 : 0; rec.max_calls = 2000000;
      YStream rd(t.in, c, t.option & 2 ? t.seed | 1 : 0);
      int st; uint64_t feeds = 0;
      do st = p.Feed(&rec, &rd).code; while (st == Status::kOkPartial && ++feeds < 1000000);
      std::string o = Fmt("status %d at %" PRIu64 "\n", st, rd.pos);
      for (auto& e : rec.log) o += e + "\n";
      return o;
    }
    case kVtt: {
      YVtt rd(t.in, c);
      libwebvtt::Parser p(&rd);
      std::string o = Fmt("init %d\n", p.Init());
      for (int i = 0; i < 1000; ++i) {
        libwebvtt::Cue q;
        int st = p.Parse(&q);
        o += Fmt("%d ", st);
        if (st) break;
        o += q.identifier + Fmt(" %lld %lld", (long long)q.start_time.presentation(), (long long)q.stop_time.presentation());
        for (auto& s : q.settings) o += " " + s.name + ":" + s.value;
        for (auto& l : q.payload) o += "|" + l;
        o += "\n";
      }
      return o;
    }
    case kPes: {
      YSink sink(c);
      libwebm::Webm2Pes x(t.file, &sink);
      bool ok = x.ConvertToPacketReceiver();
      std::string o = Fmt("%d %zu packets %zu#%" PRIx64, ok, sink.n, sink.all.size(), Hash(sink.all));
      std::string out = c.dir + "/o.pes";
      libwebm::Webm2Pes y(t.file, out);
      o += Fmt(" file %d ", y.ConvertToFile()) + FileHash(out);
      libwebm::VpxPesParser p;
      if (ok && p.Open(out)) {
        for (int i = 0; i < 100000; ++i) {
          libwebm::VpxPesParser::PesHeader h; libwebm::VideoFrame f;
          c.Point();
          if (!p.ParseNextPacket(&h, &f)) break;
          o += Fmt("\n%u %lld %zu#%" PRIx64, h.packet_length, (long long)f.nanosecond_pts(), f.buffer().length, Hash(f.buffer().data.get(), f.buffer().length));
        }
      }
      unlink(out.c_str());
      return o;
    }
    case kTs: {
      std::string out = c.dir + "/o.ts";
      libwebm::VpxPes2Ts x(t.file, out);
      c.Point();
      bool ok = x.ConvertToFile();
      std::string o = Fmt("%d ", ok) + FileHash(out);
      unlink(out.c_str());
      return o;
    }
    case kVp9: {
      vp9_parser::Vp9HeaderParser p; vp9_parser::Vp9LevelStats s;
      std::string o; int64_t ns = 0;
      for (auto& f : t.parts) {
        c.Point();
        bool ok = p.ParseUncompressedHeader((const uint8_t*)f.data(), f.size());
        o += Fmt("%d %d %d %d %d %d\n", ok, p.profile(), p.key(), p.width(), p.height(), p.column_tiles());
        if (ok) { s.AddFrame(p, ns); ns += 33000000; }
      }
      if (ns > 33000000) o += Fmt("level %d %lld %lld %.9g %.9g %.9g %d %d", (int)s.GetLevel(), (long long)s.GetMaxLumaSampleRate(), (long long)s.GetMaxLumaPictureSize(), s.GetAverageBitRate(), s.GetMaxCpbSize(), s.GetCompressionRatio(), s.GetMaxColumnTiles(), s.GetMaxReferenceFrames());
      return o;
    }
    case kHdr: {
      std::string o;
      for (auto& f : t.parts) {
        libwebm::Vp9CodecFeatures ft;
        c.Point();
        bool ok = libwebm::ParseVpxCodecPrivate((const uint8_t*)f.data(), (int32_t)f.size(), &ft);
        o += Fmt("%d %d %d %d %d\n", ok, ft.profile, ft.level, ft.bit_depth, ft.chroma_subsampling);
        libwebm::Ranges rg;
        bool sf = libwebm::ParseVP9SuperFrameIndex((const uint8_t*)f.data(), f.size(), &rg, &ok);
        o += Fmt("%d %d %zu\n", sf, ok, rg.size());
        int64_t ns = (int64_t)(Hash(f) >> 20);
        o += Fmt("%lld %lld %lld\n", (long long)libwebm::NanosecondsTo90KhzTicks(ns), (long long)libwebm::Khz90TicksToNanoseconds(ns >> 20), 0LL);
      }
      return o;
    }
    default: {
      // files of our own: written, then read with each file reader
      std::string p = c.dir + "/f.webm", o;
      {
        mkvmuxer::MkvWriter w;
        o = Fmt("open %d ", w.Open(p.c_str()));
        mkvmuxer::Segment seg;
        mux::RunResult rr = mux::Run(seg, t.sc, &w);
        o += Fmt("%d %d ", rr.all_ok, rr.finalized);
        w.Close();
      }
      o += FileHash(p) + "\n";
      { mkvparser::MkvReader rd; o += Fmt("open %d ", rd.Open(p.c_str())); o += WalkMkv(&rd, t.option); }
      FILE* f = fopen(p.c_str(), "rb");
      if (f) {
        webm::FileReader rd(f);
        webm::WebmParser parser; Rec rec; rec.plan.seed = t.seed; rec.max_calls = 2000000;
        int st; uint64_t feeds = 0;
        do st = parser.Feed(&rec, &rd).code; while (st == Status::kOkPartial && ++feeds < 1000000);
        o += Fmt("status %d\n", st);
        for (auto& e : rec.log) o += e + "\n";
      }
      unlink(p.c_str());
      return o;
    }
  }
}

Task GenTask(Rng& r, int kind, int no) {
  Task t;
  t.kind = kind; t.seed = r.next(); t.option = (int)r.u(4);
  switch (kind) {
    case kMux: case kFiles: { mux::GenCfg g; g.max_frames = 25; t.sc = mux::GenScenario(r, g); break; }
    case kMkv: case kWebm: {
      GenOpt o; o.max_clusters = 3; o.max_blocks = 6;
      Doc d = GenDoc(r, o);
      t.in = d.bytes;
      if (r.chance(25)) t.in = MutateBytes(t.in, r, 3);
      break;
    }
    case kVtt: {
      t.in = "WEBVTT\n\n";
      for (int i = (int)r.u(8); i >= 0; --i) {
        if (r.coin()) t.in += Fmt("id%u\n", (unsigned)r.u(1000));
        t.in += Fmt("00:%02u:%02u.%03u --> 01:%02u:%02u.%03u", (unsigned)r.u(60), (unsigned)r.u(60), (unsigned)r.u(1000), (unsigned)r.u(60), (unsigned)r.u(60), (unsigned)r.u(1000));
        if (r.coin()) t.in += " line:10% align:start";
        t.in += "\n";
        for (int k = (int)r.u(3); k >= 0; --k) t.in += r.text(30) + "x\n";
        t.in += "\n";
      }
      if (r.chance(20)) t.in = MutateBytes(t.in, r, 2);
      break;
    }
    case kPes: case kTs: {
      Movie m = GenMovie(r, true);
      t.file = A().tmp + Fmt("/movie%d", no);
      WriteFile(t.file, m.bytes);
      break;
    }
    case kVp9: { State st; int n = 2 + (int)r.u(8); for (int i = 0; i < n; ++i) { Hdr e; Want w; t.parts.push_back(Header(r, st, e, w)); } break; }
    default: for (int i = 0; i < 6; ++i) { Bytes b = r.bytes(1 + r.u(20)); if (r.coin()) { b = Bytes("\1\1\0\2\1\12\3\1\12\4\1\1", 12); b = b.substr(0, 3 * (1 + r.u(4))); } t.parts.push_back(b); }
  }
  return t;
}

void Quiet() {
  static bool done = false;
  if (done) return;
  done = true;
  FILE* f = fopen("/dev/null", "w");
  if (f) { setvbuf(f, nullptr, _IOFBF, 1 << 16); stderr = f; }
}

void C30(uint64_t, Rng& r) {
  Quiet();
  int nt = (int)r.range(2, 6), kind = (int)r.u(kKindsN);
  bool same = r.chance(60), equal = r.chance(30);
  std::vector<std::vector<Task>> work((size_t)nt);
  std::vector<Ctx> ctx((size_t)nt);
  int no = 0;
  for (int i = 0; i < nt; ++i) {
    int k = (int)r.range(1, 3);
    for (int j = 0; j < k; ++j) {
      if (equal && i && j < (int)work[0].size()) work[(size_t)i].push_back(work[0][(size_t)j]);  // the same input everywhere
      else work[(size_t)i].push_back(GenTask(r, same ? kind : (int)r.u(kKindsN), no++));
    }
    ctx[(size_t)i].rng = Rng(r.next());
    ctx[(size_t)i].yield_pct = r.pick<int>({0, 2, 20, 60});
    ctx[(size_t)i].dir = A().tmp + Fmt("/t%d", i);
    mkdir(ctx[(size_t)i].dir.c_str(), 0755);
  }
  g_ticket.store(0, std::memory_order_relaxed);
  std::vector<std::vector<std::string>> got((size_t)nt);
  std::atomic<int> ready(0);
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; ++i) ts.emplace_back([&, i]() {
    ready.fetch_add(1, std::memory_order_relaxed);
    for (int spin = 0; ready.load(std::memory_order_relaxed) < nt && spin < 200000; ++spin) sched_yield();
    for (auto& t : work[(size_t)i]) got[(size_t)i].push_back(Do(t, ctx[(size_t)i]));
  });
  for (auto& t : ts) t.join();
  // What the schedule was.
  std::vector<std::pair<uint32_t, int>> order;
  for (int i = 0; i < nt; ++i) for (uint32_t k : ctx[(size_t)i].tickets) order.push_back({k, i});
  std::sort(order.begin(), order.end());
  uint64_t h = 7, switches = 0;
  for (size_t i = 1; i < order.size(); ++i) if (order[i].second != order[i - 1].second) { ++switches; h = Mix(h, order[i].first * 8 + (uint64_t)order[i].second); }
  R().count("switches", switches);
  R().count("steps", order.size());
  if (switches) { R().count("interleaved_runs"); R().sig(h); }
  // Alone.
  for (int i = 0; i < nt; ++i) for (size_t j = 0; j < work[(size_t)i].size(); ++j) {
    Ctx solo; solo.dir = ctx[(size_t)i].dir;
    const Task& t = work[(size_t)i][j];
    std::string want = Do(t, solo);
    R().count(std::string("task_") + kTask[t.kind]);
    if (want != got[(size_t)i][j]) {
      size_t k = 0; while (k < want.size() && k < got[(size_t)i][j].size() && want[k] == got[(size_t)i][j][k]) ++k;
      size_t f = k > 80 ? k - 80 : 0;
      R().viol(std::string("c30:result:") + kTask[t.kind], Fmt("%d threads; alone <", nt) + want.substr(f, 300) + "> with others <" + got[(size_t)i][j].substr(f, 300) + ">");
    }
  }
  R().sample(Fmt("%d threads, %zu steps, %" PRIu64 " switches, first task %s", nt, order.size(), switches, kTask[work[0][0].kind]));
  for (int i = 0; i < nt; ++i) { for (auto& t : work[(size_t)i]) if (!t.file.empty()) unlink(t.file.c_str()); rmdir(ctx[(size_t)i].dir.c_str()); }
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C30", C30}}); }
