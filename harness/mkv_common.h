// Readers and drivers for mkvparser; only its public interface is used.
#ifndef VERIF_MKV_COMMON_H_
#define VERIF_MKV_COMMON_H_
#include "../lib/gen.h"
#include "mkvdump.h"

namespace mkv {
using namespace vf;
namespace mp = mkvparser;

struct Rd : mp::IMkvReader {
  const Bytes& d;
  long long avail;          // bytes declared available
  bool total_known = true;
  uint64_t reads = 0, bytes = 0, bad_reads = 0, early_reads = 0;
  long long early_pos = -1; long early_len = 0; int early_status = -1;
  uint64_t fail_at = 0; int status = -1; bool sticky = true; uint64_t faults = 0;
  const Gaps* gaps = nullptr;
  explicit Rd(const Bytes& b) : d(b), avail((long long)b.size()) {}
  explicit Rd(const Doc& doc) : d(doc.bytes), avail((long long)doc.size()), gaps(doc.gaps.g.empty() ? nullptr : &doc.gaps) {}
  uint64_t size() const { return d.size() + (gaps ? gaps->sum : 0); }
  Bytes Raw(uint64_t pos, uint64_t len) const {
    if (!gaps) return d.substr(pos, len);
    Bytes o(len, '\0'); gaps->Read(d, pos, len, &o[0]); return o;
  }
  bool Fault() {
    if (!fail_at) return false;
    bool f = reads == fail_at || (sticky && reads > fail_at);
    faults += f;
    return f;
  }
  int Read(long long pos, long len, unsigned char* buf) override {
    ++reads;
    if (Fault()) return status;
    if (pos < 0 || len < 0) { ++bad_reads; return -1; }
    if (pos > (long long)size() || len > (long long)size() - pos) return -1;
    if (pos + len > avail) { ++early_reads; early_pos = pos; early_len = len; return early_status; }
    bytes += len;
    if (len && gaps) gaps->Read(d, pos, len, (char*)buf);
    else if (len) memcpy(buf, d.data() + pos, len);
    return 0;
  }
  int Length(long long* total, long long* available) override {
    if (drip && --drip_in == 0) {  // more arrived while the parser is at work
      drip_in = 1 + drip->u(4);
      if (avail < (long long)size() && !gaps) { avail = std::min<long long>(avail + (long long)drip->range(1, drip_max), (long long)size()); dripped = true; ++drips; }
    }
    if (total) *total = total_known ? (long long)size() : -1;
    if (available) *available = avail;
    return 0;
  }
  Rng* drip = nullptr; uint64_t drip_in = 1, drip_max = 1, drips = 0; bool dripped = false;
};

// Uses every query on an opened segment.
struct Use {
  Rng& r;
  mp::Segment* s;
  Rd& rd;
  uint64_t entries = 0, frames = 0, seeks = 0, cues = 0;
  std::vector<unsigned char> buf;
  Use(Rng& rng, mp::Segment* seg, Rd& reader) : r(rng), s(seg), rd(reader) {}

  void Blk(const mp::BlockEntry* e, bool read) {
    if (!e || e->EOS()) return;
    ++entries;
    const mp::Cluster* c = e->GetCluster();
    const mp::Block* b = e->GetBlock();
    if (!b || !c) return;
    volatile long long sink = b->GetTrackNumber(); sink = b->GetDiscardPadding(); sink = b->GetLacing(); sink = b->IsKey(); sink = b->IsInvisible(); sink = e->GetIndex();
    sink = b->GetTimeCode(c); sink = b->GetTime(c);
    (void)sink;
    if (e->GetKind() == mp::BlockEntry::kBlockGroup) {
      auto* g = static_cast<const mp::BlockGroup*>(e);
      sink = g->GetPrevTimeCode(); sink = g->GetNextTimeCode(); sink = g->GetDurationTimeCode();
    }
    for (int i = 0; i < b->GetFrameCount(); ++i) {
      const mp::Block::Frame& f = b->GetFrame(i);
      ++frames;
      if (!read || f.len < 0 || f.len > (1 << 20)) continue;
      if (buf.size() < (size_t)f.len + 1) buf.resize(f.len + 1);
      f.Read(&rd, buf.data());
    }
  }
  void Meta() {
    volatile size_t n = dump::Segment(s).size();
    (void)n;
    volatile long long sink = 0;
    if (s->GetInfo()) sink = s->GetDuration();
    if (s->GetInfo()) sink = s->GetInfo()->GetDuration();
    if (auto* sh = s->GetSeekHead()) {
      for (int i = 0; i < sh->GetCount(); ++i) sink = sh->GetEntry(i)->pos;
      for (int i = 0; i < sh->GetVoidElementCount(); ++i) sink = sh->GetVoidElement(i)->element_size;
      if (sh->GetEntry(-1) || sh->GetEntry(sh->GetCount()) || sh->GetVoidElement(-1) || sh->GetVoidElement(sh->GetVoidElementCount())) R().viol("seekhead_index", "entry past the end returned");
    }
    if (auto* ch = s->GetChapters()) for (int i = 0; i < ch->GetEditionCount(); ++i) for (int k = 0; k < ch->GetEdition(i)->GetAtomCount(); ++k) { auto* a = ch->GetEdition(i)->GetAtom(k); sink = a->GetStartTime(ch); sink = a->GetStopTime(ch); }
    (void)sink;
  }
  void Clusters() {
    const mp::Cluster* c = s->GetFirst();
    uint64_t guard = 0;
    while (c && !c->EOS()) {
      volatile long long sink = c->GetTimeCode(); sink = c->GetTime(); sink = c->GetPosition(); sink = c->GetElementSize(); sink = c->GetIndex(); sink = c->GetFirstTime(); sink = c->GetLastTime();
      const mp::BlockEntry* e = nullptr;
      long st = c->GetFirst(e);
      uint64_t g2 = 0;
      while (st == 0 && e && !e->EOS()) {
        Blk(e, r.chance(60));
        st = c->GetNext(e, e);
        if (++g2 > rd.d.size() + 10) { R().viol("endless_walk", "cluster walk longer than the file"); break; }
      }
      c->GetLast(e); Blk(e, false);
      sink = c->GetEntryCount();
      for (long i = -1; i <= c->GetEntryCount() && i < 20; ++i) { const mp::BlockEntry* x = nullptr; c->GetEntry(i, x); }
      (void)sink;
      c = s->GetNext(c);
      if (++guard > rd.d.size() + 10) { R().viol("endless_walk", "segment walk longer than the file"); break; }
    }
    s->GetLast();
  }
  long long AnyTime() {
    switch (r.u(5)) {
      case 0: return 0;
      case 1: return (long long)r.edgy(1ULL << 62);
      case 2: { const mp::Cluster* c = s->GetLast(); return c && !c->EOS() ? c->GetTime() : 1; }
      case 3: return -(long long)r.u(1000);
      default: return (long long)r.u(100000) * 1000000;
    }
  }
  void TracksWalk() {
    const mp::Tracks* ts = s->GetTracks();
    if (!ts) return;
    for (unsigned long i = 0; i < ts->GetTracksCount(); ++i) {
      const mp::Track* t = ts->GetTrackByIndex(i);
      if (!t) continue;
      const mp::BlockEntry* e = nullptr;
      long st = t->GetFirst(e);
      uint64_t guard = 0;
      while (st >= 0 && e && !e->EOS()) {
        Blk(e, false);
        t->VetEntry(e);
        st = t->GetNext(e, e);
        if (++guard > rd.d.size() + 10) { R().viol("endless_walk", "track walk longer than the file"); break; }
      }
      for (int k = 0; k < 3; ++k) {
        const mp::BlockEntry* x = nullptr;
        if (t->Seek(AnyTime(), x) >= 0) Blk(x, false);
        ++seeks;
      }
      if (const mp::Cluster* c = s->FindCluster(AnyTime())) if (!c->EOS()) Blk(c->GetEntry(t, AnyTime()), false);
    }
  }
  void CuesWalk() {
    const mp::Cues* q = s->GetCues();
    if (!q) return;
    const mp::Tracks* ts = s->GetTracks();
    auto track = [&]() -> const mp::Track* { return ts && ts->GetTracksCount() ? ts->GetTrackByIndex(r.u(ts->GetTracksCount())) : nullptr; };
    auto look = [&](const mp::CuePoint* p) {
      if (!p) return;
      volatile long long sink = p->GetTimeCode(); sink = p->GetTime(s); (void)sink;
      if (const mp::Track* t = track()) if (auto* tp = p->Find(t)) { const mp::BlockEntry* e = q->GetBlock(p, tp); Blk(e, true); if (r.chance(30)) Follow(e); ++cues; }
    };
    auto find = [&]() {
      const mp::CuePoint* p = nullptr; const mp::CuePoint::TrackPosition* tp = nullptr;
      const mp::Track* t = track();
      if (t && q->Find(AnyTime(), t, p, tp)) { look(p); Blk(q->GetBlock(p, tp), false); }
    };
    if (r.coin()) find();
    uint64_t guard = 0;
    while (!q->DoneParsing() && ++guard < rd.d.size() + 10) { if (!q->LoadCuePoint()) break; if (r.chance(20)) find(); }
    if (guard >= rd.d.size() + 10) R().viol("endless_walk", "cue loading longer than the file");
    if (q->GetCount() > 0) {
      look(q->GetLast());
      guard = 0;
      for (const mp::CuePoint* p = q->GetFirst(); p; p = q->GetNext(p)) { look(p); if (++guard > rd.d.size() + 10) { R().viol("endless_walk", "cue walk longer than the file"); break; } }
    }
    find(); find();
  }
  // Continues from a block found through the cues or a preloaded cluster.
  void Follow(const mp::BlockEntry* e) {
    if (!e || e->EOS()) return;
    const mp::Tracks* ts = s->GetTracks();
    const mp::Track* t = ts ? ts->GetTrackByNumber((long)e->GetBlock()->GetTrackNumber()) : nullptr;
    for (int i = 0; t && i < 6; ++i) {
      const mp::BlockEntry* n = nullptr;
      if (t->GetNext(e, n) < 0 || !n || n->EOS()) break;
      Blk(n, false);
      e = n;
    }
    const mp::Cluster* c = e->GetCluster();
    for (int i = 0; c && !c->EOS() && i < 6; ++i) { volatile long long x = c->GetTime(); (void)x; c = s->GetNext(c); ++follows; }
    On(e->GetCluster());
  }
  // Continues from a cluster that need not be loaded.
  void On(const mp::Cluster* c) {
    for (int i = 0; c && !c->EOS() && i < 6; ++i) {
      const mp::Cluster* n = nullptr;
      long long p = -1; long len = -1;
      if (r.chance(30)) for (int k = 0; k < 4 && c->Parse(p, len) == 0; ++k) {}
      if (s->ParseNext(c, n, p, len) != 0 || !n || n->EOS()) break;
      const mp::BlockEntry* e = nullptr;
      if (n->GetFirst(e) == 0) Blk(e, false);
      ++parse_nexts;
      c = n;
    }
  }
  uint64_t parse_nexts = 0;
  uint64_t follows = 0;
  void Preload() {
    long long at = (long long)r.edgy(rd.d.size() + 2);
    if (r.chance(60)) {
      std::vector<size_t> v;
      for (size_t p = rd.d.find("\x1f\x43\xb6\x75"); p != Bytes::npos; p = rd.d.find("\x1f\x43\xb6\x75", p + 1)) v.push_back(p);
      if (!v.empty()) at = (long long)v[r.u(v.size())] - s->m_start;
    }
    const mp::Cluster* c = s->FindOrPreloadCluster(at);
    if (c && !c->EOS()) {
      if (r.coin()) On(c);
      volatile long long sink = c->GetTimeCode(); (void)sink;
      const mp::BlockEntry* e = nullptr;
      if (c->GetFirst(e) == 0) { Blk(e, false); if (r.coin()) Follow(e); }
    }
  }
  void Random(int steps) {
    while (steps--) switch (r.u(6)) {
      case 0: Meta(); break;
      case 1: Clusters(); break;
      case 2: TracksWalk(); break;
      case 3: CuesWalk(); break;
      case 4: Preload(); break;
      default: { if (const mp::Cluster* c = s->FindCluster(AnyTime())) { volatile long long x = c->EOS() ? 0 : c->GetTime(); (void)x; } break; }
    }
  }
};

}  // namespace mkv
#endif
