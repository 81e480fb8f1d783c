// Random well-formed WebM/Matroska documents with ground truth (the tree).
#ifndef VERIF_GEN_H_
#define VERIF_GEN_H_
#include "ebml.h"

namespace vf {

struct GenOpt {
  bool mkv = false;        // restrict to what the file parser documents as supported
  int max_clusters = 5;
  int max_blocks = 8;
  bool unknown_sizes = true;
  bool extras = true;      // Void / unknown elements sprinkled in
  bool zero_len = true;    // zero-length leaves meaning default (streaming parser)
  bool multi = true;       // several EBML/Segment pairs
  bool cues = true;
  int max_depth = 4;       // nesting of ChapterAtom/SimpleTag
  int big_pct = 3;         // frames above the 1- and 2-byte size limits
  bool monotone = false;   // clusters and blocks with non-decreasing times
  bool interop = false;    // avoid everything but plain content
};

struct Doc {
  std::vector<Node> top;
  Bytes bytes;
  Gaps gaps;
  uint64_t size() const { return bytes.size() + gaps.sum; }
};

inline uint32_t UnknownId(Rng& r) {
  for (;;) {
    uint32_t id;
    switch (r.u(4)) {
      case 0: id = 0x80 | (uint32_t)r.range(1, 0x7e); break;
      case 1: id = 0x4000 | (uint32_t)r.range(0x80, 0x3ffe); break;
      case 2: id = 0x200000 | (uint32_t)r.range(0x4000, 0x1ffffe); break;
      default: id = 0x10000000 | (uint32_t)r.range(0x200000, 0xffffffe); break;
    }
    if (id == ID_Void || FindElAny(id)) continue;
    // Ids the file parser additionally understands.
    static const uint32_t kMore[] = {0x536E, 0x4DBB, 0x73A4, 0x7384, 0x5854, 0xA7, 0x45BC, 0x45BD, 0x45DB, 0x4598, 0x98, 0x73C9};
    bool bad = false;
    for (uint32_t k : kMore) if (k == id) bad = true;
    if (!bad) return id;
  }
}

inline double GenFloat(Rng& r) {
  switch (r.u(6)) {
    case 0: return 0.0;
    case 1: return (double)r.u(100000);
    case 2: return r.unit();
    case 3: return -(double)r.u(1000) - r.unit();
    case 4: return (double)r.next();
    default: return r.unit() * 100000.0;
  }
}

inline void MaybeEncoding(Node& n, Rng& r) {
  if (r.chance(20)) n.size_len = (int)r.range(1, 8);
  if ((n.type == 'U' || n.type == 'I' || n.type == 'O') && r.chance(20)) n.width = (int)r.range(1, 8);
}

inline Node GenLeaf(const El& e, Rng& r, const GenOpt& o) {
  Node n;
  n.id = e.id; n.type = e.type;
  switch (e.type) {
    case 'O': n.u = r.u(2); break;
    case 'U': {
      uint64_t hi = e.hi;
      if (o.mkv && hi > (1ULL << 62)) hi = (1ULL << 62);
      n.u = hi - e.lo == ~0ULL ? r.edgy() : e.lo + r.edgy(hi - e.lo);
      break;
    }
    case 'I': n.i = (int64_t)r.edgy(); if (r.coin()) n.i = (int64_t)(0 - (uint64_t)n.i); break;
    case 'D': n.i = (int64_t)r.edgy(); if (r.coin()) n.i = (int64_t)(0 - (uint64_t)n.i); break;
    case 'F': n.width = r.coin() ? 4 : 8; n.f = GenFloat(r); if (n.width == 4) n.f = (double)(float)n.f; break;
    case 'S': n.b = r.text(r.chance(10) ? 300 : 20); if (r.chance(10)) n.nulpad = (int)r.range(1, 5); break;
    case 'X': {
      static const uint32_t ids[] = {ID_Info, ID_Tracks, ID_Cues, ID_Tags, ID_Chapters, ID_Cluster, 0x1A2B3C4D, 0x4ABC, 0xC1, 0x2ABCDE};
      PutId(&n.b, ids[r.u(10)]);
      break;
    }
    default: n.b = r.bytes(r.chance(10) ? r.u(400) : r.u(24)); break;
  }
  if (o.mkv && n.type == 'B' && n.b.empty()) n.b = r.bytes(r.range(1, 9));
  MaybeEncoding(n, r);
  if (o.zero_len && !o.mkv && r.chance(6) && strchr("UIFDSBO", n.type)) {
    n.zero = true; n.nulpad = 0;
  }
  return n;
}

inline Node GenVoid(Rng& r) { Node n = NB(ID_Void, r.bytes(r.chance(10) ? r.u(300) : r.u(12))); if (r.chance(25)) n.size_len = (int)r.range(1, 8); return n; }
inline Node GenUnknown(Rng& r) { Node n = NB(UnknownId(r), r.bytes(r.chance(10) ? r.u(300) : r.u(12))); if (r.chance(25)) n.size_len = (int)r.range(1, 8); return n; }

// May Void/unknown elements be put inside this master?
inline bool ExtrasOk(uint32_t id, const GenOpt& o) {
  if (!o.extras) return false;
  if (!o.mkv) return true;
  // The file parser documents Colour/MasteringMetadata/Projection as closed sets.
  return id != ID_Colour && id != ID_MasteringMetadata && id != ID_Projection;
}

inline void Sprinkle(Node& n, Rng& r, const GenOpt& o, size_t first = 0) {
  if (!ExtrasOk(n.id, o)) return;
  int k = r.chance(25) ? (int)r.range(1, 2) : 0;
  while (k--) {
    size_t at = first + r.u(n.kids.size() + 1 - first);
    Node x = r.coin() ? GenVoid(r) : GenUnknown(r);
    n.kids.insert(n.kids.begin() + at, std::move(x));
  }
}
inline void Shuffle(std::vector<Node>& v, Rng& r, size_t first = 0) {
  for (size_t i = v.size(); i > first + 1; --i) std::swap(v[i - 1], v[first + r.u(i - first)]);
}

inline Node GenMaster(uint32_t id, Rng& r, const GenOpt& o, int depth = 0) {
  Node n = NM(id);
  for (const El* e : KidsOf(id)) {
    if (!e->core && !o.mkv && !r.chance(10)) continue;  // unknown to the streaming parser
    int cnt;
    if (e->many) {
      cnt = r.chance(50) ? (int)r.u(4) : (e->must ? 1 : 0);
      if (e->must && cnt == 0) cnt = 1;
      if (e->id == id) cnt = depth >= o.max_depth ? 0 : (r.chance(40) ? (int)r.range(1, 2) : 0);
    } else {
      cnt = e->must || r.chance(60) ? 1 : 0;
    }
    for (int c = 0; c < cnt; ++c) {
      if (e->type == 'M') n.kids.push_back(GenMaster(e->id, r, o, e->id == id ? depth + 1 : 0));
      else n.kids.push_back(GenLeaf(*e, r, o));
    }
  }
  if (r.coin()) Shuffle(n.kids, r);
  Sprinkle(n, r, o);
  if (r.chance(20)) n.size_len = (int)r.range(1, 8);
  return n;
}

inline Bytes GenFrame(Rng& r, const GenOpt& o) {
  uint64_t n;
  if ((int)r.u(100) < o.big_pct) n = r.chance(6) ? r.pick<uint64_t>({32767, 32768, 65534, 65535, 65536, 65790, 66000, 131100}) : r.pick<uint64_t>({126, 127, 128, 129, 254, 255, 256, 510, 511, 1000, 16380, 16383, 16384, 16385, 20000});
  else n = r.range(1, 40);
  return r.bytes(n);
}

inline std::shared_ptr<BlockData> GenBlock(Rng& r, const GenOpt& o, uint64_t track, int16_t tc) {
  auto b = std::make_shared<BlockData>();
  b->track = track;
  b->track_len = SizeLen(track);
  if (r.chance(8)) b->track_len = (int)std::min<uint64_t>(8, b->track_len + r.u(3));
  b->tc = tc;
  b->key = r.coin();
  b->invisible = r.chance(15);
  b->discardable = r.chance(15);
  if (r.chance(35)) {
    b->lace = (int)r.range(1, 3);
    if (b->lace == kEbml && r.chance(25)) b->lace_wide = (uint32_t)r.next() | 1;
    int nf = r.chance(5) ? (int)r.range(1, 256) : r.chance(10) ? 1 : (int)r.range(2, 8);
    GenOpt small = o;
    if (nf > 16) small.big_pct = 0;
    Bytes fixed = GenFrame(r, o);
    if (nf > 16 && fixed.size() > 64) fixed.resize(64);
    for (int i = 0; i < nf; ++i) {
      if (b->lace == kFixed) b->frames.push_back(r.bytes(fixed.size()));
      else b->frames.push_back(GenFrame(r, small));
    }
  } else {
    b->frames.push_back(GenFrame(r, o));
  }
  return b;
}

inline Node GenBlockGroup(Rng& r, const GenOpt& o, uint64_t track, int16_t tc) {
  Node g = NM(ID_BlockGroup);
  auto bd = GenBlock(r, o, track, tc);
  g.kids.push_back(NK(ID_Block, bd));
  if (r.chance(20)) g.kids.back().size_len = (int)r.range(1, 8);
  if (!o.mkv && r.chance(15)) {
    auto v = std::make_shared<BlockData>();
    v->track = r.range(1, 200); v->track_len = SizeLen(v->track); v->tc = (int16_t)r.next();
    v->frames.push_back(r.chance(40) ? r.bytes(r.range(1, 20)) : Bytes());
    Node n = NK(ID_BlockVirtual, v);
    g.kids.push_back(n);
  }
  for (const El* e : KidsOf(ID_BlockGroup)) {
    if (e->type == 'K') continue;
    if (!r.chance(40)) continue;
    int cnt = e->many ? (int)r.range(1, 2) : 1;
    for (int i = 0; i < cnt; ++i) {
      if (e->type == 'M') g.kids.push_back(GenMaster(e->id, r, o));
      else {
        Node n = GenLeaf(*e, r, o);
        if (o.mkv && e->id == ID_ReferenceBlock) { n.i = r.irange(-5000, 5000); if (n.i == 0) n.i = -1; }
        if (o.mkv && e->id == ID_BlockDuration) n.u = r.edgy(1ULL << 40);
        g.kids.push_back(n);
      }
    }
  }
  if (r.coin()) Shuffle(g.kids, r);
  Sprinkle(g, r, o);
  if (r.chance(20)) g.size_len = (int)r.range(1, 8);
  return g;
}

inline void SetKid(Node& n, const Node& k) {
  for (auto& c : n.kids) if (c.id == k.id) { Node t = k; c = t; return; }
  n.kids.push_back(k);
}

// Does |id| parse as a child of |parent| (streaming parser view)?
inline bool CoreKid(uint32_t id, uint32_t parent) {
  if (id == ID_Void) return true;
  const El* e = FindEl(id, parent);
  return e && e->core;
}
inline void AssignUnknown(Node& n, uint32_t follow, Rng& r, int pct) {
  for (size_t i = 0; i < n.kids.size(); ++i) {
    Node& k = n.kids[i];
    if (!k.master()) continue;
    uint32_t f = i + 1 < n.kids.size() ? n.kids[i + 1].id : (n.unknown ? follow : 0);
    const El* e = FindEl(k.id, n.id);
    bool ok = e && e->core && (f == 0 || (f != ID_Void && FindElAny(f) && FindElAny(f)->core && !CoreKid(f, k.id)));
    // An unknown-size master must not contain ids unknown to it.
    for (auto& g : k.kids) if (!CoreKid(g.id, k.id)) ok = false;
    // Something following must be recognisable by an ancestor that can hold it.
    if (ok && (int)r.u(100) < pct) { k.unknown = true; k.size_len = (int)r.range(1, 8); }
    AssignUnknown(k, f, r, pct);
  }
}

inline void FixRefs(std::vector<Node>& top) {
  for (bool again = true; again;) {  // a larger value can need more bytes
    again = false;
    Layout(top);
    for (auto& s : top) {
      if (s.id != ID_Segment) continue;
      std::map<int, uint64_t> at;
      std::function<void(Node&)> scan = [&](Node& n) { if (n.tag) at[n.tag] = n.pos - (s.pos + s.hdr); for (auto& k : n.kids) scan(k); };
      scan(s);
      std::function<void(Node&)> fix = [&](Node& n) {
        if (n.ref && n.u != at[n.ref]) {
          if (UIntLen(at[n.ref]) > std::max(n.width, 4)) { n.width = 8; again = true; }
          n.u = at[n.ref];
        }
        for (auto& k : n.kids) fix(k);
      };
      fix(s);
    }
  }
}

// Puts elements of gigabytes into the document; only a reader that knows |gaps| can read it.
inline void Stretch(Doc& d, Rng& r) {
  int n = (int)r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    std::vector<Node*> at;
    for (auto& s : d.top) {
      if (s.id != ID_Segment) continue;
      at.push_back(&s);
      for (auto& c : s.kids) if (c.id == ID_Cluster) at.push_back(&c);
    }
    if (at.empty()) return;
    std::vector<Node>& v = at[r.chance(40) ? 0 : r.u(at.size())]->kids;
    Node g; g.id = ID_Void; g.type = 'B';
    g.gap = (1ULL << r.pick<int>({31, 31, 32, 32, 33, 40, 45})) + (r.coin() ? r.u(600) : -(uint64_t)r.u(600));
    if (r.chance(30)) g.b = r.bytes(r.range(1, 20));
    size_t k = r.u(v.size() + 1);
    if (k && v[k - 1].unknown) continue;  // it would belong to that element
    v.insert(v.begin() + k, g);
  }
}

inline Node GenSegment(Rng& r, const GenOpt& o) {
  Node seg = NM(ID_Segment);
  std::vector<Node> pre;
  int tag = 1;
  Node info = GenMaster(ID_Info, r, o);
  uint64_t scale = r.pick<uint64_t>({1000000, 1000000, 1000000, 1, 1000, 100000, 41666, 1000000000});
  if (o.mkv) {
    for (size_t i = 0; i < info.kids.size();) { if (info.kids[i].id == ID_TimecodeScale || info.kids[i].id == ID_Duration) info.kids.erase(info.kids.begin() + i); else ++i; }
    if (r.chance(85)) info.kids.insert(info.kids.begin() + r.u(info.kids.size() + 1), NU(ID_TimecodeScale, scale, r.chance(30) ? (int)r.range(1, 8) : 0));
    else scale = 1000000;
    if (r.chance(80)) info.kids.insert(info.kids.begin() + r.u(info.kids.size() + 1), NF(ID_Duration, (double)r.u(1000000) + (r.coin() ? 0.5 : 0), r.coin() ? 4 : 8));
  }
  info.tag = tag++;
  Node tracks = NM(ID_Tracks);
  int nt = (int)r.range(1, r.chance(10) ? 8 : 3);
  std::vector<uint64_t> nums;
  for (int i = 0; i < nt; ++i) {
    Node t = GenMaster(ID_TrackEntry, r, o);
    uint64_t num;
    do { num = r.chance(60) ? i + 1 : (o.mkv ? r.range(1, 127) : r.range(1, 300)); } while (std::find(nums.begin(), nums.end(), num) != nums.end());
    nums.push_back(num);
    SetKid(t, NU(ID_TrackNumber, num, r.chance(20) ? (int)r.range(1, 8) : 0));
    uint64_t type = r.pick<uint64_t>({1, 1, 2, 2, 17, 33, 3});
    SetKid(t, NU(ID_TrackType, type));
    if (o.mkv) {
      // Video settings exactly on video tracks, audio settings exactly on audio tracks.
      for (size_t k = 0; k < t.kids.size();) {
        uint32_t id = t.kids[k].id;
        if ((id == ID_Video && type != 1) || (id == ID_Audio && type != 2)) t.kids.erase(t.kids.begin() + k); else ++k;
      }
      if (type == 1 && !t.kid(ID_Video)) t.kids.push_back(GenMaster(ID_Video, r, o));
      if (type == 2 && !t.kid(ID_Audio)) t.kids.push_back(GenMaster(ID_Audio, r, o));
      if (type == 2) { Node* a = t.kid(ID_Audio); Node* sf = a->kid(ID_SamplingFrequency); if (sf && !(sf->f > 0)) sf->f = 44100; }
      if (type == 1) {
        Node* v = t.kid(ID_Video);
        if (Node* fr = v->kid(ID_FrameRate)) if (!(fr->f > 0)) fr->f = 24;
      }
    }
    tracks.kids.push_back(t);
  }
  Sprinkle(tracks, r, o);
  tracks.tag = tag++;
  pre.push_back(info);
  pre.push_back(tracks);
  bool tags_after = false, chap_after = false;
  std::vector<Node> post;
  if (r.chance(40)) { Node c = GenMaster(ID_Chapters, r, o); c.tag = tag++; chap_after = !o.mkv && r.chance(30); (chap_after ? post : pre).push_back(c); }
  if (r.chance(40)) { Node c = GenMaster(ID_Tags, r, o); c.tag = tag++; tags_after = !o.mkv && r.chance(30); (tags_after ? post : pre).push_back(c); }
  // Clusters
  std::vector<Node> clusters;
  int nc = (int)r.u(o.max_clusters + 1);
  if (o.mkv && nc == 0) nc = 1;
  uint64_t tc = o.monotone ? r.u(1000) : 0;
  struct CueT { uint64_t time, track, block; int tag; };
  std::vector<CueT> cues;
  for (int c = 0; c < nc; ++c) {
    Node cl = NM(ID_Cluster);
    cl.tag = tag++;
    tc += r.chance(10) ? 0 : r.pick<uint64_t>({1, 33, 1000, 5000, 40000});
    if (o.monotone && r.chance(70)) tc += 1;
    if (!o.mkv && r.chance(10)) tc = r.edgy();
    cl.kids.push_back(NU(ID_Timecode, tc, r.chance(30) ? (int)r.range(1, 8) : 0));
    if (r.chance(30)) cl.kids.push_back(NU(ID_PrevSize, r.u(100000)));
    if (!o.mkv && r.chance(10)) Shuffle(cl.kids, r);
    int nb = (int)r.u(o.max_blocks + 1);
    if (o.mkv && nb == 0) nb = 1;
    int64_t rel = o.monotone ? 0 : 0;
    uint64_t bi = 0;
    for (int b = 0; b < nb; ++b) {
      uint64_t track = r.pick(nums);
      int16_t t;
      if (o.monotone) { rel += r.pick<int64_t>({0, 1, 10, 33, 100}); if (rel > 32767) rel = 32767; t = (int16_t)rel; }
      else if (r.chance(10)) t = r.pick<int16_t>({-32768, -1, 0, 1, 127, 128, 255, 256, 32767, -32767});
      else t = (int16_t)(rel += r.irange(0, 200));
      // mkv profile: absolute times must stay non-negative
      if (o.mkv && t < 0 && (uint64_t)(-(int)t) > tc) t = 0;
      Node n;
      if (r.chance(60)) { n = NK(ID_SimpleBlock, GenBlock(r, o, track, t)); if (r.chance(20)) n.size_len = (int)r.range(1, 8); }
      else n = GenBlockGroup(r, o, track, t);
      ++bi;
      if (r.chance(35)) cues.push_back({tc + (uint64_t)(int64_t)t, track, bi, cl.tag});
      cl.kids.push_back(n);
    }
    if (!o.mkv && r.chance(8)) Shuffle(cl.kids, r);
    Sprinkle(cl, r, o, o.mkv ? 1 : 0);
    if (r.chance(20)) cl.size_len = (int)r.range(1, 8);
    if (o.monotone) tc += rel;
    clusters.push_back(cl);
  }
  Node cn;
  bool have_cues = o.cues && r.chance(60) && (!cues.empty() || !o.mkv);
  bool cues_front = r.chance(40);
  if (have_cues) {
    if (o.mkv) std::stable_sort(cues.begin(), cues.end(), [](const CueT& a, const CueT& b) { return a.time < b.time; });
    cn = NM(ID_Cues);
    cn.tag = tag++;
    for (size_t i = 0; i < cues.size();) {
      size_t j = i + 1;
      // Group cues of the same time (one per track) in one CuePoint.
      std::set<uint64_t> tr; tr.insert(cues[i].track);
      while (j < cues.size() && cues[j].time == cues[i].time && !tr.count(cues[j].track)) tr.insert(cues[j++].track);
      if (o.mkv) { size_t k = j; while (k < cues.size() && cues[k].time == cues[i].time) ++k;  // drop further duplicates
        cues.erase(cues.begin() + j, cues.begin() + k); }
      Node cp = NM(ID_CuePoint);
      cp.kids.push_back(NU(ID_CueTime, cues[i].time, r.chance(20) ? 8 : 0));
      for (size_t k = i; k < j; ++k) {
        Node tp = NM(ID_CueTrackPositions);
        tp.kids.push_back(NU(ID_CueTrack, cues[k].track));
        Node pos = NU(ID_CueClusterPosition, 0, r.coin() ? 8 : 4);
        pos.ref = cues[k].tag;
        tp.kids.push_back(pos);
        if (cues[k].block != 1 || r.chance(20)) tp.kids.push_back(NU(ID_CueBlockNumber, cues[k].block));
        if (!o.mkv && r.chance(30)) tp.kids.push_back(NU(ID_CueRelativePosition, r.u(10000)));
        if (!o.mkv && r.chance(30)) tp.kids.push_back(NU(ID_CueDuration, r.u(10000)));
        if (r.chance(30)) Shuffle(tp.kids, r);
        Sprinkle(tp, r, o);
        cp.kids.push_back(tp);
      }
      if (!o.mkv && r.chance(30)) Shuffle(cp.kids, r);
      Sprinkle(cp, r, o, 0);
      if (r.chance(20)) cp.size_len = (int)r.range(1, 8);
      cn.kids.push_back(cp);
      i = j;
    }
    Sprinkle(cn, r, o);
    if (cues_front) pre.push_back(cn); else post.push_back(cn);
  }
  if (r.coin()) Shuffle(pre, r);
  if (r.coin()) Shuffle(post, r);
  bool seek = r.chance(60);
  int seek_n = seek ? 1 : 0;
  for (int s = 0; s < seek_n; ++s) {
    Node sh = NM(ID_SeekHead);
    std::vector<std::pair<uint32_t, int>> targets;
    for (auto& n : pre) if (n.tag) targets.push_back({n.id, n.tag});
    for (auto& n : post) if (n.tag) targets.push_back({n.id, n.tag});
    for (auto& t : targets) {
      if (r.chance(15)) continue;
      Node k = NM(ID_Seek);
      Node sid; sid.id = ID_SeekID; sid.type = 'X'; PutId(&sid.b, t.first);
      k.kids.push_back(sid);
      Node sp = NU(ID_SeekPosition, 0, r.coin() ? 8 : 4);
      sp.ref = t.second;
      k.kids.push_back(sp);
      if (!o.mkv && r.chance(20)) Shuffle(k.kids, r);
      sh.kids.push_back(k);
    }
    Sprinkle(sh, r, o);
    pre.insert(pre.begin(), sh);
  }
  for (auto& n : pre) seg.kids.push_back(n);
  for (auto& n : clusters) seg.kids.push_back(n);
  for (auto& n : post) seg.kids.push_back(n);
  if (o.extras) Sprinkle(seg, r, o);
  if (r.chance(50)) seg.size_len = (int)r.range(1, 8);
  return seg;
}

inline Node GenEbml(Rng& r, const GenOpt& o) {
  Node n = NM(ID_EBML);
  auto add = [&](uint32_t id, uint64_t lo, uint64_t hi, int pct) { if (r.chance(pct)) { Node k = NU(id, r.range(lo, hi)); MaybeEncoding(k, r); n.kids.push_back(k); } };
  add(ID_EBMLVersion, 1, 1, 80);
  add(ID_EBMLReadVersion, 1, 1, 80);
  add(ID_EBMLMaxIDLength, 4, 4, 80);
  add(ID_EBMLMaxSizeLength, o.mkv ? 8 : 1, 8, 80);
  n.kids.push_back(NS(ID_DocType, r.coin() ? "webm" : r.coin() ? "matroska" : r.text(30)));
  if (o.mkv && n.kids.back().b.empty()) n.kids.back().b = "webm";
  add(ID_DocTypeVersion, 1, 4, 80);
  add(ID_DocTypeReadVersion, 1, 2, 80);
  if (r.coin()) Shuffle(n.kids, r);
  Sprinkle(n, r, o);
  if (r.chance(20)) n.size_len = (int)r.range(1, 8);
  return n;
}

inline Doc GenDoc(Rng& r, const GenOpt& o) {
  Doc d;
  int k = (o.multi && !o.mkv && r.chance(12)) ? 2 : 1;
  for (int i = 0; i < k; ++i) {
    if (!o.mkv && o.extras && r.chance(8)) d.top.push_back(GenVoid(r));
    if (!o.mkv && o.extras && r.chance(5)) d.top.push_back(GenUnknown(r));
    d.top.push_back(GenEbml(r, o));
    d.top.push_back(GenSegment(r, o));
  }
  if (o.unknown_sizes && r.chance(45)) {
    if (!o.mkv) {
      int pct = r.pick<int>({5, 30, 80});
      for (size_t i = 0; i < d.top.size(); ++i) {
        Node& n = d.top[i];
        uint32_t f = i + 1 < d.top.size() ? d.top[i + 1].id : 0;
        bool ok = n.master() && (f == 0 || (f != ID_Void && FindElAny(f)));
        for (auto& g : n.kids) if (!CoreKid(g.id, n.id)) ok = false;
        if (ok && (int)r.u(100) < pct + 20) { n.unknown = true; n.size_len = (int)r.range(1, 8); }
        AssignUnknown(n, f, r, pct);
      }
    } else {
      Node& seg = d.top.back();
      if (r.coin()) { seg.unknown = true; seg.size_len = (int)r.range(1, 8); }
      // Live-style clusters of unknown size: only when nothing unknown to a cluster follows wrongly.
      if (r.coin()) {
        for (size_t i = 0; i < seg.kids.size(); ++i) {
          Node& c = seg.kids[i];
          if (c.id != ID_Cluster) continue;
          uint32_t f = i + 1 < seg.kids.size() ? seg.kids[i + 1].id : 0;
          bool ok = f == 0 || f == ID_Cluster || f == ID_Cues;
          for (auto& g : c.kids) if (!CoreKid(g.id, ID_Cluster)) ok = false;
          if (ok && r.chance(70)) { c.unknown = true; c.size_len = 8; }
        }
      }
    }
  }
  FixRefs(d.top);
  d.bytes = Layout(d.top);
  return d;
}

// ---------------------------------------------------------------- mutation
inline void CollectNodes(std::vector<Node>& v, std::vector<Node*>* out) {
  for (auto& n : v) { out->push_back(&n); CollectNodes(n.kids, out); }
}
inline Bytes MutateBytes(Bytes b, Rng& r, int max_edits = 6) {
  int k = (int)r.range(1, max_edits);
  while (k--) {
    if (b.empty()) { b = r.bytes(r.range(1, 40)); continue; }
    size_t at = r.u(b.size());
    switch (r.u(9)) {
      case 0: b[at] = (char)r.next(); break;
      case 1: b[at] ^= (char)(1 << r.u(8)); break;
      case 2: b.resize(at); break;
      case 3: b.insert(at, r.bytes(r.range(1, 8))); break;
      case 4: b.erase(at, r.range(1, 8)); break;
      case 5: { size_t n = std::min<size_t>(b.size() - at, r.range(1, 9)); for (size_t i = 0; i < n; ++i) b[at + i] = (char)r.pick<int>({0, 0xff, 0x7f, 0x80, 1}); break; }
      case 6: { size_t n = std::min<size_t>(b.size() - at, r.range(1, 64)); b.insert(r.u(b.size()), b.substr(at, n)); break; }
      case 7: { // huge size
        static const char* const k8[] = {"\x01\xff\xff\xff\xff\xff\xff\xff", "\x01\xff\xff\xff\xff\xff\xff\xfe", "\x01\x80\x00\x00\x00\x00\x00\x00", "\x01\x00\x00\x00\x80\x00\x00\x00", "\x01\x00\x00\x00\x7f\xff\xff\xff"};
        Bytes s(k8[r.u(5)], 8);
        if (r.coin()) b.insert(at, s); else { b.replace(at, std::min<size_t>(8, b.size() - at), s); }
        break; }
      default: b[at] = (char)((uint8_t)b[at] + (r.coin() ? 1 : -1)); break;
    }
    if (b.size() > 400000) b.resize(400000);
  }
  return b;
}
// Structure-aware damage: applied to the tree before layout, plus raw patches after.
inline Bytes MutateDoc(Doc& d, Rng& r) {
  int k = (int)r.range(1, 4);
  struct Patch { uint64_t at; Bytes with; };
  while (k--) {
    std::vector<Node*> all;
    CollectNodes(d.top, &all);
    if (all.empty()) break;
    Node* n = all[r.u(all.size())];
    switch (r.u(9)) {
      case 0: if (!n->kids.empty()) n->kids.erase(n->kids.begin() + r.u(n->kids.size())); break;
      case 1: if (!n->kids.empty()) { Node c = n->kids[r.u(n->kids.size())]; n->kids.insert(n->kids.begin() + r.u(n->kids.size() + 1), c); } break;
      case 2: { Node c = *all[r.u(all.size())]; if (n->master() && c.kids.size() < 50) n->kids.push_back(c); break; }
      case 3: if (!n->master()) { n->type = 'B'; n->zero = false; n->b = r.bytes(r.u(20)); } break;
      case 4: if (!n->master()) { n->type = 'B'; n->zero = false; n->b = UIntBytes(r.edgy(), 8); } break;
      case 5: n->id = all[r.u(all.size())]->id; break;
      case 6: n->unknown = true; n->size_len = (int)r.range(1, 8); break;
      case 7: if (n->type == 'K' || n->type == 'B' || n->type == 'S') { n->b = MutateBytes(n->b, r, 3); } break;
      default: if (!n->master()) { n->zero = true; } break;
    }
  }
  // Size check to keep things small.
  Bytes b = Layout(d.top);
  if (b.size() > 600000) b.resize(600000);
  int patches = (int)r.u(3);
  std::vector<Node*> all;
  CollectNodes(d.top, &all);
  while (patches-- && !all.empty()) {
    Node* n = all[r.u(all.size())];
    uint64_t at = n->pos + IdLen(n->id);
    int sl = (int)(n->hdr - IdLen(n->id));
    if (at + sl > b.size()) continue;
    Bytes s;
    uint64_t v;
    switch (r.u(5)) {
      case 0: v = n->body + 1; break;
      case 1: v = n->body ? n->body - 1 : 0; break;
      case 2: v = r.edgy(); break;
      case 3: v = n->body + r.u(1000); break;
      default: v = 0; break;
    }
    v &= (1ULL << (7 * sl)) - 1;
    PutSize(&s, v, sl);
    b.replace(at, sl, s);
  }
  if (r.chance(15) && !b.empty()) b.resize(r.u(b.size() + 1));
  return b;
}

}  // namespace vf
#endif
