#include "mkv_common.h"

using namespace mkv;

namespace {

GenOpt Opt(Rng& r) {
  GenOpt o;
  o.mkv = true; o.zero_len = false; o.multi = false;
  o.max_clusters = r.chance(10) ? 14 : 5;
  o.max_blocks = r.chance(10) ? 30 : 8;
  o.monotone = r.chance(60);
  return o;
}
// Now and then a document large enough to outgrow the parser's preallocated tables.
bool Large(GenOpt& o, Rng& r, int one_in) {
  if (r.u(one_in)) return false;
  if (r.coin()) { o.max_clusters = 2; o.max_blocks = r.coin() ? 1500 : 4500; } else { o.max_clusters = 6000; o.max_blocks = 2; }
  o.big_pct = 0; o.extras = r.chance(30);
  R().count("large");
  return true;
}
// Something after the end of a segment of known size: not part of it.
void Trail(Doc& d, Rng& r) {
  if (d.top.back().unknown || !r.chance(20)) return;
  for (int n = (int)r.range(1, 2); n--;) {
    if (r.chance(60)) { GenOpt o; o.mkv = true; o.zero_len = false; o.multi = false; o.unknown_sizes = false; o.max_clusters = 2; o.max_blocks = 2; d.bytes += GenDoc(r, o).bytes; }
    else { std::vector<Node> v; v.push_back(GenVoid(r)); d.bytes += Layout(v); }
  }
  R().count("trailing");
}

// ------------------------------------------------------------------ C01
Bytes HostileInput(Rng& r) {
  switch (r.u(14)) {
    case 10: case 11: case 12: case 13: {  // damage after the headers only
      Doc d = GenDoc(r, Opt(r));
      std::vector<Node*> all, pick; CollectNodes(d.top, &all);
      for (Node* n : all) if (n->id == ID_Cluster || n->id == ID_Cues || n->id == ID_SeekHead) pick.push_back(n);
      if (pick.empty()) return d.bytes;
      Bytes b = d.bytes;
      for (int k = (int)r.range(1, 4); k--;) {
        Node* n = pick[r.u(pick.size())];
        std::vector<Node*> sub{n}; CollectNodes(n->kids, &sub);
        Node* x = sub[r.u(sub.size())];
        if (x->pos + x->hdr + x->body > b.size()) continue;
        uint64_t at = x->pos + (r.coin() || !x->body ? r.u(x->hdr) : x->hdr + r.u(std::min<uint64_t>(x->body, 12)));
        switch (r.u(4)) {
          case 0: b[at] = (char)r.next(); break;
          case 1: b[at] ^= (char)(1 << r.u(8)); break;
          case 2: b[at] = (char)r.pick<int>({0, 0xff, 0x80, 0x7f, 1, 0x81}); break;
          default: b[at] = (char)((uint8_t)b[at] + (r.coin() ? 1 : -1)); break;
        }
      }
      return b;
    }
    case 0: return r.bytes(r.u(400));
    case 1: { GenOpt o = Opt(r); o.mkv = false; return GenDoc(r, o).bytes; }
    case 2: { Doc d = GenDoc(r, Opt(r)); return MutateBytes(d.bytes, r); }
    case 3: { Doc d = GenDoc(r, Opt(r)); return d.bytes.substr(0, r.u(d.bytes.size() + 1)); }
    case 4: { Doc d = GenDoc(r, Opt(r)); return d.bytes; }
    case 5: { // element soup in a segment after a plain header
      Doc d = GenDoc(r, Opt(r));
      Bytes b; std::vector<Node*> all; CollectNodes(d.top, &all);
      for (int i = 0, n = (int)r.range(1, 8); i < n; ++i) { Node* x = all[r.u(all.size())]; b += d.bytes.substr(x->pos, x->hdr + x->body); }
      Node e = GenEbml(r, Opt(r)); std::vector<Node> v{e}; Bytes h = Layout(v);
      Bytes out = h; PutId(&out, ID_Segment); if (r.coin()) PutSize(&out, b.size(), 8); else out += "\x01\xff\xff\xff\xff\xff\xff\xff";
      return out + b;
    }
    default: { Doc d = GenDoc(r, Opt(r)); return MutateDoc(d, r); }
  }
}

void DriveC01(const Bytes& d, Rng& r, Rd& rd, bool growing) {
  auto grow = [&](long long pos, long len) {
    if (!growing || rd.avail >= (long long)d.size()) return false;
    long long want = pos >= 0 && len > 0 && pos < (long long)d.size() ? pos + len : rd.avail + 1;
    if (r.coin()) want = rd.avail + (long long)r.range(1, 400);
    if (want <= rd.avail) want = rd.avail + 1;
    rd.avail = std::min<long long>(want, (long long)d.size());
    return true;
  };
  mp::EBMLHeader h;
  long long pos = 0, st;
  for (;;) {
    pos = 0;
    st = h.Parse(&rd, pos);
    if (st == 0) break;
    if (st > 0 && growing && grow(pos, (long)st)) continue;
    if (st == mp::E_BUFFER_NOT_FULL && grow(0, 0)) continue;
    R().count("header_refused");
    return;
  }
  mp::Segment* s = nullptr;
  for (;;) {
    st = mp::Segment::CreateInstance(&rd, pos, s);
    if (st == 0) break;
    delete s; s = nullptr;
    if ((st > 0 || st == mp::E_BUFFER_NOT_FULL) && grow(pos, (long)st)) continue;
    R().count("segment_refused");
    return;
  }
  if (!s) { R().viol("null_segment", "CreateInstance returned 0 and no segment"); return; }
  Use u(r, s, rd);
  uint64_t before = rd.reads;
  bool loaded = false;
  if (!growing && r.chance(60)) {
    long l = s->Load();
    loaded = l >= 0;
    R().count(l >= 0 ? "loaded" : "load_refused");
  } else {
    for (;;) {
      st = s->ParseHeaders();
      if (st > 0 || st == mp::E_BUFFER_NOT_FULL) { if (grow(0, 0)) continue; break; }
      break;
    }
    R().count(st == 0 ? "headers_parsed" : "headers_refused");
    if (st == 0) {
      uint64_t guard = 0;
      if (s->GetInfo() && s->GetTracks()) {
        if (r.coin()) {
          for (;;) {
            long long p = -1; long len = -1;
            long l = s->LoadCluster(p, len);
            if (r.chance(10)) u.Random(1);
            if (l == mp::E_BUFFER_NOT_FULL && grow(p, len)) continue;
            if (l != 0) break;
            if (++guard > d.size() + 10) { R().viol("endless_load", "LoadCluster does not finish"); break; }
            R().count("clusters_loaded");
          }
        } else {
          const mp::Cluster* c = s->GetFirst();
          bool fresh = c == nullptr || c->EOS();
          if (fresh) {
            for (;;) { long long p = -1; long len = -1; long l = s->LoadCluster(p, len); if (l == mp::E_BUFFER_NOT_FULL && grow(p, len)) continue; break; }
            c = s->GetFirst();
          }
          while (c && !c->EOS()) {
            R().count("clusters_parsed_next");
            for (int k = 0; k < 40; ++k) {
              long long p = -1; long len = -1;
              long l = c->Parse(p, len);
              if (l == mp::E_BUFFER_NOT_FULL) { if (grow(p, len)) continue; break; }
              if (l != 0) break;
            }
            const mp::Cluster* n = nullptr;
            long l;
            uint64_t g2 = 0;
            for (;;) {
              long long p = -1; long len = -1;
              l = s->ParseNext(c, n, p, len);
              if (l == mp::E_BUFFER_NOT_FULL && grow(p, len)) continue;
              if (++g2 > d.size() + 1000) { R().viol("endless_load", "ParseNext does not finish"); l = -1; }
              break;
            }
            if (l != 0) break;
            c = n;
            if (++guard > d.size() + 10) { R().viol("endless_load", "ParseNext does not finish"); break; }
          }
        }
        loaded = true;
      }
    }
  }
  uint64_t work = rd.reads - before;
  if (!growing && !rd.fail_at && work > 400 * (d.size() + 200)) R().viol("work", Fmt("%" PRIu64 " reads to load %zu bytes", work, d.size()));
  if (loaded) u.Random((int)r.range(1, 6));
  R().count("entries", u.entries); R().count("frames_read", u.frames); R().count("seeks", u.seeks); R().count("cues", u.cues); R().count("follows", u.follows); R().count("parse_nexts", u.parse_nexts);
  if (rd.bad_reads) R().viol("negative_read", "reader called with a negative position or length");
  if (u.entries > 1) R().sig(Mix(Hash(d), u.entries));
  delete s;
}

void C01(uint64_t, Rng& r) {
  Bytes d = HostileInput(r);
  Rd rd(d);
  bool growing = r.chance(30);
  if (growing) { rd.avail = (long long)r.u(std::min<size_t>(d.size(), 300) + 1); rd.total_known = r.chance(70); R().count("growing"); }
  if (r.chance(20)) { rd.fail_at = r.range(1, r.coin() ? 60 : 3000); rd.sticky = r.coin(); rd.status = r.pick<int>({-1, -1, -2, -3}); R().count("faulty"); }
  R().sample(Fmt("%zu bytes growing=%d fail_at=%" PRIu64 ": ", d.size(), growing, rd.fail_at) + Hex(d, 60));
  DriveC01(d, r, rd, growing);
}

// ------------------------------------------------------------------ valid documents
// Well-formed documents within the value ranges the file parser accepts.
void Normalise(Node& n, Rng& r) {
  for (auto& k : n.kids) {
    switch (k.id) {
      case ID_PrimaryRX: case ID_PrimaryRY: case ID_PrimaryGX: case ID_PrimaryGY: case ID_PrimaryBX: case ID_PrimaryBY: case ID_WhitePointX: case ID_WhitePointY:
        k.f = r.chance(20) ? (double)r.u(2) : (double)(float)(r.unit() * 0.999 + 0.0005); break;
      case ID_LuminanceMax: k.f = r.chance(20) ? r.pick<double>({0, 9999.5}) : (double)(float)(r.unit() * 9999); break;
      case ID_LuminanceMin: k.f = r.chance(20) ? r.pick<double>({0, 999.5}) : (double)(float)(r.unit() * 999); break;
      case ID_PoseYaw: case ID_PosePitch: case ID_PoseRoll: k.f = (double)(float)((r.unit() - 0.5) * 360); break;
      case ID_ContentEncAlgo: k.u = 5; break;
      case ID_AESSettingsCipherMode: k.u = 1; break;
      case ID_ContentEncodingScope: case ID_BitDepth: case ID_Channels: if (k.u == 0) k.u = 1; break;
      case ID_ContentCompression: if (!k.kid(ID_ContentCompAlgo)) k.kids.push_back(NU(ID_ContentCompAlgo, r.u(4))); break;
      case ID_ContentEncoding: if (!k.kid(ID_ContentCompression) && !k.kid(ID_ContentEncryption)) k.kids.push_back(NM(ID_ContentEncryption)); break;
      default: break;
    }
    if ((k.id == ID_Void || !FindEl(k.id, n.id)) && n.id == ID_EBML && k.b.empty()) k.b = "x";
    if (k.id == ID_TrackEntry && k.kid(ID_TrackType)->u == 33)
      for (size_t i = 0; i < k.kids.size();) if (k.kids[i].id == ID_ContentEncodings) k.kids.erase(k.kids.begin() + i); else ++i;
    Normalise(k, r);
  }
}
Doc ValidDoc(Rng& r, const GenOpt& o, bool trail = true) {
  Doc d = GenDoc(r, o);
  for (auto& n : d.top) Normalise(n, r);
  if (r.chance(6)) { Stretch(d, r); R().count("stretched"); }
  FixRefs(d.top);
  d.bytes = Layout(d.top, &d.gaps);
  if (trail) Trail(d, r);
  return d;
}
const Node* Kid(const Node& n, uint32_t id) { return n.kid(id); }

// ------------------------------------------------------------------ C02
std::string SeenHeads(const mp::Segment* s) {
  std::string o = Fmt("segment %lld %lld\n", s->m_element_start, s->m_start);
  if (auto* i = s->GetInfo()) o += Fmt("info at %lld %lld %lld %lld duration %lld %lld\n", i->m_element_start, i->m_element_size, i->m_start, i->m_size, i->GetDuration(), s->GetDuration());
  if (auto* t = s->GetTracks()) {
    o += Fmt("tracks at %lld %lld %lld %lld\n", t->m_element_start, t->m_element_size, t->m_start, t->m_size);
    for (unsigned long i = 0; i < t->GetTracksCount(); ++i) { auto* x = t->GetTrackByIndex(i); o += x ? Fmt(" track at %lld %lld\n", x->m_element_start, x->m_element_size) : "null\n"; }
  }
  if (auto* q = s->GetCues()) o += Fmt("cues at %lld %lld %lld %lld\n", q->m_element_start, q->m_element_size, q->m_start, q->m_size);
  if (auto* q = s->GetChapters()) {
    o += Fmt("chapters at %lld %lld %lld %lld\n", q->m_element_start, q->m_element_size, q->m_start, q->m_size);
    for (int e = 0; e < q->GetEditionCount(); ++e) for (int a = 0; a < q->GetEdition(e)->GetAtomCount(); ++a) { auto* x = q->GetEdition(e)->GetAtom(a); o += Fmt(" chapter times %lld %lld\n", x->GetStartTime(q), x->GetStopTime(q)); }
  }
  if (auto* q = s->GetTags()) o += Fmt("tags at %lld %lld %lld %lld\n", q->m_element_start, q->m_element_size, q->m_start, q->m_size);
  if (auto* q = s->GetSeekHead()) {
    o += Fmt("seekhead at %lld %lld %lld %lld\n", q->m_element_start, q->m_element_size, q->m_start, q->m_size);
    for (int i = 0; i < q->GetCount(); ++i) { auto* e = q->GetEntry(i); o += Fmt(" entry %llx %lld at %lld %lld\n", e->id, e->pos, e->element_start, e->element_size); }
    for (int i = 0; i < q->GetVoidElementCount(); ++i) { auto* e = q->GetVoidElement(i); o += Fmt(" void at %lld %lld\n", e->element_start, e->element_size); }
  }
  return o;
}
std::string At(const char* w, const Node& n) { return Fmt("%s at %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64, w, n.pos, n.hdr + n.body, n.pos + n.hdr, n.body); }
long long ScaledTime(uint64_t tc, uint64_t scale) {
  unsigned __int128 v = (unsigned __int128)tc * scale;
  return v > (unsigned __int128)LLONG_MAX ? -1 : (long long)v;
}
std::string WantHeads(const Node& seg) {
  std::string o = Fmt("segment %" PRIu64 " %" PRIu64 "\n", seg.pos, seg.pos + seg.hdr);
  const Node& i = *seg.kid(ID_Info);
  uint64_t scale = dump::KU(i, ID_TimecodeScale, 1000000);
  long long dur = i.kid(ID_Duration) ? (long long)(dump::KF(i, ID_Duration, 0) * (double)scale) : -1;
  o += At("info", i) + Fmt(" duration %lld %lld\n", dur, dur);
  o += At("tracks", *seg.kid(ID_Tracks)) + "\n";
  for (auto* t : seg.kid(ID_Tracks)->all(ID_TrackEntry)) o += Fmt(" track at %" PRIu64 " %" PRIu64 "\n", t->pos, t->hdr + t->body);
  if (auto* q = seg.kid(ID_Cues)) o += At("cues", *q) + "\n";
  if (auto* q = seg.kid(ID_Chapters)) {
    o += At("chapters", *q) + "\n";
    for (auto* e : q->all(ID_EditionEntry)) for (auto* a : e->all(ID_ChapterAtom)) {
      long long v[2]; int k = 0;
      for (uint32_t id : {ID_ChapterTimeStart, ID_ChapterTimeEnd}) v[k++] = a->kid(id) ? ScaledTime(dump::KU(*a, id, 0), scale) : -1;
      o += Fmt(" chapter times %lld %lld\n", v[0], v[1]);
    }
  }
  if (auto* q = seg.kid(ID_Tags)) o += At("tags", *q) + "\n";
  if (auto* q = seg.kid(ID_SeekHead)) {
    o += At("seekhead", *q) + "\n";
    for (auto* e : q->all(ID_Seek)) o += Fmt(" entry %" PRIx64 " %" PRIu64 " at %" PRIu64 " %" PRIu64 "\n", Reader::UInt(e->kid(ID_SeekID)->b), e->kid(ID_SeekPosition)->u, e->pos, e->hdr + e->body);
    for (auto* e : q->all(ID_Void)) o += Fmt(" void at %" PRIu64 " %" PRIu64 "\n", e->pos, e->hdr + e->body);
  }
  return o;
}
std::string Diff(const std::string& want, const std::string& got) {
  std::istringstream a(want), b(got);
  std::string x, y;
  for (int line = 1;; ++line) {
    bool ga = (bool)std::getline(a, x), gb = (bool)std::getline(b, y);
    if (!ga && !gb) return "equal";
    if (!ga) x = "(end)";
    if (!gb) y = "(end)";
    if (x != y) return Fmt("line %d: want <", line) + x + "> got <" + y + ">";
  }
}
std::string Kind(const std::string& diff) {  // first word of what was wanted
  size_t p = diff.find("want <"); if (p == std::string::npos) return "";
  p += 6; while (p < diff.size() && diff[p] == ' ') ++p;
  size_t e = diff.find_first_of(" <>", p);
  return diff.substr(p, e - p);
}
std::string WantHeader(const Node& e) {
  return Fmt("ebml %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " ", dump::KU(e, ID_EBMLVersion, 1), dump::KU(e, ID_EBMLReadVersion, 1), dump::KU(e, ID_EBMLMaxIDLength, 4), dump::KU(e, ID_EBMLMaxSizeLength, 8), dump::KU(e, ID_DocTypeVersion, 1), dump::KU(e, ID_DocTypeReadVersion, 1)) + dump::KStr(e, ID_DocType) + "\n";
}
std::string SeenHeader(const mp::EBMLHeader& h) {
  return Fmt("ebml %lld %lld %lld %lld %lld %lld ", h.m_version, h.m_readVersion, h.m_maxIdLength, h.m_maxSizeLength, h.m_docTypeVersion, h.m_docTypeReadVersion) + dump::Str(h.m_docType) + "\n";
}
std::string WantMeta(const Doc& d) {
  const Node& seg = d.top.back();
  return WantHeader(d.top[0]) + dump::Project(*seg.kid(ID_Info), *seg.kid(ID_Tracks), seg.kid(ID_Chapters), seg.kid(ID_Tags), 0) + WantHeads(seg);
}
mp::Segment* OpenAll(Rd& rd, mp::EBMLHeader& h, const char* key, const Bytes& d) {
  long long pos = 0;
  long long st = h.Parse(&rd, pos);
  if (st) { R().viol(std::string(key) + ":header", Fmt("EBMLHeader::Parse %lld ", st) + Hex(d, 300)); return nullptr; }
  mp::Segment* s = nullptr;
  st = mp::Segment::CreateInstance(&rd, pos, s);
  if (st || !s) { R().viol(std::string(key) + ":segment", Fmt("CreateInstance %lld ", st) + Hex(d, 300)); delete s; return nullptr; }
  return s;
}
void C02(uint64_t, Rng& r) {
  Doc d = ValidDoc(r, Opt(r));
  Bytes bytes = d.bytes;
  Rd rd(d);
  R().sample(Fmt("%zu bytes: ", bytes.size()) + Hex(bytes, 80));
  mp::EBMLHeader h;
  mp::Segment* s = OpenAll(rd, h, "refused", bytes);
  if (!s) return;
  bool full = r.coin();
  long long st = full ? s->Load() : s->ParseHeaders();
  if (st != 0) {
    std::string t; for (auto& n : d.top) DumpTree(n, &t, 0, true);
    R().viol(full ? "refused:load" : "refused:headers", Fmt("status %lld\n", st) + t);
    delete s; return;
  }
  std::string want = WantMeta(d), got = SeenHeader(h) + dump::Segment(s) + SeenHeads(s);
  if (!full) {
    // Cues behind the clusters are only found when asked for.
    const Node& seg = d.top.back();
    const Node* q = seg.kid(ID_Cues);
    if (q && !s->GetCues()) {
      bool listed = false;
      if (auto* sh = seg.kid(ID_SeekHead)) for (auto* e : sh->all(ID_Seek)) if (Reader::UInt(e->kid(ID_SeekID)->b) == ID_Cues) listed = true;
      long long p; long len;
      long cs = s->ParseCues((long long)(q->pos - (seg.pos + seg.hdr)), p, len);
      if (cs != 0 || !s->GetCues()) R().viol("cues_refused", Fmt("ParseCues returned %ld for the cues at %" PRIu64, cs, q->pos));
      R().count(listed ? "late_cues_listed" : "late_cues");
      got = SeenHeader(h) + dump::Segment(s) + SeenHeads(s);
    }
  }
  if (want != got) {
    std::string df = Diff(want, got);
    R().viol("metadata:" + Kind(df), df);
  }
  R().count(full ? "full_loads" : "header_loads");
  const Node& seg = d.top.back();
  R().count("tracks", seg.kid(ID_Tracks)->all(ID_TrackEntry).size());
  for (auto* t : seg.kid(ID_Tracks)->all(ID_TrackEntry)) {
    if (auto* v = t->kid(ID_Video)) { if (v->kid(ID_Colour)) R().count("colours"); if (v->kid(ID_Projection)) R().count("projections"); }
    if (t->kid(ID_ContentEncodings)) R().count("encodings");
  }
  if (seg.kid(ID_Chapters)) R().count("chapters");
  if (seg.kid(ID_Tags)) R().count("tags");
  if (seg.kid(ID_SeekHead)) R().count("seekheads");
  R().sig(Hash(want.substr(0, 2000)));
  delete s;
}

// ------------------------------------------------------------------ C03
struct Blk {
  bool group; uint64_t track; int64_t tc; bool key, invisible; int lace; int64_t pad; int64_t dur;
  std::vector<std::pair<uint64_t, uint64_t>> frames;
  size_t cluster;
  bool operator==(const Blk& o) const { return group == o.group && track == o.track && tc == o.tc && key == o.key && invisible == o.invisible && lace == o.lace && pad == o.pad && dur == o.dur && frames == o.frames && cluster == o.cluster; }
  std::string Str() const {
    std::string o = Fmt("%s track %" PRIu64 " tc %" PRId64 " key %d inv %d lace %d pad %" PRId64 " dur %" PRId64 " cluster %zu frames", group ? "group" : "simple", track, tc, key, invisible, lace, pad, dur, cluster);
    for (auto& f : frames) o += Fmt(" %" PRIu64 "+%" PRIu64, f.first, f.second);
    return o;
  }
};
struct Clu { uint64_t tc, pos, size; size_t first, count; };
struct Truth {
  std::vector<Clu> clusters; std::vector<Blk> blocks; uint64_t scale = 1000000;
  explicit Truth(const Doc& d) {
    const Node& seg = d.top.back();
    scale = dump::KU(*seg.kid(ID_Info), ID_TimecodeScale, 1000000);
    for (auto& c : seg.kids) {
      if (c.id != ID_Cluster) continue;
      Clu cl{c.kid(ID_Timecode)->u, c.pos - (seg.pos + seg.hdr), c.hdr + c.body, blocks.size(), 0};
      for (auto& k : c.kids) {
        if (k.id != ID_SimpleBlock && k.id != ID_BlockGroup) continue;
        const Node& b = k.id == ID_SimpleBlock ? k : *k.kid(ID_Block);
        Blk x;
        x.group = k.id == ID_BlockGroup; x.track = b.blk->track; x.tc = (int64_t)cl.tc + b.blk->tc; x.invisible = b.blk->invisible; x.lace = b.blk->lace;
        x.key = x.group ? k.kid(ID_ReferenceBlock) == nullptr : b.blk->key;
        x.pad = 0; x.dur = -1;
        if (x.group) { for (auto& g : k.kids) if (g.id == ID_DiscardPadding) x.pad = g.i; else if (g.id == ID_BlockDuration) x.dur = (int64_t)g.u; }
        for (size_t i = 0; i < b.blk->frames.size(); ++i) x.frames.push_back({b.pos + b.hdr + b.blk->frame_off[i], b.blk->frames[i].size()});
        x.cluster = clusters.size();
        blocks.push_back(x); ++cl.count;
      }
      clusters.push_back(cl);
    }
  }
  long long Time(int64_t tc) const { return tc < 0 ? -1 : ScaledTime((uint64_t)tc, scale); }
};
int LaceOf(mp::Block::Lacing l) { return l == mp::Block::kLacingXiph ? kXiph : l == mp::Block::kLacingFixed ? kFixed : l == mp::Block::kLacingEbml ? kEbml : kNoLace; }
Blk Seen(const mp::BlockEntry* e, size_t cluster) {
  Blk x;
  const mp::Block* b = e->GetBlock();
  x.group = e->GetKind() == mp::BlockEntry::kBlockGroup;
  x.track = (uint64_t)b->GetTrackNumber(); x.tc = b->GetTimeCode(e->GetCluster()); x.key = b->IsKey(); x.invisible = b->IsInvisible(); x.lace = LaceOf(b->GetLacing()); x.pad = b->GetDiscardPadding();
  x.dur = x.group ? static_cast<const mp::BlockGroup*>(e)->GetDurationTimeCode() : -1;
  for (int i = 0; i < b->GetFrameCount(); ++i) x.frames.push_back({(uint64_t)b->GetFrame(i).pos, (uint64_t)b->GetFrame(i).len});
  x.cluster = cluster;
  return x;
}
// Compares one entry with block |i| of the truth; reads its frames when asked.
bool Same(const Truth& t, const mp::BlockEntry* e, size_t i, const char* key, Rd& rd, bool read) {
  if (i >= t.blocks.size()) { R().viol(std::string(key) + ":extra", "a block past the last one: " + Seen(e, 0).Str()); return false; }
  const Blk& w = t.blocks[i];
  const Clu& c = t.clusters[w.cluster];
  Blk g = Seen(e, w.cluster);
  if (!(w == g)) { R().viol(std::string(key) + ":block", "want " + w.Str() + "\ngot  " + g.Str()); return false; }
  const mp::Cluster* pc = e->GetCluster();
  if (!pc || pc->EOS() || pc->GetPosition() != (long long)c.pos) { R().viol(std::string(key) + ":cluster_of_block", Fmt("block %zu claims the cluster at %lld, is in %" PRIu64, i, pc ? pc->GetPosition() : -1, c.pos)); return false; }
  if (e->GetIndex() != (long)(i - c.first)) { R().viol(std::string(key) + ":index", Fmt("block %zu of its cluster has index %ld", i - c.first, e->GetIndex())); return false; }
  long long tm = e->GetBlock()->GetTime(pc);
  if (tm != t.Time(w.tc)) { R().viol(std::string(key) + ":time", Fmt("time %lld for timecode %" PRId64 " scale %" PRIu64, tm, w.tc, t.scale)); return false; }
  if (read) {
    std::vector<unsigned char> buf;
    for (int k = 0; k < e->GetBlock()->GetFrameCount(); ++k) {
      auto& f = e->GetBlock()->GetFrame(k);
      buf.assign(f.len + 1, 0xA5);
      if (f.Read(&rd, buf.data()) != 0 || rd.Raw(w.frames[k].first, f.len).compare(0, std::string::npos, (char*)buf.data(), f.len) || buf[f.len] != 0xA5) { R().viol(std::string(key) + ":bytes", "frame bytes differ: " + w.Str()); return false; }
      R().count("frames");
    }
  }
  return true;
}
// The cluster walk from the first cluster on.
bool WalkClusters(const Truth& t, mp::Segment* s, Rd& rd, const char* key, bool read) {
  const mp::Cluster* c = s->GetFirst();
  size_t ci = 0;
  std::string K = key;
  for (; c && !c->EOS(); c = s->GetNext(c), ++ci) {
    if (ci >= t.clusters.size()) { R().viol(K + ":extra_cluster", Fmt("cluster %zu at %lld", ci, c->GetPosition())); return false; }
    const Clu& w = t.clusters[ci];
    if (c->GetPosition() != (long long)w.pos || c->GetTimeCode() != (long long)w.tc || c->GetTime() != t.Time((int64_t)w.tc) || c->GetIndex() != (long)ci) {
      R().viol(K + ":cluster", Fmt("cluster %zu: want pos %" PRIu64 " tc %" PRIu64 ", got pos %lld tc %lld time %lld index %ld", ci, w.pos, w.tc, c->GetPosition(), c->GetTimeCode(), c->GetTime(), c->GetIndex()));
      return false;
    }
    const mp::BlockEntry* e = nullptr;
    long st = c->GetFirst(e);
    size_t bi = w.first;
    while (st == 0 && e && !e->EOS()) {
      if (bi >= w.first + w.count) { R().viol(K + ":extra", Fmt("cluster %zu has more blocks than stored", ci)); return false; }
      if (!Same(t, e, bi, key, rd, read)) return false;
      ++bi;
      const mp::BlockEntry* n = nullptr;
      st = c->GetNext(e, n);
      e = n;
    }
    if (st < 0) { R().viol(K + ":walk_status", Fmt("status %ld in cluster %zu", st, ci)); return false; }
    if (bi != w.first + w.count) { R().viol(K + ":lost", Fmt("cluster %zu: %zu of %zu blocks", ci, bi - w.first, w.count)); return false; }
    if (c->GetEntryCount() != (long)w.count) { R().viol(K + ":entry_count", Fmt("%ld entries, %zu stored", c->GetEntryCount(), w.count)); return false; }
    if (c->GetElementSize() != (long long)w.size) { R().viol(K + ":cluster_size", Fmt("cluster %zu: size %lld, stored %" PRIu64, ci, c->GetElementSize(), w.size)); return false; }
    const mp::BlockEntry* last = nullptr;
    st = c->GetLast(last);
    if (w.count && (st != 0 || !last || !Same(t, last, w.first + w.count - 1, key, rd, false))) { R().viol(K + ":get_last", "last block wrong"); return false; }
    if (w.count && (c->GetFirstTime() != t.Time(t.blocks[w.first].tc) || c->GetLastTime() != t.Time(t.blocks[w.first + w.count - 1].tc))) { R().viol(K + ":cluster_times", Fmt("first %lld last %lld", c->GetFirstTime(), c->GetLastTime())); return false; }
    R().count("blocks", w.count); R().count("clusters");
  }
  if (ci != t.clusters.size()) { R().viol(K + ":lost_cluster", Fmt("%zu of %zu clusters", ci, t.clusters.size())); return false; }
  return true;
}
bool WalkTracks(const Truth& t, mp::Segment* s, Rd& rd, const char* key) {
  const mp::Tracks* ts = s->GetTracks();
  for (unsigned long k = 0; k < ts->GetTracksCount(); ++k) {
    const mp::Track* tr = ts->GetTrackByIndex(k);
    const mp::BlockEntry* e = nullptr;
    long st = tr->GetFirst(e);
    bool started = tr->GetType() != mp::Track::kVideo;  // a video track starts at its first keyframe
    for (size_t i = 0; i < t.blocks.size(); ++i) {
      if (t.blocks[i].track != (uint64_t)tr->GetNumber()) continue;
      if (!started && !t.blocks[i].key) { R().count("leading_non_key"); continue; }
      started = true;
      if (st < 0 || !e || e->EOS()) { R().viol(std::string(key) + ":track_lost", Fmt("track %ld ends (status %ld) before block %zu", tr->GetNumber(), st, i)); return false; }
      if (!Same(t, e, i, key, rd, false)) return false;
      const mp::BlockEntry* n = nullptr;
      st = tr->GetNext(e, n);
      e = n;
      R().count("track_steps");
    }
    if (!e || !e->EOS()) { R().viol(std::string(key) + ":track_end", Fmt("track %ld: no end of stream after its last block (status %ld)", tr->GetNumber(), st)); return false; }
  }
  return true;
}
void C03(uint64_t, Rng& r) {
  GenOpt o = Opt(r);
  if (r.chance(30)) o.max_blocks = 25;
  if (r.chance(20)) o.big_pct = 15;
  Large(o, r, 150);
  Doc d = ValidDoc(r, o);
  Truth t(d);
  Rd rd(d);
  R().sample(Fmt("%zu bytes %zu clusters %zu blocks", d.bytes.size(), t.clusters.size(), t.blocks.size()));
  mp::EBMLHeader h;
  mp::Segment* s = OpenAll(rd, h, "refused", d.bytes);
  if (!s) return;
  long st = s->Load();
  if (st) { R().viol("refused:load", Fmt("Load returned %ld", st)); delete s; return; }
  bool tracks_first = r.coin();
  if (tracks_first) WalkTracks(t, s, rd, "track");
  if (WalkClusters(t, s, rd, "walk", true) && !tracks_first) WalkTracks(t, s, rd, "track");
  uint64_t sg = 0;
  for (auto& b : t.blocks) { sg = Mix(sg, b.group * 64 + b.lace * 8 + b.key * 4 + b.invisible * 2 + (b.pad != 0)); R().count(Fmt("lace%d", b.lace)); if (b.pad) R().count("padded"); if (b.dur >= 0) R().count("durations"); }
  R().sig(Mix(sg, t.clusters.size()));
  delete s;
}

// ------------------------------------------------------------------ C04
struct CueTruth { uint64_t tc; std::vector<std::pair<uint64_t, std::pair<uint64_t, uint64_t>>> tracks; uint64_t pos; };  // track -> (cluster position, block number)
std::vector<CueTruth> CuesOf(const Doc& d) {
  std::vector<CueTruth> v;
  const Node* q = d.top.back().kid(ID_Cues);
  if (!q) return v;
  for (auto* p : q->all(ID_CuePoint)) {
    CueTruth c; c.tc = p->kid(ID_CueTime)->u; c.pos = p->pos;
    for (auto* t : p->all(ID_CueTrackPositions)) c.tracks.push_back({t->kid(ID_CueTrack)->u, {t->kid(ID_CueClusterPosition)->u, t->kid(ID_CueBlockNumber) ? t->kid(ID_CueBlockNumber)->u : 0}});
    v.push_back(c);
  }
  return v;
}
struct Looker {
  Rng& r; const Doc& d; const Truth& t; std::vector<CueTruth> cues; mp::Segment* s; Rd& rd; bool unknown_clusters = false; bool bad = false;
  Looker(Rng& rng, const Doc& doc, const Truth& tr, mp::Segment* seg, Rd& reader) : r(rng), d(doc), t(tr), cues(CuesOf(doc)), s(seg), rd(reader) {
    for (auto& k : d.top.back().kids) if (k.id == ID_Cluster && k.unknown) unknown_clusters = true;
  }
  void V(const std::string& k, const std::string& m) { bad = true; R().viol(k, m); }
  long long AnyTime() {
    long long base = 0;
    switch (r.u(6)) {
      case 0: return (long long)r.edgy(1ULL << 62);
      case 1: base = t.Time((int64_t)t.clusters[r.u(t.clusters.size())].tc); break;
      case 2: base = cues.empty() ? 0 : t.Time((int64_t)cues[r.u(cues.size())].tc); break;
      case 3: return r.irange(-5, 5);
      default: base = t.Time(t.blocks[r.u(t.blocks.size())].tc); break;
    }
    return base + r.irange(-1, 1) * (r.coin() ? 1 : (long long)r.u(t.scale * 30));
  }
  size_t IndexOf(const mp::BlockEntry* e) {  // by frame position
    for (size_t i = 0; i < t.blocks.size(); ++i) if (e->GetBlock()->GetFrameCount() && t.blocks[i].frames[0].first == (uint64_t)e->GetBlock()->GetFrame(0).pos) return i;
    return (size_t)-1;
  }
  void FindCluster(size_t loaded) {
    long long tm = AnyTime();
    const mp::Cluster* c = s->FindCluster(tm);
    R().count("find_cluster");
    if (!loaded) { if (!c || !c->EOS()) V("find_cluster", "a cluster although none is loaded"); return; }
    size_t w = 0;
    for (size_t i = 0; i < loaded; ++i) if (t.Time((int64_t)t.clusters[i].tc) <= tm) w = i;
    if (tm <= t.Time((int64_t)t.clusters[0].tc)) w = 0;
    if (!c || c->EOS() || c->GetPosition() != (long long)t.clusters[w].pos) V("find_cluster", Fmt("time %lld: got cluster at %lld (tc %lld), want %zu at %" PRIu64 " tc %" PRIu64, tm, c ? c->GetPosition() : -1, c && !c->EOS() ? c->GetTimeCode() : -1, w, t.clusters[w].pos, t.clusters[w].tc));
  }
  void Seek(size_t loaded) {
    const mp::Track* tr = s->GetTracks()->GetTrackByIndex(r.u(s->GetTracks()->GetTracksCount()));
    long long tm = AnyTime();
    bool video = tr->GetType() == mp::Track::kVideo;
    std::vector<size_t> mine;
    for (size_t i = 0; i < t.blocks.size(); ++i) if (t.blocks[i].cluster < loaded && t.blocks[i].track == (uint64_t)tr->GetNumber() && (!video || t.blocks[i].key)) mine.push_back(i);
    const mp::BlockEntry* e = nullptr;
    long st = tr->Seek(tm, e);
    R().count(video ? "video_seeks" : "seeks");
    if (mine.empty()) {
      bool done = s->DoneParsing();
      if (done ? (st < 0 || !e || !e->EOS()) : st != mp::E_BUFFER_NOT_FULL) V("seek_none", Fmt("track %ld has nothing, status %ld", tr->GetNumber(), st));
      return;
    }
    size_t w = mine[0];
    if (tm > t.Time(t.blocks[w].tc)) {
      if (video) { for (size_t i : mine) if (t.Time(t.blocks[i].tc) <= tm) w = i; }
      else {
        size_t best = t.blocks[w].cluster;
        for (size_t i : mine) if (t.Time((int64_t)t.clusters[t.blocks[i].cluster].tc) <= tm) best = t.blocks[i].cluster;
        for (size_t i : mine) if (t.blocks[i].cluster == best) { w = i; break; }
      }
    }
    if (st != 0 || !e || e->EOS()) { V("seek_lost", Fmt("track %ld type %ld time %lld: status %ld, no entry; want ", tr->GetNumber(), tr->GetType(), tm, st) + t.blocks[w].Str()); return; }
    size_t g = IndexOf(e);
    if (g != w) { V(video ? "seek_video" : "seek", Fmt("track %ld time %lld: want block %zu ", tr->GetNumber(), tm, w) + t.blocks[w].Str() + Fmt("\ngot %zu ", g) + Seen(e, 0).Str()); return; }
    if (!Same(t, e, g, "seek_entry", rd, false)) bad = true;
  }
  void Follow(const mp::BlockEntry* e, size_t i, size_t loaded) {
    const mp::Track* tr = s->GetTracks()->GetTrackByNumber((long)t.blocks[i].track);
    bool is_preloaded = e->GetCluster()->GetIndex() < 0;
    for (int k = 0; k < 8; ++k) {
      size_t n = i + 1;
      while (n < t.blocks.size() && t.blocks[n].track != t.blocks[i].track) ++n;
      const mp::BlockEntry* x = nullptr;
      long st = tr->GetNext(e, x);
      if (is_preloaded && unknown_clusters) { if (st < 0 || !x || x->EOS()) return; }
      if (!is_preloaded && n < t.blocks.size() && t.blocks[n].cluster >= loaded) {
        if (st != mp::E_BUFFER_NOT_FULL) V("follow_unloaded", Fmt("the next block is not loaded yet, status %ld", st));
        return;
      }
      if (n >= t.blocks.size()) {
        if (!is_preloaded && !s->DoneParsing()) { if (st != mp::E_BUFFER_NOT_FULL) V("follow_unloaded", Fmt("status %ld", st)); return; }
        if (st < 0 || !x || !x->EOS()) V("follow_end", Fmt("status %ld after the last block of the track", st));
        return;
      }
      if (st != 0 || !x || x->EOS()) { V("follow_lost", Fmt("status %ld, want ", st) + t.blocks[n].Str()); return; }
      if (!Same(t, x, n, "follow", rd, false)) { bad = true; return; }
      R().count(is_preloaded ? "follow_preloaded" : "follow_loaded");
      e = x; i = n;
    }
  }
  void Block(const mp::CuePoint* cp, const mp::CuePoint::TrackPosition* tp, const CueTruth& c, size_t loaded) {
    const std::pair<uint64_t, uint64_t>* w = nullptr;
    for (auto& x : c.tracks) if (x.first == (uint64_t)tp->m_track) { w = &x.second; break; }
    if (!w || (uint64_t)tp->m_pos != w->first) { V("cue_position", Fmt("track %lld pos %lld", tp->m_track, tp->m_pos)); return; }
    size_t ci = 0; while (t.clusters[ci].pos != w->first) ++ci;
    const mp::BlockEntry* e = s->GetCues()->GetBlock(cp, tp);
    size_t want = (size_t)-1;
    if (w->second) want = t.clusters[ci].first + w->second - 1;
    else {  // no number stored: the block of that track and time
      for (size_t i = t.clusters[ci].first; i < t.clusters[ci].first + t.clusters[ci].count; ++i)
        if (t.blocks[i].track == (uint64_t)tp->m_track && t.blocks[i].tc == (int64_t)c.tc) { want = i; break; }
      uint64_t type = s->GetTracks()->GetTrackByNumber((long)tp->m_track)->GetType();
      if (want != t.clusters[ci].first && !(type == 2 || (type == 1 && t.blocks[want].key))) return;  // unspecified
      R().count("cue_by_time");
    }
    R().count("cue_blocks");
    if (!e || e->EOS()) { V("cue_block_lost", Fmt("no block for cue time %" PRIu64 " track %lld, want ", c.tc, tp->m_track) + t.blocks[want].Str()); return; }
    if (e->GetCluster()->GetIndex() < 0) R().count("preloaded");
    size_t g = IndexOf(e);
    if (g != want) { V("cue_block", Fmt("cue time %" PRIu64 " track %lld: want block %zu got %zu", c.tc, tp->m_track, want, g)); return; }
    if (!Same(t, e, g, "cue_block", rd, false)) { bad = true; return; }
    if (r.chance(40)) Follow(e, g, loaded);
  }
  static long Count(const mp::Cues* q) { long n = q->GetCount(); return n < 0 ? 0 : n; }  // -1: nothing loaded yet
  void Cue(size_t loaded) {
    const mp::Cues* q = s->GetCues();
    if (!q) return;
    if (cues.empty()) return;
    switch (r.u(4)) {
      case 0: {
        bool done = q->DoneParsing();
        long n = Count(q);
        bool more = q->LoadCuePoint();
        if (more != ((size_t)n < cues.size())) V("cue_load", Fmt("LoadCuePoint %d with %ld of %zu loaded", more, n, cues.size()));
        if (Count(q) != n + (more ? 1 : 0)) V("cue_count", Fmt("%ld after %ld", Count(q), n));
        (void)done;
        R().count("cue_loads");
        return;
      }
      case 1: {
        const mp::CuePoint* p = Count(q) ? q->GetFirst() : nullptr;
        long i = 0;
        for (; p; p = q->GetNext(p), ++i) {
          if (i >= Count(q)) { V("cue_walk", "more cue points than loaded"); return; }
          if (p->GetTimeCode() != (long long)cues[i].tc || p->GetTime(s) != t.Time((int64_t)cues[i].tc) || p->m_element_start != (long long)cues[i].pos) { V("cue_walk", Fmt("cue %ld: time %lld, stored %" PRIu64, i, p->GetTimeCode(), cues[i].tc)); return; }
          for (auto& x : cues[i].tracks) {
            auto* tp = p->Find(s->GetTracks()->GetTrackByNumber((long)x.first));
            if (!tp) { V("cue_track", "track missing in a cue point"); return; }
            if (r.chance(20)) Block(p, tp, cues[i], loaded);
          }
        }
        if (i != Count(q)) V("cue_walk", Fmt("%ld of %ld cue points", i, Count(q)));
        if (Count(q) && q->GetLast() && q->GetLast()->GetTimeCode() != (long long)cues[Count(q) - 1].tc) V("cue_last", "wrong last cue point");
        R().count("cue_walks");
        return;
      }
      default: {
        size_t n = (size_t)Count(q);
        const mp::Track* tr = s->GetTracks()->GetTrackByIndex(r.u(s->GetTracks()->GetTracksCount()));
        long long tm = AnyTime();
        const mp::CuePoint* cp = nullptr; const mp::CuePoint::TrackPosition* tp = nullptr;
        bool ok = q->Find(tm, tr, cp, tp);
        R().count("cue_finds");
        if (tm < 0 || n == 0) { if (ok) V("cue_find", "found without a loaded cue or for a negative time"); return; }
        size_t w = 0;
        for (size_t i = 0; i < n; ++i) if (t.Time((int64_t)cues[i].tc) <= tm) w = i;
        if (tm <= t.Time((int64_t)cues[0].tc)) w = 0;
        bool has = false;
        for (auto& x : cues[w].tracks) if (x.first == (uint64_t)tr->GetNumber()) has = true;
        if (ok != has) { V("cue_find", Fmt("time %lld track %ld: found %d, cue %zu has the track: %d", tm, tr->GetNumber(), ok, w, has)); return; }
        if (!ok) return;
        if (cp->GetTimeCode() != (long long)cues[w].tc || tp->m_track != tr->GetNumber()) { V("cue_find", Fmt("time %lld: got cue at %lld, want %" PRIu64, tm, cp->GetTimeCode(), cues[w].tc)); return; }
        Block(cp, tp, cues[w], loaded);
        return;
      }
    }
  }
  void Preload(size_t loaded) {
    size_t i = r.u(t.clusters.size());
    const mp::Cluster* c = s->FindOrPreloadCluster((long long)t.clusters[i].pos);
    if (!c || c->EOS() || c->GetPosition() != (long long)t.clusters[i].pos) { V("preload", Fmt("cluster %zu at %" PRIu64 " not found", i, t.clusters[i].pos)); return; }
    if (c->GetTimeCode() != (long long)t.clusters[i].tc) { V("preload", "wrong timecode"); return; }
    const mp::BlockEntry* e = nullptr;
    long st = c->GetFirst(e);
    if (st != 0 || !e || !Same(t, e, t.clusters[i].first, "preload", rd, false)) { V("preload_first", Fmt("status %ld", st)); return; }
    if (r.chance(40)) Follow(e, t.clusters[i].first, loaded);
    R().count("preloads");
    for (int k = 0; k < 6 && !bad && r.chance(80); ++k) {  // on from there without loading
      bool pre = c->GetIndex() < 0;
      if (!pre && i + 1 >= loaded) return;
      const mp::Cluster* n = nullptr;
      long long p = -1; long len = -1;
      long l = s->ParseNext(c, n, p, len);
      // (how far a preloaded cluster of unknown size reaches is not known)
      if (pre && l < 0 && unknown_clusters) return;
      if (i + 1 >= t.clusters.size()) { if (l != 1 || (n && !n->EOS())) V("parse_next_end", Fmt("status %ld after the last cluster", l)); R().count("parse_next_ends"); return; }
      ++i;
      if (l != 0 || !n || n->EOS() || n->GetPosition() != (long long)t.clusters[i].pos || n->GetTimeCode() != (long long)t.clusters[i].tc) { V("parse_next", Fmt("status %ld, cluster at %lld, want number %zu at %" PRIu64, l, n ? n->GetPosition() : -1, i, t.clusters[i].pos)); return; }
      if (n->GetIndex() >= 0 && n->GetIndex() != (long)i) { V("parse_next_index", Fmt("index %ld, want %zu", n->GetIndex(), i)); return; }
      st = n->GetFirst(e);
      if (st != 0 || !e || !Same(t, e, t.clusters[i].first, "parse_next_first", rd, false)) { V("parse_next_first", Fmt("status %ld", st)); return; }
      R().count(pre ? "parse_next_preloaded" : "parse_next_loaded");
      c = n;
    }
  }
};
void C04(uint64_t, Rng& r) {
  GenOpt o = Opt(r);
  o.monotone = true;
  o.max_clusters = r.chance(25) ? 25 : 8;
  Large(o, r, 150);
  Doc d = GenDoc(r, o);
  for (auto& n : d.top) Normalise(n, r);
  bool numbers = r.chance(75);
  if (!numbers) {
    std::vector<Node*> all; CollectNodes(d.top, &all);
    for (Node* n : all) if (n->id == ID_CueTrackPositions) for (size_t i = 0; i < n->kids.size();) if (n->kids[i].id == ID_CueBlockNumber) n->kids.erase(n->kids.begin() + i); else ++i;
  }
  if (r.chance(6)) { Stretch(d, r); R().count("stretched"); }
  FixRefs(d.top);
  d.bytes = Layout(d.top, &d.gaps);
  Trail(d, r);
  Truth t(d);
  if (t.blocks.empty()) return;
  Rd rd(d);
  R().sample(Fmt("%zu bytes %zu clusters %zu blocks %zu cues", d.bytes.size(), t.clusters.size(), t.blocks.size(), CuesOf(d).size()));
  mp::EBMLHeader h;
  mp::Segment* s = OpenAll(rd, h, "refused", d.bytes);
  if (!s) return;
  std::unique_ptr<mp::Segment> own(s);
  bool full = r.coin();
  long long st = full ? s->Load() : s->ParseHeaders();
  if (st) { R().viol("refused:load", Fmt("%lld", st)); return; }
  Looker k(r, d, t, s, rd);
  if (numbers) for (auto& c : k.cues) for (auto& x : c.tracks) if (!x.second.second) x.second.second = 1;  // the default number
  size_t loaded = full ? t.clusters.size() : 0;
  const Node* q = d.top.back().kid(ID_Cues);
  int steps = (int)r.range(5, 60);
  uint64_t trace = 0;
  if (!full && t.clusters.size() > 2060) {
    // up to where the table of clusters is full, by loading and by preloading
    size_t edge = 2048 - r.u(24);
    while (!k.bad && loaded < edge) {
      if (r.u(400) == 0) { k.Preload(loaded); continue; }
      long ls = s->LoadCluster();
      if (ls < 0 || (size_t)s->GetCount() <= loaded) k.V("load_cluster", Fmt("status %ld, %ld clusters", ls, (long)s->GetCount()));
      loaded = s->GetCount();
    }
    for (int i = 0; i < 30 && !k.bad; ++i) k.Preload(loaded);
    R().count("table_edges");
  }
  for (int i = 0; i < steps && !k.bad; ++i) {
    uint64_t op = r.u(9);
    trace = Mix(trace, op + 16 * loaded);
    switch (op) {
      case 0: case 1: if (loaded) k.FindCluster(loaded); break;
      case 2: case 3: if (loaded) k.Seek(loaded); break;
      case 4: case 5: k.Cue(loaded); break;
      case 6: if (r.chance(50)) k.Preload(loaded); break;
      case 7: if (!s->GetCues() && q) { long long p; long l; long cs = s->ParseCues((long long)(q->pos - (d.top.back().pos + d.top.back().hdr)), p, l); if (cs || !s->GetCues()) k.V("parse_cues", Fmt("status %ld", cs)); } break;
      default:
        if (!full) {
          long ls = s->LoadCluster();
          if (ls < 0) k.V("load_cluster", Fmt("status %ld", ls));
          size_t n = s->GetCount();
          if (n < loaded || n > loaded + 1 || n > t.clusters.size()) k.V("load_count", Fmt("%zu clusters loaded after %zu", n, loaded));
          loaded = n;
          R().count("stepwise_loads");
        }
        break;
    }
  }
  if (!k.bad) {
    for (size_t g = 0; g < t.clusters.size() + 1000; ++g) { long ls = s->LoadCluster(); if (ls < 0) { k.V("load_cluster", Fmt("status %ld", ls)); break; } if (ls > 0) break; }
    if (!k.bad && WalkClusters(t, s, rd, "after", false)) WalkTracks(t, s, rd, "after_track");
    for (int i = 0; i < 4 && !k.bad; ++i) { k.FindCluster(t.clusters.size()); k.Seek(t.clusters.size()); }
  }
  R().count(full ? "full" : "partial");
  R().sig(Mix(trace, Hash(d.bytes)));
}

// ------------------------------------------------------------------ C05
struct Grower {
  Rng& r; Rd& rd; int policy; bool bad = false; uint64_t grows = 0, asked = 0;
  Grower(Rng& rng, Rd& reader) : r(rng), rd(reader), policy((int)rng.u(4)) {}
  long long size() const { return (long long)rd.size(); }
  void To(long long n) {
    if (n > size()) n = size();
    if (const Gaps::G* in = rd.gaps ? rd.gaps->In((uint64_t)n) : nullptr) n = r.chance(30) ? n + (long long)r.u(in->virt + in->len - (uint64_t)n) : (long long)(in->virt + in->len);
    if (n > rd.avail) rd.avail = n;
    if (rd.avail == size()) rd.total_known = true;
    ++grows;
  }
  // |upto|: absolute position up to which data was asked for, -1 if not told.
  bool More(long long upto, const char* who) {
    if (rd.dripped) {  // it arrived in the meantime
      rd.dripped = false;
      if (rd.avail == size()) rd.total_known = true;
      return true;
    }
    if (upto >= 0 && upto <= rd.avail) { bad = true; R().viol(std::string("no_progress:") + who, Fmt("asks for data up to %lld, %lld are available of %zu", upto, rd.avail, (size_t)rd.size())); return false; }
    if (upto > size() && !rd.total_known) { To(size()); return true; }  // it cannot know that the file ends here
    if (upto > size()) { bad = true; R().viol(std::string("asks_past_end:") + who, Fmt("asks for data up to %lld of %zu", upto, (size_t)rd.size())); return false; }
    if (rd.avail >= size()) { bad = true; R().viol(std::string("underflow_at_end:") + who, "asks for more data after everything arrived"); return false; }
    if (upto >= 0) ++asked;
    switch (upto < 0 && policy == 0 ? 1 : policy) {
      case 0: To(upto); break;                       // exactly what was asked for
      case 1: To(rd.avail + 1); break;               // byte by byte
      case 2: To(rd.avail + (long long)r.range(1, 60)); break;
      default: To((upto > 0 ? upto : rd.avail) + (long long)r.range(1, 1000)); break;
    }
    return true;
  }
  void Early(const char* who) {
    if (!rd.early_reads) return;
    bad = true;
    R().viol(std::string("early_read:") + who, Fmt("read %lld+%ld with %lld available", rd.early_pos, rd.early_len, rd.avail));
  }
};
void C05(uint64_t, Rng& r) {
  GenOpt o = Opt(r);
  Large(o, r, 300);
  // Without a total length the parser takes every segment for an unbounded one.
  bool total_known = r.coin();
  Doc d = ValidDoc(r, o, total_known);
  Truth t(d);
  Rd rd(d);
  rd.avail = r.coin() ? 0 : (long long)r.u(std::min<size_t>(d.bytes.size(), 200));
  rd.total_known = total_known;
  bool known = rd.total_known;
  rd.early_status = 1;
  Grower g(r, rd);
  Rng drip(r.next());
  if (r.chance(25)) { rd.drip = &drip; rd.drip_max = r.pick<uint64_t>({1, 8, 60, 400}); R().count("drip_runs"); }
  R().sample(Fmt("%zu bytes %zu clusters %zu blocks policy %d", d.bytes.size(), t.clusters.size(), t.blocks.size(), g.policy));
  mp::EBMLHeader h;
  long long pos = 0;
  for (;;) {
    long long st = h.Parse(&rd, pos);
    rd.early_reads = 0;  // probing for the header relies on the reader's refusal
    if (st == 0) break;
    if (st > 0 ? !g.More(st, "header") : st == mp::E_BUFFER_NOT_FULL ? !g.More(-1, "header") : (R().viol("fails:header", Fmt("EBMLHeader::Parse %lld with %lld of %zu bytes", st, rd.avail, d.bytes.size())), true)) return;
    if (st < 0 && st != mp::E_BUFFER_NOT_FULL) return;
  }
  mp::Segment* s = nullptr;
  for (;;) {
    long long st = mp::Segment::CreateInstance(&rd, pos, s);
    g.Early("create"); if (g.bad) { delete s; return; }
    if (st == 0) break;
    delete s; s = nullptr;
    if (st > 0) { if (!g.More(st, "create")) return; continue; }
    if (st == mp::E_BUFFER_NOT_FULL) { if (!g.More(-1, "create")) return; continue; }
    R().viol("fails:create", Fmt("CreateInstance %lld with %lld of %zu bytes", st, rd.avail, d.bytes.size()));
    return;
  }
  std::unique_ptr<mp::Segment> own(s);
  for (;;) {
    long long st = s->ParseHeaders();
    g.Early("headers"); if (g.bad) return;
    if (st == 0) break;
    if (st > 0) { if (!g.More(st, "headers")) return; continue; }
    if (st == mp::E_BUFFER_NOT_FULL) { if (!g.More(-1, "headers")) return; continue; }
    R().viol("fails:headers", Fmt("ParseHeaders %lld with %lld of %zu bytes (total %s)", st, rd.avail, d.bytes.size(), known ? "known" : "unknown"));
    return;
  }
  int mode = (int)r.u(3);
  auto load = [&]() -> int {  // 1: a cluster more, 0: no more, -1: stop
    for (;;) {
      long long p = -1; long len = -1;
      long st = s->LoadCluster(p, len);
      g.Early("load"); if (g.bad) return -1;
      if (st == 0) return 1;
      if (st > 0) return 0;
      if (st != mp::E_BUFFER_NOT_FULL) { R().viol("fails:load", Fmt("LoadCluster %ld with %lld of %zu bytes", st, rd.avail, d.bytes.size())); return -1; }
      R().count("underflows");
      if (!g.More(p >= 0 && len > 0 ? p + len : -1, "load")) return -1;
    }
  };
  if (mode == 0) {
    int x; while ((x = load()) == 1) {}
    if (x < 0) return;
  } else if (mode == 1) {
    // a player: load a cluster, parse its blocks one by one, go on with ParseNext
    const mp::Cluster* c = nullptr;
    size_t ci = 0;
    if (r.chance(40)) {  // one that starts somewhere else
      ci = r.u(t.clusters.size());
      long long at = s->m_start + (long long)t.clusters[ci].pos;
      if (rd.avail < at + 12) g.To(at + 12);
      c = s->FindOrPreloadCluster((long long)t.clusters[ci].pos);
      if (!c || c->EOS() || c->GetPosition() != (long long)t.clusters[ci].pos) { R().viol("growing:preload", Fmt("cluster %zu not found", ci)); return; }
      R().count("preload_runs");
    } else {
      if (load() < 0) return;
      c = s->GetFirst();
    }
    while (c && !c->EOS()) {
      size_t bi = t.clusters[ci].first;
      for (;;) {
        long long p = -1; long len = -1;
        long st = c->Parse(p, len);
        g.Early("parse"); if (g.bad) return;
        if (st == mp::E_BUFFER_NOT_FULL) { R().count("underflows"); if (!g.More(p >= 0 && len > 0 ? p + len : -1, "parse")) return; continue; }
        if (st < 0) { R().viol("fails:parse", Fmt("Cluster::Parse %ld", st)); return; }
        // whatever has been parsed so far must be right
        const mp::BlockEntry* e = nullptr;
        long n = c->GetEntryCount();
        if (n > 0 && c->GetEntry(n - 1, e) == 1 && e) { if (!Same(t, e, bi + n - 1, "growing", rd, false)) return; }
        if (st > 0) break;
        R().count("blocks_parsed");
      }
      const mp::Cluster* nx = nullptr;
      for (;;) {
        long long p = -1; long len = -1;
        long st = s->ParseNext(c, nx, p, len);
        g.Early("parse_next"); if (g.bad) return;
        if (st == 0) break;
        if (st > 0) { nx = nullptr; break; }
        if (st != mp::E_BUFFER_NOT_FULL) { R().viol("fails:parse_next", Fmt("ParseNext %ld with %lld of %zu bytes", st, rd.avail, d.bytes.size())); return; }
        R().count("underflows");
        if (!g.More(p >= 0 && len > 0 ? p + len : -1, "parse_next")) return;
      }
      if (nx && nx == c) { R().viol("parse_next_same", "ParseNext returned the same cluster"); return; }
      c = nx; ++ci;
      if (ci > t.clusters.size()) { R().viol("growing:extra_cluster", "ParseNext finds more clusters than stored"); return; }
    }
    if (ci != t.clusters.size()) { R().viol("growing:lost_cluster", Fmt("ParseNext found %zu of %zu clusters", ci, t.clusters.size())); return; }
    R().count("parse_next_runs");
    int x; while ((x = load()) == 1) {}
    if (x < 0) return;
  } else {
    // a demultiplexer: walks a track, loading when told that data is missing
    const mp::Track* tr = s->GetTracks()->GetTrackByIndex(r.u(s->GetTracks()->GetTracksCount()));
    std::vector<size_t> mine;
    bool started = tr->GetType() != mp::Track::kVideo;
    for (size_t i = 0; i < t.blocks.size(); ++i) if (t.blocks[i].track == (uint64_t)tr->GetNumber() && (started || t.blocks[i].key)) { started = true; mine.push_back(i); }
    const mp::BlockEntry* e = nullptr;
    size_t k = 0;
    bool ended = false;
    for (;;) {
      const mp::BlockEntry* n = nullptr;
      long st = e ? tr->GetNext(e, n) : tr->GetFirst(n);
      g.Early("track"); if (g.bad) return;
      if (st == mp::E_BUFFER_NOT_FULL) {
        R().count("underflows");
        if (ended && (rd.dripped || rd.avail < g.size())) { g.More(-1, "track"); continue; }  // only the cluster heads have to be there to load them
        if (ended) { R().viol("growing:track_stuck", Fmt("track %ld asks for data after everything was loaded", tr->GetNumber())); return; }
        long long p = -1; long len = -1;
        long ls = s->LoadCluster(p, len);
        g.Early("load"); if (g.bad) return;
        if (ls > 0) ended = s->DoneParsing();
        else if (ls == mp::E_BUFFER_NOT_FULL) { if (!g.More(p >= 0 && len > 0 ? p + len : -1, "load")) return; }
        else if (ls < 0) { R().viol("fails:load", Fmt("LoadCluster %ld", ls)); return; }
        else if (r.coin() && rd.avail < g.size()) g.To(rd.avail + 100);
        else if (rd.avail < g.size()) g.To(rd.avail + 1);
        continue;
      }
      if (st < 0) { R().viol("fails:track", Fmt("status %ld in the walk of track %ld", st, tr->GetNumber())); return; }
      if (!n) { R().viol("growing:track_null", "no entry"); return; }
      if (n->EOS()) break;
      if (k >= mine.size()) { R().viol("growing:track_extra", "more blocks than stored"); return; }
      if (!Same(t, n, mine[k], "growing_track", rd, false)) return;
      ++k; e = n;
      R().count("track_steps");
    }
    if (k != mine.size()) { R().viol("growing:track_lost", Fmt("track %ld: %zu of %zu blocks, %lld of %zu bytes there", tr->GetNumber(), k, mine.size(), rd.avail, d.bytes.size())); return; }
    int x; while ((x = load()) == 1) {}
    if (x < 0) return;
    R().count("track_runs");
  }
  if (rd.avail < g.size()) { g.To(g.size()); int x; while ((x = load()) == 1) {} if (x < 0) return; }
  std::string want = WantMeta(d), got = SeenHeader(h) + dump::Segment(s) + SeenHeads(s);
  if (want != got) { std::string df = Diff(want, got); R().viol("final_metadata:" + Kind(df), df); return; }
  if (WalkClusters(t, s, rd, "final", true)) WalkTracks(t, s, rd, "final_track");
  R().count(Fmt("policy%d", g.policy)); R().count(known ? "total_known" : "total_unknown"); R().count("grows", g.grows); R().count("asked", g.asked);
  R().sig(Mix(Hash(d.bytes), g.grows));
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C01", C01}, {"C02", C02}, {"C03", C03}, {"C04", C04}, {"C05", C05}}); }
