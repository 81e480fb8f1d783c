// Monitors for the mkvmuxer properties C06..C15: random muxing runs observed
// through the writer interface, judged by an independent reader, a reference
// model of clustering and by comparing runs.
#include <sys/mman.h>
#include "mux_common.h"

#include <dirent.h>

#include "mkvdump.h"

using namespace vf;
using namespace mux;

namespace {

std::string Describe(const Scenario& s) {
  std::string o = Fmt("live=%d cues=%d accurate=%d fixed=%d est=%d blocknum=%d setdur=%g scale=%" PRIu64 " maxdur=%" PRId64 " maxsize=%" PRId64 " cues_track=%d chapters=%zu tags=%zu mono=%d;", s.live, s.cues, s.accurate, s.fixed_tc, s.estimate, s.block_num, s.set_duration, s.scale, (int64_t)s.max_dur, (int64_t)s.max_size, s.cues_track, s.chapters.size(), s.tags.size(), s.monotone);
  for (auto& t : s.tracks) o += Fmt(" track %c%" PRIu64 "(%s)", t.kind, t.number, t.codec.c_str());
  o += ";";
  for (size_t i = 0; i < s.ops.size() && i < 40; ++i) {
    auto& p = s.ops[i];
    if (p.kind == Op::kFrame) o += Fmt(" f(api%d t%" PRIu64 " %" PRIu64 "ns %s len%zu add%zu dur%" PRIu64 " dp%" PRId64 ")", p.api, p.track, p.ts, p.key ? "K" : "-", p.data.size(), p.add.size(), p.dur, p.dpad);
    else o += Fmt(" op%d(%" PRIu64 ")", (int)p.kind, p.v);
  }
  return o;
}

struct Blk {
  size_t cluster;
  uint64_t track, tc;
  bool key, simple, has_add = false, has_dur = false, has_dp = false, has_ref = false;
  int64_t ref = 0;
  Bytes data, add;
  uint64_t add_id = 1, dur = 0, pos = 0, size = 0;
  int64_t dp = 0, rel = 0;
};

struct File {
  Bytes data;
  std::vector<Node> top;
  const Node* seg = nullptr;
  std::vector<const Node*> clusters;
  std::vector<Blk> blocks;
  std::vector<uint64_t> block_sizes;
  uint64_t base() const { return seg->pos + seg->hdr; }
};

typedef std::function<void(const std::string&, const std::string&)> Bad;

void CheckSchema(const Node& n, const Bad& bad) {
  std::map<uint32_t, int> seen;
  for (auto& k : n.kids) {
    if (k.id == ID_Void) continue;
    const El* e = FindEl(k.id, n.id);
    if (!e) { bad("illegal_element", ElName(k.id) + " in " + ElName(n.id)); continue; }
    if (++seen[k.id] > 1 && !e->many) bad("duplicate_element", ElName(k.id) + " occurs twice in " + ElName(n.id));
    if (k.type == 'U' || k.type == 'O') {
      if (k.body < 1 || k.body > 8) bad("integer_width", Fmt("%s has %" PRIu64 " bytes", e->name, k.body));
      if (k.u < e->lo || k.u > e->hi) bad("illegal_value", Fmt("%s = %" PRIu64, e->name, k.u));
    }
    if (k.type == 'F' && k.body != 4 && k.body != 8) bad("float_width", e->name);
    if (k.type == 'M') CheckSchema(k, bad);
  }
  for (auto* e : KidsOf(n.id)) if (e->must && !seen.count(e->id)) bad("missing_element", std::string(e->name) + " missing in " + ElName(n.id));
}

// Parses |d| into |f|. Reports structural defects through |bad|. Returns
// whether the rest of the checks can use the result.
bool Load(const Bytes& d, File* f, const Bad& bad) {
  f->data = d;
  Reader rd(f->data);
  f->top = rd.Parse();
  for (auto& e : rd.errors) bad("structure", e);
  if (f->top.size() != 2 || f->top[0].id != ID_EBML || f->top[1].id != ID_Segment) { bad("toplevel", Fmt("%zu top-level elements", f->top.size())); return false; }
  f->seg = &f->top[1];
  for (auto& k : f->seg->kids) {
    if (k.id != ID_Cluster) continue;
    size_t ci = f->clusters.size();
    f->clusters.push_back(&k);
    const Node* t = k.kid(ID_Timecode);
    uint64_t tc = t ? t->u : 0;
    if (!t) bad("cluster_timecode", "cluster without timecode");
    else if (k.kids[0].id != ID_Timecode) bad("cluster_timecode", "timecode is not the first element of its cluster");
    for (auto& b : k.kids) {
      const Node* p = nullptr;
      bool simple = b.id == ID_SimpleBlock;
      if (simple) p = &b;
      else if (b.id == ID_BlockGroup) p = b.kid(ID_Block);
      else continue;
      if (!p) { bad("blockgroup", "BlockGroup without Block"); continue; }
      BlockData bd;
      if (!DecodeBlock(p->b, simple, &bd) || bd.frames.size() != 1) { bad("block", "malformed block " + Hex(p->b, 16)); continue; }
      Blk o;
      o.cluster = ci; o.track = bd.track; o.rel = bd.tc; o.simple = simple; o.data = bd.frames[0]; o.pos = b.pos; o.size = b.hdr + b.body;
      o.tc = tc + bd.tc; o.key = simple ? bd.key : !b.kid(ID_ReferenceBlock);
      if (bd.invisible || bd.discardable) bad("block_flags", "invisible/discardable flag set");
      if (bd.track_len != 1) bad("block", "track number not coded in one byte");
      if (!simple) {
        if (auto* x = b.kid(ID_ReferenceBlock)) { o.has_ref = true; o.ref = x->i; }
        if (auto* x = b.kid(ID_BlockDuration)) { o.has_dur = true; o.dur = x->u; }
        if (auto* x = b.kid(ID_DiscardPadding)) { o.has_dp = true; o.dp = x->i; }
        auto adds = b.all(ID_BlockAdditions);
        for (auto* a : adds) for (auto* m : a->all(ID_BlockMore)) {
          if (o.has_add) bad("blockadditions", "more than one BlockMore");
          o.has_add = true;
          if (auto* x = m->kid(ID_BlockAddID)) o.add_id = x->u;
          if (auto* x = m->kid(ID_BlockAdditional)) o.add = x->b;
        }
      }
      f->blocks.push_back(o);
      f->block_sizes.push_back(o.size);
    }
  }
  return true;
}

struct Done {
  bool ok = false;        // every call and finalization succeeded
  RunResult res;
  Bytes data;
  MemWriter w;
};

void RunMem(const Scenario& s, Done* d, bool seekable = true, int64_t base = 0) {
  d->w.seekable = seekable; d->w.base = base;
  mkvmuxer::Segment seg;
  d->res = Run(seg, s, &d->w);
  d->data = d->w.buf;
  d->ok = d->res.all_ok;
}

bool WebmCodec(const std::string& c) {
  static const std::set<std::string> k = {"A_OPUS", "A_VORBIS", "V_AV1", "V_VP8", "V_VP9", "D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/METADATA", "D_WEBVTT/DESCRIPTIONS"};
  return k.count(c) > 0;
}

// ------------------------------------------------------------------ C06
void WellFormed(const Scenario& s, const File& f, bool seekable, const Bad& bad) {
  CheckSchema(f.top[0], bad);
  CheckSchema(f.top[1], bad);
  const Node& eb = f.top[0];
  bool webm = true;
  for (auto& t : s.tracks) webm &= WebmCodec(t.codec);
  const Node* dt = eb.kid(ID_DocType);
  std::string want = webm ? "webm" : "matroska";
  if (!dt || dt->b != want) bad("doctype", "DocType is '" + (dt ? dt->b : "") + "', expected " + want);
  auto val = [&](uint32_t id, uint64_t v) { const Node* n = eb.kid(id); if (!n || n->u != v) bad("ebml_header", Fmt("%s = %" PRId64 ", expected %" PRIu64, ElName(id).c_str(), n ? (int64_t)n->u : -1, v)); };
  val(ID_EBMLVersion, 1); val(ID_EBMLReadVersion, 1); val(ID_EBMLMaxIDLength, 4); val(ID_EBMLMaxSizeLength, 8);
  val(ID_DocTypeVersion, 4);
  const Node* rv = eb.kid(ID_DocTypeReadVersion);
  if (!rv || rv->u < 2 || rv->u > 4) bad("ebml_header", "DocTypeReadVersion");
  bool patched = seekable && !s.live;
  if (f.seg->unknown == patched) bad("segment_size", patched ? "segment size left unknown" : "segment size known");
  // header elements before the first cluster, cues after the last
  bool cluster = false, cues = false;
  int n_tracks = 0;
  for (auto& k : f.seg->kids) {
    if (k.id == ID_Cluster) { cluster = true; if (cues) bad("order", "cluster after cues"); continue; }
    if (k.id == ID_Cues) { cues = true; continue; }
    if (cluster && k.id != ID_Void) bad("order", ElName(k.id) + " after the first cluster");
    if (k.id == ID_Tracks) n_tracks = (int)k.all(ID_TrackEntry).size();
  }
  if (n_tracks != (int)s.tracks.size()) bad("tracks", Fmt("%d track entries, %zu tracks", n_tracks, s.tracks.size()));
  for (auto& k : f.seg->kids) {
    if (k.unknown && k.id != ID_Cluster) bad("unknown_size", ElName(k.id));
    if (k.id != ID_Cluster) continue;
    if (k.unknown && seekable && patched) bad("unknown_size", "cluster of unknown size in a seekable file");
    for (auto& b : k.kids) if (b.unknown) bad("unknown_size", ElName(b.id));
    const Node* t = k.kid(ID_Timecode);
    if (t && s.fixed_tc && t->body != 8) bad("fixed_timecode", Fmt("cluster timecode of %" PRIu64 " bytes", t->body));
  }
  uint64_t prev_size = 0, prev_tc = 0;
  for (size_t i = 0; i < f.clusters.size(); ++i) {
    const Node& c = *f.clusters[i];
    if (const Node* p = c.kid(ID_PrevSize)) if (p->u != prev_size) bad("prevsize", Fmt("PrevSize %" PRIu64 " expected %" PRIu64, p->u, prev_size));
    const Node* t = c.kid(ID_Timecode);
    if (t && t->u < prev_tc) bad("cluster_order", "cluster timecode decreases");
    if (t) prev_tc = t->u;
    prev_size = c.hdr + c.body;
    bool any = false;
    for (auto& b : c.kids) any |= b.id == ID_SimpleBlock || b.id == ID_BlockGroup;
    if (!any) bad("empty_cluster", "cluster without blocks");
  }
  for (auto& b : f.blocks) {
    if (!TrackKind(s, b.track)) bad("block_track", Fmt("block of unknown track %" PRIu64, b.track));
    if (b.rel < 0) bad("block_time", "block before its cluster");
  }
}

// ------------------------------------------------------------------ C07
// Compares the blocks with the frames the model says were written.
void Frames(const Scenario& s, const File& f, const Model& m, const Bad& bad, bool refs = false) {
  std::map<uint64_t, std::vector<const Blk*>> got;
  for (auto& b : f.blocks) got[b.track].push_back(&b);
  std::map<uint64_t, std::vector<MFrame>> want;
  for (auto& c : m.clusters) for (auto& b : c.blocks) want[b.f.track].push_back(b.f);
  for (auto& w : want) std::stable_sort(w.second.begin(), w.second.end(), [](const MFrame& a, const MFrame& b) { return a.op < b.op; });
  std::set<uint64_t> all;
  for (auto& g : got) all.insert(g.first);
  for (auto& w : want) all.insert(w.first);
  for (uint64_t t : all) {
    auto& g = got[t]; auto& w = want[t];
    if (g.size() != w.size()) { bad("frame_count", Fmt("track %" PRIu64 ": %zu frames in the file, %zu accepted", t, g.size(), w.size())); continue; }
    for (size_t i = 0; i < g.size(); ++i) {
      const Op& o = s.ops[w[i].op];
      const Blk& b = *g[i];
      std::string where = Fmt("track %" PRIu64 " frame %zu (op %d): ", t, i, w[i].op);
      R().count("frames");
      R().count(b.simple ? "simple_blocks" : "block_groups");
      if (b.data != o.data) { bad("frame_data", where + Hex(b.data, 12) + " expected " + Hex(o.data, 12)); continue; }
      if (b.tc != o.ts / s.scale) bad("frame_time", where + Fmt("%" PRIu64 " expected %" PRIu64, b.tc, o.ts / s.scale));
      if (b.key != o.key) bad("frame_key", where + Fmt("key %d expected %d", b.key, o.key));
      if (b.has_add != !o.add.empty() || b.add != o.add || (b.has_add && b.add_id != o.add_id)) bad("frame_additional", where + "additional data differs");
      uint64_t dur = w[i].dur / s.scale;
      if (b.has_dur != (dur > 0) || (b.has_dur && b.dur != dur)) bad("frame_duration", where + Fmt("duration %d:%" PRIu64 " expected %" PRIu64, b.has_dur, b.dur, dur));
      if (b.has_dp != (o.dpad != 0) || b.dp != o.dpad) bad("frame_discard", where + Fmt("discard padding %d:%" PRId64 " expected %" PRId64, b.has_dp, b.dp, o.dpad));
      if (refs && b.has_ref) {
        // the frame it refers to: the one given, else an earlier one of its track
        // Known finding: it is written as the unsigned absolute time of that frame, which the format reads as a signed relative one.
        auto absolute = [&](uint64_t tc) { int n = 1; while (n < 8 && tc >> (8 * n)) ++n; int64_t v = (int64_t)tc; if (n < 8 && (tc >> (8 * n - 1) & 1)) v -= (int64_t)1 << (8 * n); return b.ref == v; };
        int64_t at = (int64_t)b.tc + b.ref;
        if (o.ref_set) {
          uint64_t want_at = (uint64_t)o.ref / s.scale;
          if (at != (int64_t)want_at) bad(absolute(want_at) ? "reference_absolute" : "frame_reference", where + Fmt("ReferenceBlock %" PRId64 " refers to %" PRId64 ", expected %" PRIu64, b.ref, at, want_at));
          R().count("references_given");
        } else {
          // (a queued frame refers to the last one that was written by then, or to 0)
          bool known = at == 0, abs = b.ref == 0;
          for (size_t k = 0; k < i; ++k) { known |= (int64_t)g[k]->tc == at; abs |= absolute(g[k]->tc); }
          if (!known) bad(abs ? "reference_absolute" : "frame_reference", where + Fmt("ReferenceBlock %" PRId64 " refers to %" PRId64 ", where its track has no earlier frame", b.ref, at));
          R().count("references");
        }
      }
      if (b.has_dp) R().count("discard_paddings");
      if (b.has_add) R().count("additionals");
      if (b.has_dur) R().count("durations");
    }
  }
}

// ------------------------------------------------------------------ C08
Node ExpInfo(const Scenario& s, bool duration, double dur, const Node* actual) {
  Node n = NM(ID_Info);
  n.kids.push_back(NU(ID_TimecodeScale, s.scale));
  if (duration) n.kids.push_back(NF(ID_Duration, dur, 4));
  if (s.date != INT64_MIN) { Node d = NI(ID_DateUTC, s.date); d.type = 'D'; n.kids.push_back(d); }
  if (s.has_mux) n.kids.push_back(NS(ID_MuxingApp, s.muxing));
  else if (actual && actual->kid(ID_MuxingApp)) n.kids.push_back(*actual->kid(ID_MuxingApp));
  if (s.has_writ) n.kids.push_back(NS(ID_WritingApp, s.writing));
  else if (actual && actual->kid(ID_WritingApp)) n.kids.push_back(*actual->kid(ID_WritingApp));
  return n;
}
Node ExpTracks(const Scenario& s) {
  Node ts = NM(ID_Tracks);
  for (auto& t : s.tracks) {
    Node e = NM(ID_TrackEntry);
    auto U = [&](Node& n, uint32_t id, uint64_t v) { n.kids.push_back(NU(id, v)); };
    U(e, ID_TrackNumber, t.number); U(e, ID_TrackUID, t.uid); U(e, ID_TrackType, t.type);
    e.kids.push_back(NS(ID_CodecID, t.codec));
    if (!t.priv.empty()) e.kids.push_back(NB(ID_CodecPrivate, t.priv));
    if (t.has_lang) e.kids.push_back(NS(ID_Language, t.lang));
    if (t.has_name) e.kids.push_back(NS(ID_Name, t.name));
    if (t.max_add) U(e, ID_MaxBlockAdditionID, t.max_add);
    if (t.delay) U(e, ID_CodecDelay, t.delay);
    if (t.preroll) U(e, ID_SeekPreRoll, t.preroll);
    if (t.defdur) U(e, ID_DefaultDuration, t.defdur);
    if (!t.enc.empty()) {
      Node es = NM(ID_ContentEncodings);
      for (auto& k : t.enc) {
        Node x = NM(ID_ContentEncoding);
        U(x, ID_ContentEncodingOrder, k.order); U(x, ID_ContentEncodingScope, k.scope); U(x, ID_ContentEncodingType, k.type);
        Node c = NM(ID_ContentEncryption);
        U(c, ID_ContentEncAlgo, k.algo); c.kids.push_back(NB(ID_ContentEncKeyID, k.key));
        Node a = NM(ID_ContentEncAESSettings); U(a, ID_AESSettingsCipherMode, 1);
        c.kids.push_back(a); x.kids.push_back(c); es.kids.push_back(x);
      }
      e.kids.push_back(es);
    }
    if (t.kind == 'V') {
      Node v = NM(ID_Video);
      U(v, ID_PixelWidth, t.pw ? t.pw : t.w); U(v, ID_PixelHeight, t.ph ? t.ph : t.h);
      if (t.dw) U(v, ID_DisplayWidth, t.dw);
      if (t.dh) U(v, ID_DisplayHeight, t.dh);
      if (t.cl) U(v, ID_PixelCropLeft, t.cl);
      if (t.cr) U(v, ID_PixelCropRight, t.cr);
      if (t.ct) U(v, ID_PixelCropTop, t.ct);
      if (t.cb) U(v, ID_PixelCropBottom, t.cb);
      if (t.stereo) U(v, ID_StereoMode, t.stereo);
      if (t.alpha) U(v, ID_AlphaMode, t.alpha);
      if (t.has_cspace) { Node n = NS(ID_ColourSpace, t.cspace); n.type = FindEl(ID_ColourSpace, ID_Video)->type; v.kids.push_back(n); }
      if (t.rate > 0) v.kids.push_back(NF(ID_FrameRate, t.rate, 4));
      if (t.has_colour) {
        static const uint32_t ids[13] = {ID_MatrixCoefficients, ID_BitsPerChannel, ID_ChromaSubsamplingHorz, ID_ChromaSubsamplingVert, ID_CbSubsamplingHorz, ID_CbSubsamplingVert, ID_ChromaSitingHorz, ID_ChromaSitingVert, ID_Range, ID_TransferCharacteristics, ID_Primaries, ID_MaxCLL, ID_MaxFALL};
        static const uint32_t pcs[8] = {ID_PrimaryRX, ID_PrimaryRY, ID_PrimaryGX, ID_PrimaryGY, ID_PrimaryBX, ID_PrimaryBY, ID_WhitePointX, ID_WhitePointY};
        Node c = NM(ID_Colour);
        for (int i = 0; i < 13; ++i) if (t.col.v[i] != ~0ULL) U(c, ids[i], t.col.v[i]);
        if (t.col.mm) {
          Node m = NM(ID_MasteringMetadata);
          if (t.col.lmax != FLT_MAX) m.kids.push_back(NF(ID_LuminanceMax, t.col.lmax, 4));
          if (t.col.lmin != FLT_MAX) m.kids.push_back(NF(ID_LuminanceMin, t.col.lmin, 4));
          for (int i = 0; i < 4; ++i) if (t.col.has_pc[i]) { m.kids.push_back(NF(pcs[2 * i], t.col.pc[i][0], 4)); m.kids.push_back(NF(pcs[2 * i + 1], t.col.pc[i][1], 4)); }
          if (!m.kids.empty()) c.kids.push_back(m);
        }
        if (!c.kids.empty()) v.kids.push_back(c);
      }
      if (t.has_proj) {
        Node p = NM(ID_Projection);
        U(p, ID_ProjectionType, t.ptype);
        if (!t.ppriv.empty()) p.kids.push_back(NB(ID_ProjectionPrivate, t.ppriv));
        p.kids.push_back(NF(ID_PoseYaw, t.yaw, 4)); p.kids.push_back(NF(ID_PosePitch, t.pitch, 4)); p.kids.push_back(NF(ID_PoseRoll, t.roll, 4));
        v.kids.push_back(p);
      }
      e.kids.push_back(v);
    } else if (t.kind == 'A') {
      Node a = NM(ID_Audio);
      a.kids.push_back(NF(ID_SamplingFrequency, t.srate2 > 0 ? t.srate2 : t.srate, 4));
      U(a, ID_Channels, t.chans2 ? t.chans2 : t.chans);
      if (t.depth) U(a, ID_BitDepth, t.depth);
      e.kids.push_back(a);
    }
    ts.kids.push_back(e);
  }
  return ts;
}
Node ExpChapters(const Scenario& s) {
  Node n = NM(ID_Chapters), e = NM(ID_EditionEntry);
  for (auto& c : s.chapters) {
    Node a = NM(ID_ChapterAtom);
    a.kids.push_back(NS(ID_ChapterStringUID, c.id)); a.kids.push_back(NU(ID_ChapterUID, c.uid));
    a.kids.push_back(NU(ID_ChapterTimeStart, c.start / s.scale)); a.kids.push_back(NU(ID_ChapterTimeEnd, c.end / s.scale));
    for (auto& d : c.disp) {
      Node x = NM(ID_ChapterDisplay);
      x.kids.push_back(NS(ID_ChapString, d.title));
      if (d.has_lang) x.kids.push_back(NS(ID_ChapLanguage, d.lang));
      if (d.has_country) x.kids.push_back(NS(ID_ChapCountry, d.country));
      a.kids.push_back(x);
    }
    e.kids.push_back(a);
  }
  n.kids.push_back(e);
  return n;
}
Node ExpTags(const Scenario& s) {
  Node n = NM(ID_Tags);
  for (auto& t : s.tags) {
    Node g = NM(ID_Tag);
    for (auto& st : t.st) { Node x = NM(ID_SimpleTag); x.kids.push_back(NS(ID_TagName, st.first)); x.kids.push_back(NS(ID_TagString, st.second)); g.kids.push_back(x); }
    n.kids.push_back(g);
  }
  return n;
}
// Children with different ids may come in any order; repeated ids keep theirs.
void Canon(Node* n) {
  std::vector<Node> k;
  for (auto& c : n->kids) if (c.id != ID_Void) { Canon(&c); k.push_back(c); }
  std::stable_sort(k.begin(), k.end(), [](const Node& a, const Node& b) { return a.id < b.id; });
  n->kids = k;
}
std::string Text(const Node* n) {
  if (!n) return "(absent)\n";
  Node c = *n; Canon(&c);
  std::string o; DumpTree(c, &o);
  return o;
}
std::string FirstDiff(const std::string& a, const std::string& b) {
  std::istringstream x(a), y(b); std::string l, m;
  for (int i = 0;; ++i) {
    bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
    if (!p) l = "(end)"; if (!q) m = "(end)";
    if (!p && !q) return "";
    if (l != m) return Fmt("line %d: got '%s' expected '%s'", i, l.substr(0, 200).c_str(), m.substr(0, 200).c_str());
  }
}
double ExpDuration(const Scenario& s, const Model& m) { return m.Duration(); }

void Metadata(const Scenario& s, const File& f, const Model& m, bool seekable, const Bad& bad) {
  auto cmp = [&](const char* what, const Node* got, const Node* want) {
    if (!got && !want) return;
    std::string a = Text(got), b = Text(want);
    if (a != b) bad(std::string("metadata_") + what, FirstDiff(a, b));
    R().count(std::string("compared_") + what);
  };
  const Node* ai = f.seg->kid(ID_Info);
  Node info = ExpInfo(s, false, 0, ai);
  Node got_info; const Node* gi = nullptr;
  if (ai) {
    got_info = *ai;
    for (size_t i = 0; i < got_info.kids.size(); ++i) if (got_info.kids[i].id == ID_Duration) { got_info.kids.erase(got_info.kids.begin() + i); break; }
    gi = &got_info;
  }
  cmp("info", gi, &info);
  Node t = ExpTracks(s); cmp("tracks", f.seg->kid(ID_Tracks), &t);
  Node c = ExpChapters(s); cmp("chapters", f.seg->kid(ID_Chapters), s.chapters.empty() ? nullptr : &c);
  Node g = ExpTags(s); cmp("tags", f.seg->kid(ID_Tags), s.tags.empty() ? nullptr : &g);
  // and as the project's own parser sees it
  std::string want = dump::Project(info, t, s.chapters.empty() ? nullptr : &c, s.tags.empty() ? nullptr : &g, s.scale);
  std::string err, got = dump::Parse(f.data, &err);
  if (!err.empty()) bad("mkvparser_open", err);
  else if (got != want) bad("mkvparser_metadata", FirstDiff(got, want));
  else R().count("mkvparser_agreed");
}

// ------------------------------------------------------------------ C09
void CuesAndSeekHead(const Scenario& s, const File& f, const Model& m, bool seekable, const Bad& bad) {
  std::map<uint64_t, const Node*> at;
  for (auto& k : f.seg->kids) at[k.pos - f.base()] = &k;
  const Node* sh = f.seg->kid(ID_SeekHead);
  bool file = !s.live;
  if (file && seekable) {
    if (!sh) { bad("seekhead_missing", "no SeekHead"); }
    else {
      std::map<uint32_t, int> listed;
      for (auto* e : sh->all(ID_Seek)) {
        const Node* id = e->kid(ID_SeekID); const Node* p = e->kid(ID_SeekPosition);
        if (!id || !p) { bad("seek_entry", "incomplete Seek entry"); continue; }
        uint32_t want = (uint32_t)Reader::UInt(id->b);
        auto it = at.find(p->u);
        R().count("seek_entries");
        if (it == at.end() || it->second->id != want) bad("seek_position", Fmt("entry for %s points at %" PRIu64 ", where %s", ElName(want).c_str(), p->u, it == at.end() ? "no element starts" : ElName(it->second->id).c_str()));
        if (++listed[want] > 1) bad("seek_duplicate", ElName(want));
      }
      for (uint32_t id : {ID_Info, ID_Tracks, ID_Chapters, ID_Tags, ID_Cues}) if (f.seg->kid(id) && !listed.count(id)) bad("seek_unlisted", ElName(id) + " is not in the seek head");
    }
  } else if (sh) bad("seekhead_unexpected", "SeekHead in a stream that cannot be patched");
  const Node* cs = f.seg->kid(ID_Cues);
  if ((cs != nullptr) != (file && s.cues)) { bad("cues_presence", Fmt("cues %d, asked for %d", cs != nullptr, file && s.cues)); return; }
  if (!cs) return;
  auto pts = cs->all(ID_CuePoint);
  if (pts.size() != m.cues.size()) bad("cue_count", Fmt("%zu cue points, expected %zu", pts.size(), m.cues.size()));
  uint64_t prev = 0;
  for (size_t i = 0; i < pts.size(); ++i) {
    const Node* t = pts[i]->kid(ID_CueTime);
    auto tps = pts[i]->all(ID_CueTrackPositions);
    if (!t || tps.size() != 1) { bad("cue_point", "incomplete cue point"); continue; }
    if (i && s.monotone && t->u < prev) bad("cue_order", "cue times decrease");
    prev = t->u;
    const Node* tr = tps[0]->kid(ID_CueTrack); const Node* cp = tps[0]->kid(ID_CueClusterPosition); const Node* bn = tps[0]->kid(ID_CueBlockNumber);
    if (!tr || !cp) { bad("cue_point", "incomplete cue positions"); continue; }
    R().count("cue_points");
    auto it = at.find(cp->u);
    if (it == at.end() || it->second->id != ID_Cluster) { bad("cue_cluster", Fmt("cue %zu points at %" PRIu64 " where no cluster starts", i, cp->u)); continue; }
    size_t ci = 0; while (ci < f.clusters.size() && f.clusters[ci] != it->second) ++ci;
    if (i < m.cues.size()) {
      const MCue& w = m.cues[i];
      if (w.time != t->u || w.track != tr->u || w.cluster != ci) bad("cue_target", Fmt("cue %zu: time %" PRIu64 " track %" PRIu64 " cluster %zu, expected %" PRIu64 "/%" PRIu64 "/%zu", i, t->u, tr->u, ci, w.time, w.track, w.cluster));
    }
    // a block of that track and time, at the given number
    uint64_t num = 0, at_num = 0; bool found = false, number_ok = false;
    for (auto& b : f.blocks) if (b.cluster == ci) {
      ++num;
      if (b.track == tr->u && b.tc == t->u) { found = true; at_num = num; if ((bn ? bn->u : 1) == num) number_ok = true; }
    }
    if (!found) bad("cue_block", Fmt("cue %zu: no block of track %" PRIu64 " at time %" PRIu64 " in its cluster", i, tr->u, t->u));
    if (bn && !s.block_num) bad("cue_number_presence", "block number present, asked not to");
    if (s.block_num && found && !number_ok) bad(s.accurate && (bn ? bn->u : 1) < at_num ? "cue_number_accurate" : "cue_number", Fmt("cue %zu: block %" PRIu64 " is not the cued block", i, bn ? bn->u : 1));
  }
}

// ------------------------------------------------------------------ C10
void Clusters(const Scenario& s, const File& f, const Model& m, bool seekable, const Bad& bad) {
  if (f.clusters.size() != m.clusters.size()) bad("cluster_count", Fmt("%zu clusters, expected %zu", f.clusters.size(), m.clusters.size()));
  size_t bi = 0;
  for (size_t i = 0; i < f.clusters.size() && i < m.clusters.size(); ++i) {
    const Node* t = f.clusters[i]->kid(ID_Timecode);
    if (!t || t->u != m.clusters[i].tc) bad("cluster_time", Fmt("cluster %zu at %" PRIu64 ", expected %" PRIu64, i, t ? t->u : 0, m.clusters[i].tc));
    size_t n = 0;
    while (bi < f.blocks.size() && f.blocks[bi].cluster == i) {
      const Blk& b = f.blocks[bi];
      if (n < m.clusters[i].blocks.size()) {
        const MBlock& w = m.clusters[i].blocks[n];
        if (b.track != w.f.track || b.data != s.ops[w.f.op].data || (uint64_t)b.rel != w.rel)
          bad("cluster_block", Fmt("cluster %zu block %zu: track %" PRIu64 " +%" PRId64 ", expected track %" PRIu64 " +%" PRIu64 " (op %d)", i, n, b.track, b.rel, w.f.track, w.rel, w.f.op));
      }
      ++n; ++bi;
    }
    if (n != m.clusters[i].blocks.size()) bad("cluster_blocks", Fmt("cluster %zu holds %zu blocks, expected %zu", i, n, m.clusters[i].blocks.size()));
    R().count("clusters");
  }
  const Node* info = f.seg->kid(ID_Info);
  const Node* d = info ? info->kid(ID_Duration) : nullptr;
  if (s.live || !seekable) { if (d) bad("duration_presence", "duration in a live stream"); return; }
  if (!d) { bad("duration_presence", "no duration"); return; }
  double base = ((double)m.last_ts + m.last_dur) / s.scale;
  if (s.set_duration > 0) {
    if (d->f != (double)(float)s.set_duration) bad("duration", Fmt("%.9g, the caller set %.9g", d->f, s.set_duration));
    R().count("durations_set");
  } else if (s.estimate && m.last_dur == 0) {
    // at least the plain duration, at most the longest per-track extrapolation
    double hi = base;
    for (auto& n : m.track_n) if (n.second >= 2) {
      auto it = m.track_ts.find(n.first);
      double last = it == m.track_ts.end() ? 0 : (double)it->second;
      hi = std::max(hi, (last + last / (n.second - 1)) / s.scale);
    }
    if (hi > 0 && (d->f < (double)(float)base || d->f != (double)(float)hi)) bad("duration_estimate", Fmt("%.9g, expected %.9g (plain %.9g)", d->f, hi, base));
    R().count("durations_estimated");
  } else if (base > 0) {
    if (d->f != (double)(float)base) bad("duration", Fmt("%.9g, last frame ends at %.9g", d->f, base));
    R().count("durations_plain");
  } else R().count("durations_zero");
}

// ------------------------------------------------------------------ common
struct Case { Scenario s; Done d; File f; bool usable = false; bool expect_final = false; std::vector<int> expected; std::unique_ptr<Model> m; };

Bad Reporter(const Scenario& s, const char* ctx = "") {
  return [&s, ctx](const std::string& k, const std::string& msg) { R().viol(k, std::string(ctx) + msg + "\n  run: " + Describe(s)); };
}

// Runs the scenario, loads the output and replays the model. Acceptance of
// every call is compared with the model for monotone input.
bool Prepare(Case* c, const GenCfg& g, Rng& rng, bool seekable, const std::string& suite, const Bad& bad) {
  // Sometimes the output does not start at the writer's position zero.
  int64_t base = rng.chance(5) ? (int64_t)((1ULL << rng.pick<int>({8, 31, 32, 33, 40})) - rng.u(2000)) : 0;
  if (base < 0) base = 1;
  if (base) R().count("files_at_offset");
  RunMem(c->s, &c->d, seekable, base);
  auto quiet = [](const std::string&, const std::string&) {};
  bool loaded = false;
  if (c->d.res.finalized) loaded = Load(c->d.data, &c->f, suite == "C06" ? bad : Bad(quiet));
  c->m.reset(new Model(c->s));
  if (loaded) c->m->actual = &c->f.block_sizes;
  c->expect_final = c->m->Replay(&c->expected);
  if (!c->d.res.setup) { bad("setup_refused", "a legal configuration was refused"); return false; }
  if (c->s.monotone && !c->m->failed) {
    for (size_t i = 0; i < c->expected.size() && i < c->d.res.op_ok.size(); ++i)
      if (c->expected[i] == 1 && c->d.res.op_ok[i] != 1) { bad("frame_refused", Fmt("legal frame (op %zu) refused", i)); return false; }
    if (c->expect_final && !c->d.res.finalized) { bad("finalize_refused", "finalization of a legal run failed"); return false; }
  }
  if (!c->d.res.finalized) { R().count("not_finalized"); return false; }
  if (!loaded) { if (suite != "C06") bad("unreadable", "output cannot be read"); return false; }
  // The model only describes runs whose accepted calls agree with its own.
  for (size_t i = 0; i < c->expected.size() && i < c->d.res.op_ok.size(); ++i) if (c->expected[i] != c->d.res.op_ok[i]) { R().count("model_mismatch"); if (suite == "C07" || suite == "C10") bad("acceptance", Fmt("op %zu accepted %d, expected %d", i, c->d.res.op_ok[i], c->expected[i])); return false; }
  if (!c->expect_final) { R().count("model_final_mismatch"); return false; }
  R().count("files");
  if (c->s.live) R().count("files_live");
  if (c->s.accurate) R().count("files_accurate");
  R().count("bytes", c->d.data.size());
  c->usable = true;
  return true;
}

uint64_t Shape(const Case& c) {
  const Scenario& s = c.s;
  uint64_t h = Mix(s.live * 64 + s.cues * 32 + s.accurate * 16 + s.fixed_tc * 8 + s.estimate * 4 + s.block_num * 2 + (s.set_duration > 0), s.tracks.size());
  for (auto& t : s.tracks) h = Mix(h, t.kind);
  h = Mix(h, Mix(c.f.clusters.size(), c.f.blocks.size()));
  return h;
}

void Generic(const std::string& suite, Rng& rng, GenCfg g) {
  Case c;
  c.s = GenScenario(rng, g);
  bool seekable = suite == "C09" || suite == "C10" ? !rng.chance(10) : !rng.chance(15);
  Bad bad = Reporter(c.s);
  if (!Prepare(&c, g, rng, seekable, suite, bad)) return;
  R().sig(Shape(c));
  if (suite == "C06") {
    WellFormed(c.s, c.f, seekable, bad);
    if (!c.d.w.notify_error.empty()) bad("element_start_notify", c.d.w.notify_error);
    R().count("notifications", c.d.w.notifies);
  }
  if (suite == "C07") Frames(c.s, c.f, *c.m, bad, true);
  if (suite == "C08") Metadata(c.s, c.f, *c.m, seekable, bad);
  if (suite == "C09") CuesAndSeekHead(c.s, c.f, *c.m, seekable, bad);
  if (suite == "C10") Clusters(c.s, c.f, *c.m, seekable, bad);
  if (c.f.blocks.size() > 5) R().sample(Describe(c.s).substr(0, 700) + Fmt(" -> %zu bytes, %zu clusters, %zu blocks", c.d.data.size(), c.f.clusters.size(), c.f.blocks.size()));
}
// Output of several gigabytes. Pages of zeros are not stored.
struct PageWriter : mkvmuxer::IMkvWriter {
  std::map<uint64_t, Bytes> pages;
  uint64_t pos = 0, size = 0;
  bool seekable = true;
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 len) override {
    const uint8_t* p = (const uint8_t*)b;
    for (uint64_t n = len; n;) {
      uint64_t pg = pos >> 12, off = pos & 4095, k = std::min<uint64_t>(n, 4096 - off);
      auto it = pages.find(pg);
      if (it == pages.end() && (p[0] || memcmp(p, p + 1, k - 1))) it = pages.emplace(pg, Bytes(4096, '\0')).first;
      if (it != pages.end()) memcpy(&it->second[off], p, k);
      p += k; pos += k; n -= k;
    }
    size = std::max(size, pos);
    return 0;
  }
  mkvmuxer::int64 Position() const override { return (int64_t)pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) override { if (!seekable || p < 0) return -1; pos = (uint64_t)p; return 0; }
  bool Seekable() const override { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64, mkvmuxer::int64) override {}
  Bytes Get(uint64_t at, uint64_t n) const {
    Bytes o;
    for (uint64_t i = at; i < at + n && i < size; ++i) { auto it = pages.find(i >> 12); o.push_back(it == pages.end() ? 0 : it->second[i & 4095]); }
    return o;
  }
  uint64_t Num(uint64_t at, uint64_t n) const { return Reader::UInt(Get(at, n)); }
  struct E { uint32_t id = 0; uint64_t pos = 0, body = 0, len = 0; bool unknown = false; uint64_t end() const { return body + len; } };
  bool Elem(uint64_t at, uint64_t end, E* e) const {
    Bytes h = Get(at, 12);
    if (h.empty() || at >= end) return false;
    int il = 1; while (il < 5 && !((uint8_t)h[0] & (0x100 >> il))) ++il;
    if (il > 4 || h.size() < (size_t)il + 1) return false;
    e->pos = at; e->id = (uint32_t)Num(at, il);
    uint8_t c = (uint8_t)h[il];
    int sl = 1; while (sl < 9 && !(c & (0x100 >> sl))) ++sl;
    if (sl > 8) return false;
    e->len = Num(at + il, sl) & ((1ULL << (7 * sl)) - 1);
    e->unknown = e->len == (1ULL << (7 * sl)) - 1;
    e->body = at + il + sl;
    if (e->unknown) e->len = end - e->body;
    return e->body <= end && e->len <= end - e->body;
  }
  bool Kids(const E& p, std::vector<E>* v) const {
    for (uint64_t at = p.body; at < p.end(); at = v->back().end()) { E e; if (!Elem(at, p.end(), &e)) return false; v->push_back(e); }
    return true;
  }
};
void LargeMux(Rng& r, const std::string& suite) {
  PageWriter w;
  mkvmuxer::Segment seg;
  std::vector<uint64_t> sizes;
  uint64_t big = r.pick<uint64_t>({300000000, 600000000, 600000000}), total = 0;
  bool live = suite != "C13" && r.chance(15), one = r.chance(30), accurate = r.chance(30);
  w.seekable = !live || r.coin();
  std::string what = Fmt("live=%d one_cluster=%d seekable=%d accurate=%d frames", live, one, w.seekable, accurate);
  seg.AccurateClusterDuration(accurate);
  if (!seg.Init(&w)) { R().viol("large:init", what); return; }
  seg.set_mode(live ? mkvmuxer::Segment::kLive : mkvmuxer::Segment::kFile);
  seg.OutputCues(!live);
  uint64_t tr = seg.AddVideoTrack(320, 240, 1);
  if (tr != 1) { R().viol("large:track", what); return; }
  // Only read, except for the marks: mostly the shared page of zeros.
  static uint8_t* data = (uint8_t*)mmap(nullptr, 600000000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (data == (uint8_t*)MAP_FAILED) { R().count("no_memory"); return; }
  uint64_t t = 0, limit = r.pick<uint64_t>({2200000000ULL, 4400000000ULL, 4400000000ULL, 9000000000ULL});
  struct F { uint64_t t, n; uint64_t mark; bool key; };
  std::vector<F> frames;
  while (total < limit) {
    uint64_t n = r.chance(60) ? big - r.u(5000) : r.range(16, 5000);
    uint64_t mark = r.next();
    memcpy(&data[0], &mark, 8); memcpy(&data[n - 8], &mark, 8);
    // A cluster starts with each key frame (unless all are to be in one).
    bool key = frames.empty() || (!one && r.chance(60));
    if (!seg.AddFrame(data, n, tr, t, key)) { R().viol("large:frame", what + Fmt(" %" PRIu64 " at %" PRIu64, n, total)); return; }
    memset(&data[0], 0, 8); memset(&data[n - 8], 0, 8);
    frames.push_back({t / 1000000, n, mark, key});
    total += n;
    t += 33000000;
    what += Fmt(" %" PRIu64, n);
  }
  if (!seg.Finalize()) { R().viol("large:finalize", what); return; }
  auto check = [&](const PageWriter& w) -> void {
  auto V = [&](const char* k, const std::string& m) { R().viol(std::string("large:") + k, m + "; " + what); };
  PageWriter::E ebml, sg;
  if (!w.Elem(0, w.size, &ebml) || ebml.id != ID_EBML || !w.Elem(ebml.end(), w.size, &sg) || sg.id != ID_Segment) return V("head", "no EBML header and segment");
  if (sg.end() != w.size || sg.unknown != live) return V("segment_size", Fmt("the segment ends at %" PRIu64 " of %" PRIu64 " (unknown: %d)", sg.end(), w.size, sg.unknown));
  std::vector<PageWriter::E> top;
  if (live) {  // clusters of unknown size: flatten
    for (uint64_t at = sg.body; at < sg.end();) { PageWriter::E e; if (!w.Elem(at, sg.end(), &e)) return V("structure", Fmt("no element at %" PRIu64, at)); top.push_back(e); at = e.id == ID_Cluster && e.unknown ? e.body : e.end(); }
  } else if (!w.Kids(sg, &top)) return V("structure", Fmt("element sizes do not add up in the segment after %" PRIu64, top.empty() ? sg.body : top.back().end()));
  size_t fi = 0; uint64_t ctime = 0; size_t nclusters = 0;
  std::map<uint64_t, uint64_t> cluster_at;  // relative position -> time
  std::function<bool(const PageWriter::E&)> block = [&](const PageWriter::E& e) {
    if (e.id == ID_Timecode) { ctime = w.Num(e.body, e.len); cluster_at.rbegin()->second = ctime; return true; }
    PageWriter::E b = e;
    if (e.id == ID_BlockGroup) { if (!w.Elem(e.body, e.end(), &b) || b.id != ID_Block) return false; }
    else if (e.id != ID_SimpleBlock) return e.id == ID_Void;
    if (fi >= frames.size()) return false;
    const F& f = frames[fi++];
    uint64_t m1 = 0, m2 = 0;
    Bytes a = w.Get(b.body + 4, 8), z = w.Get(b.end() - 8, 8);
    memcpy(&m1, a.data(), 8); memcpy(&m2, z.data(), 8);
    if (b.len != f.n + 4 || m1 != f.mark || m2 != f.mark || ctime + w.Num(b.body + 1, 2) != f.t) { V("block", Fmt("block %zu at %" PRIu64 " has %" PRIu64 " bytes, time %" PRIu64, fi - 1, b.pos, b.len, ctime + w.Num(b.body + 1, 2))); return true; }
    return true;
  };
  for (auto& e : top) {
    if (e.id == ID_Cluster) {
      ++nclusters;
      cluster_at[e.pos - sg.body] = 0;
      if (e.unknown && w.seekable && !live) V("cluster_size", Fmt("cluster at %" PRIu64 " unknown: %d", e.pos, e.unknown));
      if (e.unknown) continue;
      std::vector<PageWriter::E> kids;
      if (!w.Kids(e, &kids)) return V("structure", Fmt("element sizes do not add up in the cluster at %" PRIu64, e.pos));
      for (auto& k : kids) if (!block(k)) return V("structure", Fmt("unexpected element %x at %" PRIu64, k.id, k.pos));
    } else if (live && (e.id == ID_Timecode || e.id == ID_SimpleBlock || e.id == ID_BlockGroup)) block(e);
  }
  if (fi != frames.size()) V("blocks", Fmt("%zu of %zu frames found", fi, frames.size()));
  if (suite != "C06" && w.seekable) {
    size_t cues = 0;
    for (auto& e : top) {
      std::vector<PageWriter::E> kids;
      if (e.id == ID_SeekHead && w.Kids(e, &kids)) for (auto& k : kids) {
        if (k.id != ID_Seek) continue;
        std::vector<PageWriter::E> x; w.Kids(k, &x);
        uint64_t id = 0, at = 0; for (auto& y : x) { if (y.id == ID_SeekID) id = w.Num(y.body, y.len); if (y.id == ID_SeekPosition) at = w.Num(y.body, y.len); }
        bool found = false; for (auto& y : top) if (y.id == id && y.pos - sg.body == at) found = true;
        if (!found) V("seek", Fmt("the seek entry for %" PRIx64 " points to %" PRIu64, id, at));
        R().count("large_seek_entries");
      }
      if (e.id == ID_Cues && w.Kids(e, &kids)) for (auto& k : kids) {
        std::vector<PageWriter::E> x; w.Kids(k, &x);
        uint64_t time = ~0ULL, at = ~0ULL;
        for (auto& y : x) {
          if (y.id == ID_CueTime) time = w.Num(y.body, y.len);
          std::vector<PageWriter::E> q; if (y.id == ID_CueTrackPositions) w.Kids(y, &q);
          for (auto& z : q) if (z.id == ID_CueClusterPosition) at = w.Num(z.body, z.len);
        }
        if (!cluster_at.count(at) || cluster_at[at] != time) V("cue", Fmt("the cue of time %" PRIu64 " points to %" PRIu64, time, at));
        ++cues;
      }
    }
    if (!live && cues != nclusters) V("cues", Fmt("%zu cues for %zu clusters", cues, nclusters));
    R().count("large_cues", cues);
  }
  };
  check(w);
  if (suite == "C13") {
    struct PageReader : mkvparser::IMkvReader {
      const PageWriter& w;
      explicit PageReader(const PageWriter& x) : w(x) {}
      int Read(long long pos, long len, unsigned char* buf) override {
        if (pos < 0 || len < 0 || (uint64_t)pos + (uint64_t)len > w.size) return -1;
        for (uint64_t at = (uint64_t)pos, n = (uint64_t)len; n;) {
          uint64_t k = std::min<uint64_t>(n, 4096 - (at & 4095));
          auto it = w.pages.find(at >> 12);
          if (it == w.pages.end()) memset(buf, 0, k); else memcpy(buf, &it->second[at & 4095], k);
          buf += k; at += k; n -= k;
        }
        return 0;
      }
      int Length(long long* t, long long* av) override { if (t) *t = (long long)w.size; if (av) *av = (long long)w.size; return 0; }
    } rd(w);
    PageWriter out;
    if (!seg.CopyAndMoveCuesBeforeClusters(&rd, &out)) { R().viol("large:move", "the copy failed; " + what); return; }
    what = "copy: " + what;
    check(out);
    PageWriter::E ebml, sg; std::vector<PageWriter::E> top;
    bool cues = false;
    if (out.Elem(0, out.size, &ebml) && out.Elem(ebml.end(), out.size, &sg) && out.Kids(sg, &top))
      for (auto& e : top) { if (e.id == ID_Cues) cues = true; if (e.id == ID_Cluster) { if (!cues) R().viol("large:order", "a cluster before the cues; " + what); break; } }
    R().count("large_moves");
  }
  R().count("large_files");
  R().sig(Hash(what));
}

// A Cluster used on its own: its Add functions take times in timecode units.
void DirectCluster(Rng& r) {
  static const uint64_t scales[] = {1, 1000, 1000000, 1000000, 33333333, 1000000000};
  uint64_t scale = scales[r.u(6)], tc0 = r.chance(30) ? 0 : r.u(r.chance(50) ? 300 : 1000000);
  bool queue = r.chance(30), fixed = r.chance(30), seekable = r.chance(70);
  MemWriter w;
  w.seekable = seekable;
  if (r.chance(30)) w.base = (int64_t)r.u(1 << 20);
  mkvmuxer::Cluster c(tc0, 0, scale, queue, fixed);
  std::string what = Fmt("cluster at %" PRIu64 " scale %" PRIu64 " queue %d seekable %d:", tc0, scale, queue, seekable);
  auto bad = [&](const std::string& key, const std::string& m) { R().viol("direct:" + key, what + " " + m); };
  if (!c.Init(&w)) return bad("init", "Init failed");
  struct F { Bytes data, add; uint64_t add_id = 0, track = 0, tc = 0, dur = 0; int64_t dp = 0; bool key = true; };
  std::map<uint64_t, std::vector<F>> want;
  size_t n = 1 + r.u(14), accepted = 0;
  uint64_t t = tc0;
  for (size_t i = 0; i < n; ++i) {
    F f;
    f.data = r.bytes(1 + r.u(r.chance(10) ? 20000 : 60));
    f.track = !queue && r.chance(5) ? (r.chance(50) ? 0 : 127) : r.chance(10) ? 126 : 1 + r.u(3);
    t += r.u(400);
    f.tc = t;
    if (!queue && r.chance(12)) { static const int64_t off[] = {0, 1, 32766, 32767, 32768, 40000, -1}; int64_t o = off[r.u(7)]; f.tc = tc0 + o < 0 || (int64_t)tc0 + o < 0 ? tc0 : tc0 + o; }
    f.key = r.chance(60);
    const uint8_t* d = (const uint8_t*)f.data.data();
    bool ok = false, group = false;
    int kind = (int)r.u(5);
    if (kind == 0) { ok = c.AddFrame(d, f.data.size(), f.track, f.tc, f.key); }
    else if (kind == 1) {
      f.add = r.bytes(1 + r.u(30)); f.add_id = r.chance(70) ? 1 + r.u(4) : r.edgy(); group = true;
      ok = c.AddFrameWithAdditional(d, f.data.size(), (const uint8_t*)f.add.data(), f.add.size(), f.add_id, f.track, f.tc, f.key);
    } else if (kind == 2) {
      f.dp = r.chance(20) ? 0 : r.chance(50) ? r.irange(-1000000, 1000000) : r.chance(50) ? (int64_t)(r.edgy() >> 1) : -(int64_t)(r.edgy() >> 1); group = f.dp != 0;
      ok = c.AddFrameWithDiscardPadding(d, f.data.size(), f.dp, f.track, f.tc, f.key);
    } else if (kind == 3) {
      f.dur = r.chance(10) ? 0 : 1 + r.u(100000); f.key = true; group = f.dur != 0;
      ok = c.AddMetadata(d, f.data.size(), f.track, f.tc, f.dur);
    } else {
      mkvmuxer::Frame fr;
      fr.Init(d, f.data.size()); fr.set_track_number(f.track); fr.set_is_key(f.key); fr.set_timestamp(f.tc * scale + r.u(scale));
      ok = c.AddFrame(&fr);
    }
    bool expect = f.track >= 1 && f.track <= 126 && (!group || f.key) && (queue || (f.tc >= tc0 && f.tc - tc0 <= 32767));
    what += Fmt(" %d(track %" PRIu64 " time %" PRIu64 " dur %" PRIu64 " dp %" PRId64 " key %d)%s", kind, f.track, f.tc, f.dur, f.dp, f.key, ok ? "" : " refused");
    if (ok != expect) return bad("acceptance", Fmt("the last one was %s", ok ? "accepted" : "refused"));
    if (ok) { want[f.track].push_back(f); ++accepted; }
  }
  uint64_t end = w.buf.size();
  bool fin = queue ? c.Finalize(false, 0) : c.Finalize();
  if (!accepted) return;  // (a cluster without blocks has no header)
  if (!fin) return bad("finalize", "Finalize failed");
  if (!queue && w.buf.size() != end) bad("finalize_appends", "Finalize wrote behind the blocks");
  if (c.Finalize() || c.Finalize(false, 0)) bad("finalize_twice", "finalized twice");
  uint8_t z = 0;
  if (c.AddFrame(&z, 1, 1, tc0, true) && !queue) bad("after_finalize", "a frame was accepted after Finalize");
  if (c.blocks_added() != (int)accepted) bad("blocks_added", Fmt("blocks_added %d, accepted %zu", c.blocks_added(), accepted));
  if (c.Size() != w.buf.size()) bad("size", Fmt("Size %" PRIu64 ", written %zu", c.Size(), w.buf.size()));
  // read it back
  Bytes d = w.buf;
  {
    if (d.size() < 13 || Reader::UInt(d.substr(0, 4)) != ID_Cluster || (uint8_t)d[4] != 1) return bad("header", Hex(d, 16));
    uint64_t len = Reader::UInt(d.substr(5, 7)), unknown = (1ULL << 56) - 1;
    if (len != (seekable ? d.size() - 12 : unknown)) bad("cluster_size", Fmt("size %" PRIu64 ", body %zu", len, d.size() - 12));
  }
  // wrapped into a segment of its own for the reader
  Bytes seg; PutId(&seg, ID_Segment); PutSize(&seg, d.size(), 8); seg += d;
  Reader rd(seg);
  auto top = rd.Parse();
  if (!rd.errors.empty() || top.size() != 1 || top[0].kids.size() != 1) return bad("structure", rd.errors.empty() ? "not one cluster" : rd.errors[0]);
  const Node& k = top[0].kids[0];
  if (k.kids.empty() || k.kids[0].id != ID_Timecode || k.kids[0].u != tc0) return bad("timecode", "the cluster time is wrong");
  std::map<uint64_t, std::vector<F>> got;
  uint64_t last = 0;
  for (size_t i = 1; i < k.kids.size(); ++i) {
    const Node& b = k.kids[i];
    const Node* raw = b.id == ID_SimpleBlock ? &b : b.id == ID_BlockGroup ? b.kid(ID_Block) : nullptr;
    BlockData bd;
    if (!raw || !DecodeBlock(raw->b, b.id == ID_SimpleBlock, &bd) || bd.frames.size() != 1) return bad("block", Fmt("child %zu is no block of one frame", i));
    F f;
    f.data = bd.frames[0]; f.track = bd.track; f.tc = tc0 + (uint64_t)bd.tc; f.key = b.id == ID_SimpleBlock ? bd.key : !b.kid(ID_ReferenceBlock);
    if (b.id == ID_BlockGroup) {
      if (auto* x = b.kid(ID_BlockDuration)) f.dur = x->u;
      if (auto* x = b.kid(ID_DiscardPadding)) f.dp = x->i;
      if (auto* x = b.kid(ID_BlockAdditions)) if (auto* m = x->kid(ID_BlockMore)) { if (auto* y = m->kid(ID_BlockAdditional)) f.add = y->b; f.add_id = m->kid(ID_BlockAddID) ? m->kid(ID_BlockAddID)->u : 1; }
    }
    if (queue && f.tc < last) bad("order", Fmt("time %" PRIu64 " after %" PRIu64, f.tc, last));
    last = f.tc;
    got[f.track].push_back(f);
  }
  for (auto& x : want) {
    auto& g = got[x.first];
    if (g.size() != x.second.size()) { bad("count", Fmt("track %" PRIu64 ": %zu frames, %zu accepted", x.first, g.size(), x.second.size())); continue; }
    for (size_t i = 0; i < g.size(); ++i) {
      const F& a = x.second[i]; const F& b = g[i];
      R().count("direct_frames");
      if (a.data != b.data) bad("data", Fmt("track %" PRIu64 " frame %zu", x.first, i));
      if (a.tc != b.tc) bad("time", Fmt("track %" PRIu64 " frame %zu: %" PRIu64 " expected %" PRIu64, x.first, i, b.tc, a.tc));
      if (a.key != b.key) bad("key", Fmt("track %" PRIu64 " frame %zu", x.first, i));
      if (a.dur != b.dur) bad("duration", Fmt("track %" PRIu64 " frame %zu: %" PRIu64 " expected %" PRIu64, x.first, i, b.dur, a.dur));
      if (a.dp != b.dp) bad("discard", Fmt("track %" PRIu64 " frame %zu: %" PRId64 " expected %" PRId64, x.first, i, b.dp, a.dp));
      if (a.add != b.add || (!a.add.empty() && a.add_id != b.add_id)) bad("additional", Fmt("track %" PRIu64 " frame %zu", x.first, i));
    }
  }
  for (auto& x : got) if (!want.count(x.first)) bad("count", Fmt("track %" PRIu64 " was not given", x.first));
  R().count("direct_clusters");
}
// What the muxer's own accessors say after everything was set.
void Getters(Rng& r) {
  using namespace mkvmuxer;
  GenCfg g; g.max_frames = 1;
  Scenario s = GenScenario(r, g);
  Bad bad = Reporter(s);
  MemWriter w;
  Segment seg;
  if (!seg.Init(&w)) return bad("getters", "Init failed");
  if (!Configure(seg, s)) return;  // (refusals are judged elsewhere)
  auto eq = [&](const char* what, uint64_t got, uint64_t want) { R().count("getters"); if (got != want) bad(std::string("getter_") + what, Fmt("%s() is %" PRIu64 ", set was %" PRIu64, what, got, want)); };
  auto feq = [&](const char* what, double got, double want) { R().count("getters"); if (!(got == want)) bad(std::string("getter_") + what, Fmt("%s() is %g, set was %g", what, got, want)); };
  auto str = [&](const char* what, const char* got, bool has, const std::string& want) { R().count("getters"); if (!has ? got != nullptr : (!got || want != got)) bad(std::string("getter_") + what, Fmt("%s() is '%s', set was '%s'", what, got ? got : "(none)", has ? want.c_str() : "(none)")); };
  eq("mode", seg.mode(), s.live ? Segment::kLive : Segment::kFile);
  eq("output_cues", seg.output_cues(), s.cues);
  eq("chunking", seg.chunking(), 0);
  eq("cues_position", seg.cues_position(), Segment::kAfterClusters);
  eq("estimate_file_duration", seg.estimate_file_duration(), s.estimate);
  if (s.set_duration > 0) feq("duration", seg.duration(), s.set_duration);
  eq("max_cluster_duration", seg.max_cluster_duration(), s.max_dur != ~0ULL ? s.max_dur : Segment::kDefaultMaxClusterDuration);
  if (s.max_size != ~0ULL) eq("max_cluster_size", seg.max_cluster_size(), s.max_size);
  eq("output_block_number", seg.GetCues()->output_block_number(), s.block_num);
  if (s.cues_track >= 0) eq("cues_track", seg.cues_track(), s.tracks[s.cues_track].number);
  const Segment& cseg = seg;
  const SegmentInfo* info = r.coin() ? cseg.GetSegmentInfo() : seg.segment_info();
  if (s.set_scale) eq("timecode_scale", info->timecode_scale(), s.scale);
  if (s.has_mux) str("muxing_app", info->muxing_app(), true, s.muxing);
  if (s.has_writ) str("writing_app", info->writing_app(), true, s.writing);
  if (s.date != INT64_MIN) eq("date_utc", (uint64_t)info->date_utc(), (uint64_t)s.date);
  for (auto& t : s.tracks) {
    const Track* tr = seg.GetTrackByNumber(t.number);
    if (!tr) { bad("getter_track", Fmt("GetTrackByNumber(%" PRIu64 ") finds nothing", t.number)); continue; }
    eq("number", tr->number(), t.number); eq("uid", tr->uid(), t.uid);
    eq("type", tr->type(), t.kind == 'V' ? 1 : t.kind == 'A' ? 2 : t.type);
    if (t.set_codec) str("codec_id", tr->codec_id(), true, t.codec);
    if (t.has_lang) str("language", tr->language(), true, t.lang);
    str("name", tr->name(), t.has_name, t.name);
    eq("codec_private_length", tr->codec_private_length(), t.priv.size());
    if (!t.priv.empty() && memcmp(tr->codec_private(), t.priv.data(), t.priv.size())) bad("getter_codec_private", "codec_private() has other bytes");
    eq("max_block_additional_id", tr->max_block_additional_id(), t.max_add); eq("codec_delay", tr->codec_delay(), t.delay);
    eq("seek_pre_roll", tr->seek_pre_roll(), t.preroll); eq("default_duration", tr->default_duration(), t.defdur);
    eq("content_encoding_entries_size", tr->content_encoding_entries_size(), t.enc.size());
    for (size_t i = 0; i < t.enc.size(); ++i) {
      const ContentEncoding* e = tr->GetContentEncodingByIndex((uint32_t)i);
      if (!e) { bad("getter_encoding", "GetContentEncodingByIndex finds nothing"); continue; }
      eq("enc_algo", e->enc_algo(), 5); eq("encoding_order", e->encoding_order(), t.enc[i].order); eq("encoding_scope", e->encoding_scope(), 1); eq("encoding_type", e->encoding_type(), 1);
    }
    if (tr->GetContentEncodingByIndex((uint32_t)t.enc.size())) bad("getter_encoding", "an encoding behind the last one");
    if (t.kind == 'V') {
      VideoTrack* v = static_cast<VideoTrack*>(seg.GetTrackByNumber(t.number));
      eq("width", v->width(), t.w); eq("height", v->height(), t.h);
      if (t.pw) eq("pixel_width", v->pixel_width(), t.pw);
      if (t.ph) eq("pixel_height", v->pixel_height(), t.ph);
      if (t.dw) eq("display_width", v->display_width(), t.dw);
      if (t.dh) eq("display_height", v->display_height(), t.dh);
      eq("crop_left", v->crop_left(), t.cl); eq("crop_right", v->crop_right(), t.cr); eq("crop_top", v->crop_top(), t.ct); eq("crop_bottom", v->crop_bottom(), t.cb);
      eq("stereo_mode", v->stereo_mode(), t.stereo); eq("alpha_mode", v->alpha_mode(), t.alpha);
      feq("frame_rate", v->frame_rate(), t.rate > 0 ? t.rate : 0);
      str("colour_space", v->colour_space(), t.has_cspace, t.cspace);
      Colour* c = v->colour();
      if (!c != !t.has_colour) bad("getter_colour", "colour() present/absent");
      if (c && t.has_colour) {
        const Colours& k = t.col;
        const uint64_t got[13] = {c->matrix_coefficients(), c->bits_per_channel(), c->chroma_subsampling_horz(), c->chroma_subsampling_vert(), c->cb_subsampling_horz(), c->cb_subsampling_vert(), c->chroma_siting_horz(), c->chroma_siting_vert(), c->range(), c->transfer_characteristics(), c->primaries(), c->max_cll(), c->max_fall()};
        for (int i = 0; i < 13; ++i) eq(Fmt("colour[%d]", i).c_str(), got[i], k.v[i] != ~0ULL ? k.v[i] : Colour::kValueNotPresent);
        const MasteringMetadata* m = c->mastering_metadata();
        if (!m != !k.mm) bad("getter_mastering", "mastering_metadata() present/absent");
        if (m && k.mm) {
          feq("luminance_max", m->luminance_max(), k.lmax != FLT_MAX ? k.lmax : MasteringMetadata::kValueNotPresent);
          feq("luminance_min", m->luminance_min(), k.lmin != FLT_MAX ? k.lmin : MasteringMetadata::kValueNotPresent);
          const PrimaryChromaticity* pc[4] = {m->r(), m->g(), m->b(), m->white_point()};
          for (int i = 0; i < 4; ++i) if (k.has_pc[i]) {
            if (!pc[i]) { bad("getter_chromaticity", "missing"); continue; }
            feq("chromaticity_x", pc[i]->x(), k.pc[i][0]); feq("chromaticity_y", pc[i]->y(), k.pc[i][1]);
          }
        }
      }
      Projection* p = v->projection();
      if (!p != !t.has_proj) bad("getter_projection", "projection() present/absent");
      if (p && t.has_proj) {
        eq("projection_type", p->type(), t.ptype); feq("pose_yaw", p->pose_yaw(), t.yaw); feq("pose_pitch", p->pose_pitch(), t.pitch); feq("pose_roll", p->pose_roll(), t.roll);
        eq("private_data_length", p->private_data_length(), t.ppriv.size());
        if (!t.ppriv.empty() && memcmp(p->private_data(), t.ppriv.data(), t.ppriv.size())) bad("getter_projection_private", "other bytes");
      }
    } else if (t.kind == 'A') {
      const AudioTrack* a = static_cast<const AudioTrack*>(tr);
      eq("bit_depth", a->bit_depth(), t.depth); feq("sample_rate", a->sample_rate(), t.srate2 > 0 ? t.srate2 : t.srate); eq("channels", a->channels(), t.chans2 ? t.chans2 : (uint64_t)t.chans);
    }
  }
  R().count("getter_runs");
}
// The EBML header on its own.
void EbmlHeader(Rng& r) {
  Bad bad = [](const std::string& k, const std::string& m) { R().viol("ebml_header_" + k, m); };
  MemWriter w; w.seekable = r.coin();
  uint64_t version = r.chance(30) ? 1 + r.u(4) : 1 + r.edgy(1ULL << 40), want = version;
  std::string type = "webm";
  int how = (int)r.u(3);
  bool ok;
  if (how == 0) { ok = mkvmuxer::WriteEbmlHeader(&w); want = 4; }
  else if (how == 1) ok = mkvmuxer::WriteEbmlHeader(&w, version);
  else { type = r.coin() ? "matroska" : std::string(1 + r.u(200), 'x'); ok = mkvmuxer::WriteEbmlHeader(&w, version, type.c_str()); }
  if (!ok) return bad("refused", Fmt("variant %d version %" PRIu64, how, version));
  Reader rd(w.buf);
  auto top = rd.Parse();
  if (!rd.errors.empty() || top.size() != 1 || top[0].id != ID_EBML) return bad("structure", rd.errors.empty() ? "not one EBML element" : rd.errors[0]);
  struct { uint32_t id; uint64_t v; } want_u[] = {{ID_EBMLVersion, 1}, {ID_EBMLReadVersion, 1}, {ID_EBMLMaxIDLength, 4}, {ID_EBMLMaxSizeLength, 8}, {ID_DocTypeVersion, want}, {ID_DocTypeReadVersion, 2}};
  for (auto& x : want_u) { auto* n = top[0].kid(x.id); if (!n || n->u != x.v) bad("value", Fmt("element %x is %" PRIu64 ", expected %" PRIu64, x.id, n ? n->u : 0, x.v)); }
  auto* n = top[0].kid(ID_DocType);
  if (!n || n->b != type) bad("type", "DocType is " + (n ? n->b : "missing"));
  if (top[0].kids.size() != 7) bad("elements", Fmt("%zu elements", top[0].kids.size()));
  R().count("ebml_headers");
}
// Cues used on their own.
void DirectCues(Rng& r) {
  Bad bad = [](const std::string& k, const std::string& m) { R().viol("direct_cues_" + k, m); };
  struct P { uint64_t time, track, pos, block; bool num; };
  std::vector<P> want;
  mkvmuxer::Cues cues;
  bool num = !r.chance(20);
  cues.set_output_block_number(num);
  if (cues.output_block_number() != num) bad("output_block_number", "not kept");
  size_t n = 1 + (r.chance(5) ? r.u(5000) : r.u(40));
  for (size_t i = 0; i < n; ++i) {
    P p{r.edgy(1ULL << 50), 1 + r.u(126), 1 + r.edgy(1ULL << 50), 1 + (r.coin() ? 0 : r.edgy(70000)), true};
    auto* c = new mkvmuxer::CuePoint;
    c->set_time(p.time); c->set_track(p.track); c->set_cluster_pos(p.pos); c->set_block_number(p.block);
    if (c->time() != p.time || c->track() != p.track || c->cluster_pos() != p.pos || c->block_number() != p.block || !c->output_block_number()) bad("getters", Fmt("cue %zu does not keep what was set", i));
    p.num = num;
    if (!cues.AddCue(c)) { delete c; return bad("refused", "AddCue"); }
    want.push_back(p);
    if (r.u(100) == 0 && cues.AddCue(nullptr)) return bad("null", "AddCue(NULL) accepted");
  }
  if (cues.cue_entries_size() != (int)n) bad("count", Fmt("%d cues, %zu added", cues.cue_entries_size(), n));
  for (size_t i = 0; i < n; i += 1 + r.u(10)) { auto* c = cues.GetCueByIndex((int)i); if (!c || c->time() != want[i].time || c->cluster_pos() != want[i].pos) bad("index", Fmt("GetCueByIndex(%zu)", i)); }
  if (cues.GetCueByIndex((int)n)) bad("index", "a cue behind the last one");
  uint64_t size = cues.Size();
  MemWriter w; w.seekable = r.coin();
  if (!cues.Write(&w)) return bad("write", "Write failed");
  if (w.buf.size() != size) bad("size", Fmt("Size() %" PRIu64 ", written %zu", size, w.buf.size()));
  Bytes seg; PutId(&seg, ID_Segment); PutSize(&seg, w.buf.size(), 8); seg += w.buf;
  Reader rd(seg);
  auto top = rd.Parse();
  if (!rd.errors.empty() || top.size() != 1 || top[0].kids.size() != 1 || top[0].kids[0].id != ID_Cues) return bad("structure", rd.errors.empty() ? "not one Cues" : rd.errors[0]);
  auto& k = top[0].kids[0].kids;
  if (k.size() != n) return bad("count", Fmt("%zu cue points written, %zu added", k.size(), n));
  for (size_t i = 0; i < n; ++i) {
    auto* t = k[i].kid(ID_CueTime); auto* tp = k[i].kid(ID_CueTrackPositions);
    if (k[i].id != ID_CuePoint || !t || !tp || !tp->kid(ID_CueTrack) || !tp->kid(ID_CueClusterPosition)) return bad("structure", Fmt("cue %zu", i));
    auto* bn = tp->kid(ID_CueBlockNumber);
    if (t->u != want[i].time || tp->kid(ID_CueTrack)->u != want[i].track || tp->kid(ID_CueClusterPosition)->u != want[i].pos) bad("value", Fmt("cue %zu", i));
    if (want[i].num ? (bn ? bn->u : 1) != want[i].block : bn != nullptr) bad("block_number", Fmt("cue %zu: %" PRIu64 " expected %" PRIu64, i, bn ? bn->u : 0, want[i].block));
  }
  R().count("direct_cues", n);
}
void C06(uint64_t, Rng& r) { if (r.u(5000) == 0) return LargeMux(r, "C06"); Generic("C06", r, GenCfg()); }
void C07(uint64_t, Rng& r) { if (r.u(40) == 0) return DirectCluster(r); GenCfg g; g.meta = false; Generic("C07", r, g); }
void C08(uint64_t, Rng& r) { if (r.u(20) == 0) return Getters(r); if (r.u(200) == 0) return EbmlHeader(r); GenCfg g; g.max_frames = 6; Generic("C08", r, g); }
void C09(uint64_t, Rng& r) { if (r.u(100) == 0) return DirectCues(r); if (r.u(5000) == 0) return LargeMux(r, "C09"); GenCfg g; g.meta = r.chance(30); Generic("C09", r, g); }
void C10(uint64_t, Rng& r) { GenCfg g; g.meta = false; g.max_frames = 90; Generic("C10", r, g); }

// ------------------------------------------------------------------ C11
struct FaultReader : MemReader {
  uint64_t ops = 0, fail_at = 0;
  explicit FaultReader(const Bytes& b) : MemReader(b) {}
  int Read(long long pos, long len, unsigned char* buf) override { if (++ops == fail_at) return -1; return MemReader::Read(pos, len, buf); }
};
struct FaultRun { bool all_ok = false; bool moved = false; uint64_t ops1 = 0, ops2 = 0, rops = 0; Bytes out, moved_out; };
FaultRun RunFault(const Scenario& s, bool seekable, uint64_t at, bool sticky, int status, bool stop, bool move, uint64_t at2, uint64_t rat) {
  FaultRun fr;
  MemWriter w; w.seekable = seekable; w.fail_at = at; w.sticky = sticky; w.status = status; w.fail_keeps = (int)(at * 7 + at2 * 5 + s.ops.size()) % 3;
  mkvmuxer::Segment seg;
  RunResult r = Run(seg, s, &w, 0, 0, nullptr, stop);
  fr.all_ok = r.all_ok; fr.ops1 = w.ops; fr.out = w.buf;
  if (move && r.all_ok) {
    FaultReader rd(w.buf); rd.fail_at = rat;
    MemWriter w2; w2.fail_at = at2; w2.sticky = sticky; w2.status = status; w2.fail_keeps = (int)(at2 * 7 + s.ops.size()) % 3;
    fr.moved = seg.CopyAndMoveCuesBeforeClusters(&rd, &w2);
    fr.ops2 = w2.ops; fr.rops = rd.ops; fr.moved_out = w2.buf;
    // A second attempt after a failed one must at least stay safe.
    if (!fr.moved) { MemWriter w3; FaultReader rd2(w.buf); seg.CopyAndMoveCuesBeforeClusters(&rd2, &w3); }
  }
  return fr;
}
void C11(uint64_t, Rng& r) {
  GenCfg g; g.max_frames = 10; g.meta = r.chance(50); g.nonmono = false;
  Scenario s = GenScenario(r, g);
  bool seekable = !r.chance(20);
  FaultRun base = RunFault(s, seekable, 0, false, -1, false, true, 0, 0);
  if (!base.all_ok) { R().count("base_not_ok"); return; }
  R().count("base_runs");
  uint64_t budget = A().tier ? 4000 : 150;
  auto positions = [&](uint64_t n) {
    std::vector<uint64_t> v;
    if (n <= budget) for (uint64_t i = 1; i <= n; ++i) v.push_back(i);
    else {
      std::set<uint64_t> u;
      for (uint64_t i = 1; i <= 20; ++i) { u.insert(i); u.insert(n + 1 - i); }
      while (u.size() < budget) u.insert(r.range(1, n));
      v.assign(u.begin(), u.end());
    }
    return v;
  };
  for (uint64_t at : positions(base.ops1)) {
    bool sticky = r.coin(), stop = r.chance(30); int st = r.coin() ? -1 : r.coin() ? 1 : 7;
    FaultRun fr = RunFault(s, seekable, at, sticky, st, stop, false, 0, 0);
    R().count("faults_write");
    R().count(sticky ? "faults_sticky" : "faults_transient");
    if (fr.all_ok) R().viol("fault_unreported", Fmt("operation %" PRIu64 " of %" PRIu64 " failed (status %d, %s) but every call including Finalize succeeded; output %s\n  run: ", at, base.ops1, st, sticky ? "permanently" : "once", fr.out == base.out ? "unchanged" : "differs") + Describe(s));
  }
  R().sig(Mix(base.ops1, base.out.size()));
  if (base.moved) {
    R().count("moves");
    for (uint64_t at : positions(base.ops2)) {
      FaultRun fr = RunFault(s, seekable, 0, r.coin(), r.coin() ? -1 : 1, false, true, at, 0);
      R().count("faults_move");
      if (fr.moved) R().viol("move_fault_unreported", Fmt("operation %" PRIu64 " of %" PRIu64 " of the cue-moving copy failed but it reported success\n  run: ", at, base.ops2) + Describe(s));
    }
    for (uint64_t at = 1; at <= base.rops && at <= 20; ++at) {
      FaultRun fr = RunFault(s, seekable, 0, false, -1, false, true, 0, at);
      R().count("faults_read");
      if (fr.moved) R().viol("move_read_fault_unreported", Fmt("read %" PRIu64 " failed but the cue-moving copy reported success", at));
    }
  }
  R().sample(Fmt("%" PRIu64 " writer operations; every/150 sampled failed in turn; ", base.ops1) + Describe(s).substr(0, 300));
}

// ------------------------------------------------------------------ C12
void C12(uint64_t, Rng& r) {
  GenCfg g; g.max_frames = 40; g.nonmono = false; g.meta = r.chance(50);
  Case a, b;
  a.s = GenScenario(r, g);
  a.s.live = r.coin();
  Bad bad = Reporter(a.s, "non-seekable: ");
  if (!Prepare(&a, g, r, false, "C12", bad)) return;
  Bad quiet = [](const std::string&, const std::string&) {};
  if (a.d.w.seek_on_unseekable || a.d.w.seeks) bad("seek_unseekable", Fmt("%" PRIu64 " repositionings of a writer that cannot seek", a.d.w.seeks));
  if (a.d.w.overwrote) bad("overwrite", "bytes written twice");
  R().count(a.s.live ? "live_runs" : "file_runs");
  WellFormed(a.s, a.f, false, bad);
  Reader rd(a.f.data); rd.Parse();
  for (auto& e : rd.errors) bad("structure", e);
  if (!a.f.seg->unknown) bad("segment_size", "segment size is not unknown");
  for (auto* c : a.f.clusters) if (!c->unknown) bad("cluster_size", "cluster size is not unknown");
  if (a.s.live && a.f.seg->kid(ID_Cues)) bad("live_cues", "cues in live output");
  if (a.f.seg->kid(ID_SeekHead)) bad("seekhead", "seek head in a stream");
  Frames(a.s, a.f, *a.m, bad);
  Clusters(a.s, a.f, *a.m, false, bad);
  Metadata(a.s, a.f, *a.m, false, bad);
  // the same run in file mode on a seekable device carries the same media
  Scenario s2 = a.s; s2.live = false; s2.cues = true;
  Case sk; sk.s = s2;
  Bad bad2 = Reporter(sk.s, "seekable twin: ");
  // In live mode the last cluster's held-back frames follow the same rules.
  if (!Prepare(&sk, g, r, true, "C12", bad2)) return;
  if (sk.f.blocks.size() != a.f.blocks.size() || sk.f.clusters.size() != a.f.clusters.size()) bad("twin_media", Fmt("%zu/%zu blocks/clusters, seekable run has %zu/%zu", a.f.blocks.size(), a.f.clusters.size(), sk.f.blocks.size(), sk.f.clusters.size()));
  else for (size_t i = 0; i < a.f.blocks.size(); ++i) if (a.f.blocks[i].data != sk.f.blocks[i].data || a.f.blocks[i].tc != sk.f.blocks[i].tc || a.f.blocks[i].cluster != sk.f.blocks[i].cluster) { bad("twin_media", Fmt("block %zu differs from the seekable run", i)); break; }
  // live mode on a device that can seek: media the same, header untouched
  if (a.s.live) {
    Case lv; lv.s = a.s;
    if (Prepare(&lv, g, r, true, "C12", bad)) {
      if (!lv.f.seg->unknown || lv.f.seg->kid(ID_Cues) || lv.f.seg->kid(ID_SeekHead)) bad("live_seekable", "live output was given a size, cues or a seek head");
      Frames(lv.s, lv.f, *lv.m, bad);
      uint64_t h1 = a.f.clusters.empty() ? a.d.data.size() : a.f.clusters[0]->pos, h2 = lv.f.clusters.empty() ? lv.d.data.size() : lv.f.clusters[0]->pos;
      if (h1 != h2 || a.d.data.compare(0, h1, lv.d.data, 0, h2)) bad("live_header", "live header differs between seekable and non-seekable output");
      R().count("live_seekable_runs");
    }
  }
  R().sig(Shape(a));
  R().sample(Describe(a.s).substr(0, 500));
}

// ------------------------------------------------------------------ C13
void C13(uint64_t, Rng& r) {
  if (r.u(4000) == 0) return LargeMux(r, "C13");
  GenCfg g; g.max_frames = r.chance(10) ? 1500 : 60; g.nonmono = false; g.meta = r.chance(50);
  Scenario s = GenScenario(r, g);
  s.live = false;
  if (!r.chance(10)) s.cues = true;
  if (r.chance(50)) s.max_size = r.edgy(600);
  Bad bad = Reporter(s);
  mkvmuxer::Segment seg;
  MemWriter w;
  RunResult res = Run(seg, s, &w);
  if (!res.all_ok) { R().count("not_ok"); return; }
  Bytes orig = w.buf;
  File f;
  if (!Load(orig, &f, [](const std::string&, const std::string&) {})) { bad("unreadable", "the original cannot be read"); return; }
  MemReader rd(orig);
  MemWriter out;
  bool expect = s.cues && !f.clusters.empty();
  {
    MemWriter ns; ns.seekable = false;
    if (r.chance(20)) { MemReader rd2(orig); if (seg.CopyAndMoveCuesBeforeClusters(&rd2, &ns)) bad("move_unseekable", "copy to a writer that cannot seek reported success"); R().count("unseekable_targets"); }
  }
  bool ok = seg.CopyAndMoveCuesBeforeClusters(&rd, &out);
  if (!ok && expect) { bad("move_failed", "the cue-moving copy of a finalized file failed"); return; }
  if (!ok) { R().count("moves_refused"); return; }
  if (!expect) { R().count("moves_unexpected"); return; }
  R().count("moves");
  File c;
  Bad bad2 = Reporter(s, "copy: ");
  if (!Load(out.buf, &c, bad2)) return;
  CheckSchema(c.top[0], bad2); CheckSchema(c.top[1], bad2);
  if (c.seg->unknown || c.seg->pos + c.seg->hdr + c.seg->body != out.buf.size()) bad2("segment_size", "segment size does not cover the file");
  auto raw = [](const File& x, const Node& n) { return x.data.substr(n.pos, n.hdr + n.body); };
  if (raw(f, f.top[0]) != raw(c, c.top[0])) bad2("ebml_header", "EBML header differs");
  for (uint32_t id : {ID_Info, ID_Tracks, ID_Chapters, ID_Tags}) {
    auto x = f.seg->all(id), y = c.seg->all(id);
    if (x.size() != y.size() || (x.size() && raw(f, *x[0]) != raw(c, *y[0]))) bad2("element_changed", ElName(id) + " differs");
  }
  if (f.clusters.size() != c.clusters.size()) { bad2("cluster_count", Fmt("%zu clusters, originally %zu", c.clusters.size(), f.clusters.size())); return; }
  for (size_t i = 0; i < f.clusters.size(); ++i) if (raw(f, *f.clusters[i]) != raw(c, *c.clusters[i])) { bad2("cluster_changed", Fmt("cluster %zu differs", i)); break; }
  const Node* q = c.seg->kid(ID_Cues); const Node* p = f.seg->kid(ID_Cues);
  if (!q || !p || q->pos > c.clusters[0]->pos) { bad2("cues_place", "cues are not in front of the clusters"); return; }
  auto cp = p->all(ID_CuePoint), cq = q->all(ID_CuePoint);
  if (cp.size() != cq.size()) { bad2("cue_count", "number of cue points changed"); return; }
  auto index = [](const File& x, uint64_t rel) { for (size_t i = 0; i < x.clusters.size(); ++i) if (x.clusters[i]->pos - x.base() == rel) return (int)i; return -1; };
  R().count("cue_points", cp.size());
  for (size_t i = 0; i < cp.size(); ++i) {
    Node a = *cp[i], b = *cq[i];
    Node* x = a.kid(ID_CueTrackPositions); Node* y = b.kid(ID_CueTrackPositions);
    Node* xp = x ? x->kid(ID_CueClusterPosition) : nullptr; Node* yp = y ? y->kid(ID_CueClusterPosition) : nullptr;
    if (!xp || !yp) { bad2("cue_point", "incomplete"); continue; }
    int ia = index(f, xp->u), ib = index(c, yp->u);
    if (ia < 0 || ia != ib) bad2("cue_cluster", Fmt("cue %zu pointed at cluster %d, now at %d (position %" PRIu64 ")", i, ia, ib, yp->u));
    xp->u = yp->u = 0;
    if (Text(&a) != Text(&b)) bad2("cue_changed", Fmt("cue %zu changed other than in its position", i));
  }
  const Node* sp = f.seg->kid(ID_SeekHead); const Node* sq = c.seg->kid(ID_SeekHead);
  if (!sp || !sq) { bad2("seekhead", "seek head missing"); return; }
  std::multiset<uint32_t> ida, idb;
  for (auto* e : sp->all(ID_Seek)) ida.insert((uint32_t)Reader::UInt(e->kid(ID_SeekID)->b));
  std::map<uint64_t, uint32_t> at;
  for (auto& k : c.seg->kids) at[k.pos - c.base()] = k.id;
  for (auto* e : sq->all(ID_Seek)) {
    uint32_t id = (uint32_t)Reader::UInt(e->kid(ID_SeekID)->b);
    idb.insert(id);
    uint64_t pos = e->kid(ID_SeekPosition)->u;
    if (!at.count(pos) || at[pos] != id) bad2("seek_position", Fmt("seek entry for %s at %" PRIu64 " is wrong", ElName(id).c_str(), pos));
    if (id == ID_Cluster && pos != c.clusters[0]->pos - c.base()) bad2("seek_position", "cluster entry is not the first cluster");
  }
  if (ida != idb) bad2("seek_entries", "set of seek entries changed");
  R().sig(Mix(cp.size(), Mix(f.clusters.size(), f.seg->kids.size())));
  R().sample(Fmt("%zu cues, %zu clusters, %zu bytes; ", cp.size(), f.clusters.size(), orig.size()) + Describe(s).substr(0, 300));
}

// ------------------------------------------------------------------ C14
void C14(uint64_t cs, Rng& r) {
  GenCfg g; g.max_frames = 60; g.nonmono = false; g.meta = r.chance(40);
  Scenario s = GenScenario(r, g);
  Bad bad = Reporter(s);
  Done plain;
  RunMem(s, &plain);
  std::string dir = A().tmp + Fmt("/c%" PRIu64, cs);
  mkdir(dir.c_str(), 0755);
  std::string base = dir + "/out";
  RunResult res;
  {
    MemWriter main;
    mkvmuxer::Segment seg;
    res = Run(seg, s, &main, 0, 0, base.c_str());
    if (!main.buf.empty()) bad("main_writer", "bytes went to the caller's writer while chunking");
    if (r.chance(30)) { MemReader rd(plain.data); MemWriter o; if (seg.CopyAndMoveCuesBeforeClusters(&rd, &o)) bad("chunk_move", "cue-moving copy of chunked output reported success"); }
  }
  std::vector<std::string> names;
  DIR* dp = opendir(dir.c_str());
  while (dirent* e = readdir(dp)) if (e->d_name[0] != '.') names.push_back(e->d_name);
  closedir(dp);
  std::sort(names.begin(), names.end());
  Bytes hdr, cues, media; std::vector<Bytes> chunks; bool has_hdr = false, has_cues = false; int odd = 0;
  for (auto& n : names) {
    Bytes d; ReadFile(dir + "/" + n, &d);
    if (n == "out.hdr") { hdr = d; has_hdr = true; }
    else if (n.size() > 4 && n.substr(n.size() - 4) == ".chk") { chunks.push_back(d); if (n != Fmt("out_%06zu.chk", chunks.size() - 1)) ++odd; }
    else if (n.size() > 5 && n.substr(n.size() - 5) == ".cues") { cues = d; has_cues = true; }
    else ++odd;
    unlink((dir + "/" + n).c_str());
  }
  rmdir(dir.c_str());
  if (res.all_ok != plain.ok) { bad("chunk_result", Fmt("chunked run succeeded %d, plain run %d", res.all_ok, plain.ok)); return; }
  if (!plain.ok) { R().count("not_ok"); return; }
  if (odd) bad("chunk_names", "unexpected chunk file names");
  if (!has_hdr) bad("chunk_header", "no header chunk");
  Bytes cat = hdr;
  for (auto& c : chunks) {
    if (c.size() < 4 || c.compare(0, 4, "\x1f\x43\xb6\x75", 4)) bad("chunk_start", "a media chunk does not start with a cluster");
    cat += c;
  }
  cat += cues;
  R().count("runs"); R().count("chunks", chunks.size());
  if (has_cues && !cues.empty()) R().count("cues_files");
  File f;
  if (Load(plain.data, &f, [](const std::string&, const std::string&) {}) && f.clusters.size() != chunks.size()) bad("chunk_count", Fmt("%zu chunks for %zu clusters", chunks.size(), f.clusters.size()));
  if (cat != plain.data) {
    size_t i = 0; while (i < cat.size() && i < plain.data.size() && cat[i] == plain.data[i]) ++i;
    bad("chunk_bytes", Fmt("concatenated chunks differ from the plain file at byte %zu (%zu vs %zu bytes)", i, cat.size(), plain.data.size()));
  }
  R().sig(Mix(chunks.size(), plain.data.size()));
  R().sample(Fmt("%zu chunks, header %zu, cues %zu bytes; ", chunks.size(), hdr.size(), cues.size()) + Describe(s).substr(0, 300));
}

// ------------------------------------------------------------------ C15
void C15(uint64_t, Rng& r) {
  GenCfg g; g.max_frames = 40; g.nonmono = false; g.meta = r.chance(50);
  Scenario s = GenScenario(r, g);
  Bad bad = Reporter(s);
  Done a, b;
  RunMem(s, &a);
  RunMem(s, &b);
  if (a.data != b.data || a.ok != b.ok) bad("nondeterministic", "two identical runs differ");
  if (!a.ok) { R().count("not_ok"); return; }
  R().count("determinism_pairs");
  for (int k = 0; k < 3; ++k) {
    MemWriter w;
    mkvmuxer::Segment seg;
    RunResult res = Run(seg, s, &w, 40, r.next());
    if (res.bad_accepted) bad("accepted:" + res.bad_what, res.bad_what + " was accepted");
    if (!res.all_ok) { bad("refusal_spread", "after refused requests a legal call failed"); continue; }
    if (w.buf != a.data) {
      size_t i = 0; while (i < w.buf.size() && i < a.data.size() && w.buf[i] == a.data[i]) ++i;
      bad("refusal_trace", Fmt("refused requests changed the output from byte %zu (%zu vs %zu bytes)", i, w.buf.size(), a.data.size()));
    }
    R().count("runs_with_bad");
    // Nothing is accepted any more after finalization.
    Bytes fin = w.buf;
    uint8_t d[2] = {1, 2};
    seg.AddFrame(d, 2, s.tracks[0].number, 1ULL << 61, true);
  }
  // A configuration the interface calls invalid must not produce a file.
  Scenario bs = s;
  int kind = (int)r.u(6);
  bool applied = false;
  TrackCfg* v = nullptr;
  for (auto& t : bs.tracks) if (t.kind == 'V') v = &t;
  switch (kind) {
    case 0: if (v) { v->has_colour = true; for (auto& x : v->col.v) x = ~0ULL; v->col.mm = false; v->col.v[0] = r.range(11, 100); applied = true; } break;
    case 1: if (v) { v->has_colour = true; for (auto& x : v->col.v) x = ~0ULL; v->col.mm = false; v->col.v[8] = r.range(4, 100); applied = true; } break;
    case 2: if (v) { v->has_colour = true; for (auto& x : v->col.v) x = ~0ULL; v->col.mm = true; v->col.mm_twice = false; v->col.lmin = v->col.lmax = FLT_MAX; for (int i = 0; i < 4; ++i) v->col.has_pc[i] = true; v->col.pc[r.u(4)][r.u(2)] = r.coin() ? 1.25f : -0.5f; applied = true; } break;
    case 3: if (v) { v->has_colour = true; for (auto& x : v->col.v) x = ~0ULL; v->col.mm = true; v->col.mm_twice = false; v->col.lmin = 500; v->col.lmax = 100; for (int i = 0; i < 4; ++i) v->col.has_pc[i] = false; applied = true; } break;
    case 4: if (v) { v->codec = "V_AV1"; v->set_codec = true; v->priv.clear(); applied = true; } break;
    default: { TrackCfg* t = nullptr; for (auto& x : bs.tracks) if (x.kind == 'S') t = &x; if (t) { t->type = 0; applied = true; } }
  }
  if (applied) {
    Done d; RunMem(bs, &d);
    R().count("invalid_configurations");
    if (d.ok) bad("invalid_configuration", Fmt("invalid configuration kind %d produced a file", kind));
  }
  R().sig(Mix(a.data.size(), s.ops.size()));
  R().sample(Describe(s).substr(0, 400));
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"C06", C06}, {"C07", C07}, {"C08", C08}, {"C09", C09}, {"C10", C10}, {"C11", C11}, {"C12", C12}, {"C13", C13}, {"C14", C14}, {"C15", C15}});
}
