// The metadata of a file as mkvparser's public interface shows it, and the same
// view projected from an independently known element tree.
#ifndef VERIF_MKVDUMP_H_
#define VERIF_MKVDUMP_H_
#include <cfloat>
#include <climits>

#include "../lib/ebml.h"
#include "mkvparser/mkvparser.h"

namespace dump {
using namespace vf;

struct BytesReader : mkvparser::IMkvReader {
  const Bytes& d;
  explicit BytesReader(const Bytes& b) : d(b) {}
  int Read(long long pos, long len, unsigned char* buf) override {
    if (pos < 0 || len < 0 || pos + len > (long long)d.size()) return -1;
    if (len) memcpy(buf, d.data() + pos, len);
    return 0;
  }
  int Length(long long* total, long long* avail) override { if (total) *total = d.size(); if (avail) *avail = d.size(); return 0; }
};

inline std::string Str(const char* s) { return s ? "'" + std::string(s) + "'" : "(null)"; }
inline std::string F32s(double v) { return Fmt("%.9g", (double)(float)v); }

// ------------------------------------------------------------ observed
inline std::string Tracks(const mkvparser::Tracks* ts) {
  std::string o;
  if (!ts) return "no tracks\n";
  for (unsigned long i = 0; i < ts->GetTracksCount(); ++i) {
    const mkvparser::Track* t = ts->GetTrackByIndex(i);
    if (!t) { o += "null track\n"; continue; }
    if (ts->GetTrackByNumber(t->GetNumber()) != t) o += "lookup by number fails\n";
    o += Fmt("track %ld type %ld uid %llu lacing %d defdur %llu delay %llu preroll %llu\n", t->GetNumber(), t->GetType(), t->GetUid(), t->GetLacing(), t->GetDefaultDuration(), t->GetCodecDelay(), t->GetSeekPreRoll());
    o += " name " + Str(t->GetNameAsUTF8()) + " lang " + Str(t->GetLanguage()) + " codec " + Str(t->GetCodecId()) + " codecname " + Str(t->GetCodecNameAsUTF8()) + "\n";
    size_t n = 0; const unsigned char* p = t->GetCodecPrivate(n);
    o += Fmt(" private %zu #%" PRIx64 "\n", n, Hash(p, n));
    for (unsigned long k = 0; k < t->GetContentEncodingCount(); ++k) {
      const mkvparser::ContentEncoding* e = t->GetContentEncodingByIndex(k);
      o += Fmt(" encoding order %llu scope %llu type %llu\n", e->encoding_order(), e->encoding_scope(), e->encoding_type());
      for (unsigned long c = 0; c < e->GetCompressionCount(); ++c) {
        auto* x = e->GetCompressionByIndex(c);
        o += Fmt("  compression %llu %lld #%" PRIx64 "\n", x->algo, x->settings_len, Hash(x->settings, x->settings_len));
      }
      for (unsigned long c = 0; c < e->GetEncryptionCount(); ++c) {
        auto* x = e->GetEncryptionByIndex(c);
        o += Fmt("  encryption %llu key %lld #%" PRIx64 " sig %lld #%" PRIx64 " sigkey %lld #%" PRIx64 " %llu %llu cipher %llu\n", x->algo, x->key_id_len, Hash(x->key_id, x->key_id_len), x->signature_len, Hash(x->signature, x->signature_len), x->sig_key_id_len, Hash(x->sig_key_id, x->sig_key_id_len), x->sig_algo, x->sig_hash_algo, x->aes_settings.cipher_mode);
      }
      if (e->GetCompressionByIndex(e->GetCompressionCount()) || e->GetEncryptionByIndex(e->GetEncryptionCount())) o += " index past the end\n";
    }
    if (t->GetType() == 1) {
      auto* v = static_cast<const mkvparser::VideoTrack*>(t);
      o += Fmt(" video %lldx%lld display %lldx%lld unit %lld stereo %lld rate ", v->GetWidth(), v->GetHeight(), v->GetDisplayWidth(), v->GetDisplayHeight(), v->GetDisplayUnit(), v->GetStereoMode()) + Fmt("%.17g", v->GetFrameRate()) + " space " + Str(v->GetColourSpace()) + "\n";
      if (auto* c = v->GetColour()) {
        o += Fmt(" colour %lld %lld %lld %lld %lld %lld %lld %lld %lld %lld %lld %lld %lld\n", c->matrix_coefficients, c->bits_per_channel, c->chroma_subsampling_horz, c->chroma_subsampling_vert, c->cb_subsampling_horz, c->cb_subsampling_vert, c->chroma_siting_horz, c->chroma_siting_vert, c->range, c->transfer_characteristics, c->primaries, c->max_cll, c->max_fall);
        if (auto* m = c->mastering_metadata) {
          o += "  mastering " + F32s(m->luminance_max) + " " + F32s(m->luminance_min);
          for (auto* q : {m->r, m->g, m->b, m->white_point}) o += q ? " (" + F32s(q->x) + "," + F32s(q->y) + ")" : " -";
          o += "\n";
        }
      }
      if (auto* q = v->GetProjection()) o += Fmt(" projection %d private %zu #%" PRIx64 " ", (int)q->type, q->private_data_length, Hash(q->private_data, q->private_data_length)) + F32s(q->pose_yaw) + " " + F32s(q->pose_pitch) + " " + F32s(q->pose_roll) + "\n";
    } else if (t->GetType() == 2) {
      auto* a = static_cast<const mkvparser::AudioTrack*>(t);
      o += Fmt(" audio rate %.17g channels %lld depth %lld\n", a->GetSamplingRate(), a->GetChannels(), a->GetBitDepth());
    }
  }
  if (ts->GetTrackByIndex(ts->GetTracksCount()) || ts->GetTrackByNumber(0)) o += "lookup past the end succeeds\n";
  return o;
}
inline std::string Info(const mkvparser::SegmentInfo* i) {
  if (!i) return "no info\n";
  return Fmt("info scale %lld muxing ", i->GetTimeCodeScale()) + Str(i->GetMuxingAppAsUTF8()) + " writing " + Str(i->GetWritingAppAsUTF8()) + " title " + Str(i->GetTitleAsUTF8()) + "\n";
}
inline std::string Chapters(const mkvparser::Chapters* c) {
  std::string o;
  if (!c) return o;
  o += "chapters\n";
  for (int i = 0; i < c->GetEditionCount(); ++i) {
    auto* e = c->GetEdition(i);
    o += " edition\n";
    for (int k = 0; k < e->GetAtomCount(); ++k) {
      auto* a = e->GetAtom(k);
      o += Fmt("  atom uid %llu ", a->GetUID()) + Str(a->GetStringUID()) + Fmt(" %lld %lld\n", a->GetStartTimecode(), a->GetStopTimecode());
      for (int d = 0; d < a->GetDisplayCount(); ++d) { auto* x = a->GetDisplay(d); o += "   display " + Str(x->GetString()) + " " + Str(x->GetLanguage()) + " " + Str(x->GetCountry()) + "\n"; }
      if (a->GetDisplay(-1) || a->GetDisplay(a->GetDisplayCount())) o += "display index past the end\n";
    }
    if (e->GetAtom(-1) || e->GetAtom(e->GetAtomCount())) o += "atom index past the end\n";
  }
  if (c->GetEdition(-1) || c->GetEdition(c->GetEditionCount())) o += "edition index past the end\n";
  return o;
}
inline std::string Tags(const mkvparser::Tags* t) {
  std::string o;
  if (!t) return o;
  o += "tags\n";
  for (int i = 0; i < t->GetTagCount(); ++i) {
    auto* g = t->GetTag(i);
    o += " tag\n";
    for (int k = 0; k < g->GetSimpleTagCount(); ++k) { auto* s = g->GetSimpleTag(k); o += "  " + Str(s->GetTagName()) + " = " + Str(s->GetTagString()) + "\n"; }
    if (g->GetSimpleTag(-1) || g->GetSimpleTag(g->GetSimpleTagCount())) o += "simple tag index past the end\n";
  }
  if (t->GetTag(-1) || t->GetTag(t->GetTagCount())) o += "tag index past the end\n";
  return o;
}
inline std::string Segment(const mkvparser::Segment* s) {
  return Info(s->GetInfo()) + Tracks(s->GetTracks()) + Chapters(s->GetChapters()) + Tags(s->GetTags());
}
inline std::string Parse(const Bytes& d, std::string* err) {
  BytesReader rd(d);
  long long pos = 0;
  mkvparser::EBMLHeader h;
  if (long long st = h.Parse(&rd, pos)) { *err = Fmt("EBMLHeader::Parse %lld", st); return ""; }
  mkvparser::Segment* s = nullptr;
  if (long long st = mkvparser::Segment::CreateInstance(&rd, pos, s)) { *err = Fmt("CreateInstance %lld", st); delete s; return ""; }
  long st = s->Load();
  std::string o;
  if (st < 0) *err = Fmt("Load %ld", st);
  else o = Segment(s);
  delete s;
  return o;
}

// ------------------------------------------------------------ expected
// mkvparser skips empty elements in chapters and tags
inline std::string KStr(const Node& n, uint32_t id);
inline std::string KStr0(const Node& n, uint32_t id) { const Node* k = nullptr; for (auto& c : n.kids) if (c.id == id && (!c.b.empty() || c.nulpad)) k = &c; return k ? "'" + std::string(k->b.c_str()) + "'" : "(null)"; }
inline std::string KStr(const Node& n, uint32_t id) { const Node* k = nullptr; for (auto& c : n.kids) if (c.id == id) k = &c; return k ? "'" + std::string(k->b.c_str()) + "'" : "(null)"; }
inline uint64_t KU(const Node& n, uint32_t id, uint64_t def) { for (auto it = n.kids.rbegin(); it != n.kids.rend(); ++it) if (it->id == id) return it->u; return def; }
inline double KF(const Node& n, uint32_t id, double def) { for (auto it = n.kids.rbegin(); it != n.kids.rend(); ++it) if (it->id == id) return it->f; return def; }
inline Bytes KB(const Node& n, uint32_t id) { for (auto it = n.kids.rbegin(); it != n.kids.rend(); ++it) if (it->id == id) return it->b; return Bytes(); }

inline std::string PInfo(const Node& i) {
  return Fmt("info scale %" PRIu64 " muxing ", KU(i, ID_TimecodeScale, 1000000)) + KStr(i, ID_MuxingApp) + " writing " + KStr(i, ID_WritingApp) + " title " + KStr(i, ID_Title) + "\n";
}
inline std::string PTracks(const Node& ts) {
  std::string o;
  for (auto* tp : ts.all(ID_TrackEntry)) {
    const Node& t = *tp;
    uint64_t type = KU(t, ID_TrackType, 0);
    o += Fmt("track %" PRIu64 " type %" PRIu64 " uid %" PRIu64 " lacing %" PRIu64 " defdur %" PRIu64 " delay %" PRIu64 " preroll %" PRIu64 "\n", KU(t, ID_TrackNumber, 0), type, KU(t, ID_TrackUID, 0), KU(t, ID_FlagLacing, 1), KU(t, ID_DefaultDuration, 0), KU(t, ID_CodecDelay, 0), KU(t, ID_SeekPreRoll, 0));
    o += " name " + KStr(t, ID_Name) + " lang " + KStr(t, ID_Language) + " codec " + KStr(t, ID_CodecID) + " codecname " + KStr(t, ID_CodecName) + "\n";
    Bytes p = KB(t, ID_CodecPrivate);
    o += Fmt(" private %zu #%" PRIx64 "\n", p.size(), Hash(p));
    const Node* es = t.kid(ID_ContentEncodings);
    if (es && (type == 1 || type == 2)) for (auto* ep : es->all(ID_ContentEncoding)) {
      const Node& e = *ep;
      bool bad = false;  // an encoding the parser does not support ends the list
      for (auto* x : e.all(ID_ContentEncryption)) if (x->kid(ID_ContentEncAlgo) && KU(*x, ID_ContentEncAlgo, 0) != 5) bad = true;
      if (e.all(ID_ContentEncryption).empty() && e.all(ID_ContentCompression).empty()) bad = true;
      if (bad) break;
      o += Fmt(" encoding order %" PRIu64 " scope %" PRIu64 " type %" PRIu64 "\n", KU(e, ID_ContentEncodingOrder, 0), KU(e, ID_ContentEncodingScope, 1), KU(e, ID_ContentEncodingType, 0));
      for (auto* x : e.all(ID_ContentCompression)) { Bytes b = KB(*x, ID_ContentCompSettings); o += Fmt("  compression %" PRIu64 " %zu #%" PRIx64 "\n", KU(*x, ID_ContentCompAlgo, 0), b.size(), Hash(b)); }
      for (auto* x : e.all(ID_ContentEncryption)) {
        Bytes k = KB(*x, ID_ContentEncKeyID), sg = KB(*x, ID_ContentSignature), sk = KB(*x, ID_ContentSigKeyID);
        const Node* aes = x->kid(ID_ContentEncAESSettings);
        o += Fmt("  encryption %" PRIu64 " key %zu #%" PRIx64 " sig %zu #%" PRIx64 " sigkey %zu #%" PRIx64 " %" PRIu64 " %" PRIu64 " cipher %" PRIu64 "\n", KU(*x, ID_ContentEncAlgo, 0), k.size(), Hash(k), sg.size(), Hash(sg), sk.size(), Hash(sk), KU(*x, ID_ContentSigAlgo, 0), KU(*x, ID_ContentSigHashAlgo, 0), aes ? KU(*aes, ID_AESSettingsCipherMode, 1) : 1);
      }
    }
    if (type == 1) {
      static const Node kEmpty = NM(ID_Video);
      const Node& v = t.kid(ID_Video) ? *t.kid(ID_Video) : kEmpty;
      o += Fmt(" video %" PRIu64 "x%" PRIu64 " display %" PRIu64 "x%" PRIu64 " unit %" PRIu64 " stereo %" PRIu64 " rate ", KU(v, ID_PixelWidth, 0), KU(v, ID_PixelHeight, 0), KU(v, ID_DisplayWidth, KU(v, ID_PixelWidth, 0)), KU(v, ID_DisplayHeight, KU(v, ID_PixelHeight, 0)), KU(v, ID_DisplayUnit, 0), KU(v, ID_StereoMode, 0)) + Fmt("%.17g", KF(v, ID_FrameRate, 0)) + " space " + KStr(v, ID_ColourSpace) + "\n";
      if (auto* c = v.kid(ID_Colour)) {
        static const uint32_t ids[13] = {ID_MatrixCoefficients, ID_BitsPerChannel, ID_ChromaSubsamplingHorz, ID_ChromaSubsamplingVert, ID_CbSubsamplingHorz, ID_CbSubsamplingVert, ID_ChromaSitingHorz, ID_ChromaSitingVert, ID_Range, ID_TransferCharacteristics, ID_Primaries, ID_MaxCLL, ID_MaxFALL};
        o += " colour";
        for (uint32_t id : ids) o += c->kid(id) ? Fmt(" %" PRIu64, KU(*c, id, 0)) : Fmt(" %lld", LLONG_MAX);
        o += "\n";
        if (auto* m = c->kid(ID_MasteringMetadata)) {
          o += "  mastering " + F32s(KF(*m, ID_LuminanceMax, FLT_MAX)) + " " + F32s(KF(*m, ID_LuminanceMin, FLT_MAX));
          static const uint32_t pcs[8] = {ID_PrimaryRX, ID_PrimaryRY, ID_PrimaryGX, ID_PrimaryGY, ID_PrimaryBX, ID_PrimaryBY, ID_WhitePointX, ID_WhitePointY};
          for (int i = 0; i < 4; ++i) o += m->kid(pcs[2 * i]) || m->kid(pcs[2 * i + 1]) ? " (" + F32s(KF(*m, pcs[2 * i], 0)) + "," + F32s(KF(*m, pcs[2 * i + 1], 0)) + ")" : " -";
          o += "\n";
        }
      }
      if (auto* q = v.kid(ID_Projection)) {
        Bytes b = KB(*q, ID_ProjectionPrivate);
        o += Fmt(" projection %d private %zu #%" PRIx64 " ", q->kid(ID_ProjectionType) ? (int)KU(*q, ID_ProjectionType, 0) : -1, b.size(), Hash(b)) + F32s(KF(*q, ID_PoseYaw, FLT_MAX)) + " " + F32s(KF(*q, ID_PosePitch, FLT_MAX)) + " " + F32s(KF(*q, ID_PoseRoll, FLT_MAX)) + "\n";
      }
    } else if (type == 2) {
      static const Node kEmpty = NM(ID_Audio);
      const Node& a = t.kid(ID_Audio) ? *t.kid(ID_Audio) : kEmpty;
      o += Fmt(" audio rate %.17g channels %" PRIu64 " depth %" PRIu64 "\n", KF(a, ID_SamplingFrequency, 8000), KU(a, ID_Channels, 1), KU(a, ID_BitDepth, 0));
    }
  }
  return o;
}
inline std::string PChapters(const Node* c) {
  std::string o;
  if (!c) return o;
  o += "chapters\n";
  for (auto* e : c->all(ID_EditionEntry)) {
    o += " edition\n";
    for (auto* a : e->all(ID_ChapterAtom)) {
      o += Fmt("  atom uid %" PRIu64 " ", KU(*a, ID_ChapterUID, 0)) + KStr0(*a, ID_ChapterStringUID) + Fmt(" %" PRId64 " %" PRId64 "\n", a->kid(ID_ChapterTimeStart) ? (int64_t)KU(*a, ID_ChapterTimeStart, 0) : -1, a->kid(ID_ChapterTimeEnd) ? (int64_t)KU(*a, ID_ChapterTimeEnd, 0) : -1);
      for (auto* d : a->all(ID_ChapterDisplay)) o += "   display " + KStr0(*d, ID_ChapString) + " " + KStr0(*d, ID_ChapLanguage) + " " + KStr0(*d, ID_ChapCountry) + "\n";
    }
  }
  return o;
}
inline std::string PTags(const Node* t) {
  std::string o;
  if (!t) return o;
  o += "tags\n";
  for (auto* g : t->all(ID_Tag)) {
    o += " tag\n";
    for (auto* s : g->all(ID_SimpleTag)) o += "  " + KStr0(*s, ID_TagName) + " = " + KStr0(*s, ID_TagString) + "\n";
  }
  return o;
}
inline std::string Project(const Node& info, const Node& tracks, const Node* chapters, const Node* tags, uint64_t) {
  return PInfo(info) + PTracks(tracks) + PChapters(chapters) + PTags(tags);
}

}  // namespace dump
#endif
