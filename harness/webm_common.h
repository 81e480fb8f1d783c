// Value dumping, callback plans and the event recorder for the streaming parser.
#ifndef VERIF_WEBM_COMMON_H_
#define VERIF_WEBM_COMMON_H_
#include <stdexcept>
#include "../lib/gen.h"
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/dom_types.h"
#include "webm/element.h"
#include "webm/reader.h"
#include "webm/status.h"
#include "webm/webm_parser.h"

using namespace vf;
using webm::Action;
using webm::ElementMetadata;
using webm::FrameMetadata;
using webm::Id;
using webm::Status;

namespace webm {

// ------------------------------------------------------------ dumping values
std::string V(uint64_t v) { return Fmt("%" PRIu64, v); }
std::string V(int64_t v) { return Fmt("%" PRId64, v); }
std::string V(bool v) { return v ? "1" : "0"; }
std::string V(double v) { return Fmt("%.17g", v); }
std::string V(const std::string& s) { return "'" + s + "'"; }
std::string V(const std::vector<uint8_t>& b) { Bytes s(b.begin(), b.end()); return Fmt("[%zu]", s.size()) + Hex(s, 40) + Fmt("#%" PRIx64, Hash(s)); }
std::string VB(const Bytes& s) { return Fmt("[%zu]", s.size()) + Hex(s, 40) + Fmt("#%" PRIx64, Hash(s)); }
std::string V(Id id) { return Fmt("%x", (unsigned)id); }
template <class E> typename std::enable_if<std::is_enum<E>::value && !std::is_same<E, Id>::value, std::string>::type V(E e) { return Fmt("%" PRIu64, (uint64_t)e); }

std::string D(const webm::Block& b) { return Fmt("t%" PRIu64 ",n%d,c%d,l%d,v%d", b.track_number, b.num_frames, b.timecode, (int)b.lacing, b.is_visible); }
std::string D(const webm::SimpleBlock& b) { return D((const webm::Block&)b) + Fmt(",k%d,d%d", b.is_key_frame, b.is_discardable); }
std::string D(const webm::VirtualBlock& b) { return Fmt("t%" PRIu64 ",c%d", b.track_number, b.timecode); }
template <class T> std::string V(const webm::Element<T>& e);
template <class T> std::string V(const std::vector<webm::Element<T>>& v) { std::string s = "("; for (auto& e : v) s += V(e) + ","; return s + ")"; }
template <class T> auto DV(const T& t, int) -> decltype(D(t)) { return D(t); }
template <class T> auto DV(const T& t, long) -> decltype(V(t)) { return V(t); }
#define F(n, m) s += std::string(n) + "=" + V(x.m) + ";"
std::string D(const webm::BlockMore& x) { std::string s = "{"; F("BlockAddID", id); F("BlockAdditional", data); return s + "}"; }
std::string D(const webm::BlockAdditions& x) { std::string s = "{"; F("BlockMore", block_mores); return s + "}"; }
std::string D(const webm::TimeSlice& x) { std::string s = "{"; F("LaceNumber", lace_number); return s + "}"; }
std::string D(const webm::Slices& x) { std::string s = "{"; F("TimeSlice", slices); return s + "}"; }
std::string D(const webm::BlockGroup& x) { std::string s = "{"; F("Block", block); F("BlockVirtual", virtual_block); F("BlockAdditions", additions); F("BlockDuration", duration); F("ReferenceBlock", references); F("DiscardPadding", discard_padding); F("Slices", slices); return s + "}"; }
std::string D(const webm::Cluster& x) { std::string s = "{"; F("Timecode", timecode); F("PrevSize", previous_size); F("SimpleBlock", simple_blocks); F("BlockGroup", block_groups); return s + "}"; }
std::string D(const webm::Ebml& x) { std::string s = "{"; F("EBMLVersion", ebml_version); F("EBMLReadVersion", ebml_read_version); F("EBMLMaxIDLength", ebml_max_id_length); F("EBMLMaxSizeLength", ebml_max_size_length); F("DocType", doc_type); F("DocTypeVersion", doc_type_version); F("DocTypeReadVersion", doc_type_read_version); return s + "}"; }
std::string D(const webm::Info& x) { std::string s = "{"; F("TimecodeScale", timecode_scale); F("Duration", duration); F("DateUTC", date_utc); F("Title", title); F("MuxingApp", muxing_app); F("WritingApp", writing_app); return s + "}"; }
std::string D(const webm::Seek& x) { std::string s = "{"; F("SeekID", id); F("SeekPosition", position); return s + "}"; }
std::string D(const webm::Audio& x) { std::string s = "{"; F("SamplingFrequency", sampling_frequency); F("OutputSamplingFrequency", output_frequency); F("Channels", channels); F("BitDepth", bit_depth); return s + "}"; }
std::string D(const webm::MasteringMetadata& x) { std::string s = "{"; F("PrimaryRX", primary_r_chromaticity_x); F("PrimaryRY", primary_r_chromaticity_y); F("PrimaryGX", primary_g_chromaticity_x); F("PrimaryGY", primary_g_chromaticity_y); F("PrimaryBX", primary_b_chromaticity_x); F("PrimaryBY", primary_b_chromaticity_y); F("WhitePointX", white_point_chromaticity_x); F("WhitePointY", white_point_chromaticity_y); F("LuminanceMax", luminance_max); F("LuminanceMin", luminance_min); return s + "}"; }
std::string D(const webm::Colour& x) { std::string s = "{"; F("MatrixCoefficients", matrix_coefficients); F("BitsPerChannel", bits_per_channel); F("ChromaSubsamplingHorz", chroma_subsampling_x); F("ChromaSubsamplingVert", chroma_subsampling_y); F("CbSubsamplingHorz", cb_subsampling_x); F("CbSubsamplingVert", cb_subsampling_y); F("ChromaSitingHorz", chroma_siting_x); F("ChromaSitingVert", chroma_siting_y); F("Range", range); F("TransferCharacteristics", transfer_characteristics); F("Primaries", primaries); F("MaxCLL", max_cll); F("MaxFALL", max_fall); F("MasteringMetadata", mastering_metadata); return s + "}"; }
std::string D(const webm::Projection& x) { std::string s = "{"; F("ProjectionType", type); F("ProjectionPrivate", projection_private); F("PoseYaw", pose_yaw); F("PosePitch", pose_pitch); F("PoseRoll", pose_roll); return s + "}"; }
std::string D(const webm::Video& x) { std::string s = "{"; F("FlagInterlaced", interlaced); F("StereoMode", stereo_mode); F("AlphaMode", alpha_mode); F("PixelWidth", pixel_width); F("PixelHeight", pixel_height); F("PixelCropBottom", pixel_crop_bottom); F("PixelCropTop", pixel_crop_top); F("PixelCropLeft", pixel_crop_left); F("PixelCropRight", pixel_crop_right); F("DisplayWidth", display_width); F("DisplayHeight", display_height); F("DisplayUnit", display_unit); F("AspectRatioType", aspect_ratio_type); F("FrameRate", frame_rate); F("Colour", colour); F("Projection", projection); return s + "}"; }
std::string D(const webm::ContentEncAesSettings& x) { std::string s = "{"; F("AESSettingsCipherMode", aes_settings_cipher_mode); return s + "}"; }
std::string D(const webm::ContentEncryption& x) { std::string s = "{"; F("ContentEncAlgo", algorithm); F("ContentEncKeyID", key_id); F("ContentEncAESSettings", aes_settings); return s + "}"; }
std::string D(const webm::ContentEncoding& x) { std::string s = "{"; F("ContentEncodingOrder", order); F("ContentEncodingScope", scope); F("ContentEncodingType", type); F("ContentEncryption", encryption); return s + "}"; }
std::string D(const webm::ContentEncodings& x) { std::string s = "{"; F("ContentEncoding", encodings); return s + "}"; }
std::string D(const webm::TrackEntry& x) { std::string s = "{"; F("TrackNumber", track_number); F("TrackUID", track_uid); F("TrackType", track_type); F("FlagEnabled", is_enabled); F("FlagDefault", is_default); F("FlagForced", is_forced); F("FlagLacing", uses_lacing); F("DefaultDuration", default_duration); F("Name", name); F("Language", language); F("CodecID", codec_id); F("CodecPrivate", codec_private); F("CodecName", codec_name); F("CodecDelay", codec_delay); F("SeekPreRoll", seek_pre_roll); F("Video", video); F("Audio", audio); F("ContentEncodings", content_encodings); return s + "}"; }
std::string D(const webm::CueTrackPositions& x) { std::string s = "{"; F("CueTrack", track); F("CueClusterPosition", cluster_position); F("CueRelativePosition", relative_position); F("CueDuration", duration); F("CueBlockNumber", block_number); return s + "}"; }
std::string D(const webm::CuePoint& x) { std::string s = "{"; F("CueTime", time); F("CueTrackPositions", cue_track_positions); return s + "}"; }
std::string D(const webm::ChapterDisplay& x) { std::string s = "{"; F("ChapString", string); F("ChapLanguage", languages); F("ChapCountry", countries); return s + "}"; }
std::string D(const webm::ChapterAtom& x) { std::string s = "{"; F("ChapterUID", uid); F("ChapterStringUID", string_uid); F("ChapterTimeStart", time_start); F("ChapterTimeEnd", time_end); F("ChapterDisplay", displays); F("ChapterAtom", atoms); return s + "}"; }
std::string D(const webm::EditionEntry& x) { std::string s = "{"; F("ChapterAtom", atoms); return s + "}"; }
std::string D(const webm::Targets& x) { std::string s = "{"; F("TargetTypeValue", type_value); F("TargetType", type); F("TagTrackUID", track_uids); return s + "}"; }
std::string D(const webm::SimpleTag& x) { std::string s = "{"; F("TagName", name); F("TagLanguage", language); F("TagDefault", is_default); F("TagString", string); F("TagBinary", binary); F("SimpleTag", tags); return s + "}"; }
std::string D(const webm::Tag& x) { std::string s = "{"; F("Targets", targets); F("SimpleTag", tags); return s + "}"; }
#undef F
template <class T> std::string V(const webm::Element<T>& e) { return std::string(e.is_present() ? "+" : "-") + DV(e.value(), 0); }

}  // namespace webm

namespace {
using webm::V; using webm::VB; using webm::D;
// ------------------------------------------------- expected values from a tree
std::string DumpMaster(uint32_t id, const Node* n);
std::string DefaultOf(const El& e) {
  switch (e.type) {
    case 'M': return DumpMaster(e.id, nullptr);
    case 'U': case 'O': return *e.def ? e.def : "0";
    case 'I': case 'D': return *e.def ? e.def : "0";
    case 'F': return V(*e.def ? atof(e.def) : 0.0);
    case 'S': return V(std::string(e.def));
    case 'B': return VB("");
    case 'X': return "0";
    case 'K': return e.id == ID_BlockVirtual ? "t0,c0" : e.id == ID_Block ? "t0,n0,c0,l0,v0" : "";
  }
  return "?";
}
std::string DumpBlock(const Node& n) {
  const BlockData& b = *n.blk;
  if (n.id == ID_BlockVirtual) return Fmt("t%" PRIu64 ",c%d", b.track, b.tc);
  int l = b.lace == kXiph ? 2 : b.lace == kFixed ? 4 : b.lace == kEbml ? 6 : 0;
  std::string s = Fmt("t%" PRIu64 ",n%d,c%d,l%d,v%d", b.track, (int)b.frames.size(), b.tc, l, !b.invisible);
  if (n.id == ID_SimpleBlock) s += Fmt(",k%d,d%d", b.key, b.discardable);
  return s;
}
std::string LeafVal(const Node& n, const El& e) {
  if (n.type == 'M') return DumpMaster(n.id, &n);
  if (n.type == 'K') return DumpBlock(n);
  if (LeafPayload(n).empty()) return DefaultOf(e);
  switch (n.type) {
    case 'U': return V(n.u);
    case 'O': return V((bool)n.u);
    case 'I': case 'D': return V(n.i);
    case 'F': return V(n.f);
    case 'S': return V(n.b);
    case 'X': return Fmt("%x", (unsigned)Reader::UInt(n.b));
    default: return VB(n.b);
  }
}
std::string FieldVal(const Node* n, const El& e) {
  if (e.many) {
    std::string s = "(";
    bool any = false;
    if (n) for (auto& k : n->kids) if (k.id == e.id) { s += "+" + LeafVal(k, e) + ","; any = true; }
    if (!any && *e.def) s += "-" + DefaultOf(e) + ",";
    return s + ")";
  }
  const Node* last = nullptr;
  if (n) for (auto& k : n->kids) if (k.id == e.id) last = &k;
  return last ? "+" + LeafVal(*last, e) : "-" + DefaultOf(e);
}
std::string DumpMaster(uint32_t id, const Node* n) {
  std::string s = "{";
  for (const El* e : KidsOf(id)) {
    if (!e->core) continue;
    std::string v = FieldVal(n, *e);
    // Documented derived defaults.
    uint32_t from = e->id == ID_DisplayWidth ? ID_PixelWidth : e->id == ID_DisplayHeight ? ID_PixelHeight : e->id == ID_OutputSamplingFrequency ? ID_SamplingFrequency : 0;
    if (from && n) {
      const Node* k = n->kid(e->id);
      if (!k || k->zero) v = std::string(k ? "+" : "-") + FieldVal(n, *FindEl(from, id)).substr(1);
    } else if (from && !n) {
      v = "-" + FieldVal(nullptr, *FindEl(from, id)).substr(1);
    }
    s += std::string(e->name) + "=" + v + ";";
  }
  return s + "}";
}

// --------------------------------------------------------------- decisions
// Decisions depend only on the kind of event and the position, so that the
// reference walk and the real parse make the same ones.
struct Plan {
  uint64_t seed = 0;
  int skip_pct = 0;      // OnElementBegin / *Begin skip
  int suspend_pct = 0;   // callback returns a non-success status first
  int throw_pct = 0;
  bool known_size_only_skip = false;
  bool Skip(char kind, uint64_t pos) const { return skip_pct && (int)(Mix(seed ^ kind, pos) % 100) < skip_pct; }
  int Suspensions(char kind, uint64_t pos) const { uint64_t h = Mix(seed * 31 + kind + 77, pos); if (!suspend_pct || (int)(h % 100) >= suspend_pct) return 0; return 1 + (int)((h >> 32) % 2); }
  int SuspendStatus(char kind, uint64_t pos) const { static const int st[] = {Status::kWouldBlock, Status::kEndOfFile, 7, Status::kOkPartial, Status::kSeekFailed, 1000000}; return st[(Mix(seed * 131 + kind, pos) >> 7) % 6]; }
  bool Throws(char kind, uint64_t pos) const { return throw_pct && (int)(Mix(seed * 17 + kind + 5, pos) % 100) < throw_pct; }
};

std::string Md(uint32_t id, uint64_t hdr, uint64_t size, uint64_t pos) {
  std::string s = ElName(id);
  s += hdr == webm::kUnknownHeaderSize ? " h?" : Fmt(" h%" PRIu64, hdr);
  s += size == webm::kUnknownElementSize ? " s?" : Fmt(" s%" PRIu64, size);
  s += pos == webm::kUnknownElementPosition ? " p?" : Fmt(" p%" PRIu64, pos);
  return s;
}
std::string Md(const ElementMetadata& m) { return Md((uint32_t)m.id, m.header_size, m.size, m.position); }
std::string Md(const Node& n) { return Md(n.id, n.hdr, n.unknown ? webm::kUnknownElementSize : n.body, n.pos); }
std::string MdUnknown(uint32_t id) { return Md(id, webm::kUnknownHeaderSize, webm::kUnknownElementSize, webm::kUnknownElementPosition); }

struct TestThrow : std::runtime_error { TestThrow() : std::runtime_error("callback") {} };

// ------------------------------------------------------------- the recorder
struct Rec : public webm::Callback {
  std::vector<std::string> log;
  Plan plan;
  uint64_t calls = 0, max_calls = ~0ULL, suspended = 0, thrown = 0, skipped = 0;
  std::map<std::string, int> tries;
  std::string pending;         // the callback that was suspended and must come again
  std::vector<std::string> resume_errors;
  int expected_status = 0;     // status the last suspended callback returned
  bool did_suspend = false;
  bool large = false;
  uint64_t skip_block = ~0ULL; // position of a block to skip
  Bytes partial;               // payload of the element being consumed
  uint64_t frame_bytes = 0, begun = 0;

  bool Gate(char kind, uint64_t pos, const std::string& args, Status* st) {
    if (++calls > max_calls) { throw std::logic_error("callback budget exceeded"); }
    std::string key = kind + args;
    if (!pending.empty() && pending != key) resume_errors.push_back("after the suspended callback " + pending + " came " + key);
    pending.clear();
    int want = plan.Suspensions(kind, pos);
    int& t = tries[key];
    if (t < want) {
      ++t; ++suspended;
      pending = key;
      if (plan.Throws(kind, pos)) { ++thrown; did_suspend = true; expected_status = INT32_MAX; throw TestThrow(); }
      *st = Status((std::int32_t)plan.SuspendStatus(kind, pos));
      did_suspend = true; expected_status = st->code;
      return false;
    }
    return true;
  }
  Status Ok() { return Status(Status::kOkCompleted); }
  Status OnElementBegin(const ElementMetadata& m, Action* a) override {
    Status st; if (!Gate('E', m.position, Md(m), &st)) return st;
    ++begun;
    log.push_back("EB " + Md(m));
    bool sk = plan.Skip('E', m.position);
    *a = sk ? Action::kSkip : Action::kRead;
    if (sk) ++skipped;
    return Ok();
  }
  Status Consume(char kind, uint64_t pos, const std::string& head, webm::Reader* r, uint64_t* left) {
    Status st;
    if (partial.empty() && !large) { if (!Gate(kind, pos, head, &st)) return st; }
    if (*left > (1 << 24) || large) {  // gigabytes of filling
      large = true;
      while (*left > 0) {
        if (++calls > max_calls) throw std::logic_error("callback budget exceeded");
        uint64_t got = 0;
        st = r->Skip(*left, &got);
        *left -= got;
        if (!st.completed_ok() && st.code != Status::kOkPartial) return st;
      }
      large = false;
      log.push_back(head + " large");
      return Ok();
    }
    // Alternate reading styles: single bytes, blocks.
    while (*left > 0) {
      if (++calls > max_calls) throw std::logic_error("callback budget exceeded");
      uint8_t buf[257];
      uint64_t want = std::min<uint64_t>(*left, 1 + Mix(plan.seed, pos + partial.size()) % 256), got = 0;
      st = r->Read((size_t)want, buf, &got);
      partial.append((char*)buf, (size_t)got);
      *left -= got;
      if (!st.completed_ok() && st.code != Status::kOkPartial) return st;
    }
    log.push_back(head + " " + VB(partial));
    frame_bytes += partial.size();
    partial.clear();
    return Ok();
  }
  Status OnUnknownElement(const ElementMetadata& m, webm::Reader* r, uint64_t* left) override { return Consume('U', m.position, "UNK " + Md(m), r, left); }
  Status OnVoid(const ElementMetadata& m, webm::Reader* r, uint64_t* left) override { return Consume('V', m.position, "VOID " + Md(m), r, left); }
  Status OnFrame(const FrameMetadata& m, webm::Reader* r, uint64_t* left) override { return Consume('F', m.position, Fmt("FRAME p%" PRIu64 " s%" PRIu64 " in ", m.position, m.size) + Md(m.parent_element), r, left); }
  Status Ev(char kind, const char* name, const ElementMetadata& m, const std::string& v) {
    Status st; std::string t = std::string(name) + " " + Md(m) + " " + v;
    if (!Gate(kind, m.position, t, &st)) return st;
    log.push_back(t);
    return Ok();
  }
  Status EvA(char kind, const char* name, const ElementMetadata& m, const std::string& v, Action* a) {
    Status st = Ev(kind, name, m, v);
    if (!st.completed_ok()) return st;
    bool sk = plan.Skip(kind, m.position) || ((kind == 'b' || kind == 'l') && skip_block == m.position);
    *a = sk ? Action::kSkip : Action::kRead;
    if (sk) ++skipped;
    return st;
  }
  Status OnEbml(const ElementMetadata& m, const webm::Ebml& x) override { return Ev('e', "EBML", m, D(x)); }
  Status OnSegmentBegin(const ElementMetadata& m, Action* a) override { return EvA('s', "SEGB", m, "", a); }
  Status OnSeek(const ElementMetadata& m, const webm::Seek& x) override { return Ev('k', "SEEK", m, D(x)); }
  Status OnInfo(const ElementMetadata& m, const webm::Info& x) override { return Ev('i', "INFO", m, D(x)); }
  Status OnClusterBegin(const ElementMetadata& m, const webm::Cluster& x, Action* a) override { return EvA('c', "CLUB", m, D(x), a); }
  Status OnSimpleBlockBegin(const ElementMetadata& m, const webm::SimpleBlock& x, Action* a) override { return EvA('b', "SBB", m, D(x), a); }
  Status OnSimpleBlockEnd(const ElementMetadata& m, const webm::SimpleBlock& x) override { return Ev('B', "SBE", m, D(x)); }
  Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override { return EvA('g', "BGB", m, "", a); }
  Status OnBlockBegin(const ElementMetadata& m, const webm::Block& x, Action* a) override { return EvA('l', "BLB", m, D(x), a); }
  Status OnBlockEnd(const ElementMetadata& m, const webm::Block& x) override { return Ev('L', "BLE", m, D(x)); }
  Status OnBlockGroupEnd(const ElementMetadata& m, const webm::BlockGroup& x) override { return Ev('G', "BGE", m, D(x)); }
  Status OnClusterEnd(const ElementMetadata& m, const webm::Cluster& x) override { return Ev('C', "CLUE", m, D(x)); }
  Status OnTrackEntry(const ElementMetadata& m, const webm::TrackEntry& x) override { return Ev('t', "TRACK", m, D(x)); }
  Status OnCuePoint(const ElementMetadata& m, const webm::CuePoint& x) override { return Ev('p', "CUE", m, D(x)); }
  Status OnEditionEntry(const ElementMetadata& m, const webm::EditionEntry& x) override { return Ev('d', "EDITION", m, D(x)); }
  Status OnTag(const ElementMetadata& m, const webm::Tag& x) override { return Ev('a', "TAG", m, D(x)); }
  Status OnSegmentEnd(const ElementMetadata& m) override { return Ev('S', "SEGE", m, ""); }
};

}  // namespace
#endif
