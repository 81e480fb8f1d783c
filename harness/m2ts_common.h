// Frames and WebM files for the transport converters.
#ifndef VERIF_M2TS_COMMON_H_
#define VERIF_M2TS_COMMON_H_
#include "../lib/gen.h"
#include "common/libwebm_util.h"
#include "common/video_frame.h"
#include "m2ts/vpxpes2ts.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"

using namespace vf;
namespace lw = libwebm;

namespace {

// ------------------------------------------------------------ frame contents
Bytes Content(Rng& r, size_t n) {
  Bytes b;
  switch (r.u(5)) {
    case 0: return r.bytes(n);
    case 1: b.resize(n); for (auto& c : b) c = r.pick<char>({0, 0, 0, 0, 1, 2, 3, 3}); return b;
    case 2: b.assign(n, '\0'); for (size_t i = 0; i < n; i += 1 + r.u(n > 2000 ? 200 : 12)) b[i] = r.pick<char>({0, 1, 1, 3, 3, 2, 4, (char)0xff}); return b;
    case 3: {
      b = r.bytes(n);
      for (int k = (int)r.range(1, 8); k > 0; --k) {
        Bytes s = r.pick<Bytes>({Bytes("\0\0\1", 3), Bytes("\0\0\3", 3), Bytes("\0\0\0\1", 4), Bytes("\0\0\0\0\3", 5), Bytes("\0\0\3\1", 4), Bytes("\0\0\3\3\0\0\3\1", 8), Bytes("\0\0\1\340", 4), Bytes("\0\0\2", 3), Bytes("\1", 1), Bytes("\3", 1), Bytes("\0\1", 2), Bytes("\0\0", 2)});
        if (s.size() > n) continue;
        size_t at = r.u(n - s.size() + 1);
        if (r.chance(20)) at = 0; else if (r.chance(20)) at = n - s.size();
        else if (n > 32790 && r.coin()) at = 32768 - r.u(s.size() + 1);
        b.replace(at, s.size(), s);
      }
      return b;
    }
    default: return Bytes(n, r.pick<char>({0, 0, 1, 3, (char)0xff}));
  }
}
size_t Size(Rng& r) {
  if (r.chance(70)) return r.range(1, 420);
  if (r.chance(30)) return r.range(1, 3);
  uint64_t base = r.pick<uint64_t>({32768, 32768, 65536, 65536, 98304, 131072, 255, 65510, 65516, 65526, 246, 65280});
  return (size_t)(base + 12 - r.u(25));
}

struct Fr {
  Bytes data;               // as stored in the file
  std::vector<Bytes> subs;  // what has to come out
  int64_t ns = 0;
};
Fr GenFr(Rng& r, bool vp9) {
  Fr f;
  if (vp9 && r.chance(35)) {
    int k = (int)r.range(1, 8), w = (int)r.range(1, 4);
    uint64_t max = w == 1 ? 255 : w == 2 ? 65535 : 1 << 20, total = 0;
    for (int i = 0; i < k; ++i) { size_t n = std::min<uint64_t>(Size(r), max); if (k > 3 && n > 5000) n = 184; f.subs.push_back(Content(r, n)); total += n; }
    for (auto& s : f.subs) f.data += s;
    if (r.chance(10)) f.data += r.bytes(r.range(1, 9));
    Bytes idx(1, (char)(0xc0 | (w - 1) << 3 | (k - 1)));
    for (auto& s : f.subs) for (int j = 0; j < w; ++j) idx += (char)(s.size() >> (8 * j));
    idx += idx[0];
    f.data += idx;
    R().count("superframes");
    return f;
  }
  f.data = Content(r, Size(r));
  if (vp9 && ((unsigned char)f.data.back() & 0xe0) == 0xc0) f.data.back() = (char)(f.data.back() & 0x1f);
  f.subs.push_back(f.data);
  return f;
}

// ------------------------------------------------------------- a WebM file
struct Movie {
  Bytes bytes;
  std::vector<Fr> frames;  // of the first video track, in file order
  bool good = true;        // supported
  bool vp9 = false;
  std::vector<Node> top;
};
Movie GenMovie(Rng& r, bool small) {
  Movie m;
  Node eb = NM(ID_EBML);
  eb.kids = {NU(ID_EBMLVersion, 1), NU(ID_EBMLReadVersion, 1), NU(ID_EBMLMaxIDLength, 4), NU(ID_EBMLMaxSizeLength, 8), NS(ID_DocType, "webm"), NU(ID_DocTypeVersion, 4), NU(ID_DocTypeReadVersion, 2)};
  Node seg = NM(ID_Segment), info = NM(ID_Info), tracks = NM(ID_Tracks);
  uint64_t scale = r.pick<uint64_t>({1000000, 1000000, 1000000, 1000, 100000, 41666, 1, 33333333});
  info.kids = {NU(ID_TimecodeScale, scale), NS(ID_MuxingApp, "m"), NS(ID_WritingApp, "w")};
  int nt = (int)r.range(1, 4);
  std::vector<uint64_t> nums; uint64_t chosen = 0; bool have = false;
  m.vp9 = r.coin();
  bool bad_codec = r.chance(4), no_video = r.chance(4);
  for (int i = 0; i < nt; ++i) {
    uint64_t num; do num = r.chance(50) ? i + 1 : r.range(1, 127); while (std::find(nums.begin(), nums.end(), num) != nums.end());
    nums.push_back(num);
    bool video = !no_video && (r.chance(55) || (i == nt - 1 && !have));
    Node t = NM(ID_TrackEntry);
    t.kids = {NU(ID_TrackNumber, num), NU(ID_TrackUID, r.range(1, 1u << 30)), NU(ID_TrackType, video ? 1 : 2)};
    if (video) {
      t.kids.push_back(NS(ID_CodecID, !have ? (bad_codec ? r.pick<std::string>({"V_AV1", "V_VP10", "V_VP", "v_vp9"}) : m.vp9 ? "V_VP9" : "V_VP8") : (r.coin() ? "V_VP8" : "V_AV1")));
      Node v = NM(ID_Video); v.kids = {NU(ID_PixelWidth, 64), NU(ID_PixelHeight, 48)}; t.kids.push_back(v);
      if (!have) { have = true; chosen = num; }
    } else {
      t.kids.push_back(NS(ID_CodecID, "A_OPUS"));
      Node a = NM(ID_Audio); a.kids = {NF(ID_SamplingFrequency, 48000), NU(ID_Channels, 2)}; t.kids.push_back(a);
    }
    tracks.kids.push_back(t);
  }
  m.good = have && !bad_codec;
  seg.kids = {info, tracks};
  int nc = (int)r.range(1, small ? 2 : 4);
  uint64_t tc = r.chance(20) ? r.edgy(90000000000000ULL / scale) : r.u(5000);
  for (int c = 0; c < nc; ++c) {
    Node cl = NM(ID_Cluster);
    tc += r.u(3000);
    cl.kids.push_back(NU(ID_Timecode, tc));
    int nb = (int)r.range(1, small ? 3 : 8);
    for (int b = 0; b < nb; ++b) {
      auto bd = std::make_shared<BlockData>();
      bd->track = r.coin() && have ? chosen : r.pick(nums);
      bd->track_len = SizeLen(bd->track);
      int rel = (int)r.u(3000) - (tc > 3000 && r.chance(20) ? 1500 : 0);
      bd->tc = (int16_t)rel; bd->key = r.coin();
      bool mine = have && bd->track == chosen;
      int nf = r.chance(20) ? (int)r.range(2, 4) : 1;
      std::vector<Fr> fs;
      if (nf > 1) bd->lace = (int)r.range(1, 3);
      Bytes fixed;
      for (int k = 0; k < nf; ++k) {
        Fr f = mine ? GenFr(r, m.vp9) : Fr();
        if (!mine) f.data = r.bytes(r.range(1, 300));
        if (bd->lace == kFixed) {  // all the same size
          if (k == 0) fixed = f.data;
          else { f.data = fixed; f.subs = fs.empty() ? std::vector<Bytes>() : fs[0].subs; }
        }
        f.ns = (int64_t)((tc + (uint64_t)(int64_t)rel) * scale);
        bd->frames.push_back(f.data);
        fs.push_back(f);
      }
      if (mine) for (auto& f : fs) m.frames.push_back(f);
      if (r.chance(60)) cl.kids.push_back(NK(ID_SimpleBlock, bd));
      else { Node g = NM(ID_BlockGroup); g.kids.push_back(NK(ID_Block, bd)); if (r.coin()) g.kids.push_back(NU(ID_BlockDuration, r.range(1, 100))); cl.kids.push_back(g); }
    }
    seg.kids.push_back(cl);
  }
  m.top = {eb, seg};
  m.bytes = Layout(m.top);
  return m;
}

}  // namespace
#endif
