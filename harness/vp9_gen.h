// Writes VP9 uncompressed headers from the bitstream specification.
#ifndef VERIF_VP9_GEN_H_
#define VERIF_VP9_GEN_H_
#include "../lib/util.h"

using namespace vf;

namespace {

struct Bits {
  Bytes b; int n = 0;
  void put(uint64_t v, int bits) {
    for (int i = bits - 1; i >= 0; --i) {
      if (n % 8 == 0) b.push_back('\0');
      if ((v >> i) & 1) b.back() |= (char)(0x80 >> (n % 8));
      ++n;
    }
  }
};

// What a VP9 uncompressed header says, in the terms of the accessors.
struct Hdr {
  int profile = 0, key = 0, altref = 0, erm = 0, bit_depth = -1, color_space = -1;
  int w = -1, h = -1, dw = -1, dh = -1, refresh = -1, rows = -1, cols = -1, fpm = -1;
  bool existing = false;
};
struct State {  // of the decoder, as the bitstream specification has it
  bool any = false; int w = 0, h = 0, bit_depth = 0;
  std::vector<std::pair<int, int>> slot = std::vector<std::pair<int, int>>(8, {0, 0});
};
struct Want {  // constraints for the level workloads
  int w = 0, h = 0, force_key = -1, force_altref = -1, cols_log2 = -1, refresh = -1, depth = 0; bool no_seg = false; bool plain = false;
};

int Log2Min(int sb) { int k = 0; while ((64 << k) < sb) ++k; return k; }
int Log2Max(int sb) { int k = 1; while ((sb >> k) >= 4) ++k; return k - 1; }

Bytes Header(Rng& r, State& st, Hdr& e, const Want& want) {
  Bits o;
  auto flag = [&](int pct) { int v = r.chance(pct); o.put(v, 1); return v; };
  o.put(2, 2);
  e.profile = (int)r.u(4);
  if (want.depth) e.profile = want.depth > 8 ? (r.coin() ? 2 : 3) : (r.coin() ? 0 : 1);
  o.put(e.profile & 1, 1); o.put(e.profile >> 1, 1);
  if (e.profile == 3) o.put(0, 1);
  if (!want.plain && r.chance(6)) {  // show_existing_frame
    o.put(1, 1); o.put(r.u(8), 3); e.existing = true;
    return o.b + r.bytes(r.u(3));
  }
  o.put(0, 1);
  e.key = want.force_key >= 0 ? want.force_key : !st.any || r.chance(30);
  e.altref = want.force_altref >= 0 ? want.force_altref : r.chance(35);
  e.erm = r.chance(30);
  o.put(!e.key, 1); o.put(!e.altref, 1); o.put(e.erm, 1);
  auto dim = [&](int forced) {
    if (forced) return forced;
    switch (r.u(4)) {
      case 0: return (int)r.range(1, 65536);
      case 1: return (int)r.pick<int>({1, 2, 7, 8, 9, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32768, 65535, 65536});
      case 2: return (int)(r.range(1, 1024) * 64 - r.u(2));
      default: return (int)r.range(1, 4096);
    }
  };
  auto color = [&]() {
    if (e.profile >= 2) {
      int twelve = want.depth ? want.depth == 12 : r.coin();
      o.put(twelve, 1); e.bit_depth = twelve ? 12 : 10;
    } else e.bit_depth = 8;
    e.color_space = (int)r.u(8);
    if (e.profile != 1 && e.profile != 3 && e.color_space == 7) e.color_space = (int)r.u(7);  // sRGB needs profile 1 or 3
    o.put(e.color_space, 3);
    if (e.color_space != 7) {
      flag(50);
      if (e.profile == 1 || e.profile == 3) { flag(50); flag(50); o.put(0, 1); }
    } else if (e.profile == 1 || e.profile == 3) o.put(0, 1);
  };
  auto size = [&]() {
    e.w = dim(want.w); e.h = dim(want.h);
    o.put(e.w - 1, 16); o.put(e.h - 1, 16);
    if (flag(35)) { e.dw = dim(0); e.dh = dim(0); o.put(e.dw - 1, 16); o.put(e.dh - 1, 16); }
    else { e.dw = e.w; e.dh = e.h; }
  };
  if (e.key) {
    o.put(0x498342, 24);
    color();
    size();
    if (!e.erm) { flag(50); e.fpm = flag(50); } else e.fpm = 1;
    o.put(r.u(4), 2);                 // frame context
    o.put(r.u(64), 6); o.put(r.u(8), 3);  // loop filter
    if (flag(60) && flag(60)) {
      for (int i = 0; i < 6; ++i) if (flag(40)) o.put(r.u(128), 7);
    }
    o.put(r.u(256), 8);               // quantizer
    for (int i = 0; i < 3; ++i) if (flag(30)) o.put(r.u(32), 5);
    bool seg = want.no_seg ? false : r.chance(15);
    o.put(seg, 1);
    if (!seg) {
      int sb = (e.w + 63) / 64, lo = Log2Min(sb), hi = Log2Max(sb);
      int log2 = want.cols_log2 >= 0 ? std::min(hi, std::max(lo, want.cols_log2)) : (int)r.range(lo, hi);
      for (int i = lo; i < log2; ++i) o.put(1, 1);
      if (log2 < hi) o.put(0, 1);
      e.cols = 1 << log2;
      int rows = (int)r.u(3);
      o.put(rows > 0, 1);
      if (rows) o.put(rows - 1, 1);
      e.rows = 1 << rows;
      R().count(Fmt("tile_cols_%d", e.cols));
    } else R().count("segmented");
    for (auto& s : st.slot) s = {e.w, e.h};
    R().count("key_frames");
  } else {
    int intra = 0;
    if (e.altref) { intra = (!want.plain && r.chance(40)) || !st.any; o.put(intra, 1); }
    if (!e.erm) o.put(r.u(4), 2);
    e.refresh = want.refresh >= 0 ? want.refresh : (int)r.u(256);
    if (intra) {
      o.put(0x498342, 24);
      if (e.profile > 0) color(); else { e.color_space = 1; e.bit_depth = 8; }
      o.put(e.refresh, 8);
      size();
      R().count("intra_only_frames");
    } else {
      o.put(e.refresh, 8);
      int ref[3];
      for (int& x : ref) { x = (int)r.u(8); o.put(x, 3); o.put(r.u(2), 1); }
      int found = -1;
      for (int i = 0; i < 3; ++i)
        if (st.any && st.slot[ref[i]] == std::make_pair(st.w, st.h) && (!want.w || (want.w == st.w && want.h == st.h)) && r.chance(60)) { found = i; break; }
      for (int i = 0; i < 3; ++i) { o.put(i == found, 1); if (i == found) break; }
      if (found >= 0) { e.w = st.w; e.h = st.h; R().count("size_from_reference"); }
      else { size(); R().count("size_coded"); }
      e.bit_depth = st.bit_depth;
      R().count("inter_frames");
    }
    for (int i = 0; i < 8; ++i) if (e.refresh >> i & 1) st.slot[i] = {e.w, e.h};
  }
  st.any = true; st.w = e.w; st.h = e.h; st.bit_depth = e.bit_depth;
  for (int i = (int)r.u(40); i > 0; --i) o.put(r.u(2), 1);  // what follows
  return o.b + r.bytes(r.u(6));
}

}  // namespace
#endif
