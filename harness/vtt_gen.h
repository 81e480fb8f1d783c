// Random WebVTT streams with ground truth.
#ifndef VERIF_VTT_GEN_H_
#define VERIF_VTT_GEN_H_
#include "../lib/util.h"

namespace vtt {
using namespace vf;

struct C { std::string id; int64_t start = 0, stop = 0; std::vector<std::pair<std::string, std::string>> set; std::vector<std::string> lines; };

inline std::string Show(const C& c) {
  std::string s = "id<" + c.id + ">" + Fmt(" %lld %lld", (long long)c.start, (long long)c.stop);
  for (auto& x : c.set) s += " " + x.first + ":" + x.second;
  for (auto& l : c.lines) s += " |" + l;
  return s;
}
inline int64_t GenMs(Rng& r) {
  switch (r.u(5)) {
    case 0: return (int64_t)r.u(120000);
    case 1: return (int64_t)r.u(100 * 3600000ULL);
    case 2: return (int64_t)(r.u(3600) * 1000 + r.pick<int64_t>({0, 1, 5, 9, 10, 50, 99, 100, 500, 999}));
    case 3: return (int64_t)r.edgy(2147483647ULL * 3600000ULL + 3599999);
    default: return (int64_t)(r.pick<uint64_t>({60000, 3600000, 3599999, 59999, 86400000, 2147483647, 2147483648u, 2147484000u}) + r.u(3) - 1);
  }
}
inline std::string TimeText(Rng& r, int64_t ms) {
  int64_t h = ms / 3600000, m = ms / 60000 % 60, s = ms / 1000 % 60; int f = (int)(ms % 1000);
  std::string frac = Fmt(".%03d", f), o;
  R().count("fractions");
  if (r.chance(15)) {
    if (f == 0 && r.coin()) frac = "";
    else if (f % 100 == 0) frac = Fmt(".%d", f / 100);
    else if (f % 10 == 0) frac = Fmt(".%02d", f / 10);
  }
  int64_t total = ms / 1000;
  if (total <= 2147483647 && r.chance(10)) { R().count("seconds_only"); o = Fmt(r.coin() ? "%lld" : "%02lld", (long long)total); }
  else if (h == 0 && r.chance(60)) o = Fmt("%02d:%02d", (int)m, (int)s);
  else o = Fmt(r.chance(80) ? "%02lld:%02d:%02d" : "%03lld:%02d:%02d", (long long)h, (int)m, (int)s);
  return o + frac;
}
// Text without the arrow, line ends, NUL and non-UTF-8 bytes.
inline std::string Line(Rng& r, size_t max, bool token = false) {
  std::string s;
  size_t n = r.range(1, max);
  static const char* const kX[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x8e\xac", "<b>", "&amp;", "--", "->", "-", ">"};
  while (s.size() < n) {
    if (r.chance(8)) s += kX[r.u(9)];
    else s += (char)r.range(token ? 0x21 : 0x20, 0x7e);
  }
  if (token) for (auto& c : s) if (c == ':') c = '.';
  for (size_t p; (p = s.find("-->")) != s.npos;) s[p + 2] = 'x';
  return s;
}
inline std::string Ws(Rng& r, int lo) { std::string s; for (int n = (int)r.range(lo, lo + r.u(3)); n > 0; --n) s += r.coin() ? ' ' : '\t'; return s; }

struct Doc {
  std::vector<std::string> lines;  // without terminators
  std::vector<C> cues;
  std::vector<size_t> timing, payload_from, id_line;  // per cue; id_line ~0 when absent
};
inline std::string TimingText(Rng& r, const C& c) {
  std::string s = Ws(r, 0) + TimeText(r, c.start) + Ws(r, 1) + "-->" + Ws(r, 1) + TimeText(r, c.stop);
  for (auto& x : c.set) s += Ws(r, 1) + x.first + ":" + x.second;
  if (r.chance(15)) s += Ws(r, 0);
  return s;
}
inline Doc Gen(Rng& r) {
  Doc d;
  d.lines.push_back("WEBVTT" + (r.chance(30) ? (r.coin() ? " " : "\t") + Line(r, 30) : std::string()));
  d.lines.push_back("");
  for (int n = (int)r.u(r.chance(10) ? 30 : 6); n > 0; --n) {
    for (int k = r.chance(25) ? (int)r.range(1, 4) : 0; k > 0; --k) d.lines.push_back("");
    C c;
    if (r.coin()) { c.id = r.chance(2) ? Line(r, 9990) : Line(r, 30); d.id_line.push_back(d.lines.size()); d.lines.push_back(c.id); } else d.id_line.push_back(~(size_t)0);
    c.start = GenMs(r); c.stop = r.chance(70) ? std::min<int64_t>(c.start + (int64_t)r.u(100000), 2147483647LL * 3600000LL) : GenMs(r);
    for (int k = r.chance(50) ? (int)r.range(1, 5) : 0; k > 0; --k) c.set.push_back({Line(r, 12, true), Line(r, 12, true)});
    d.timing.push_back(d.lines.size());
    d.lines.push_back(TimingText(r, c));
    d.payload_from.push_back(d.lines.size());
    for (int k = (int)r.range(1, 4); k > 0; --k) { std::string l = r.chance(1) ? Line(r, 9990) : Line(r, 60); c.lines.push_back(l); d.lines.push_back(l); }
    d.lines.push_back("");
    d.cues.push_back(c);
  }
  return d;
}
inline Bytes Text(Rng& r, const Doc& d, bool may_cut = true) {
  Bytes b;
  if (r.chance(25)) { b = "\xEF\xBB\xBF"; R().count("bom"); }
  int style = (int)r.u(4);
  bool cr = false;
  for (size_t i = 0; i < d.lines.size(); ++i) {
    b += d.lines[i];
    std::string eol = style == 0 ? "\n" : style == 1 ? "\r" : style == 2 ? "\r\n" : r.pick<std::string>({"\n", "\r", "\r\n"});
    if (d.lines[i].empty() && cr && eol[0] == '\n') eol = "\r";  // CR LF would be one terminator
    if (may_cut && i + 1 == d.lines.size() && d.lines[i].empty() && r.coin()) { if (r.coin() && !b.empty() && i >= 1 && !d.lines[i - 1].empty()) { while (!b.empty() && (b.back() == '\n' || b.back() == '\r')) b.pop_back(); } break; }
    b += eol;
    cr = eol == "\r";
  }
  R().count(Fmt("eol%d", style));
  return b;
}

}  // namespace vtt
#endif
