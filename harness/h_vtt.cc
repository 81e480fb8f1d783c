// C25 WebVTT parsing.
#include "../lib/util.h"
#include "vtt_gen.h"
#include "webvtt/vttreader.h"
#include "webvtt/webvttparser.h"

using namespace vf;
using namespace vtt;
namespace wv = libwebvtt;

namespace {

struct Mem : wv::Reader {
  const Bytes& d; size_t pos = 0, fail_at = ~(size_t)0, calls = 0; int code = -1;
  explicit Mem(const Bytes& b) : d(b) {}
  ~Mem() {}
  int GetChar(char* c) override {
    ++calls;
    if (pos >= fail_at) return code;
    if (pos >= d.size()) return 1;
    *c = d[pos++];
    return 0;
  }
};

bool Fields(const wv::Time& t, int64_t ms) {
  return t.hours == ms / 3600000 && t.minutes == ms / 60000 % 60 && t.seconds == ms / 1000 % 60 && t.milliseconds == ms % 1000;
}
C Seen(const wv::Cue& q) {
  C c; c.id = q.identifier; c.start = q.start_time.presentation(); c.stop = q.stop_time.presentation();
  for (auto& s : q.settings) c.set.push_back({s.name, s.value});
  for (auto& l : q.payload) c.lines.push_back(l);
  return c;
}

struct Out { int init = 0; std::vector<C> cues; int last = 0; bool fields = true; size_t calls = 0; };
Out Run(wv::Reader* rd, size_t limit, Rng& r) {
  Out o;
  wv::Parser p(rd);
  o.init = p.Init();
  if (o.init < 0) return o;
  wv::Cue reuse; bool fresh = r.coin();
  for (size_t i = 0;; ++i) {
    wv::Cue own; wv::Cue& q = fresh ? own : reuse;
    o.last = p.Parse(&q);
    if (o.last) break;
    C c = Seen(q);
    if (!Fields(q.start_time, c.start) || !Fields(q.stop_time, c.stop)) o.fields = false;
    o.cues.push_back(c);
    if (i > limit) { o.last = -999; break; }
  }
  if (o.last > 0) { wv::Cue q; for (int k = 0; k < 2; ++k) if (p.Parse(&q) <= 0) o.last = -998; }
  return o;
}

void Arithmetic(Rng& r) {
  int64_t a = GenMs(r), b = GenMs(r);
  wv::Time x, y; x.presentation(a); y.presentation(b);
  if (!Fields(x, a) || x.presentation() != a) { R().viol("time:set", Fmt("%lld gives %d:%d:%d.%d", (long long)a, x.hours, x.minutes, x.seconds, x.milliseconds)); return; }
  if ((x == y) != (a == b) || (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) { R().viol("time:compare", Fmt("%lld %lld", (long long)a, (long long)b)); return; }
  if (x - y != a - b) { R().viol("time:minus", Fmt("%lld %lld", (long long)a, (long long)b)); return; }
  int64_t max = 2147483647LL * 3600000LL + 3599999;
  int64_t d = r.coin() ? b - a : (int64_t)r.u((uint64_t)(max - a) + 1);
  wv::Time z = x + d, w = x; w += d;
  if (!Fields(z, a + d) || !(z == w)) { R().viol("time:plus", Fmt("%lld + %lld = %lld", (long long)a, (long long)d, (long long)z.presentation())); return; }
  w -= d;
  if (!(w == x)) { R().viol("time:minus_assign", Fmt("%lld %lld", (long long)a, (long long)d)); return; }
  wv::Time n = x; n += -(a + 1 + (int64_t)r.u(1000));
  if (n.presentation() != 0) { R().viol("time:negative", Fmt("%lld", (long long)n.presentation())); return; }
  R().count("time_checks");
}

// A line that is not a timings line although it has an arrow, or not a
// well-formed one.
std::string BadTiming(Rng& r, const C& c) {
  std::string a = TimeText(r, c.start), b = TimeText(r, c.stop), w = " --> ";
  switch (r.u(16)) {
    case 0: return w + b;
    case 1: return a + " -->";
    case 2: return "x" + a + w + b;
    case 3: return a + "x" + w + b;
    case 4: return a + " x" + w + b;
    case 5: return a + w + b + "x";
    case 6: return "01:60:00.000" + w + b;
    case 7: return a + w + "60:00.000";
    case 8: return "00:60.000" + w + b;
    case 9: return "00:01.1000" + w + b;
    case 10: return "00:01." + w + b;
    case 11: return a + w + "00:01,500";
    case 12: return "99999999999:00:00.000" + w + b;
    case 13: return a + w + b + r.pick<std::string>({" align", " :start", " align:", " align :start", " a:b:c"});
    case 14: return "-" + a + w + b;
    default: return a + w + "00:00:00:00.000";
  }
}

void C25(uint64_t, Rng& r) {
  if (r.chance(15)) { for (int i = 0; i < 20; ++i) Arithmetic(r); return; }
  Doc d = Gen(r);
  int kind = (int)r.u(10);
  if (kind < 5) {  // well formed
    Bytes b = Text(r, d);
    Out o; size_t calls = 0;
    if (r.chance(10)) {
      std::string p = A().tmp + "/x.vtt"; WriteFile(p, b);
      wv::VttReader rd; char ch;
      if (rd.GetChar(&ch) >= 0 || rd.Open((A().tmp + "/none").c_str()) >= 0 || rd.Open(nullptr) >= 0 || rd.Open(p.c_str()) || rd.Open(p.c_str()) >= 0) { R().viol("file:open", ""); return; }
      o = Run(&rd, d.cues.size() + 5, r); R().count("files");
    } else { Mem m(b); o = Run(&m, d.cues.size() + 5, r); calls = m.calls; }
    if (o.init) { R().viol("valid:init", Fmt("%d for %s", o.init, Hex(b, 40).c_str())); return; }
    if (!o.fields) { R().viol("valid:time_fields", "not normalised"); return; }
    for (size_t i = 0; i < d.cues.size(); ++i) {
      if (i >= o.cues.size()) { R().viol("valid:lost", Fmt("%zu of %zu cues, then %d; next: %s", o.cues.size(), d.cues.size(), o.last, d.lines[d.timing[i]].c_str())); return; }
      if (Show(o.cues[i]) != Show(d.cues[i])) {
        const C &g = o.cues[i], &w = d.cues[i];
        R().viol(g.id != w.id ? "valid:identifier" : g.start != w.start ? "valid:start" : g.stop != w.stop ? "valid:stop" : g.set != w.set ? "valid:settings" : "valid:payload", "line <" + d.lines[d.timing[i]] + "> got " + Show(g) + " want " + Show(w)); return;
      }
    }
    if (o.cues.size() != d.cues.size()) { R().viol("valid:extra", Fmt("%zu cues, want %zu", o.cues.size(), d.cues.size())); return; }
    if (o.last <= 0) { R().viol("valid:end", Fmt("%d", o.last)); return; }
    if (calls > b.size() + 40) { R().viol("valid:reads", Fmt("%zu reads for %zu bytes", calls, b.size())); return; }
    R().count("valid"); R().count("cues", d.cues.size()); R().sig(Hash(b));
  } else if (kind == 5) {  // one defect: an error at the right cue
    std::string what; size_t at = 0; bool init = false;
    int k = (int)r.u(d.cues.empty() ? 3 : 9);
    if (k < 3) init = true; else at = r.u(d.cues.size());
    switch (k) {
      case 0: what = "header"; d.lines[0] = r.pick<std::string>({"WEBVT", "webvtt", "", "WEBVTTX", " WEBVTT", "WEB VTT"}); break;
      case 1: what = "header_line"; d.lines[1] = Line(r, 20); break;
      case 2: what = "half_bom"; d.lines[0] = "\xEF\xBB" + d.lines[0]; break;
      case 3: what = "timing"; d.lines[d.timing[at]] = BadTiming(r, d.cues[at]); break;
      case 4: { what = "no_payload"; size_t f = d.payload_from[at]; d.lines[f] = ""; break; }
      case 5: what = "long_line"; d.lines[d.payload_from[at]] = Bytes(10001 + r.u(500), 'x'); break;
      case 6: what = "not_utf8"; d.lines[d.payload_from[at]] += r.coin() ? "\xFE" : "\xFF"; break;
      case 7: what = "two_identifiers"; if (d.id_line[at] == ~(size_t)0) d.lines[d.timing[at]] = "id"; else d.lines[d.timing[at]] = "id2"; if (d.lines[d.payload_from[at]].find("-->") != std::string::npos) return; break;
      default: what = "missing_timing"; d.lines[d.timing[at]] = ""; if (d.id_line[at] == ~(size_t)0) d.lines[d.timing[at]] = "only"; break;
    }
    Bytes b = Text(r, d, false);
    if (k == 2 && b.substr(0, 3) == "\xEF\xBB\xBF") b = b.substr(3);
    Mem m(b);
    Out o = Run(&m, d.cues.size() + 5, r);
    if (init) { if (o.init >= 0) { R().viol("invalid:" + what, "Init accepted " + Hex(b, 40)); return; } }
    else {
      if (o.init) { R().viol("invalid:init", ""); return; }
      if (o.last >= 0 || o.cues.size() != at) { R().viol("invalid:" + what, Fmt("defect in cue %zu <%s>: %zu cues, then %d", at, d.lines[d.timing[at]].c_str(), o.cues.size(), o.last)); return; }
      for (size_t i = 0; i < at; ++i) if (Show(o.cues[i]) != Show(d.cues[i])) { R().viol("invalid:earlier", Show(o.cues[i])); return; }
    }
    R().count("invalid:" + what); R().sig(Hash(b));
  } else if (kind < 8) {  // failing or ending reader
    Bytes b = Text(r, d);
    size_t cut = r.u(b.size() + 1); bool err = kind == 6;
    Bytes part = b.substr(0, cut);
    Mem m(err ? b : part);
    if (err) { m.fail_at = cut; m.code = -(int)r.range(1, 100); }
    Out o = Run(&m, d.cues.size() + 5, r);
    if (o.last <= -998) { R().viol("reader:endless", ""); return; }
    size_t n = o.cues.size();
    if (n > d.cues.size()) { R().viol("reader:extra", ""); return; }
    for (size_t i = 0; i < n; ++i) {
      if (!err && i + 1 == n) break;  // the last cue may be cut short
      if (Show(o.cues[i]) != Show(d.cues[i])) { R().viol("reader:cue", Show(o.cues[i]) + " want " + Show(d.cues[i])); return; }
    }
    if (err && o.init >= 0 && m.pos >= cut && o.last != m.code && o.last >= 0) { R().viol("reader:error_hidden", Fmt("result %d", o.last)); return; }
    if (m.calls > b.size() + 40) { R().viol("reader:reads", ""); return; }
    R().count(err ? "reader_errors" : "truncations"); R().sig(Mix(Hash(b), cut));
  } else {  // anything
    Bytes b;
    if (kind == 8) { b = Text(r, d); for (int n = (int)r.range(1, 6); n > 0 && !b.empty(); --n) { size_t at = r.u(b.size()); if (r.chance(30)) b.insert(at, 1, r.pick<char>({'\n', '\r', ':', '.', '-', '>', ' ', 0, (char)0xff, '9'})); else if (r.chance(30)) b.erase(at, 1 + r.u(4)); else b[at] = r.pick<char>({'\n', '\r', ':', '.', '-', '>', ' ', 0, '0', '9', (char)r.next()}); } }
    else { b = "WEBVTT\n\n"; static const char* const kT[] = {"-->", "\n", "\n\n", "\r", " ", "00:01", ".5", ":", "9999999999", "a:b", "x", "\t", "WEBVTT", "0", "\xEF\xBB\xBF"}; for (int n = (int)r.u(60); n > 0; --n) b += r.chance(5) ? std::string(1, '\0') : kT[r.u(15)]; }
    Mem m(b);
    Out o = Run(&m, b.size() + 5, r);
    if (o.last <= -998) { R().viol("hostile:endless", ""); return; }
    if (m.calls > b.size() + 40) { R().viol("hostile:reads", Fmt("%zu for %zu", m.calls, b.size())); return; }
    R().count("hostile"); if (!o.cues.empty()) R().sig(Hash(b));
  }
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C25", C25}}); }
