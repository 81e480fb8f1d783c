#include <set>
// C32: the command-line tools, run as built from the tree under ASan+UBSan on
// generated files and options.
#include <math.h>
#include <dirent.h>
#include <sys/wait.h>

#include "m2ts_common.h"
#include "mkvdump.h"
#include "vp9_gen.h"
#include "vtt_gen.h"

using dump::KB;
using dump::KF;
using dump::KStr;
using dump::KU;

namespace {

// ------------------------------------------------------------ tool processes
struct Server {
  pid_t pid = 0;
  int to = -1, from = -1;
};
std::map<std::string, Server>& Servers() { static std::map<std::string, Server> m; return m; }

Server& Start(const std::string& tool) {
  Server& s = Servers()[tool];
  if (s.pid) return s;
  const char* path = getenv(("VERIF_TOOL_" + tool).c_str());
  if (!path) { fprintf(stderr, "no path for %s\n", tool.c_str()); exit(2); }
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("pipe"); exit(2); }
  s.pid = fork();
  if (s.pid == 0) {
    dup2(a[0], 0); dup2(b[1], 1);
    setenv("VERIF_TOOL_SERVER", "1", 1);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=0", 1);
    setenv("UBSAN_OPTIONS", "exitcode=77:print_stacktrace=1:halt_on_error=1", 1);
    unsetenv("TEST_TMPDIR"); unsetenv("LIBWEBM_TEST_TMPDIR");
    setenv("LC_ALL", "C", 1);
    execl(path, path, (char*)nullptr);
    _exit(127);
  }
  close(a[0]); close(b[1]);
  s.to = a[1]; s.from = b[0];
  return s;
}

struct Out { int status = -1; uint32_t cpu = 0; Bytes out, err; bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } };

std::string g_dir;  // scratch directory of the current case
std::string P(const std::string& name) { return g_dir + "/" + name; }

std::string Where(const Bytes& err) {  // what a sanitizer report is about, independent of line numbers
  std::string kind, fn;
  size_t p;
  if ((p = err.find("AddressSanitizer: ")) != err.npos) { kind = err.substr(p + 18, err.find_first_of(" \n", p + 18) - p - 18); }
  else if ((p = err.find("runtime error: ")) != err.npos) {
    for (char c : err.substr(p + 15, err.find('\n', p) - p - 15)) { if ((c >= '0' && c <= '9') || c == '\'') break; kind += c; }
  } else if ((p = err.find("Assertion `")) != err.npos) kind = "assert " + err.substr(p + 11, err.find('\'', p) - p - 11);
  for (size_t q = 0; (q = err.find(" in ", q)) != err.npos; ++q) {
    size_t e = err.find('\n', q);
    std::string line = err.substr(q + 4, e - q - 4);
    if (line.find("/repo/") == line.npos && line.find(".cc:") == line.npos) continue;
    if (line.find("compiler-rt") != line.npos || line.find("sanitizer") != line.npos) continue;
    fn = line.substr(0, line.find_first_of("( "));
    break;
  }
  return kind + ":" + fn;
}

Out Run(const std::string& tool, const std::vector<std::string>& args, const std::string& what) {
  Server& s = Start(tool);
  Bytes q = g_dir + '\0' + tool + '\0';
  for (auto& x : args) q += x + '\0';
  uint32_t n = (uint32_t)q.size();
  Bytes m((char*)&n, 4); m += q;
  Out o;
  uint32_t ans[2];
  size_t got = 0;
  bool io = write(s.to, m.data(), m.size()) == (ssize_t)m.size();
  while (io && got < 8) { ssize_t k = read(s.from, (char*)ans + got, 8 - got); if (k <= 0) io = false; else got += k; }
  if (!io) { fprintf(stderr, "tool server %s is gone\n", tool.c_str()); exit(2); }
  o.status = (int)ans[0]; o.cpu = ans[1];
  ReadFile(P(".stdout"), &o.out); ReadFile(P(".stderr"), &o.err);
  R().count("run_" + tool);
  std::string cmd = tool;
  for (auto& x : args) cmd += " " + x;
  int code = WIFEXITED(o.status) ? WEXITSTATUS(o.status) : -1;
  if (code == 120 || code == 121) { fprintf(stderr, "tool server %s cannot start the tool\n", tool.c_str()); exit(2); }
  if (WIFSIGNALED(o.status) && (WTERMSIG(o.status) == SIGXCPU || WTERMSIG(o.status) == SIGALRM || WTERMSIG(o.status) == SIGKILL))
    R().viol(tool + ":endless", what + ": " + cmd + " did not end");
  else if (WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGXFSZ)
    R().viol(tool + ":endless output", what + ": " + cmd + " wrote without end");
  else if (code != 0 && code != 1)
    R().viol(tool + ":" + Where(o.err), what + ": " + cmd + Fmt(" ended with status %x\n", o.status) + o.err.substr(0, 1800));
  return o;
}

void Clean() {
  if (g_dir.empty()) return;
  if (DIR* d = opendir(g_dir.c_str())) {
    while (struct dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink(P(n).c_str()); }
    closedir(d);
  }
  rmdir(g_dir.c_str());
  g_dir.clear();
}
void Fresh(uint64_t c) {
  g_dir = A().tmp + Fmt("/tools.%d.%" PRIu64, (int)getpid(), c);
  mkdir(g_dir.c_str(), 0700);
}

// ------------------------------------------------------------ input documents
void Asciify(std::vector<Node>& v) {
  for (auto& n : v) {
    if (n.type == 'S') for (auto& c : n.b) if (c < 0x20 || c > 0x7e) c = '_';
    Asciify(n.kids);
  }
}
void Drop(Node& n, uint32_t id) { for (size_t i = 0; i < n.kids.size();) if (n.kids[i].id == id) n.kids.erase(n.kids.begin() + i); else ++i; }
void AddF(Node& n, uint32_t id, double v) { n.kids.push_back(NF(id, v, 4)); }

Node GenColour(Rng& r) {
  Node c = NM(ID_Colour);
  struct { uint32_t id; uint64_t max; } f[] = {{ID_MatrixCoefficients, 10}, {ID_BitsPerChannel, 16}, {ID_ChromaSubsamplingHorz, 4}, {ID_ChromaSubsamplingVert, 4}, {ID_CbSubsamplingHorz, 4}, {ID_CbSubsamplingVert, 4}, {ID_ChromaSitingHorz, 2}, {ID_ChromaSitingVert, 2}, {ID_Range, 3}, {ID_TransferCharacteristics, 18}, {ID_Primaries, 10}, {ID_MaxCLL, 5000}, {ID_MaxFALL, 5000}};
  for (auto& x : f) if (r.coin()) {
    uint64_t u = r.u(x.max + 1);
    if (x.id == ID_TransferCharacteristics || x.id == ID_Primaries) { if (u == 0 || u == 3) u = 1; }
    if (x.id == ID_MatrixCoefficients && u == 3) u = 1;
    c.kids.push_back(NU(x.id, u));
  }
  if (r.coin()) {
    Node m = NM(ID_MasteringMetadata);
    if (r.coin()) AddF(m, ID_LuminanceMax, r.unit() * 8999 + 1000);
    if (r.coin()) AddF(m, ID_LuminanceMin, r.unit() * 999);
    for (uint32_t p : {ID_PrimaryRX, ID_PrimaryGX, ID_PrimaryBX, ID_WhitePointX}) if (r.coin() || m.kids.empty()) { AddF(m, p, r.unit()); AddF(m, p + 1, r.unit()); }
    c.kids.push_back(m);
  }
  if (c.kids.empty()) c.kids.push_back(NU(ID_Range, 1));
  return c;
}
Node GenProjection(Rng& r) {
  Node p = NM(ID_Projection);
  uint64_t type = r.u(4);
  p.kids.push_back(NU(ID_ProjectionType, type));
  if (type >= 2 || (type == 1 && r.coin())) p.kids.push_back(NB(ID_ProjectionPrivate, r.bytes(r.range(1, 40))));
  for (uint32_t id : {ID_PoseYaw, ID_PosePitch, ID_PoseRoll}) if (r.coin()) AddF(p, id, r.unit() * 180 - 90);
  return p;
}
Bytes Vp9Private(Rng& r) {
  Bytes b;
  auto add = [&](int id, int v) { b += (char)id; b += '\1'; b += (char)v; };
  if (r.coin()) add(1, (int)r.u(4));
  if (r.coin()) add(2, r.pick<int>({10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}));
  if (r.coin()) add(3, r.pick<int>({8, 10, 12}));
  if (r.coin()) add(4, (int)r.u(4));
  return b;
}

struct File {
  Doc d;
  Node *ebml = nullptr, *seg = nullptr, *info = nullptr, *tracks = nullptr;
  uint64_t scale = 1000000;
  void Link() {
    ebml = &d.top[0]; seg = &d.top.back();
    info = seg->kid(ID_Info); tracks = seg->kid(ID_Tracks);
    scale = KU(*info, ID_TimecodeScale, 1000000);
  }
};
// A well-formed file in time order whose values are in the range every tool handles.
File GenFile(Rng& r) {
  GenOpt o;
  o.mkv = true; o.monotone = true; o.multi = false;
  o.max_clusters = 4; o.big_pct = 2;
  File f;
  f.d = GenDoc(r, o);
  Asciify(f.d.top);
  f.Link();
  for (auto& t : f.tracks->kids) {
    if (t.id != ID_TrackEntry) continue;
    uint64_t type = KU(t, ID_TrackType, 0);
    Drop(t, ID_CodecID); Drop(t, ID_CodecPrivate);
    for (auto& k : t.kids) if (k.type == 'S' && k.b.empty()) k.b = "n";
    std::string codec = type == 1 ? r.pick<std::string>({"V_VP8", "V_VP8", "V_VP9", "V_AV1", "V_XYZ"}) : type == 2 ? r.pick<std::string>({"A_OPUS", "A_VORBIS", "A_VORBIS", "A_PCM"}) : r.pick<std::string>({"S_TEXT", "D_X"});
    t.kids.push_back(NS(ID_CodecID, codec));
    Bytes priv = codec == "V_VP9" ? Vp9Private(r) : codec == "V_AV1" ? r.bytes(r.range(4, 30)) : r.coin() ? r.bytes(r.range(1, 50)) : Bytes();
    if (!priv.empty()) t.kids.push_back(NB(ID_CodecPrivate, priv));
    if (type != 1 && type != 2) Drop(t, ID_ContentEncodings);
    if (Node* v = type == 1 ? t.kid(ID_Video) : nullptr) {
      SetKid(*v, NU(ID_PixelWidth, r.range(1, 65535)));
      SetKid(*v, NU(ID_PixelHeight, r.range(1, 65535)));
      if (Node* x = v->kid(ID_FrameRate)) { x->f = (double)(float)(r.range(1, 240) / (r.coin() ? 1.0 : 1.001)); x->width = r.coin() ? 4 : 8; }
      Drop(*v, ID_Colour); Drop(*v, ID_Projection);
      if (r.coin()) v->kids.push_back(GenColour(r));
      if (r.coin()) v->kids.push_back(GenProjection(r));
    }
    if (Node* a = type == 2 ? t.kid(ID_Audio) : nullptr) {
      if (Node* x = a->kid(ID_SamplingFrequency)) x->f = (double)r.range(1, 192000);
      if (Node* x = a->kid(ID_Channels)) x->u = r.range(1, 64);
      if (Node* x = a->kid(ID_BitDepth)) x->u = r.range(1, 64);
    }
  }
  for (auto& k : f.ebml->kids) if ((k.id == ID_Void || !FindEl(k.id, ID_EBML)) && k.b.empty()) k.b = "x";
  for (auto& k : f.info->kids) if (k.type == 'S' && k.b.empty()) k.b = "t";
  FixRefs(f.d.top);
  f.d.bytes = Layout(f.d.top);
  f.Link();
  return f;
}

// The first element of this kind ahead of the clusters (where the file parser looks).
const Node* Head(const File& f, uint32_t id) {
  for (auto& k : f.seg->kids) { if (k.id == ID_Cluster) return nullptr; if (k.id == id) return &k; }
  return nullptr;
}

struct Fr1 {
  uint64_t track; int64_t ns; bool key; int64_t pad; Bytes data;
  std::string Show() const { return Fmt("%" PRId64 " %s pad %" PRId64 " %zu bytes #%" PRIx64, ns, key ? "key" : "-", pad, data.size(), Hash(data)); }
};
struct Blk { const Node* node; const Node* group; const BlockData* b; const Node* cluster; int64_t ns; bool key; int64_t pad; };
std::vector<Blk> Blocks(const File& f) {
  std::vector<Blk> v;
  for (auto* c : f.seg->all(ID_Cluster)) {
    uint64_t tc = KU(*c, ID_Timecode, 0);
    for (auto& k : c->kids) {
      const Node* n = k.id == ID_SimpleBlock ? &k : k.id == ID_BlockGroup ? k.kid(ID_Block) : nullptr;
      if (!n) continue;
      bool group = k.id == ID_BlockGroup;
      const Node* dp = group ? k.kid(ID_DiscardPadding) : nullptr;
      v.push_back({n, group ? &k : nullptr, n->blk.get(), c, ((int64_t)tc + n->blk->tc) * (int64_t)f.scale, group ? !k.kid(ID_ReferenceBlock) : n->blk->key, dp ? dp->i : 0});
    }
  }
  return v;
}
uint64_t TypeOf(const File& f, uint64_t num) { for (auto* t : f.tracks->all(ID_TrackEntry)) if (KU(*t, ID_TrackNumber, 0) == num) return KU(*t, ID_TrackType, 0); return 0; }

// What a remuxed track keeps.
std::string TrackView(const Node& t) {
  uint64_t type = KU(t, ID_TrackType, 0);
  Bytes p = KB(t, ID_CodecPrivate);
  std::string o = Fmt("type %" PRIu64, type) + " codec " + KStr(t, ID_CodecID) + " name " + KStr(t, ID_Name) + Fmt(" private %zu #%" PRIx64, p.size(), Hash(p));
  if (type == 1) {
    static const Node kNone = NM(ID_Video);
    const Node& v = t.kid(ID_Video) ? *t.kid(ID_Video) : kNone;
    o += Fmt(" %" PRIu64 "x%" PRIu64 " display %" PRIu64 "x%" PRIu64 " stereo %" PRIu64 " rate ", KU(v, ID_PixelWidth, 0), KU(v, ID_PixelHeight, 0), KU(v, ID_DisplayWidth, 0), KU(v, ID_DisplayHeight, 0), KU(v, ID_StereoMode, 0)) + dump::F32s(KF(v, ID_FrameRate, 0));
    if (auto* c = v.kid(ID_Colour)) {
      o += " colour";
      for (uint32_t id = ID_MatrixCoefficients; id <= ID_MaxFALL; ++id) o += c->kid(id) ? Fmt(" %" PRIu64, KU(*c, id, 0)) : std::string(" -");
      if (auto* m = c->kid(ID_MasteringMetadata)) { o += " mastering"; for (uint32_t id = ID_PrimaryRX; id <= ID_LuminanceMin; ++id) o += m->kid(id) ? " " + dump::F32s(KF(*m, id, 0)) : std::string(" -"); }
    }
    if (auto* q = v.kid(ID_Projection)) {
      Bytes b = KB(*q, ID_ProjectionPrivate);
      // a pose that is not stored is zero
      o += Fmt(" projection %" PRIu64 " private %zu #%" PRIx64, KU(*q, ID_ProjectionType, 99), b.size(), Hash(b));
      for (uint32_t id : {ID_PoseYaw, ID_PosePitch, ID_PoseRoll}) o += " " + dump::F32s(KF(*q, id, 0));
    }
  } else if (type == 2) {
    static const Node kNone = NM(ID_Audio);
    const Node& a = t.kid(ID_Audio) ? *t.kid(ID_Audio) : kNone;
    o += Fmt(" rate %.9g channels %" PRIu64 " depth %" PRIu64 " delay %" PRIu64 " preroll %" PRIu64, KF(a, ID_SamplingFrequency, 8000), KU(a, ID_Channels, 1), KU(a, ID_BitDepth, 0), KU(t, ID_CodecDelay, 0), KU(t, ID_SeekPreRoll, 0));
  }
  return o;
}

// ------------------------------------------------------------ remuxing
struct VttFile { std::string opt, name; int type; std::string codec, suffix; std::vector<vtt::C> cues; bool chapters = false; };

VttFile GenVtt(Rng& r, int idx, bool chapters) {
  VttFile v;
  int k = chapters ? 4 : (int)r.u(4);
  static const char* const kOpt[] = {"-webvtt-subtitles", "-webvtt-captions", "-webvtt-descriptions", "-webvtt-metadata", "-webvtt-chapters"};
  static const char* const kCodec[] = {"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA", ""};
  static const char* const kSuf[] = {"_SUBTITLES", "_CAPTIONS", "_DESCRIPTIONS", "_METADATA", "_CHAPTERS"};
  v.opt = kOpt[k]; v.codec = kCodec[k]; v.suffix = kSuf[k]; v.type = k < 2 ? 0x11 : 0x21; v.chapters = chapters;
  v.name = Fmt("t%d.vtt", idx);
  vtt::Doc d;
  d.lines = {"WEBVTT", ""};
  int64_t t = 0;
  for (int n = (int)r.u(6); n >= (chapters ? 0 : 1) && n > 0; --n) {
    vtt::C c;
    t += r.chance(20) ? 0 : (int64_t)r.u(r.chance(10) ? 4000000 : 3000);
    if (chapters || r.coin()) { c.id = vtt::Line(r, 20); d.lines.push_back(c.id); }
    c.start = t; c.stop = t + (int64_t)r.range(1, 20000);
    if (!chapters) for (int k2 = r.chance(50) ? (int)r.range(1, 3) : 0; k2 > 0; --k2) c.set.push_back({vtt::Line(r, 8, true), vtt::Line(r, 8, true)});
    d.lines.push_back(vtt::TimingText(r, c));
    for (int k2 = (int)r.range(1, 3); k2 > 0; --k2) { c.lines.push_back(vtt::Line(r, 40)); d.lines.push_back(c.lines.back()); }
    d.lines.push_back("");
    v.cues.push_back(c);
  }
  WriteFile(P(v.name), vtt::Text(r, d));
  return v;
}
std::string VttTime(int64_t ms) {
  std::string o;
  if (ms >= 3600000) o = Fmt("%02lld:", (long long)(ms / 3600000));
  return o + Fmt("%02d:%02d.%03d", (int)(ms / 60000 % 60), (int)(ms / 1000 % 60), (int)(ms % 1000));
}
std::string Settings(const vtt::C& c) { std::string s; for (auto& x : c.set) s += (s.empty() ? "" : " ") + x.first + ":" + x.second; return s; }
Bytes VttBlock(const vtt::C& c) { Bytes b = c.id + "\n" + Settings(c) + "\n"; for (auto& l : c.lines) b += l + "\n"; return b; }
Bytes VttText(const std::vector<vtt::C>& cues) {
  Bytes o = "WEBVTT\n";
  for (auto& c : cues) {
    o += "\n";
    if (!c.id.empty()) o += c.id + "\n";
    o += VttTime(c.start) + " --> " + VttTime(c.stop);
    if (!c.set.empty()) o += " " + Settings(c);
    o += "\n";
    for (auto& l : c.lines) o += l + "\n";
  }
  return o;
}

void Remux(Rng& r) {
  File f = GenFile(r);
  WriteFile(P("in.webm"), f.d.bytes);
  std::vector<std::string> args = {"-i", "in.webm", "-o", "out.webm"};
  auto flag = [&](const char* name, int pct, bool def) { if (!r.chance(pct)) return def; bool v = r.coin(); args.push_back(name); args.push_back(v ? "1" : "0"); return v; };
  bool video = flag("-video", 12, true), audio = flag("-audio", 12, true), live = flag("-live", 20, false), out_cues = flag("-output_cues", 15, true);
  bool before = flag("-cues_before_clusters", 20, false), on_v = true, on_a = false;
  if (r.chance(15)) { on_v = flag("-cues_on_video_track", 100, true); if (on_v) on_a = false; }
  if (r.chance(15)) { on_a = flag("-cues_on_audio_track", 100, false); if (on_a) on_v = false; }
  if (r.chance(15)) { args.push_back("-max_cluster_duration"); args.push_back(r.pick<std::string>({"0.001", "0.1", "1", "5", "30", "0"})); }
  if (r.chance(15)) { args.push_back("-max_cluster_size"); args.push_back(Fmt("%d", r.pick<int>({1, 100, 1000, 100000, 0}))); }
  bool sw = flag("-switch_tracks", 20, false), copy_tags = flag("-copy_tags", 35, false), accurate = flag("-accurate_cluster_duration", 15, false), fixed = flag("-fixed_size_cluster_timecode", 15, false);
  bool copy_dur = flag("-copy_input_duration", 25, false), block_num = flag("-output_cues_block_number", 15, true);
  bool chunk = r.chance(12);
  if (chunk) { args.push_back("-chunking"); args.push_back("ch"); }
  if (before && (live || !out_cues || chunk)) { args.push_back("-cues_before_clusters"); args.push_back("0"); before = false; }
  int anum = 0, vnum = 0;
  if (r.chance(8)) { anum = (int)r.range(1, 126); args.push_back("-audio_track_number"); args.push_back(Fmt("%d", anum)); }
  if (r.chance(8)) { vnum = (int)r.range(1, 126); args.push_back("-video_track_number"); args.push_back(Fmt("%d", vnum)); }
  // Video overrides.
  uint64_t dw = 0, dh = 0, pw = 0, ph = 0, stereo = 0;
  auto num = [&](const char* n, uint64_t max) { uint64_t v = r.range(1, max); args.push_back(n); args.push_back(Fmt("%" PRIu64, v)); return v; };
  if (r.chance(8)) dw = num("-display_width", 4000);
  if (r.chance(8)) dh = num("-display_height", 4000);
  if (r.chance(8)) pw = num("-pixel_width", 4000);
  if (r.chance(8)) ph = num("-pixel_height", 4000);
  if (r.chance(8)) stereo = r.pick<uint64_t>({1, 2, 3, 11});
  if (stereo) { args.push_back("-stereo_mode"); args.push_back(Fmt("%" PRIu64, stereo)); }
  int ptype = -1; bool pfile = false; Bytes pdata; double pose[3] = {NAN, NAN, NAN};
  if (r.chance(15)) {
    ptype = (int)r.u(4);
    args.push_back("-projection_type"); args.push_back(Fmt("%d", ptype));
    pfile = ptype >= 2 || (ptype == 1 && r.coin());
    if (pfile) { pdata = r.bytes(r.range(1, 60)); WriteFile(P("proj"), pdata); args.push_back("-projection_file"); args.push_back("proj"); }
  }
  if (r.chance(15)) {
    static const char* const kP[] = {"-projection_pose_yaw", "-projection_pose_pitch", "-projection_pose_roll"};
    for (int i = 0; i < 3; ++i) if (r.coin()) { int v = (int)r.u(181) - 90; pose[i] = v / 2.0; args.push_back(kP[i]); args.push_back(Fmt("%.1f", pose[i])); }
  }
  int vprof = -1, vlevel = -1;
  if (r.chance(10)) { vprof = (int)r.u(4); args.push_back("-profile"); args.push_back(Fmt("%d", vprof)); }
  if (r.chance(10)) { vlevel = r.pick<int>({10, 21, 41, 62}); args.push_back("-level"); args.push_back(Fmt("%d", vlevel)); }
  std::vector<VttFile> vtts;
  if (1000000 % f.scale == 0 && f.scale >= 1000 && r.chance(35)) {
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) { bool ch = r.chance(25); for (auto& v : vtts) if (v.chapters) ch = false; vtts.push_back(GenVtt(r, i, ch)); args.push_back(vtts.back().opt); args.push_back(vtts.back().name); }
  }

  // Expected tracks.
  auto in_tracks = f.tracks->all(ID_TrackEntry);
  struct Want { uint64_t in = 0; int type; std::string view; const VttFile* v = nullptr; std::vector<Fr1> frames; };
  std::vector<Want> want;
  int nv = 0, na = 0;
  bool webm = true;
  for (size_t i = 0; i < in_tracks.size(); ++i) {
    const Node& t = *in_tracks[sw ? (i + 1) % in_tracks.size() : i];
    uint64_t type = KU(t, ID_TrackType, 0);
    if (!((type == 1 && video) || (type == 2 && audio))) continue;
    Node e = t;
    std::string codec = KB(t, ID_CodecID);
    if (codec != "V_VP8" && codec != "V_VP9" && codec != "V_AV1" && codec != "A_OPUS" && codec != "A_VORBIS") webm = false;
    if (type == 1) {
      ++nv;
      Node& v = *e.kid(ID_Video);
      Drop(v, ID_DisplayWidth); Drop(v, ID_DisplayHeight); Drop(v, ID_StereoMode);
      if (dw) v.kids.push_back(NU(ID_DisplayWidth, dw));
      if (dh) v.kids.push_back(NU(ID_DisplayHeight, dh));
      if (pw) SetKid(v, NU(ID_PixelWidth, pw));
      if (ph) SetKid(v, NU(ID_PixelHeight, ph));
      if (stereo) v.kids.push_back(NU(ID_StereoMode, stereo));
      if (ptype >= 0 && !v.kid(ID_Projection)) v.kids.push_back(NM(ID_Projection));
      if (Node* p = v.kid(ID_Projection)) {
        if (ptype >= 0) SetKid(*p, NU(ID_ProjectionType, (uint64_t)ptype));
        if (pfile) SetKid(*p, NB(ID_ProjectionPrivate, pdata));
        static const uint32_t ids[] = {ID_PoseYaw, ID_PosePitch, ID_PoseRoll};
        for (int k = 0; k < 3; ++k) if (pose[k] == pose[k]) SetKid(*p, NF(ids[k], pose[k], 4));
      }
      if (codec == "V_VP9" && (vprof >= 0 || vlevel >= 0)) {
        Bytes b;
        if (vprof >= 0) { b += "\1\1"; b += (char)vprof; }
        if (vlevel >= 0) { b += "\2\1"; b += (char)vlevel; }
        Drop(e, ID_CodecPrivate);
        e.kids.push_back(NB(ID_CodecPrivate, b));
      }
    } else {
      ++na;
    }
    want.push_back({KU(t, ID_TrackNumber, 0), (int)type, TrackView(e), nullptr, {}});
  }
  size_t av = want.size();
  uint64_t total = 0, vframes = 0;
  for (auto& b : Blocks(f)) for (auto& w : want) if (w.in == b.b->track) for (auto& x : b.b->frames) { w.frames.push_back({w.in, b.ns, b.key, b.pad, x}); ++total; if (w.type == 1) ++vframes; }
  for (auto& v : vtts) if (!v.chapters) {
    Want w; w.type = v.type; w.v = &v; w.view = Fmt("type %d codec '%s' name (null) private 0 #%" PRIx64, v.type, v.codec.c_str(), Hash(Bytes()));
    for (auto& c : v.cues) w.frames.push_back({0, c.start * 1000000, true, 0, VttBlock(c)});
    want.push_back(w);
  }
  bool must = total > 0 && (nv == 0 || vframes > 0);
  if ((vnum && nv > 1) || (anum && na > 1) || ((vnum || anum) && want.size() > 1)) must = false;  // numbers may collide

  Out o = Run("mkvmuxer_sample", args, "remux");
  std::string cmd;
  for (auto& a : args) cmd += a + " ";
  auto bad = [&](const std::string& key, const std::string& msg) { R().viol("remux:" + key, msg + "\n" + cmd + "\n" + o.out.substr(0, 300)); };
  if (!o.ok()) { if (must && WIFEXITED(o.status) && WEXITSTATUS(o.status) == 1) bad("refused", "a well-formed file was not remuxed"); R().count("remux_refused"); return; }
  if (!must && total == 0) { R().count("remux_empty"); return; }
  R().count("remuxes");
  Bytes out;
  if (chunk) {
    Bytes h, c;
    if (!ReadFile(P("ch.hdr"), &h)) { bad("chunks", "no header chunk"); return; }
    out = h;
    int n = 0;
    while (ReadFile(P(Fmt("ch_%06d.chk", n)), &c)) { out += c; ++n; }
    if (ReadFile(P(Fmt("ch_%06d.cues", n)), &c)) out += c;
    R().count("remux_chunked");
  } else if (!ReadFile(P("out.webm"), &out)) { bad("no output", "success without an output file"); return; }
  Reader rd(out);
  auto top = rd.Parse();
  if (!rd.errors.empty()) { bad("malformed", rd.errors[0]); return; }
  if (top.size() != 2 || top[0].id != ID_EBML || top[1].id != ID_Segment) { bad("malformed", "not one EBML header and one segment"); return; }
  const Node& seg = top[1];
  const Node *info = seg.kid(ID_Info), *tracks = seg.kid(ID_Tracks), *cues = seg.kid(ID_Cues);
  if (!info || !tracks) { bad("malformed", "no Info or Tracks"); return; }
  if (KU(*info, ID_TimecodeScale, 1000000) != f.scale) bad("scale", "timecode scale differs");
  auto ts = tracks->all(ID_TrackEntry);
  if (ts.size() != want.size()) { bad("tracks", Fmt("%zu tracks instead of %zu", ts.size(), want.size())); return; }
  std::map<uint64_t, size_t> by_num;
  for (size_t i = 0; i < ts.size(); ++i) {
    std::string v = TrackView(*ts[i]);
    uint64_t n = KU(*ts[i], ID_TrackNumber, 0);
    if (v != want[i].view) bad(i < av ? "track" : "metadata track", "track " + v + "\nwant " + want[i].view);
    if (by_num.count(n)) bad("track number", "two tracks have the same number");
    by_num[n] = i;
    if (want[i].type == 1 && vnum && n != (uint64_t)vnum) bad("track number", Fmt("video track %" PRIu64, n));
    if (want[i].type == 2 && anum && n != (uint64_t)anum) bad("track number", Fmt("audio track %" PRIu64, n));
  }
  std::vector<std::vector<Fr1>> got(want.size());
  std::vector<std::vector<int64_t>> dur(want.size());
  size_t ncl = 0;
  for (auto* c : seg.all(ID_Cluster)) {
    ++ncl;
    const Node* tcn = c->kid(ID_Timecode);
    if (!tcn) { bad("malformed", "cluster without a time"); return; }
    if (fixed && tcn->body != 8) bad("fixed timecode", "cluster time is not 8 bytes");
    for (auto& k : c->kids) {
      const Node* n = k.id == ID_SimpleBlock ? &k : k.id == ID_BlockGroup ? k.kid(ID_Block) : nullptr;
      if (!n) continue;
      BlockData b;
      if (!DecodeBlock(n->b, k.id == ID_SimpleBlock, &b)) { bad("malformed", "bad block"); return; }
      if (!by_num.count(b.track)) { bad("frames", Fmt("block of track %" PRIu64 " which does not exist", b.track)); continue; }
      size_t i = by_num[b.track];
      const Node* dp = k.kid(ID_DiscardPadding);
      got[i].push_back({want[i].in, ((int64_t)tcn->u + b.tc) * (int64_t)f.scale, k.id == ID_SimpleBlock ? b.key : !k.kid(ID_ReferenceBlock), dp ? dp->i : 0, b.frames[0]});
      const Node* bd = k.kid(ID_BlockDuration);
      dur[i].push_back(bd ? (int64_t)(bd->u * f.scale) : -1);
    }
  }
  for (size_t i = 0; i < want.size(); ++i) {
    const char* key = i < av ? "frames" : "metadata frames";
    R().count(i < av ? "remux_frames" : "remux_cues", got[i].size());
    if (got[i].size() != want[i].frames.size()) { bad(key, Fmt("track %zu: %zu frames instead of %zu", i, got[i].size(), want[i].frames.size())); continue; }
    for (size_t k = 0; k < got[i].size(); ++k) {
      if (got[i][k].Show() != want[i].frames[k].Show()) { bad(key, Fmt("track %zu frame %zu: ", i, k) + got[i][k].Show() + "\nwant " + want[i].frames[k].Show()); break; }
      if (i >= av && dur[i][k] != (want[i].v->cues[k].stop - want[i].v->cues[k].start) * 1000000) { bad("cue duration", Fmt("cue %zu lasts %" PRId64, k, dur[i][k])); break; }
    }
  }
  if (copy_tags) {
    std::string a, b;
    // Tags with a name and a text are copied.
    auto tags = [&](const Node* t, std::string* s) {
      if (t) for (auto* g : t->all(ID_Tag)) for (auto* st : g->all(ID_SimpleTag)) {
        Bytes n = KB(*st, ID_TagName), x = KB(*st, ID_TagString);
        if (!n.empty() && !x.empty()) { *s += n + "=" + x + "\n"; R().count("remux_tags"); }
      }
    };
    tags(Head(f, ID_Tags), &a); tags(seg.kid(ID_Tags), &b);
    if (a != b) bad("tags", "tags\n" + b + "want\n" + a);
  } else if (seg.kid(ID_Tags)) bad("tags", "tags without -copy_tags");
  const Node* chv = nullptr;
  for (auto& v : vtts) if (v.chapters) {
    chv = seg.kid(ID_Chapters);
    std::vector<const Node*> atoms;
    if (chv) for (auto* e : chv->all(ID_EditionEntry)) for (auto* a : e->all(ID_ChapterAtom)) atoms.push_back(a);
    if (atoms.size() != v.cues.size()) { bad("chapters", Fmt("%zu chapters instead of %zu", atoms.size(), v.cues.size())); continue; }
    for (size_t k = 0; k < atoms.size(); ++k) {
      std::string title;
      for (auto& l : v.cues[k].lines) title += (title.empty() ? "" : "\n") + l;
      const Node* d = atoms[k]->kid(ID_ChapterDisplay);
      R().count("remux_chapters");
      if (!d || KB(*d, ID_ChapString) != title || KB(*atoms[k], ID_ChapterStringUID) != v.cues[k].id) bad("chapters", "chapter text differs");
      if (KU(*atoms[k], ID_ChapterTimeStart, ~0ull) * f.scale != (uint64_t)v.cues[k].start * 1000000 || KU(*atoms[k], ID_ChapterTimeEnd, ~0ull) * f.scale != (uint64_t)v.cues[k].stop * 1000000) bad("chapters", "chapter time differs");
    }
  }
  if (copy_dur && !live) {
    double d = KF(*f.info, ID_Duration, -1);
    if (d > 0) { R().count("remux_durations"); double x = KF(*info, ID_Duration, -1); if (!(fabs(x - d) <= 1e-5 * d + 1e-3 + 1.0 / (double)f.scale)) bad("duration", Fmt("duration %g instead of %g", x, d)); }
  }
  if (cues && !out_cues) bad("cues", "cues without -output_cues");
  if (cues) {
    R().count("remux_with_cues");
    if (before && cues->pos > seg.kid(ID_Cluster)->pos) bad("cues", "cues are not before the clusters");
    if (before) R().count("remux_cues_first");
    uint64_t lastv = 0, lasta = 0;
    for (size_t i = 0; i < av; ++i) (want[i].type == 1 ? lastv : lasta) = KU(*ts[i], ID_TrackNumber, 0);
    uint64_t ct = on_v && lastv ? lastv : 0;
    if (on_a && lasta) ct = lasta;
    for (auto* c : cues->all(ID_CuePoint)) for (auto* p : c->all(ID_CueTrackPositions)) {
      if (ct && KU(*p, ID_CueTrack, 0) != ct) { bad("cues", Fmt("cue of track %" PRIu64 " instead of %" PRIu64, KU(*p, ID_CueTrack, 0), ct)); break; }
      if (!block_num && p->kid(ID_CueBlockNumber)) { bad("cues", "cue with a block number"); break; }
    }
  }
  (void)accurate; (void)ncl;
  R().sig(Hash(cmd) ^ Hash(f.d.bytes));
  R().sample(cmd + Fmt("-> %zu tracks, %" PRIu64 " frames, %zu clusters, %zu bytes", ts.size(), total, ncl, out.size()));

  // The embedded text comes back out.
  size_t nvtt = 0;
  for (auto& v : vtts) if (!v.chapters || !v.cues.empty()) ++nvtt;
  if (nvtt && webm && KB(top[0], ID_DocType) == "webm") {
    if (chunk) WriteFile(P("out.webm"), out);
    Out q = Run("vttdemux", {"out.webm"}, "extract");
    if (!q.ok()) { if (WIFEXITED(q.status) && WEXITSTATUS(q.status) == 1) bad("vttdemux:refused", "the embedded text was not extracted: " + q.out); return; }
    std::map<std::string, int> kinds;
    for (auto& v : vtts) ++kinds[v.suffix];
    for (size_t i = av, k = 0; k < vtts.size(); ++k) {
      auto& v = vtts[k];
      uint64_t n = 0;
      if (!v.chapters) { n = KU(*ts[i], ID_TrackNumber, 0); ++i; }
      else if (v.cues.empty()) continue;
      Bytes text;
      std::string name = "out" + v.suffix + (kinds[v.suffix] > 1 ? Fmt("%" PRIu64, n) : std::string()) + ".vtt";
      if (!ReadFile(P(name), &text)) { bad("vttdemux:file", "no " + name); continue; }
      R().count("extracted_files"); R().count("extracted_cues", v.cues.size());
      if (text != VttText(v.cues)) bad("vttdemux:text", name + ":\n" + text.substr(0, 800) + "\nwant\n" + VttText(v.cues).substr(0, 800));
    }
  }
}

// ------------------------------------------------------------ information
// A line without leading blanks, with runs of blanks made one and none around ':'.
std::string Norm(const std::string& l) {
  std::string o;
  for (char c : l) { if (c == '\t') c = ' '; if (c == ' ' && (o.empty() || o.back() == ' ' || o.back() == ':')) continue; if (c == ':' && !o.empty() && o.back() == ' ') o.pop_back(); o += c; }
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
std::vector<std::string> Lines(const Bytes& b) {
  std::vector<std::string> v;
  size_t p = 0;
  while (p < b.size()) { size_t e = b.find('\n', p); if (e == b.npos) e = b.size(); std::string l = Norm(b.substr(p, e - p)); if (!l.empty()) v.push_back(l); p = e + 1; }
  return v;
}
void Same(const std::string& key, const std::vector<std::string>& got, const std::vector<std::string>& want, const std::string& what) {
  for (size_t i = 0; i < got.size() || i < want.size(); ++i) {
    std::string g = i < got.size() ? got[i] : "(nothing)", w = i < want.size() ? want[i] : "(nothing)";
    if (g != w) { R().viol(key, what + Fmt(": line %zu: ", i) + g + "\nwant " + w); return; }
  }
}
#define ADD(...) v.push_back(Norm(Fmt(__VA_ARGS__)))

void Colour_(std::vector<std::string>& v, const Node& c, const char* flt, bool info) {
  struct { uint32_t id; const char* n; } f[] = {{ID_MatrixCoefficients, "MatrixCoefficients"}, {ID_BitsPerChannel, "BitsPerChannel"}, {ID_ChromaSubsamplingHorz, "ChromaSubsamplingHorz"}, {ID_ChromaSubsamplingVert, "ChromaSubsamplingVert"}, {ID_CbSubsamplingHorz, "CbSubsamplingHorz"}, {ID_CbSubsamplingVert, "CbSubsamplingVert"}, {ID_ChromaSitingHorz, "ChromaSitingHorz"}, {ID_ChromaSitingVert, "ChromaSitingVert"}, {ID_Range, "Range"}, {ID_TransferCharacteristics, "TransferCharacteristics"}, {ID_Primaries, "Primaries"}, {ID_MaxCLL, "MaxCLL"}, {ID_MaxFALL, "MaxFALL"}};
  for (auto& x : f) if (c.kid(x.id)) ADD("%s: %" PRIu64, x.n, KU(c, x.id, 0));
  if (auto* m = c.kid(ID_MasteringMetadata)) {
    ADD("%s", info ? "MasteringMetadata:" : "Mastering Metadata:");
    auto num = [&](const char* n, uint32_t id) { v.push_back(Norm(std::string(n) + ": " + Fmt(flt[1] == 'g' ? "%g" : "%f", KF(*m, id, 0)))); };
    auto lum = [&]() { if (m->kid(ID_LuminanceMax)) num("LuminanceMax", ID_LuminanceMax); if (m->kid(ID_LuminanceMin)) num("LuminanceMin", ID_LuminanceMin); };
    if (!info) lum();
    struct { uint32_t id; const char *x, *y; } p[] = {{ID_PrimaryRX, "PrimaryRChromaticityX", "PrimaryRChromaticityY"}, {ID_PrimaryGX, "PrimaryGChromaticityX", "PrimaryGChromaticityY"}, {ID_PrimaryBX, "PrimaryBChromaticityX", "PrimaryBChromaticityY"}, {ID_WhitePointX, "WhitePointChromaticityX", "WhitePointChromaticityY"}};
    for (auto& x : p) if (m->kid(x.id)) { num(x.x, x.id); num(x.y, x.id + 1); }
    if (info) lum();
  }
}
void Projection_(std::vector<std::string>& v, const Node& q, bool info) {
  ADD("ProjectionType: %" PRIu64, KU(q, ID_ProjectionType, 0));
  if (q.kid(ID_ProjectionPrivate)) { if (info) ADD("ProjectionPrivate(size): %zu", KB(q, ID_ProjectionPrivate).size()); else ADD("ProjectionPrivate: %zu bytes", KB(q, ID_ProjectionPrivate).size()); }
  struct { uint32_t id; const char* n; } f[] = {{ID_PoseYaw, "ProjectionPoseYaw"}, {ID_PosePitch, "ProjectionPosePitch"}, {ID_PoseRoll, "ProjectionPoseRoll"}};
  for (auto& x : f) if (q.kid(x.id)) v.push_back(Norm(std::string(x.n) + ": " + Fmt(info ? "%g" : "%f", KF(q, x.id, 0))));
}
std::string SN(const Node& n, uint32_t id) { const Node* k = nullptr; for (auto& c : n.kids) if (c.id == id) k = &c; return k ? std::string(k->b.c_str()) : "NULL"; }

std::vector<std::string> CueLines(const File& f, bool info, bool blocks) {
  std::vector<std::string> v;
  const Node* cues = f.seg->kid(ID_Cues);
  if (!cues) return v;
  int n = 0;
  for (auto* c : cues->all(ID_CuePoint)) {
    ++n;
    for (auto* t : f.tracks->all(ID_TrackEntry)) {
      uint64_t num = KU(*t, ID_TrackNumber, 0);
      for (auto* p : c->all(ID_CueTrackPositions)) {
        if (KU(*p, ID_CueTrack, 0) != num) continue;
        long long ns = (long long)(KU(*c, ID_CueTime, 0) * f.scale), pos = (long long)KU(*p, ID_CueClusterPosition, 0), blk = (long long)KU(*p, ID_CueBlockNumber, 1);
        char ty = KU(*t, ID_TrackType, 0) == 1 ? 'V' : 'A';
        if (info) ADD("Cue Point:%d type:%c track:%" PRIu64 " nano:%lld%s @:%lld", n, ty, num, ns, blocks ? Fmt(" block:%lld", blk).c_str() : "", pos);
        else ADD("Cue Point %d Track %" PRIu64 "(%c) Time %lld Block %lld Pos %llx", n, num, ty, ns, blk, pos);
        break;
      }
    }
  }
  return v;
}

void ParserSample(Rng& r) {
  File f = GenFile(r);
  WriteFile(P("in.webm"), f.d.bytes);
  Out o = Run("mkvparser_sample", {"in.webm"}, "print");
  if (!o.ok()) { if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 1) R().viol("mkvparser_sample:refused", "a well-formed file was not printed: " + o.out.substr(0, 500)); return; }
  R().count("printed");
  std::vector<std::string> v;
  ADD("EBML Header");
  ADD("EBML Version: %" PRIu64, KU(*f.ebml, ID_EBMLVersion, 1));
  ADD("EBML MaxIDLength: %" PRIu64, KU(*f.ebml, ID_EBMLMaxIDLength, 4));
  ADD("EBML MaxSizeLength: %" PRIu64, KU(*f.ebml, ID_EBMLMaxSizeLength, 8));
  ADD("Doc Type: %s", SN(*f.ebml, ID_DocType).c_str());
  ADD("Pos: %" PRIu64, f.ebml->end());
  ADD("Segment Info");
  ADD("TimeCodeScale: %" PRIu64, f.scale);
  size_t dur_at = v.size();
  ADD("Duration:"); ADD("Duration(secs):");
  ADD("Track Name: %s", SN(*f.info, ID_Title).c_str());
  ADD("Muxing App: %s", SN(*f.info, ID_MuxingApp).c_str());
  ADD("Writing App: %s", SN(*f.info, ID_WritingApp).c_str());
  ADD("Position(Segment): %" PRIu64, f.seg->pos + f.seg->hdr);
  ADD("Size(Segment): %" PRId64, f.seg->unknown ? (int64_t)-1 : (int64_t)f.seg->body);
  ADD("Track Info");
  for (auto* tp : f.tracks->all(ID_TrackEntry)) {
    const Node& t = *tp;
    uint64_t type = KU(t, ID_TrackType, 0);
    ADD("Track Type: %" PRIu64, type);
    ADD("Track Number: %" PRIu64, KU(t, ID_TrackNumber, 0));
    ADD("Track Uid: %lld", (long long)KU(t, ID_TrackUID, 0));
    ADD("Track Name: %s", SN(t, ID_Name).c_str());
    ADD("Codec Id: %s", SN(t, ID_CodecID).c_str());
    if (t.kid(ID_CodecPrivate)) ADD("Codec private length: %zu bytes", KB(t, ID_CodecPrivate).size());
    ADD("Codec Name: %s", SN(t, ID_CodecName).c_str());
    if (type == 1) {
      const Node& x = *t.kid(ID_Video);
      ADD("Video Width: %" PRIu64, KU(x, ID_PixelWidth, 0)); ADD("Video Height: %" PRIu64, KU(x, ID_PixelHeight, 0)); ADD("Video Rate: %f", KF(x, ID_FrameRate, 0));
      if (x.kid(ID_Colour)) { ADD("Video Colour:"); Colour_(v, *x.kid(ID_Colour), "%f", false); }
      if (x.kid(ID_Projection)) { ADD("Video Projection:"); Projection_(v, *x.kid(ID_Projection), false); }
    } else if (type == 2) {
      const Node& x = *t.kid(ID_Audio);
      ADD("Audio Channels: %" PRIu64, KU(x, ID_Channels, 1)); ADD("Audio BitDepth: %" PRIu64, KU(x, ID_BitDepth, 0)); ADD("Addio Sample Rate: %.3f", KF(x, ID_SamplingFrequency, 8000));
      ADD("Audio Codec Delay: %lld", (long long)KU(t, ID_CodecDelay, 0)); ADD("Audio Seek Pre Roll: %lld", (long long)KU(t, ID_SeekPreRoll, 0));
    }
  }
  ADD("Cluster Info");
  auto clusters = f.seg->all(ID_Cluster);
  ADD("Cluster Count: %zu", clusters.size());
  auto blocks = Blocks(f);
  size_t bi = 0;
  for (auto* c : clusters) {
    ADD("Cluster Time Code: %" PRIu64, KU(*c, ID_Timecode, 0));
    ADD("Cluster Time (ns): %" PRIu64, KU(*c, ID_Timecode, 0) * f.scale);
    for (; bi < blocks.size() && blocks[bi].cluster == c; ++bi) {
      auto& b = blocks[bi];
      uint64_t type = TypeOf(f, b.b->track);
      R().count("printed_blocks");
      ADD("Block:%s,%s,%lld,%lld", type == 1 ? "V" : "A", b.key ? "I" : "P", (long long)b.ns, (long long)b.pad);
      for (size_t k = 0; k < b.b->frames.size(); ++k) ADD("%zu,%llx", b.b->frames[k].size(), (unsigned long long)(b.node->pos + b.node->hdr + b.b->frame_off[k]));
    }
  }
  auto cl = CueLines(f, false, true);
  if (f.seg->kid(ID_Cues) && !f.seg->kid(ID_Cues)->all(ID_CuePoint).empty()) ADD("Cues");
  R().count("printed_cues", cl.size());
  v.insert(v.end(), cl.begin(), cl.end());
  const Node* tags = Head(f, ID_Tags);
  if (tags && !tags->all(ID_Tag).empty()) {
    ADD("Tags");
    for (auto* g : tags->all(ID_Tag)) { ADD("Tag"); for (auto* s : g->all(ID_SimpleTag)) {
      auto tx = [&](uint32_t id) { std::string q = dump::KStr0(*s, id); return q == "(null)" ? q : q.substr(1, q.size() - 2); };
      v.push_back(Norm("Simple Tag \"" + tx(ID_TagName) + "\" Value \"" + tx(ID_TagString) + "\"")); R().count("printed_tags"); } }
  }
  auto got = Lines(o.out);
  if (!got.empty() && got[0].compare(0, 15, "libwebm version") == 0) got.erase(got.begin());
  // Blanks in a block line are padding.
  for (auto* l : {&got, &v}) for (auto& s : *l) if (s.compare(0, 6, "Block:") == 0 || (s.size() && isdigit((unsigned char)s[0]))) s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
  // The duration is a product of floating point numbers: compared with a tolerance.
  if (got.size() > dur_at + 1) {
    double d = KF(*f.info, ID_Duration, -1), w = d < 0 ? -1 : d * (double)f.scale;
    long long g = 0; double s = 0;
    if (sscanf(got[dur_at].c_str(), "Duration:%lld", &g) != 1 || fabs((double)g - w) > 1 + fabs(w) * 1e-9) R().viol("mkvparser_sample:duration", got[dur_at] + Fmt(" want %.0f", w));
    if (sscanf(got[dur_at + 1].c_str(), "Duration(secs):%lf", &s) != 1 || fabs(s - (double)g / 1e9) > 0.001) R().viol("mkvparser_sample:duration", got[dur_at + 1] + Fmt(" want %f", (double)g / 1e9));
    got[dur_at] = v[dur_at]; got[dur_at + 1] = v[dur_at + 1];
  }
  Same("mkvparser_sample:text", got, v, "mkvparser_sample");
  R().sig(Hash(f.d.bytes));
}

void Encrypt(Node& t, Rng& r) {
  Drop(t, ID_ContentEncodings);
  Node es = NM(ID_ContentEncodings), e = NM(ID_ContentEncoding), x = NM(ID_ContentEncryption), a = NM(ID_ContentEncAESSettings);
  a.kids = {NU(ID_AESSettingsCipherMode, 1)}; x.kids = {NU(ID_ContentEncAlgo, 5), NB(ID_ContentEncKeyID, r.bytes(8)), a}; e.kids = {NU(ID_ContentEncodingOrder, 0), NU(ID_ContentEncodingScope, 1), NU(ID_ContentEncodingType, 1), x}; es.kids = {e}; t.kids.push_back(es);
}
void Info(Rng& r) {
  File f = GenFile(r);
  std::set<uint64_t> aes;
  if (r.coin()) {
    for (auto& t : f.tracks->kids) if (t.id == ID_TrackEntry && KU(t, ID_TrackType, 0) <= 2 && r.coin()) { Encrypt(t, r); aes.insert(KU(t, ID_TrackNumber, 0)); }
    for (auto& c : f.seg->kids) if (c.id == ID_Cluster) for (auto& k : c.kids) {  // some with a few partitions
      Node* b = k.id == ID_SimpleBlock ? &k : k.id == ID_BlockGroup ? k.kid(ID_Block) : nullptr;
      if (!b || !aes.count(b->blk->track) || !r.chance(50)) continue;
      auto bd = std::make_shared<BlockData>(*b->blk);
      int n = (int)r.u(5);
      bd->lace = kNoLace; bd->frames = {Bytes(1, (char)(r.chance(70) ? 3 : r.u(256))) + r.bytes(8) + Bytes(1, (char)n) + r.bytes(4 * n) + r.bytes(r.u(12))};
      b->blk = bd; b->b = bd->Encode(b->id == ID_SimpleBlock);
    }
    FixRefs(f.d.top); f.d.bytes = Layout(f.d.top); f.Link();
  }
  std::map<const BlockData*, std::string> vp9;  // what is to be printed about a frame
  if (r.coin()) {  // one VP9 track, with VP9 frames
    uint64_t num = 0;
    for (auto& t : f.tracks->kids) {
      if (t.id != ID_TrackEntry || KU(t, ID_TrackType, 0) != 1) continue;
      bool this_one = !num;
      if (this_one) { num = KU(t, ID_TrackNumber, 0); Drop(t, ID_ContentEncodings); aes.erase(num); }
      if (this_one || SN(t, ID_CodecID) == "V_VP9") { Drop(t, ID_CodecID); Drop(t, ID_CodecPrivate); t.kids.push_back(NS(ID_CodecID, this_one ? "V_VP9" : "V_VP8")); }
    }
    State st;
    for (auto& c : f.seg->kids) if (c.id == ID_Cluster) for (auto& k : c.kids) {
      Node* b = k.id == ID_SimpleBlock ? &k : k.id == ID_BlockGroup ? k.kid(ID_Block) : nullptr;
      if (!b || !num || b->blk->track != num) continue;
      auto bd = std::make_shared<BlockData>(*b->blk);
      int packed = r.chance(25) ? (int)r.range(1, 8) : 0;
      Bytes x; std::vector<uint32_t> sizes; std::string text; bool open = false;
      for (int i = 0; i < std::max(packed, 1); ++i) {
        Hdr e; struct ::Want w; w.plain = true; w.no_seg = true;
        if (packed && r.chance(60)) w.force_key = 1;
        Bytes one = Header(r, st, e, w) + r.bytes(packed && r.coin() ? r.u(400) : 0) + Bytes(1, '\0');  // (the last byte is not that of an index)
        x += one; sizes.push_back((uint32_t)one.size());
        if (open) continue;
        if (e.key && e.profile == 3) { open = true; continue; }
        if (packed) text += Fmt(" packed [%d]: {", i);
        text += Fmt(" key:%d v:%d altref:%d errm:%d", e.key, e.profile, e.altref, e.erm);
        if (e.cols >= 0 && e.fpm >= 0 && e.key) {
          text += Fmt(" rt:%d ct:%d fpm:%d cs:%d", e.rows, e.cols, e.fpm, e.color_space);
          if (e.dw != e.w || e.dh != e.h) text += Fmt(" dw:%d dh:%d", e.dw, e.dh);
        } else { text += " rt:"; open = true; continue; }
        if (packed) text += Fmt(" size: %zu }", one.size());
        if (packed && i) R().count("info_packed");
      }
      if (packed) {
        int mag = 1; for (uint32_t z : sizes) while (z >> (8 * mag)) ++mag;
        if (r.chance(30)) mag = std::max(mag, (int)r.range(1, 4));
        char m = (char)(0xc0 | (mag - 1) << 3 | (packed - 1));
        x += m; for (uint32_t z : sizes) for (int k = 0; k < mag; ++k) x += (char)(z >> (8 * k)); x += m;
      }
      bd->lace = kNoLace; bd->frames = {x};
      b->blk = bd; b->b = bd->Encode(b->id == ID_SimpleBlock);
      vp9[bd.get()] = text + (open ? "*" : "");
    }
    FixRefs(f.d.top);
    f.d.bytes = Layout(f.d.top);
    f.Link();
  }
  WriteFile(P("in.webm"), f.d.bytes);
  std::vector<std::string> args = {"-i", "in.webm", "-all", "-notimes_seconds"};
  auto off = [&](const char* n, int pct) { bool x = r.chance(pct); if (x) args.push_back(std::string("-no") + n); return x; };
  bool no_cl = off("clusters", 10), no_bl = off("blocks", 10), no_cues = off("cues", 10), no_v = off("video", 10), no_a = off("audio", 10), no_ci = off("codec_info", 40), no_tr = off("tracks", 10), no_sh = off("seekhead", 10), no_eh = off("ebml_header", 10), no_si = off("segment_info", 10);
  bool no_enc = off("encrypted_info", 20);
  off("frame_stats", 20); off("vp9_level", 20);
  bool no_seg = off("segment", 10);
  Out o = Run("webm_info", args, "info");
  if (!o.ok()) { if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 1) R().viol("webm_info:refused", "a well-formed file was not described: " + o.err.substr(0, 500)); return; }
  R().count("infos");
  std::vector<std::string> v;
  if (!no_eh) {
    ADD("EBML Header:");
    ADD("EBMLVersion: %" PRIu64, KU(*f.ebml, ID_EBMLVersion, 1)); ADD("EBMLReadVersion: %" PRIu64, KU(*f.ebml, ID_EBMLReadVersion, 1)); ADD("EBMLMaxIDLength: %" PRIu64, KU(*f.ebml, ID_EBMLMaxIDLength, 4)); ADD("EBMLMaxSizeLength: %" PRIu64, KU(*f.ebml, ID_EBMLMaxSizeLength, 8));
    ADD("Doc Type: %s", SN(*f.ebml, ID_DocType).c_str()); ADD("DocTypeVersion: %" PRIu64, KU(*f.ebml, ID_DocTypeVersion, 1)); ADD("DocTypeReadVersion: %" PRIu64, KU(*f.ebml, ID_DocTypeReadVersion, 1));
  }
  if (!no_seg) ADD("Segment: @: %" PRIu64 " size: %" PRId64, f.seg->pos, f.seg->unknown ? (int64_t)f.seg->hdr - 1 : (int64_t)(f.seg->hdr + f.seg->body));
  if (const Node* sh = no_sh ? nullptr : Head(f, ID_SeekHead)) {
    ADD("SeekHead: @: %" PRIu64 " size: %" PRIu64, sh->pos, sh->hdr + sh->body);
    int n = 0;
    for (auto* s : sh->all(ID_Seek)) {
      ADD("Entry[%d] @: %" PRIu64 " size: %" PRIu64, n++, s->pos, s->hdr + s->body);
      ADD("Seek ID: %llx", (unsigned long long)Reader::UInt(KB(*s, ID_SeekID))); ADD("Seek position: %" PRIu64, KU(*s, ID_SeekPosition, 0));
      R().count("info_seeks");
    }
    n = 0;
    for (auto* s : sh->all(ID_Void)) ADD("Void element[%d] @: %" PRIu64 " size: %" PRIu64, n++, s->pos, s->hdr + s->body);
  }
  size_t dur_at = ~(size_t)0;
  if (!no_si) {
    ADD("SegmentInfo: @: %" PRIu64 " size: %" PRIu64, f.info->pos, f.info->hdr + f.info->body);
    ADD("TimecodeScale: %" PRIu64, f.scale);
    dur_at = v.size();
    ADD("Duration(nano):");
    struct { uint32_t id; const char* n; } s[] = {{ID_Title, "Title"}, {ID_MuxingApp, "MuxingApp"}, {ID_WritingApp, "WritingApp"}};
    for (auto& x : s) { std::string t = SN(*f.info, x.id); if (f.info->kid(x.id) && !t.empty()) ADD("%s: %s", x.n, t.c_str()); }
  }
  if (!no_tr) {
    ADD("Tracks: @: %" PRIu64 " size: %" PRIu64, f.tracks->pos, f.tracks->hdr + f.tracks->body);
    for (auto* tp : f.tracks->all(ID_TrackEntry)) {
      const Node& t = *tp;
      uint64_t type = KU(t, ID_TrackType, 0);
      ADD("Track: @: %" PRIu64 " size: %" PRIu64, t.pos, t.hdr + t.body);
      ADD("TrackType: %" PRIu64, type); ADD("TrackNumber: %" PRIu64, KU(t, ID_TrackNumber, 0));
      if (t.kid(ID_Name) && !SN(t, ID_Name).empty()) ADD("Name: %s", SN(t, ID_Name).c_str());
      std::string codec = SN(t, ID_CodecID);
      ADD("CodecID: %s", codec.c_str());
      if (t.kid(ID_CodecName) && !SN(t, ID_CodecName).empty()) ADD("CodecName: %s", SN(t, ID_CodecName).c_str());
      if (t.kid(ID_CodecPrivate)) {
        Bytes p = KB(t, ID_CodecPrivate);
        ADD("PrivateData(size): %zu", p.size());
        if (codec == "V_VP9") {
          static const char* const kN[] = {"", "VP9 profile", "VP9 level", "VP9 bit_depth", "VP9 chroma subsampling"};
          for (int id = 1; id <= 4; ++id) for (size_t k = 0; k + 2 < p.size(); k += 3) if (p[k] == id) ADD("%s: %d", kN[id], p[k + 2]);
        }
      }
      if (KU(t, ID_DefaultDuration, 0)) ADD("DefaultDuration: %" PRIu64, KU(t, ID_DefaultDuration, 0));
      if (type == 1) {
        const Node& x = *t.kid(ID_Video);
        uint64_t w = KU(x, ID_PixelWidth, 0), h = KU(x, ID_PixelHeight, 0), dw = KU(x, ID_DisplayWidth, w), dh = KU(x, ID_DisplayHeight, h), du = KU(x, ID_DisplayUnit, 0);
        ADD("PixelWidth: %" PRIu64, w); ADD("PixelHeight: %" PRIu64, h);
        if (KF(x, ID_FrameRate, 0) > 0) ADD("FrameRate: %g", KF(x, ID_FrameRate, 0));
        if (du || dw != w || dh != h) { ADD("DisplayWidth: %" PRIu64, dw); ADD("DisplayHeight: %" PRIu64, dh); ADD("DisplayUnit: %" PRIu64, du); }
        if (x.kid(ID_Colour)) { ADD("Colour:"); Colour_(v, *x.kid(ID_Colour), "%g", true); }
        if (x.kid(ID_Projection)) { ADD("Projection:"); Projection_(v, *x.kid(ID_Projection), true); }
      } else if (type == 2) {
        const Node& x = *t.kid(ID_Audio);
        ADD("Channels: %" PRIu64, KU(x, ID_Channels, 1));
        if (KU(x, ID_BitDepth, 0)) ADD("BitDepth: %" PRIu64, KU(x, ID_BitDepth, 0));
        ADD("SamplingFrequency: %g", KF(x, ID_SamplingFrequency, 8000));
        if (KU(t, ID_CodecDelay, 0)) ADD("CodecDelay: %" PRIu64, KU(t, ID_CodecDelay, 0));
        if (KU(t, ID_SeekPreRoll, 0)) ADD("SeekPreRoll: %" PRIu64, KU(t, ID_SeekPreRoll, 0));
      }
    }
  }
  auto clusters = f.seg->all(ID_Cluster);
  const Node* cues = f.seg->kid(ID_Cues);
  auto add_cues = [&]() {
    if (no_cues || !cues) return;
    if (cues->all(ID_CuePoint).empty()) { ADD("No cue points."); return; }
    ADD("Cues: @:%" PRIu64 " size:%" PRIu64, cues->pos, cues->hdr + cues->body);
    for (auto& l : CueLines(f, true, !no_bl)) { v.push_back(l); R().count("info_cues"); }
  };
  bool front = cues && !clusters.empty() && cues->pos < clusters[0]->pos;
  if (front) add_cues();
  if (!no_cl) ADD("Clusters (count):%zu", clusters.size());
  auto blocks = Blocks(f);
  size_t bi = 0;
  uint64_t csize = 0;
  bool all_known = true;
  for (auto* c : clusters) {
    csize += c->hdr + c->body;
    if (c->unknown) all_known = false;
    size_t e = bi;
    while (e < blocks.size() && blocks[e].cluster == c) ++e;
    if (!no_cl) {
      ADD("Cluster: @: %" PRIu64 " size: %" PRIu64, c->pos, c->hdr + c->body);
      if (c->unknown) v.back() = Fmt("Cluster:@:%" PRIu64 " size:", c->pos);
      ADD("Timecode (nano): %" PRIu64, KU(*c, ID_Timecode, 0) * f.scale);
      ADD("Duration (nano): %" PRId64, bi < e ? blocks[e - 1].ns - blocks[bi].ns : 0);
      ADD("# Blocks: %zu", e - bi);
    }
    for (; bi < e; ++bi) {
      auto& b = blocks[bi];
      uint64_t type = TypeOf(f, b.b->track);
      if (no_bl || !((type == 1 && !no_v) || (type == 2 && !no_a))) continue;
      R().count("info_blocks");
      if (b.group) ADD("BlockGroup:");
      ADD("Block: type:%s frame:%s nano:%lld @_payload: %" PRIu64 " size_payload: %" PRIu64, type == 1 ? "V" : "A", b.key ? "I" : "P", (long long)b.ns, b.node->pos + b.node->hdr, b.node->body);
      const Node* tr = nullptr;
      for (auto* t : f.tracks->all(ID_TrackEntry)) if (KU(*t, ID_TrackNumber, 0) == b.b->track) tr = t;
      auto vp8_text = [](const Bytes& d) -> std::string {
        if (d.size() < 3) return "";
        uint32_t bits = (uint8_t)d[0] | (uint8_t)d[1] << 8 | (uint8_t)d[2] << 16;
        bool key = !(bits & 1);
        R().count("info_vp8");
        if (key && !(d.size() >= 6 && (uint8_t)d[3] == 0x9d && d[4] == 1 && d[5] == 0x2a)) return " invalid VP8 signature";
        return Fmt(" key:%d v:%u altref:%d partition_length:%u", key, (bits >> 1) & 7, !((bits >> 4) & 1), (bits >> 5) & 0x7ffff);
      };
      bool vp8 = SN(*tr, ID_CodecID) == "V_VP8", other = SN(*tr, ID_CodecID) != "V_VP9" && !vp8;
      const Node* es = no_enc ? nullptr : tr->kid(ID_ContentEncodings);
      if (es && aes.count(b.b->track) && b.b->frames.size() == 1 && b.b->frames[0].size() >= 1 && (vp8 || other || no_ci || type != 1)) {
        // the signal byte, the counter, and the partitions of an encrypted frame
        Bytes d = b.b->frames[0];
        bool on = d[0] & 1, sub = d[0] & 2;
        std::string t = Fmt(" enc: %d sub: %d", on, sub);
        if (on && d.size() < 9) t += " iv: *";
        else {
          if (on) { t += " iv: "; std::string h; for (int k = 8; k >= 1; --k) { char two[3]; snprintf(two, 3, "%02x", (uint8_t)d[k]); h += two; } size_t z = h.find_first_not_of('0'); t += z == std::string::npos ? "0" : h.substr(z); }
          if (!no_ci && type == 1 && (!on || sub)) {
            d.erase(0, 1);
            if (on) {
              size_t used = 9; bool whole = d.size() >= 9;
              if (whole) for (int k = 0, n = (uint8_t)d[8]; k < n; ++k, used += 4) {
                if (d.size() < used + 4) { whole = false; break; }
                t += Fmt(" off[%d]:%u", k, (unsigned)Reader::UInt(d.substr(used, 4)));
                R().count("info_partitions");
              }
              if (whole) d.erase(0, used);
            }
            if (vp8) t += vp8_text(d);
          }
        }
        v.back() += t;
        R().count(on ? "info_encrypted" : "info_unencrypted");
      } else if (type == 1 && !no_ci && b.b->frames.size() == 1 && !es && vp8) {
        v.back() += vp8_text(b.b->frames[0]);
      } else if (!no_ci && vp9.count(b.b)) { v.back() += vp9[b.b]; R().count("info_vp9"); }
      else if (!no_ci || !no_enc) v.back() += "*";
      v.back() = Norm(v.back());
      if (b.group && b.pad) ADD("DiscardPadding: %lld", (long long)b.pad);
    }
  }
  ADD("Clusters (size):%" PRIu64, csize);
  if (!all_known) v.back() = "Clusters (size):";
  if (!front) add_cues();
  auto raw = Lines(o.out);
  std::vector<std::string> got;
  bool tail = false;
  for (auto& l : raw) {
    if (l.compare(0, 9, "VP8 data:") == 0 || l.compare(0, 7, "Content") == 0 || l.compare(0, 11, "CipherMode:") == 0) continue;
    if (l.compare(0, 11, "Actual fps:") == 0 || l.compare(0, 10, "VP9 Level:") == 0) tail = true;
    if (!tail) got.push_back(l);
  }
  if (dur_at != ~(size_t)0 && got.size() > dur_at) {
    double d = KF(*f.info, ID_Duration, -1), w = d < 0 ? -1 : d * (double)f.scale;
    long long g = 0;
    if (sscanf(got[dur_at].c_str(), "Duration(nano):%lld", &g) != 1 || fabs((double)g - w) > 1 + fabs(w) * 1e-9) R().viol("webm_info:duration", got[dur_at] + Fmt(" want %.0f", w));
    got[dur_at] = v[dur_at];
  }
  for (size_t i = 0; i < got.size() && i < v.size(); ++i) {
    if (!v[i].empty() && v[i].back() == '*') { v[i].pop_back(); got[i].resize(std::min(got[i].size(), v[i].size())); }
    else if (v[i] == "Clusters (size):" || (v[i].compare(0, 9, "Cluster:@") == 0 && v[i].back() == ':')) got[i].resize(std::min(got[i].size(), v[i].size()));
  }
  Same("webm_info:text", got, v, "webm_info");
  R().sig(Hash(f.d.bytes));
}

// ------------------------------------------------------------ text and transport
void Dump(Rng& r) {
  vtt::Doc d = vtt::Gen(r);
  WriteFile(P("a.vtt"), vtt::Text(r, d));
  Out o = Run("dumpvtt", {"a.vtt"}, "dump");
  if (!o.ok()) { if (WIFEXITED(o.status) && WEXITSTATUS(o.status) == 1) R().viol("dumpvtt:refused", "a well-formed file was not printed"); return; }
  Bytes w;
  auto time = [](const char* n, int64_t ms) { return Fmt("cue %s time: \"HH=%lld MM=%d SS=%d SSS=%d\"\n", n, (long long)(ms / 3600000), (int)(ms / 60000 % 60), (int)(ms / 1000 % 60), (int)(ms % 1000)); };
  for (auto& c : d.cues) {
    w += "cue identifier: \"" + c.id + "\"\n" + time("start", c.start) + time("stop", c.stop);
    if (c.set.empty()) w += "cue setting: <no settings present>\n";
    for (auto& s : c.set) w += "cue setting: name=" + s.first + " value=" + s.second + "\n";
    for (size_t i = 0; i < c.lines.size(); ++i) w += Fmt("cue payload[%zu]: \"", i + 1) + c.lines[i] + "\"\n";
    w += "\n";
  }
  R().count("dumped_cues", d.cues.size());
  if (o.out != w) R().viol("dumpvtt:text", "printed\n" + o.out.substr(0, 1200) + "\nwant\n" + w.substr(0, 1200));
  R().sig(Hash(w));
}

void Transport(Rng& r) {
  Movie m = GenMovie(r, true);
  Bytes in = m.bytes;
  if (r.chance(20)) in = MutateBytes(in, r, 3);
  WriteFile(P("in.webm"), in);
  for (int k = 0; k < 2; ++k) {
    Bytes a, b;
    bool ok;
    if (k == 0) { lw::Webm2Pes c(P("in.webm"), P("lib.pes")); ok = c.ConvertToFile(); }
    else { lw::VpxPes2Ts c(P("in.webm"), P("lib.ts")); ok = c.ConvertToFile(); }
    const char* tool = k ? "webm2ts" : "webm2pes";
    Out o = Run(tool, {"in.webm", "tool.out"}, "convert");
    if (!WIFEXITED(o.status) || WEXITSTATUS(o.status) > 1) continue;
    R().count("conversions");
    if (o.ok() != ok) { R().viol(std::string(tool) + ":status", Fmt("the tool %s, the library %s", o.ok() ? "succeeded" : "failed", ok ? "succeeded" : "failed")); continue; }
    if (!ok) continue;
    ReadFile(P(k ? "lib.ts" : "lib.pes"), &a); ReadFile(P("tool.out"), &b);
    if (a != b) R().viol(std::string(tool) + ":bytes", Fmt("%zu bytes, the library wrote %zu", b.size(), a.size()));
    R().sig(Hash(b));
  }
}

void Demo(Rng& r) {
  GenOpt o;
  o.multi = false; o.max_clusters = 3;
  Doc d = GenDoc(r, o);
  WriteFile(P("in.webm"), d.bytes);
  Out q = Run("webm_parser_demo", {"in.webm"}, "demo");
  if (!WIFEXITED(q.status) || WEXITSTATUS(q.status) > 1) return;
  if (!q.ok()) { R().viol("webm_parser_demo:refused", "a well-formed file was not printed: " + q.err); return; }
  // One line for each of these elements.
  std::map<std::string, int> want, got;
  std::map<uint32_t, const char*> names = {{ID_Segment, "Segment"}, {ID_Cluster, "Cluster"}, {ID_SimpleBlock, "SimpleBlock"}, {ID_BlockGroup, "BlockGroup"}, {ID_TrackEntry, "TrackEntry"}, {ID_CuePoint, "CuePoint"}, {ID_Tag, "Tag"}, {ID_EditionEntry, "EditionEntry"}, {ID_Info, "Info"}};
  std::function<void(const std::vector<Node>&)> walk = [&](const std::vector<Node>& v) { for (auto& n : v) { if (names.count(n.id)) ++want[names[n.id]]; walk(n.kids); } };
  walk(d.top);
  size_t p = 0;
  while (p < q.out.size()) {
    size_t e = q.out.find('\n', p); if (e == q.out.npos) e = q.out.size();
    std::string l = Norm(q.out.substr(p, e - p));
    l = l.substr(0, l.find_first_of(" :("));
    for (auto& n : names) if (l == n.second) ++got[l];
    p = e + 1;
  }
  R().count("demo_lines", got["SimpleBlock"] + got["BlockGroup"] + got["Cluster"]);
  for (auto& n : names) if (want[n.second] != got[n.second]) R().viol("webm_parser_demo:elements", Fmt("%d lines about %s instead of %d", got[n.second], n.second, want[n.second]));
  R().sig(Hash(d.bytes));
}

// ------------------------------------------------------------ hostile input
Bytes HostileFile(Rng& r) {
  switch (r.u(7)) {
    case 0: { GenOpt o; o.mkv = true; o.max_clusters = 3; Doc d = GenDoc(r, o); return r.coin() ? MutateDoc(d, r) : MutateBytes(d.bytes, r); }
    case 1: { File f = GenFile(r); return r.coin() ? MutateDoc(f.d, r) : MutateBytes(f.d.bytes, r, 4); }
    case 2: { File f = GenFile(r);  // one value out of range
      std::vector<Node*> all; CollectNodes(f.d.top, &all);
      for (int k = (int)r.range(1, 3); k > 0; --k) { Node* n = all[r.u(all.size())]; if (n->type == 'U' || n->type == 'O') n->u = r.edgy(); else if (n->type == 'I') n->i = (int64_t)r.edgy(); else if (n->type == 'F') n->f = r.pick<double>({0.0, -1.0, 1e300, -1e300, (double)NAN, (double)INFINITY, 1e18}); else if (n->type == 'S' || n->type == 'B') n->b = r.bytes(r.u(12)); }
      return Layout(f.d.top); }
    case 3: { File f = GenFile(r);  // a missing element
      std::vector<Node*> all; CollectNodes(f.d.top, &all);
      std::vector<Node*> m; for (auto* n : all) if (n->master() && !n->kids.empty()) m.push_back(n);
      Node* n = r.pick(m); n->kids.erase(n->kids.begin() + r.u(n->kids.size()));
      return Layout(f.d.top); }
    case 4: { File f = GenFile(r);  // WebVTT tracks with arbitrary blocks, chapters
      for (auto& t : f.tracks->kids) if (t.id == ID_TrackEntry && r.chance(70)) { Drop(t, ID_CodecID); t.kids.push_back(NS(ID_CodecID, r.pick<std::string>({"D_WEBVTT/SUBTITLES", "D_WEBVTT/CAPTIONS", "D_WEBVTT/DESCRIPTIONS", "D_WEBVTT/METADATA"}))); }
      SetKid(*f.ebml, NS(ID_DocType, "webm"));
      for (auto& c : f.seg->kids) if (c.id == ID_Cluster) for (auto& k : c.kids) {
        if (k.id != ID_BlockGroup) continue;
        if (r.chance(70)) { Drop(k, ID_BlockDuration); k.kids.push_back(NU(ID_BlockDuration, r.edgy(1ULL << 62))); }
        Node* b = k.kid(ID_Block);
        if (b && r.chance(80)) { auto bd = std::make_shared<BlockData>(); bd->track = b->blk->track; bd->track_len = b->blk->track_len; bd->tc = b->blk->tc; Bytes x; for (int i = (int)r.u(5); i > 0; --i) x += vtt::Line(r, 20) + (r.coin() ? "\n" : r.coin() ? "\r" : "\r\n"); bd->frames.push_back(x); b->blk = bd; b->b = bd->Encode(false); }
      }
      return Layout(f.d.top); }
    case 5: { File f = GenFile(r);  // VP9/VP8/encrypted frames of any shape
      for (auto& t : f.tracks->kids) if (t.id == ID_TrackEntry && KU(t, ID_TrackType, 0) == 1) {
        Drop(t, ID_CodecID); Drop(t, ID_CodecPrivate); t.kids.push_back(NS(ID_CodecID, r.coin() ? "V_VP9" : "V_VP8"));
        if (r.coin()) { Encrypt(t, r); }
      }
      for (auto& c : f.seg->kids) if (c.id == ID_Cluster) for (auto& k : c.kids) {
        Node* b = k.id == ID_SimpleBlock ? &k : k.id == ID_BlockGroup ? k.kid(ID_Block) : nullptr;
        if (!b) continue;
        auto bd = std::make_shared<BlockData>(*b->blk);
        bd->lace = kNoLace; bd->frames.clear();
        Bytes x = r.bytes(r.u(r.coin() ? 12 : 60));
        if (r.coin() && !x.empty()) x[0] = (char)r.u(4);
        if (r.coin()) { x = Bytes(1, (char)(0x80 | r.u(8))) + "\x49\x83\x42" + x; if (r.coin()) x = Bytes(1, (char)r.u(4)) + r.bytes(8) + x; }
        if (r.chance(30)) { int n = (int)r.range(1, 8), w = (int)r.range(1, 4); Bytes idx(1, (char)(0xc0 | (w - 1) << 3 | (n - 1))); for (int i = 0; i < n; ++i) { uint64_t s = r.chance(70) ? r.u(x.size() + 1) : r.edgy(); for (int j = 0; j < w; ++j) idx += (char)(s >> (8 * j)); } idx += idx[0]; x += idx; }
        bd->frames.push_back(x);
        b->blk = bd; b->b = bd->Encode(b->id == ID_SimpleBlock);
      }
      return Layout(f.d.top); }
    default: { GenOpt o; Doc d = GenDoc(r, o); return r.coin() ? d.bytes : MutateBytes(d.bytes, r); }
  }
}
Bytes HostileVtt(Rng& r) {
  vtt::Doc d = vtt::Gen(r);
  if (r.chance(30)) { vtt::C c; c.start = vtt::GenMs(r); c.stop = std::max(c.start, vtt::GenMs(r)); d.lines = {"WEBVTT", "", "id", vtt::TimingText(r, c), "text", ""}; }
  Bytes b = vtt::Text(r, d);
  if (r.coin()) b = MutateBytes(b, r);
  return b;
}
void Hostile(Rng& r) {
  int k = (int)r.u(8);
  R().count("hostile");
  if (k == 0) { WriteFile(P("a.vtt"), HostileVtt(r)); Run("dumpvtt", {"a.vtt"}, "hostile"); R().count("hostile_vtt"); return; }
  Bytes in = r.chance(2) ? Bytes() : HostileFile(r);
  WriteFile(P("in.webm"), in);
  std::string name = r.chance(1) ? "missing.webm" : "in.webm";
  R().sig(Hash(in));
  if (k == 1) { Run("mkvparser_sample", {name}, "hostile"); return; }
  if (k == 2) { Run("webm_parser_demo", {name}, "hostile"); return; }
  if (k == 3) { Run(r.coin() ? "webm2pes" : "webm2ts", {name, "out"}, "hostile"); return; }
  if (k == 4) { Run("vttdemux", {name}, "hostile"); return; }
  if (k == 5) {
    std::vector<std::string> args = {"-i", name, "-all"};
    static const char* const kO[] = {"video", "audio", "size", "offset", "times_seconds", "ebml_header", "segment", "seekhead", "segment_info", "tracks", "clusters", "blocks", "codec_info", "clusters_size", "encrypted_info", "cues", "frame_stats", "vp9_level"};
    for (const char* o : kO) if (r.chance(15)) args.push_back(std::string("-no") + o);
    Run("webm_info", args, "hostile");
    return;
  }
  std::vector<std::string> args = {"-i", name, "-o", "out.webm"};
  static const char* const kB[] = {"-video", "-audio", "-live", "-output_cues", "-cues_before_clusters", "-cues_on_video_track", "-cues_on_audio_track", "-switch_tracks", "-copy_tags", "-accurate_cluster_duration", "-fixed_size_cluster_timecode", "-copy_input_duration", "-output_cues_block_number"};
  for (const char* o : kB) if (r.chance(20)) { args.push_back(o); args.push_back(r.coin() ? "1" : "0"); }
  static const char* const kN[] = {"-max_cluster_size", "-audio_track_number", "-video_track_number", "-display_width", "-display_height", "-pixel_width", "-pixel_height", "-stereo_mode", "-projection_type", "-profile", "-level"};
  for (const char* o : kN) if (r.chance(6)) { args.push_back(o); args.push_back(Fmt("%" PRId64, r.coin() ? (int64_t)r.u(20) : (int64_t)r.edgy(1ULL << 40) - (int64_t)r.u(50))); }
  static const char* const kF[] = {"-projection_pose_yaw", "-projection_pose_pitch", "-projection_pose_roll"};
  for (const char* o : kF) if (r.chance(6)) { args.push_back(o); args.push_back(r.pick<std::string>({"0", "1e38", "nan", "inf", "-1e40", "x"})); }
  if (r.chance(6)) { args.push_back("-max_cluster_duration"); args.push_back(r.pick<std::string>({"0", "0.000000001", "5", "1000000"})); }
  if (r.chance(6)) { args.push_back("-chunking"); args.push_back("ch"); }
  static const char* const kV[] = {"-webvtt-subtitles", "-webvtt-captions", "-webvtt-descriptions", "-webvtt-metadata", "-webvtt-chapters"};
  for (int i = 0; i < 5; ++i) if (r.chance(10)) { std::string n = Fmt("h%d.vtt", i); WriteFile(P(n), HostileVtt(r)); args.push_back(kV[i]); args.push_back(n); R().count("hostile_vtt"); }
  if (r.chance(3)) args.push_back(r.pick<std::string>({"-i", "-webvtt-chapters", "-level", "-nosuch", "-?"}));
  Run("mkvmuxer_sample", args, "hostile");
}

void C32(uint64_t c, Rng& r) {
  Fresh(c);
  uint64_t k = r.u(100);
  if (A().kv.count("only")) k = (uint64_t)atoi(A().kv["only"].c_str());
  if (k < 35) Remux(r);
  else if (k < 48) Info(r);
  else if (k < 60) ParserSample(r);
  else if (k < 64) Dump(r);
  else if (k < 69) Transport(r);
  else if (k < 73) Demo(r);
  else Hostile(r);
  if (!A().verbose) Clean();
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C32", C32}}); }
