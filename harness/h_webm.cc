#include "webm/buffer_reader.h"
// Monitors for the streaming parser (webm_parser): C16..C21.
#include "webm_common.h"

namespace {

// ------------------------------------------------------- the reference walk
struct Ref {
  std::vector<std::string> log;
  Plan plan;
  // Walks |n|; returns false when the element was skipped (and so is not
  // stored in its parent). |kept| receives the stored view of the element.
  bool Walk(const Node& n, uint32_t parent, Node* kept, const std::function<void()>& before = nullptr, const bool* suppress = nullptr) {
    *kept = n; kept->kids.clear();
    log.push_back("EB " + Md(n));
    if (plan.Skip('E', n.pos)) return false;
    const El* e = FindEl(n.id, parent);
    if (n.id == ID_Void) { log.push_back("VOID " + Md(n) + " " + (n.gap ? "large" : VB(n.b))); return true; }
    if (!e || !e->core) {
      // Elements outside the WebM subset are opaque.
      Bytes body;
      if (n.master()) { Node c = n; Bytes all; Measure(c); Gaps none; Emit(c, &all, &none); body = all.substr(n.hdr); } else body = LeafPayload(n);
      log.push_back("UNK " + Md(n) + " " + (n.gap ? "large" : VB(body)));
      return true;
    }
    if (before) { before(); if (suppress && *suppress) return false; }
    return Body(n, kept);
  }
  bool Body(const Node& n, Node* kept) {
    switch (n.id) {
      case ID_Segment:
        log.push_back("SEGB " + Md(n) + " ");
        if (plan.Skip('s', n.pos)) return false;
        Kids(n, kept);
        return End(n.id, Md(n), kept);
      case ID_BlockGroup:
        log.push_back("BGB " + Md(n) + " ");
        if (plan.Skip('g', n.pos)) return false;
        Kids(n, kept);
        return End(n.id, Md(n), kept);
      case ID_Cluster: {
        bool begun = false, skip = false;
        auto begin = [&]() {
          if (begun) return;
          begun = true;
          log.push_back("CLUB " + Md(n) + " " + DumpMaster(ID_Cluster, kept));
          skip = plan.Skip('c', n.pos);
        };
        for (auto& k : n.kids) {
          Node kk;
          bool starts = k.id == ID_SimpleBlock || k.id == ID_BlockGroup;
          bool stored = Walk(k, n.id, &kk, starts && !begun ? std::function<void()>(begin) : nullptr, &skip);
          if (skip) return false;
          if (stored) kept->kids.push_back(kk);
        }
        begin();
        if (skip) return false;
        return End(n.id, Md(n), kept);
      }
      case ID_SimpleBlock: case ID_Block: {
        bool s = n.id == ID_SimpleBlock;
        std::string t = Md(n) + " " + DumpBlock(n);
        log.push_back((s ? "SBB " : "BLB ") + t);
        if (plan.Skip(s ? 'b' : 'l', n.pos)) return false;
        for (size_t i = 0; i < n.blk->frames.size(); ++i)
          log.push_back(Fmt("FRAME p%" PRIu64 " s%" PRIu64 " in ", n.pos + n.hdr + n.blk->frame_off[i], (uint64_t)n.blk->frames[i].size()) + Md(n) + " " + VB(n.blk->frames[i]));
        log.push_back((s ? "SBE " : "BLE ") + t);
        return true;
      }
      default:
        if (n.master()) { Kids(n, kept); return End(n.id, Md(n), kept); }
        return true;
    }
  }
  void Kids(const Node& n, Node* kept) {
    for (auto& k : n.kids) { Node kk; if (Walk(k, n.id, &kk)) kept->kids.push_back(kk); }
  }
  bool End(uint32_t id, const std::string& md, const Node* kept) {
    const char* nm = nullptr;
    switch (id) {
      case ID_EBML: nm = "EBML"; break;
      case ID_Seek: nm = "SEEK"; break;
      case ID_Info: nm = "INFO"; break;
      case ID_TrackEntry: nm = "TRACK"; break;
      case ID_CuePoint: nm = "CUE"; break;
      case ID_EditionEntry: nm = "EDITION"; break;
      case ID_Tag: nm = "TAG"; break;
      case ID_Cluster: nm = "CLUE"; break;
      case ID_BlockGroup: nm = "BGE"; break;
      case ID_Segment: log.push_back("SEGE " + md + " "); return true;
      default: return true;
    }
    log.push_back(std::string(nm) + " " + md + " " + DumpMaster(id, kept));
    return true;
  }
  void Doc(const std::vector<Node>& top) { for (auto& n : top) { Node k; Walk(n, 0, &k); } }
};

// ------------------------------------------------------------ reader models
struct ScheduleReader : public webm::Reader {
  const Bytes& d;
  uint64_t pos = 0;
  Rng rng;
  int mode;            // 0 all, 1 one byte, 2 random pieces, 3 random + would-block
  uint64_t reads = 0, blocks = 0, partials = 0;
  uint64_t budget = ~0ULL;
  std::vector<uint64_t> cuts;  // explicit stop points: would-block once at each
  size_t next_cut = 0;
  bool blocked_at_cut = false;
  std::string contract;        // a violated precondition by the caller
  const Gaps* gaps = nullptr;
  ScheduleReader(const Bytes& data, int m, uint64_t seed) : d(data), rng(seed), mode(m) {}
  ScheduleReader(const Doc& doc, int m, uint64_t seed) : d(doc.bytes), rng(seed), mode(m), gaps(doc.gaps.g.empty() ? nullptr : &doc.gaps) {}
  uint64_t size() const { return d.size() + (gaps ? gaps->sum : 0); }
  Status Step(uint64_t n, uint8_t* buf, uint64_t* got, bool skip) {
    *got = 0;
    if (++reads > budget) throw std::logic_error("reader budget exceeded");
    if (n == 0) contract = "zero-length read";
    if (!skip && !buf) contract = "null buffer";
    uint64_t left = size() - std::min<uint64_t>(pos, size());
    if (!cuts.empty()) {
      while (next_cut < cuts.size() && cuts[next_cut] < pos) { ++next_cut; blocked_at_cut = false; }
      if (next_cut < cuts.size()) {
        if (cuts[next_cut] == pos && !blocked_at_cut) { blocked_at_cut = true; ++blocks; return Status(Status::kWouldBlock); }
        if (cuts[next_cut] == pos && blocked_at_cut) { ++next_cut; blocked_at_cut = false; }
        if (next_cut < cuts.size() && cuts[next_cut] > pos) left = std::min(left, cuts[next_cut] - pos);
      }
    }
    if (left == 0) return Status(Status::kEndOfFile);
    uint64_t k = std::min(n, left);
    if (gaps && skip && k > 512 && mode == 1) k = 1 + rng.u(k);
    else if (mode == 1) k = 1;
    else if (mode == 2 || mode == 3) {
      if (mode == 3 && rng.chance(40)) { ++blocks; return Status(Status::kWouldBlock); }
      k = 1 + rng.u(k);
      if (rng.chance(50)) k = std::min<uint64_t>(k, 1 + rng.u(3));
    }
    if (buf && gaps) gaps->Read(d, pos, k, (char*)buf);
    else if (buf) memcpy(buf, d.data() + pos, k);
    pos += k; *got = k;
    if (k < n) { ++partials; return Status(Status::kOkPartial); }
    return Status(Status::kOkCompleted);
  }
  Status Read(std::size_t n, std::uint8_t* b, std::uint64_t* got) override { return Step(n, b, got, false); }
  Status Skip(std::uint64_t n, std::uint64_t* got) override { return Step(n, nullptr, got, true); }
  std::uint64_t Position() const override { return pos; }
};

struct Outcome { int status = 0; uint64_t feeds = 0; bool overrun = false; std::string note; };

// Feeds until something final. Resumes after would-block, partial and planned
// callback suspensions.
Outcome Feeds(webm::WebmParser** p, webm::WebmParser* spare, Rec* rec, ScheduleReader* rd, uint64_t max_feeds) {
  Outcome o;
  for (;;) {
    if (++o.feeds > max_feeds) { o.overrun = true; return o; }
    if (spare && Mix(o.feeds, rd->pos) % 3 == 0) {  // the parse goes on in the other object
      if (o.feeds % 2) (*p)->Swap(spare); else swap(**p, *spare);
      std::swap(*p, spare);
      R().count("swaps");
    }
    rec->did_suspend = false;
    int st;
    try { st = (*p)->Feed(rec, rd).code; }
    catch (const TestThrow&) {
      if (!rec->did_suspend || rec->expected_status != INT32_MAX) o.note = "unexpected exception";
      continue;
    } catch (const std::logic_error& e) { o.overrun = true; o.note = e.what(); return o; }
    if (rec->did_suspend) {
      if (rec->expected_status == INT32_MAX) { o.note = Fmt("callback exception swallowed, Feed returned %d", st); }
      else if (st != rec->expected_status) { o.note = Fmt("callback returned %d but Feed returned %d", rec->expected_status, st); }
      if (!o.note.empty()) { o.status = st; return o; }
      continue;
    }
    if (st == Status::kWouldBlock) continue;
    if (st == Status::kOkPartial && rd->pos < rd->size()) continue;
    o.status = st;
    return o;
  }
}
Outcome Run(webm::WebmParser* p, Rec* rec, ScheduleReader* rd, uint64_t max_feeds) {
  uint64_t h = Mix(rd->size(), rd->pos + 77);
  if (h % 8) return Feeds(&p, nullptr, rec, rd, max_feeds);
  // Two parsers that change places; the other one is new or has failed.
  webm::WebmParser spare;
  webm::WebmParser* cur = p;
  bool failed = h / 8 % 2;
  webm::Callback none;
  auto bad = [&](webm::WebmParser* q) { webm::BufferReader br(std::vector<std::uint8_t>{0x1a, 0x45, 0xdf, 0xa3, 0x00, 0xff}); return q->Feed(&none, &br).code; };
  int code = failed ? bad(&spare) : 0;
  Outcome o = Feeds(&cur, &spare, rec, rd, max_feeds);
  if (cur != p) p->Swap(cur);
  if (failed && o.note.empty() && !o.overrun) {
    webm::BufferReader br(std::vector<std::uint8_t>{0xec, 0x80});
    int st = spare.Feed(&none, &br).code;
    if (code > -1025 || st != code) o.note = Fmt("the failed parser returned %d, after the exchange %d", code, st);
  }
  return o;
}

std::string Diff(const std::vector<std::string>& want, const std::vector<std::string>& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  if (i == want.size() && i == got.size()) return "";
  std::string s = Fmt("event %zu: expected <", i); if (getenv("DIFFALL")) for (size_t k = 0; k < std::max(want.size(), got.size()); ++k) fprintf(stderr, "%s\n   %s\n", k < want.size() ? want[k].c_str() : "-", k < got.size() ? got[k].c_str() : "-");
  auto cut = [](const std::string& a, const std::string& b) { // show around first difference
    size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
    size_t from = k > 120 ? k - 120 : 0;
    return a.substr(0, 40) + ".." + a.substr(from, 260);
  };
  std::string w = i < want.size() ? want[i] : "(end)", g = i < got.size() ? got[i] : "(end)";
  s += cut(w, g) + "> got <" + cut(g, w) + Fmt("> (%zu vs %zu events)", want.size(), got.size());
  return s;
}
std::string EvName(const std::string& e) { if (e.compare(0, 6, "FRAME ") == 0) return "FRAME"; size_t a = e.find(' '); size_t b = e.find(' ', a + 1); if (a == std::string::npos) return e; return e.substr(0, b); }
std::string DiffKey(const std::vector<std::string>& want, const std::vector<std::string>& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  return (i < want.size() ? EvName(want[i]) : "end") + "/" + (i < got.size() ? EvName(got[i]) : "end");
}

GenOpt PickOpt(Rng& r) {
  GenOpt o;
  o.max_clusters = r.chance(70) ? 3 : 6;
  o.max_blocks = r.chance(80) ? 5 : 20;
  o.max_depth = r.chance(90) ? 3 : 8;
  if (r.chance(20)) o.extras = false;
  if (r.chance(20)) o.unknown_sizes = false;
  if (r.chance(30)) o.zero_len = false;
  return o;
}
void Observe(const Rec& rec, const Doc& d) {
  R().count("events", rec.log.size());
  R().count("bytes_parsed", d.bytes.size());
  std::set<std::string> kinds;
  for (auto& e : rec.log) kinds.insert(EvName(e));
  std::string s;
  for (auto& k : kinds) s += k + "|";
  for (auto& k : kinds) R().count("ev:" + k.substr(0, k.find(' ')));
  R().sig(Hash(s) ^ Hash(std::to_string(rec.log.size())));
}
std::string Sample(const Doc& d, const Rec& rec) {
  std::string s = Fmt("doc %zu bytes, %zu events: ", d.bytes.size(), rec.log.size());
  for (size_t i = 0; i < rec.log.size() && i < 12; ++i) s += rec.log[i].substr(0, 60) + " | ";
  return s;
}

bool MaybeStretch(Doc& d, Rng& r) {
  if (!r.chance(4)) return false;
  Stretch(d, r);
  FixRefs(d.top);
  d.bytes = Layout(d.top, &d.gaps);
  R().count("stretched");
  return true;
}

// ------------------------------------------------------------------- C17
void C17(uint64_t, Rng& r) {
  Doc d = GenDoc(r, PickOpt(r));
  MaybeStretch(d, r);
  if (A().verbose) { std::string t; for (auto& n : d.top) DumpTree(n, &t, 0, true); fprintf(stderr, "%s", t.c_str()); }
  Ref ref; ref.Doc(d.top);
  Rec rec; rec.plan.seed = r.next();
  ScheduleReader rd(d, 0, r.next());
  webm::WebmParser p;
  Outcome o = Run(&p, &rec, &rd, 10);
  if (o.status != 0) { R().viol("status:" + std::to_string(o.status), Fmt("well-formed stream of %zu bytes: Feed returned %d at %" PRIu64 "; %s", d.bytes.size(), o.status, rd.pos, Diff(ref.log, rec.log).c_str())); return; }
  std::string df = Diff(ref.log, rec.log);
  if (!df.empty()) R().viol("events:" + DiffKey(ref.log, rec.log), df);
  if (rd.pos != d.size()) R().viol("consumed", Fmt("consumed %" PRIu64 " of %" PRIu64 " bytes", rd.pos, d.size()));
  Observe(rec, d);
  if (rec.log.size() > 20) R().sample(Sample(d, rec));
}

// ------------------------------------------------------------------- C18
void C18(uint64_t, Rng& r) {
  GenOpt go = PickOpt(r);
  Doc d = GenDoc(r, go);
  bool damaged = r.chance(25), stretched = MaybeStretch(d, r);
  if (stretched) damaged = false;
  if (damaged) d.bytes = r.coin() ? MutateBytes(d.bytes, r, 3) : MutateDoc(d, r);
  Plan plan; plan.seed = r.next();
  if (r.chance(30)) plan.skip_pct = (int)r.pick<int>({2, 10, 30});
  Rec base; base.plan = plan;
  base.max_calls = 400000 + 40 * d.bytes.size();
  ScheduleReader brd(d, 0, 1);
  webm::WebmParser bp;
  Outcome bo = Run(&bp, &base, &brd, 1000);
  if (bo.overrun) { R().viol("budget", "uninterrupted parse exceeded its budget: " + bo.note); return; }
  int variants = 4;
  for (int v = 0; v < variants; ++v) {
    Rec rec; rec.plan = plan;
    rec.max_calls = 4000000 + 200 * d.bytes.size();
    if (v >= 2) rec.plan.suspend_pct = (int)r.pick<int>({3, 20, 60});
    if (v == 3 && r.coin()) rec.plan.throw_pct = 50;
    ScheduleReader rd(d, v == 0 ? 1 : v == 1 ? 3 : (int)r.u(4), r.next());
    if (v == 1) {
      rd.mode = 0;
      int nc = (int)r.range(1, 40);
      for (int i = 0; i < nc; ++i) rd.cuts.push_back(r.u(d.size() + 1));
      if (!stretched && r.coin()) { rd.cuts.clear(); uint64_t step = r.range(1, 3); for (uint64_t i = 0; i < d.bytes.size(); i += step) rd.cuts.push_back(i); }
      std::sort(rd.cuts.begin(), rd.cuts.end());
      rd.cuts.erase(std::unique(rd.cuts.begin(), rd.cuts.end()), rd.cuts.end());
    }
    webm::WebmParser p;
    Outcome o = Run(&p, &rec, &rd, 2000000 + 20 * d.bytes.size());
    if (o.overrun) { R().viol("progress", Fmt("no progress with delivery mode %d: %s", rd.mode, o.note.c_str())); continue; }
    if (!o.note.empty()) { R().viol("resume", o.note); continue; }
    if (!rec.resume_errors.empty()) { R().viol("resume-args", rec.resume_errors[0]); continue; }
    if (!rd.contract.empty()) R().viol("reader-contract", rd.contract);
    std::string df = Diff(base.log, rec.log);
    if (!df.empty()) R().viol("split-events:" + DiffKey(base.log, rec.log), Fmt("variant %d: ", v) + df);
    else if (o.status != bo.status) R().viol("split-status", Fmt("variant %d: status %d instead of %d", v, o.status, bo.status));
    R().count("feeds", o.feeds);
    R().count("would_blocks", rd.blocks);
    R().count("partial_reads", rd.partials);
    R().count("callback_suspensions", rec.suspended);
    R().count("callback_exceptions", rec.thrown);
  }
  Observe(base, d);
  R().count(damaged ? "docs_damaged" : "docs_wellformed");
  if (base.log.size() > 20) R().sample(Sample(d, base));
}

// ------------------------------------------------------------------- C20
void C20(uint64_t, Rng& r) {
  GenOpt go = PickOpt(r);
  Doc d = GenDoc(r, go);
  MaybeStretch(d, r);
  Plan plan; plan.seed = r.next();
  plan.skip_pct = (int)r.pick<int>({1, 5, 15, 40});
  if (r.coin()) { plan.suspend_pct = (int)r.pick<int>({2, 20}); if (r.coin()) plan.throw_pct = 40; }
  Ref ref; ref.plan = plan; ref.Doc(d.top);
  Rec rec; rec.plan = plan;
  rec.max_calls = 4000000;
  ScheduleReader rd(d, (int)r.u(4), r.next());
  webm::WebmParser p;
  Outcome o = Run(&p, &rec, &rd, 2000000);
  if (o.overrun) { R().viol("progress", o.note); return; }
  if (!o.note.empty()) { R().viol("propagation", o.note); return; }
  if (!rec.resume_errors.empty()) { R().viol("resume-args", rec.resume_errors[0]); return; }
  if (o.status != 0) { R().viol("status:" + std::to_string(o.status), Fmt("Feed returned %d; ", o.status) + Diff(ref.log, rec.log)); return; }
  std::string df = Diff(ref.log, rec.log);
  if (!df.empty()) R().viol("events:" + DiffKey(ref.log, rec.log), df);
  // A callback that fails for good: the status is returned, nothing follows.
  {
    Rec full; full.plan.seed = plan.seed;
    struct Failing : public Rec {
      uint64_t at = 0; int code = 0; bool fired = false; uint64_t after = 0;
      Status Hit() { if (fired) ++after; fired = true; return Status((std::int32_t)code); }
    };
    // Use the gate: fail at the n-th call with a chosen status.
    struct Nth : public Rec {
      uint64_t n = 0, at = 0; int code = 0; uint64_t after = 0; bool fired = false;
      bool Check(Status* st) { if (fired) { ++after; } if (++n == at) { fired = true; *st = Status((std::int32_t)code); return true; } return false; }
      Status OnElementBegin(const ElementMetadata& m, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnElementBegin(m, a); }
      Status OnEbml(const ElementMetadata& m, const webm::Ebml& x) override { Status s; if (Check(&s)) return s; return Rec::OnEbml(m, x); }
      Status OnSegmentBegin(const ElementMetadata& m, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnSegmentBegin(m, a); }
      Status OnSeek(const ElementMetadata& m, const webm::Seek& x) override { Status s; if (Check(&s)) return s; return Rec::OnSeek(m, x); }
      Status OnInfo(const ElementMetadata& m, const webm::Info& x) override { Status s; if (Check(&s)) return s; return Rec::OnInfo(m, x); }
      Status OnClusterBegin(const ElementMetadata& m, const webm::Cluster& x, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnClusterBegin(m, x, a); }
      Status OnSimpleBlockBegin(const ElementMetadata& m, const webm::SimpleBlock& x, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnSimpleBlockBegin(m, x, a); }
      Status OnSimpleBlockEnd(const ElementMetadata& m, const webm::SimpleBlock& x) override { Status s; if (Check(&s)) return s; return Rec::OnSimpleBlockEnd(m, x); }
      Status OnBlockGroupBegin(const ElementMetadata& m, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnBlockGroupBegin(m, a); }
      Status OnBlockBegin(const ElementMetadata& m, const webm::Block& x, Action* a) override { Status s; if (Check(&s)) return s; return Rec::OnBlockBegin(m, x, a); }
      Status OnBlockEnd(const ElementMetadata& m, const webm::Block& x) override { Status s; if (Check(&s)) return s; return Rec::OnBlockEnd(m, x); }
      Status OnBlockGroupEnd(const ElementMetadata& m, const webm::BlockGroup& x) override { Status s; if (Check(&s)) return s; return Rec::OnBlockGroupEnd(m, x); }
      Status OnClusterEnd(const ElementMetadata& m, const webm::Cluster& x) override { Status s; if (Check(&s)) return s; return Rec::OnClusterEnd(m, x); }
      Status OnTrackEntry(const ElementMetadata& m, const webm::TrackEntry& x) override { Status s; if (Check(&s)) return s; return Rec::OnTrackEntry(m, x); }
      Status OnCuePoint(const ElementMetadata& m, const webm::CuePoint& x) override { Status s; if (Check(&s)) return s; return Rec::OnCuePoint(m, x); }
      Status OnEditionEntry(const ElementMetadata& m, const webm::EditionEntry& x) override { Status s; if (Check(&s)) return s; return Rec::OnEditionEntry(m, x); }
      Status OnTag(const ElementMetadata& m, const webm::Tag& x) override { Status s; if (Check(&s)) return s; return Rec::OnTag(m, x); }
      Status OnSegmentEnd(const ElementMetadata& m) override { Status s; if (Check(&s)) return s; return Rec::OnSegmentEnd(m); }
      Status OnFrame(const FrameMetadata& m, webm::Reader* r, uint64_t* left) override { Status s; if (Check(&s)) return s; return Rec::OnFrame(m, r, left); }
      Status OnVoid(const ElementMetadata& m, webm::Reader* r, uint64_t* left) override { Status s; if (Check(&s)) return s; return Rec::OnVoid(m, r, left); }
      Status OnUnknownElement(const ElementMetadata& m, webm::Reader* r, uint64_t* left) override { Status s; if (Check(&s)) return s; return Rec::OnUnknownElement(m, r, left); }
    };
    Ref whole; whole.Doc(d.top);
    for (int k = 0; k < 3; ++k) {
      Nth n;
      n.at = 1 + r.u(whole.log.size());
      n.code = r.pick<int>({1, 42, (int)Status::kEndOfFile, (int)Status::kSeekFailed, (int)Status::kWouldBlock, (int)Status::kOkPartial, (int)Status::kInvalidElementValue, (int)Status::kNotEnoughMemory});
      bool fatal = n.code <= -1025;
      ScheduleReader rr(d, 0, 1);
      webm::WebmParser q;
      int st = q.Feed(&n, &rr).code;
      if (!n.fired) { R().viol("nth", "callback count differs from the reference"); break; }
      if (st != n.code) { R().viol("propagation", Fmt("callback %" PRIu64 " (%s) returned %d, Feed returned %d", n.at, whole.log[n.at - 1].substr(0, 60).c_str(), n.code, st)); break; }
      if (n.after) { R().viol("after-fail", "callbacks were invoked after one failed"); break; }
      size_t had = n.log.size();
      int st2 = q.Feed(&n, &rr).code;
      if (fatal) {
        if (st2 != n.code || n.log.size() != had || n.after) R().viol("sticky", Fmt("after parse error %d Feed returned %d and delivered %zu more events", n.code, st2, n.log.size() - had));
      } else {
        std::string dd = Diff(whole.log, n.log);
        if (st2 != 0) R().viol("resume-status", Fmt("resumed Feed returned %d", st2));
        else if (!dd.empty()) R().viol("resume-events:" + DiffKey(whole.log, n.log), dd);
      }
      R().count("failed_callbacks");
    }
  }
  R().count("skips", rec.skipped);
  R().count("suspensions", rec.suspended);
  R().count("exceptions", rec.thrown);
  if (rec.skipped) Observe(rec, d);
  if (rec.skipped > 1) R().sample(Sample(d, rec));
}

// ------------------------------------------------------------------- C19
struct Target { std::vector<size_t> path; uint64_t pos; };
void Targets(const std::vector<Node>& v, std::vector<size_t>& path, const std::vector<uint32_t>& anc, std::vector<Target>* out) {
  for (size_t i = 0; i < v.size(); ++i) {
    path.push_back(i);
    bool bad = false;
    // Recursive elements: only the outermost level can be told from the id.
    int rec = 0;
    for (uint32_t a : anc) if (a == ID_ChapterAtom || a == ID_SimpleTag) ++rec;
    if (v[i].id == ID_ChapterAtom || v[i].id == ID_SimpleTag) ++rec;
    if (rec > 1) bad = true;
    // Void can live anywhere, so a seek to one does not determine its parents.
    if (v[i].id == ID_Void) bad = true;
    if (!bad) out->push_back({path, v[i].pos});
    std::vector<uint32_t> a2 = anc; a2.push_back(v[i].id);
    Targets(v[i].kids, path, a2, out);
    path.pop_back();
  }
}
void ExpectAfterSeek(const std::vector<Node>& top, const Target& t, Ref* ref) {
  // Remaining items in file order with the ancestors' open stack.
  struct Item { const Node* n; };
  std::vector<uint32_t> stack_ids;
  std::vector<Node> kept;
  std::vector<const Node*> items;
  const std::vector<Node>* level = &top;
  std::vector<const std::vector<Node>*> levels;
  for (size_t k = 0; k < t.path.size(); ++k) {
    levels.push_back(level);
    if (k + 1 < t.path.size()) {
      const Node& a = (*level)[t.path[k]];
      stack_ids.push_back(a.id);
      Node kk = NM(a.id);
      kept.push_back(kk);
      level = &a.kids;
    }
  }
  items.push_back(&(*levels.back())[t.path.back()]);
  for (size_t k = levels.size(); k-- > 0;)
    for (size_t i = t.path[k] + 1; i < levels[k]->size(); ++i) items.push_back(&(*levels[k])[i]);
  auto pop = [&]() {
    uint32_t id = stack_ids.back(); Node kk = kept.back();
    stack_ids.pop_back(); kept.pop_back();
    ref->End(id, MdUnknown(id), &kk);
    if (!kept.empty()) kept.back().kids.push_back(kk);
  };
  for (const Node* n : items) {
    while (!stack_ids.empty() && !CoreKid(n->id, stack_ids.back())) pop();
    Node kk;
    bool stored = ref->Walk(*n, stack_ids.empty() ? 0 : stack_ids.back(), &kk);
    if (stored && !kept.empty()) kept.back().kids.push_back(kk);
  }
  while (!stack_ids.empty()) pop();
}
void StripUnknown(std::vector<Node>& v, uint32_t parent, bool top) {
  for (size_t i = 0; i < v.size();) {
    const El* e = FindEl(v[i].id, parent);
    bool drop = !(e && e->core) && (v[i].id != ID_Void || top);
    if (drop) v.erase(v.begin() + i); else { StripUnknown(v[i].kids, v[i].id, false); ++i; }
  }
}
void C19(uint64_t, Rng& r) {
  GenOpt go = PickOpt(r);
  Doc d = GenDoc(r, go);
  StripUnknown(d.top, 0, true);
  bool stretched = r.chance(4);
  if (stretched) { Stretch(d, r); R().count("stretched"); }
  // The end of an enclosing element of known size cannot end a nested one after a seek,
  // so elements that can contain themselves have known sizes here.
  { std::vector<Node*> ns; CollectNodes(d.top, &ns); for (Node* n : ns) if (n->id == ID_SimpleTag || n->id == ID_ChapterAtom) { n->unknown = false; n->size_len = 0; } }
  d.bytes = Layout(d.top, &d.gaps);
  // After a seek the enclosing elements have no known end, so a Void that
  // directly follows an unknown-size element belongs to that element.
  for (bool again = true; again;) {
    again = false;
    std::set<uint64_t> ends;
    std::vector<Node*> ns; CollectNodes(d.top, &ns);
    for (Node* n : ns) if (n->unknown) ends.insert(n->end());
    std::function<void(std::vector<Node>&)> prune = [&](std::vector<Node>& v) {
      for (size_t i = 0; i < v.size();) {
        if (v[i].id == ID_Void && ends.count(v[i].pos)) { v.erase(v.begin() + i); again = true; }
        else { prune(v[i].kids); ++i; }
      }
    };
    prune(d.top);
    d.bytes = Layout(d.top, &d.gaps);
  }
  FixRefs(d.top);
  d.bytes = Layout(d.top, &d.gaps);
  std::vector<Target> ts; std::vector<size_t> path;
  Targets(d.top, path, {}, &ts);
  webm::WebmParser shared;
  bool reuse = r.coin();
  Bytes garbage;
  int rounds = 6;
  for (int k = 0; k < rounds; ++k) {
    const Target& t = ts[r.u(ts.size())];
    webm::WebmParser fresh;
    webm::WebmParser* p = reuse ? &shared : &fresh;
    // Some history before the seek: a partial parse, possibly ending in an error.
    int hist = stretched ? 0 : (int)r.u(4);
    if (hist) {
      Bytes part = hist == 3 ? MutateBytes(d.bytes, r, 4) : d.bytes.substr(0, r.u(d.bytes.size() + 1));
      Rec junk; junk.plan.seed = r.next(); junk.max_calls = 1000000;
      if (r.coin()) junk.plan.skip_pct = 10;
      ScheduleReader jr(part, (int)r.u(3), r.next());
      if (!(reuse && k)) { try { p->Feed(&junk, &jr); } catch (const std::logic_error&) { R().viol("budget", "partial parse exceeded budget"); return; } }
      else { p->DidSeek(); p->Feed(&junk, &jr); }
      R().count("histories");
    }
    p->DidSeek();
    Ref ref; ExpectAfterSeek(d.top, t, &ref);
    Rec rec; rec.plan.seed = r.next(); rec.max_calls = 1000000;
    ScheduleReader rd(d, (int)r.u(4), r.next());
    rd.pos = t.pos;
    if (r.chance(25)) rec.plan.suspend_pct = 10;
    Outcome o = Run(p, &rec, &rd, 2000000);
    const Node* n = nullptr; const std::vector<Node>* lv = &d.top;
    for (size_t i : t.path) { n = &(*lv)[i]; lv = &n->kids; }
    if (o.overrun) { R().viol("progress", o.note); continue; }
    if (!o.note.empty()) { R().viol("propagation", o.note); continue; }
    std::string where = Fmt("seek to %s at %" PRIu64 " (depth %zu): ", ElName(n->id).c_str(), t.pos, t.path.size());
    std::string df = Diff(ref.log, rec.log);
    if (o.status != 0) R().viol("seek-status:" + ElName(n->id), where + Fmt("Feed returned %d; ", o.status) + df);
    else if (!df.empty()) R().viol("seek-events:" + ElName(n->id) + ":" + DiffKey(ref.log, rec.log), where + df);
    R().count("seeks");
    R().count("seek_to:" + ElName(n->id));
    R().count("events", rec.log.size());
    R().sig(Mix(n->id, t.path.size() * 1000 + rec.log.size()));
    if (k == 0) R().sample(where + Fmt("%zu events followed", rec.log.size()));
  }
}

// ------------------------------------------------------------------- C21
// The events of a damaged stream must be a prefix of those of the original up
// to the damage, and the status must not be success.
bool IsPrefix(const std::vector<std::string>& whole, const std::vector<std::string>& part, size_t* at) {
  for (size_t i = 0; i < part.size(); ++i) if (i >= whole.size() || whole[i] != part[i]) { *at = i; return false; }
  return true;
}
void C21(uint64_t, Rng& r) {
  GenOpt go = PickOpt(r);
  go.multi = false;
  Doc d = GenDoc(r, go);
  // Truncation points. A stream whose every open element has unknown size and
  // which is cut between elements is complete; everything else is truncated.
  std::vector<Node*> all; CollectNodes(d.top, &all);
  Ref ref; ref.Doc(d.top);
  Rec whole; whole.plan.seed = 1;
  { ScheduleReader rd(d.bytes, 0, 1); webm::WebmParser p; if (p.Feed(&whole, &rd).code != 0) { R().viol("status", "well-formed stream refused"); return; } }
  auto complete_at = [&](uint64_t cut) {
    // True if cutting at |cut| leaves every enclosing element of unknown size and no partial leaf.
    std::function<bool(const std::vector<Node>&)> f = [&](const std::vector<Node>& v) {
      for (auto& n : v) {
        if (cut <= n.pos || cut > n.end()) continue;
        if (cut < n.pos + n.hdr) return false;
        if (cut == n.end() && !n.unknown) continue;  // fully inside the cut
        if (!n.unknown) return false;
        const El* e = FindElAny(n.id);
        (void)e;
        return f(n.kids);
      }
      return true;
    };
    return f(d.top);
  };
  std::vector<uint64_t> cuts;
  if (d.bytes.size() < 260 || (A().tier && d.bytes.size() < 3000)) for (uint64_t i = 0; i < d.bytes.size(); ++i) cuts.push_back(i);
  else {
    for (int i = 0; i < 25; ++i) cuts.push_back(r.u(d.bytes.size()));
    for (int i = 0; i < 15; ++i) { Node* n = all[r.u(all.size())]; cuts.push_back(n->pos + r.u(n->hdr + 1)); if (n->end() > 0) cuts.push_back(n->end() - 1); }
    cuts.push_back(d.bytes.size() - 1);
  }
  for (uint64_t c : cuts) {
    if (c >= d.bytes.size()) continue;
    Bytes part = d.bytes.substr(0, c);
    Rec rec; rec.plan.seed = 1; rec.max_calls = 2000000;
    ScheduleReader rd(part, (int)r.u(3), r.next());
    webm::WebmParser p;
    int st;
    try { st = Run(&p, &rec, &rd, 1000000).status; } catch (...) { R().viol("throw", "exception"); return; }
    bool comp = complete_at(c);
    if (!comp && st == 0) R().viol("truncation-ok", Fmt("stream of %zu bytes cut at %" PRIu64 " reported as complete", d.bytes.size(), c));
    if (comp && st != 0) R().viol("complete-refused", Fmt("stream cut at element boundary %" PRIu64 " with only open unknown-size elements: status %d", c, st));
    if (!comp && st != Status::kEndOfFile && st != 0) R().viol("truncation-status", Fmt("stream of %zu bytes cut at %" PRIu64 ": status %d instead of end-of-file", d.bytes.size(), c, st));
    if (!comp) {
      size_t at = 0;
      if (!IsPrefix(whole.log, rec.log, &at)) {
        // End of data at an element boundary also ends the open unknown-size
        // elements, so their end events may follow, with what arrived so far.
        std::set<std::string> ends;
        for (Node* n : all) if (n->unknown && n->pos + n->hdr <= c && c < n->end()) ends.insert(Md(*n));
        bool ok = true;
        size_t first = at;
        for (; at < rec.log.size() && ok; ++at) {
          const std::string& e = rec.log[at];
          size_t sp = e.find(' ');
          bool is_end = false;
          for (auto& m : ends) if (e.compare(sp + 1, m.size(), m) == 0 && e.compare(0, 3, "EB ") != 0) is_end = true;
          ok = is_end;
        }
        if (ok) at = rec.log.size(); else at = first;
      } else at = rec.log.size();
      if (at < rec.log.size()) R().viol("truncation-events:" + EvName(rec.log[at]), Fmt("cut at %" PRIu64 ": event %zu <%s> is not an event of the complete stream", c, at, rec.log[at].substr(0, 200).c_str()));
      // Every element whose bytes all arrived before the cut has begun.
    }
    // Feeding again does not turn it into success.
    if (!comp) {
      size_t had = rec.log.size();
      ScheduleReader again(part, 0, 1); again.pos = part.size();
      int st2 = p.Feed(&rec, &again).code;
      if (st2 == 0) R().viol("truncation-refeed", Fmt("cut at %" PRIu64 ": second Feed at end of data reported completion", c));
      if (rec.log.size() != had) R().viol("truncation-refeed-events", "events without data");
    }
    R().count("truncations");
    R().count(comp ? "complete_cuts" : "partial_cuts");
  }
  // Single-element corruption with a known expected status.
  for (int k = 0; k < 14; ++k) {
    std::vector<Node> top = d.top;
    all.clear(); CollectNodes(top, &all);
    Node* n = all[r.u(all.size())];
    uint32_t parent = 0; bool inside_opaque = false, parent_unknown = false; int atom_depth = 0;
    // Find the parent chain.
    std::function<bool(std::vector<Node>&, uint32_t, bool, bool)> find = [&](std::vector<Node>& v, uint32_t pid, bool opaque, bool punk) {
      for (auto& x : v) {
        if (&x == n) { parent = pid; inside_opaque = opaque; parent_unknown = punk; return true; }
        const El* e = FindEl(x.id, pid);
        if (find(x.kids, x.id, opaque || !e || !e->core, x.unknown)) return true;
      }
      return false;
    };
    find(top, 0, false, false);
    (void)atom_depth;
    const El* e = FindEl(n->id, parent);
    if (inside_opaque || !e || !e->core) continue;
    int kind = (int)r.u(15);
    bool skip_it = false;
    std::vector<int> want;
    Bytes b;
    uint64_t dmg = 0;
    bool raw = false;
    std::string what;
    switch (kind) {
      case 0:  // integer longer than 8 bytes
        if (!strchr("UIO", n->type)) continue;
        n->type = 'B'; n->zero = false; n->b = r.bytes(r.range(9, 20)); what = "int>8"; want = {Status::kInvalidElementSize}; break;
      case 1:  // float of a wrong size
        if (n->type != 'F') continue;
        n->type = 'B'; n->zero = false; n->b = r.bytes(r.pick<int>({1, 2, 3, 5, 6, 7, 9, 12})); what = "float size"; want = {Status::kInvalidElementSize}; break;
      case 2:  // date of a wrong size
        if (n->type != 'D') continue;
        n->type = 'B'; n->zero = false; n->b = r.bytes(r.pick<int>({1, 4, 7, 9})); what = "date size"; want = {Status::kInvalidElementSize}; break;
      case 3:  // boolean other than 0/1
        if (n->type != 'O') continue;
        n->zero = false; n->u = r.pick<uint64_t>({2, 3, 255, 256, 1ULL << 32, ~0ULL}); what = "bool value"; want = {Status::kInvalidElementValue}; break;
      case 4: {  // child overflows known-size parent, or size beyond everything
        if (parent == 0 || parent_unknown) continue;
        raw = true; what = "overflow"; want = {Status::kElementOverflow}; break;
      }
      case 5:  // id with no marker
        raw = true; what = "bad id"; want = {Status::kInvalidElementId}; break;
      case 6:  // size with no marker
        raw = true; what = "bad size"; want = {Status::kInvalidElementSize}; break;
      case 7:  // unknown size on a leaf
        if (n->type == 'M') continue;
        n->unknown = true; n->size_len = (int)r.range(1, 8); what = "unknown-size leaf"; want = {Status::kInvalidElementSize}; break;
      case 8: {  // lacing sizes exceeding the block
        if (n->type != 'K' || n->id == ID_BlockVirtual || n->blk->lace == kNoLace || n->blk->lace == kFixed || n->blk->frames.size() < 2) continue;
        uint64_t total = 0; for (size_t i = 0; i + 1 < n->blk->frames.size(); ++i) total += n->blk->frames[i].size();
        size_t keep = n->blk->frame_off[0] + r.u(total + 1);  // last frame would be empty or negative
        n->b.resize(keep); what = "lace sum"; want = {Status::kInvalidElementValue}; break;
      }
      case 9: {  // fixed lacing that does not divide
        if (n->type != 'K' || n->id == ID_BlockVirtual || n->blk->lace != kFixed || n->blk->frames.size() < 2) continue;
        n->b += r.bytes(r.range(1, n->blk->frames.size() - 1)); what = "fixed lace remainder"; want = {Status::kInvalidElementValue}; break;
      }
      case 10:  // block too small for its header
        if (n->type != 'K') continue;
        n->b.resize(r.u(4)); what = "short block"; want = {Status::kInvalidElementSize}; break;
      case 11: {  // nesting beyond the limit
        if (n->id != ID_ChapterAtom && n->id != ID_SimpleTag) continue;
        Node chain = NM(n->id);
        int depth = (int)r.range(40, 60);
        for (int i = 0; i < depth; ++i) { Node up = NM(n->id); up.kids.push_back(chain); chain = up; }
        n->unknown = false; n->kids.push_back(chain); what = "nesting"; want = {Status::kExceededRecursionDepthLimit}; break;
      }
      case 12: {  // EBML lace whose sizes go below zero, or whose sum only fits modulo 2^64
        if (n->type != 'K' || n->id == ID_BlockVirtual || n->b.empty() || !n->b[0]) continue;
        size_t hl = __builtin_clz((uint32_t)(uint8_t)n->b[0]) - 23 + 3;
        if (n->b.size() < hl) continue;
        Bytes nb = n->b.substr(0, hl);
        nb[hl - 1] = (char)(nb[hl - 1] | 6);
        auto delta = [&](int64_t v, int len) { PutSize(&nb, (uint64_t)(v + (1LL << (7 * len - 1)) - 1), len); };
        if (r.u(3)) {
          int c = (int)r.range(3, 12);
          nb += (char)(c - 1);
          int64_t cur = (int64_t)r.u(60), sum = cur; PutSize(&nb, cur, 1);
          int at = (int)r.range(1, c - 2);
          for (int i = 1; i < c - 1; ++i) {
            int64_t dlt = i == at ? -cur - (int64_t)r.range(1, 200) : (int64_t)r.u(120) - 30;
            if (i > at && r.coin()) dlt = -cur + (int64_t)r.u(30);  // back to a possible size
            cur += dlt; sum += cur; delta(dlt, (int)r.range(2, 8));
          }
          nb += r.bytes((size_t)(sum > 0 ? sum : 0) + r.range(1, 300));
        } else {
          const int c = 40; uint64_t s0 = (1ULL << 56) - 2 - r.u(1000), tail = r.u(50);
          // s0 + (s0 + D) + ... = 2^64 + tail
          unsigned __int128 total = ((unsigned __int128)1 << 64) + tail;
          uint64_t D = (uint64_t)((total - (unsigned __int128)c * s0) / (c * (c - 1) / 2)), rem = (uint64_t)((total - (unsigned __int128)c * s0) % (c * (c - 1) / 2));
          nb += (char)c; PutSize(&nb, s0, 8);
          for (int i = 1; i < c; ++i) delta((int64_t)(D + (i == c - 1 ? rem : 0)), 8);
          nb += r.bytes(tail + r.range(1, 100));
        }
        n->b = nb; what = "lace below zero"; want = {Status::kInvalidElementValue}; break;
      }
      case 14:  // element unknown to the parser, of unknown size
        if (parent_unknown || n->id == ID_Segment || n->id == ID_EBML) continue;
        n->id = 0x5ABC; n->unknown = true; n->size_len = (int)r.range(1, 8); what = "unknown element of unknown size"; want = {Status::kIndefiniteUnknownElement}; break;
      case 13: {  // block that ends inside its own header, read or skipped
        if (n->type != 'K' || n->id == ID_BlockVirtual) continue;
        n->b = Bytes(1, '\x01') + r.bytes(r.range(4, 9));
        skip_it = r.coin();
        what = skip_it ? "skipped block within header" : "block within header"; want = {Status::kInvalidElementValue};
        if (!skip_it) want.push_back(Status::kEndOfFile);
        break;
      }
    }
    b = Layout(top);
    if (raw) {
      uint64_t at = n->pos;
      if (kind == 4) {
        // Make the child claim more than its parent has left.
        Node* par = nullptr;
        std::vector<Node*> aa; CollectNodes(top, &aa);
        for (Node* x : aa) for (auto& kk : x->kids) if (&kk == n) par = x;
        if (!par) continue;
        uint64_t room = par->end() - (n->pos + n->hdr);
        int sl = (int)n->hdr - IdLen(n->id);
        uint64_t maxv = (1ULL << (7 * sl)) - 2;
        if (n->unknown || room + 1 > maxv) continue;
        uint64_t v = r.coin() ? room + 1 : room + 1 + r.u(maxv - room);
        Bytes s; PutSize(&s, v, sl); b.replace(n->pos + IdLen(n->id), sl, s);
        dmg = n->pos + n->hdr;
      } else if (kind == 5) {
        // First id byte with none of the 4 markers.
        b[at] = (char)r.u(0x10);
        dmg = at + 1;
      } else {
        if (n->pos + IdLen(n->id) >= b.size()) continue;
        b[n->pos + IdLen(n->id)] = 0;
        dmg = n->pos + IdLen(n->id) + 1;
      }
    } else {
      dmg = n->pos;
    }
    (void)dmg;
    Rec rec; rec.plan.seed = 1; rec.max_calls = 2000000;
    ScheduleReader rd(b, (int)r.u(3), r.next());
    if (skip_it) { rec.skip_block = n->pos; if (b.size() - (n->pos + n->hdr) < 12) want.push_back(Status::kEndOfFile); }
    webm::WebmParser p;
    Outcome o = Run(&p, &rec, &rd, 1000000);
    if (o.overrun) { R().viol("progress", "corrupt stream: " + o.note); continue; }
    bool ok = false; for (int w : want) if (o.status == w) ok = true;
    if (!ok) R().viol("corrupt:" + what, Fmt("%s on %s at %" PRIu64 " in %s: Feed returned %d, expected %d", what.c_str(), ElName(n->id).c_str(), n->pos, ElName(parent).c_str(), o.status, want[0]));
    // Events before the damaged element are those of the undamaged stream.
    Ref rr; rr.Doc(top);  // for layout positions only; compare the leaf-begin events
    {
      // Count the events the undamaged (re-laid-out) stream delivers strictly before the damaged element begins.
      std::string mark = "EB " + Md(*n);
      size_t upto = 0;
      std::vector<std::string> refl = rr.log;
      // Enclosing sizes may differ from the original, so compare against the reference of the damaged tree.
      while (upto < refl.size() && refl[upto] != mark) ++upto;
      // The end of an unknown-size element is only known once the next header has been read.
      if (raw) {
        std::set<std::string> ends;
        std::vector<Node*> aa; CollectNodes(top, &aa);
        for (Node* x : aa) if (x->unknown && x->end() == n->pos) ends.insert(Md(*x));
        auto is_end = [&](const std::string& ev) { size_t sp = ev.find(' '); if (ev.compare(0, 3, "EB ") == 0) return false; for (auto& m : ends) if (ev.compare(sp + 1, m.size(), m) == 0) return true; return false; };
        while (upto > 0 && is_end(refl[upto - 1])) --upto;
      }
      size_t i = 0;
      while (i < upto && i < rec.log.size() && refl[i] == rec.log[i]) ++i;
      if (i < upto) R().viol("corrupt-prefix:" + what, Fmt("before the damage at %" PRIu64 ": expected <%s> got <%s>", n->pos, refl[i].substr(0, 300).c_str(), i < rec.log.size() ? rec.log[i].substr(0, 300).c_str() : "(end)"));
      if (rec.log.size() > upto + (kind == 11 ? 200 : 3)) R().viol("corrupt-after:" + what, Fmt("%zu events delivered after the damaged element", rec.log.size() - upto));
    }
    // Sticky.
    size_t had = rec.log.size();
    ScheduleReader rest(b, 0, 1); rest.pos = rd.pos;
    int st2 = p.Feed(&rec, &rest).code;
    if (st2 != o.status || rec.log.size() != had || (rest.reads && o.status != Status::kEndOfFile)) R().viol("sticky", Fmt("after error %d, Feed returned %d, delivered %zu events, read %" PRIu64 " times", o.status, st2, rec.log.size() - had, rest.reads));
    R().count("corruptions");
    R().count("corrupt:" + what);
    R().sig(Mix(Hash(what), n->id * 7 + parent));
  }
  Observe(whole, d);
  if (whole.log.size() > 10) R().sample(Fmt("doc %zu bytes, %zu events, %zu cuts", d.bytes.size(), whole.log.size(), cuts.size()));
}

// ------------------------------------------------------------------- C16
struct Wild : public webm::Callback {  // arbitrary but contract-abiding callback
  Rng r; uint64_t calls = 0; int chaos; std::vector<std::string> trace; uint64_t nest = 0;
  uint64_t max_calls;
  Wild(uint64_t seed, int c, uint64_t mc) : r(seed), chaos(c), max_calls(mc) {}
  Status S() {
    if (++calls > max_calls) throw std::logic_error("callback budget exceeded");
    if (chaos && (int)r.u(1000) < chaos) { int c = r.pick<int>({-2, -3, -4, 1, 99, -1, -1030}); return Status((std::int32_t)c); }
    return Status(Status::kOkCompleted);
  }
  Status SA(Action* a) { Status s = S(); *a = chaos && r.chance(8) ? Action::kSkip : Action::kRead; return s; }
  Status Body(webm::Reader* rd, uint64_t* left) {
    Status s = S(); if (!s.completed_ok()) return s;
    int style = (int)r.u(3);
    while (*left) {
      if (++calls > max_calls) throw std::logic_error("callback budget exceeded");
      uint64_t got = 0; Status st;
      if (style == 0) { st = rd->Skip(*left, &got); }
      else { uint8_t b[64]; uint64_t w = std::min<uint64_t>(*left, 1 + r.u(64)); st = rd->Read((size_t)w, b, &got); }
      *left -= got;
      if (st.code != 0 && st.code != Status::kOkPartial) return st;
    }
    return Status(Status::kOkCompleted);
  }
  // Touch every delivered value so that the sanitizers see the reads.
  template <class T> Status E(const T& x) { trace.push_back(std::to_string(Hash(D(x)))); if (trace.size() > 64) trace.clear(); return S(); }
  Status OnElementBegin(const ElementMetadata& m, Action* a) override { if (m.header_size == 0) R().viol("md", "zero header size"); return SA(a); }
  Status OnUnknownElement(const ElementMetadata&, webm::Reader* r2, uint64_t* l) override { return Body(r2, l); }
  Status OnVoid(const ElementMetadata&, webm::Reader* r2, uint64_t* l) override { return Body(r2, l); }
  Status OnFrame(const FrameMetadata&, webm::Reader* r2, uint64_t* l) override { return Body(r2, l); }
  Status OnEbml(const ElementMetadata&, const webm::Ebml& x) override { return E(x); }
  Status OnSegmentBegin(const ElementMetadata&, Action* a) override { return SA(a); }
  Status OnSeek(const ElementMetadata&, const webm::Seek& x) override { return E(x); }
  Status OnInfo(const ElementMetadata&, const webm::Info& x) override { return E(x); }
  Status OnClusterBegin(const ElementMetadata&, const webm::Cluster& x, Action* a) override { Status s = E(x); *a = chaos && r.chance(8) ? Action::kSkip : Action::kRead; return s; }
  Status OnSimpleBlockBegin(const ElementMetadata&, const webm::SimpleBlock& x, Action* a) override { Status s = E(x); *a = chaos && r.chance(8) ? Action::kSkip : Action::kRead; return s; }
  Status OnSimpleBlockEnd(const ElementMetadata&, const webm::SimpleBlock& x) override { return E(x); }
  Status OnBlockGroupBegin(const ElementMetadata&, Action* a) override { return SA(a); }
  Status OnBlockBegin(const ElementMetadata&, const webm::Block& x, Action* a) override { Status s = E(x); *a = chaos && r.chance(8) ? Action::kSkip : Action::kRead; return s; }
  Status OnBlockEnd(const ElementMetadata&, const webm::Block& x) override { return E(x); }
  Status OnBlockGroupEnd(const ElementMetadata&, const webm::BlockGroup& x) override { return E(x); }
  Status OnClusterEnd(const ElementMetadata&, const webm::Cluster& x) override { return E(x); }
  Status OnTrackEntry(const ElementMetadata&, const webm::TrackEntry& x) override { return E(x); }
  Status OnCuePoint(const ElementMetadata&, const webm::CuePoint& x) override { return E(x); }
  Status OnEditionEntry(const ElementMetadata&, const webm::EditionEntry& x) override { return E(x); }
  Status OnTag(const ElementMetadata&, const webm::Tag& x) override { return E(x); }
  Status OnSegmentEnd(const ElementMetadata&) override { return S(); }
};
void C16(uint64_t, Rng& r) {
  Bytes b;
  std::string how;
  switch (r.u(6)) {
    case 0: { b = r.bytes(r.u(200)); how = "random"; break; }
    case 1: case 2: { Doc d = GenDoc(r, PickOpt(r)); b = MutateBytes(d.bytes, r, 8); how = "byte-mutated"; break; }
    case 3: case 4: { Doc d = GenDoc(r, PickOpt(r)); b = MutateDoc(d, r); if (r.coin()) b = MutateBytes(b, r, 2); how = "tree-mutated"; break; }
    default: {
      // Random element soup: known ids with random sizes.
      how = "soup";
      int n = (int)r.range(1, 60);
      auto& sc = Schema();
      for (int i = 0; i < n; ++i) {
        const El& e = sc[r.u(sc.size())];
        PutId(&b, e.id);
        uint64_t sz = e.type == 'M' ? r.pick<uint64_t>({0, 5, 50, 500, kUnknown}) : r.pick<uint64_t>({0, 1, 2, 4, 8, 9, 20, kUnknown});
        if (sz == kUnknown) PutUnknownSize(&b, (int)r.range(1, 8)); else PutSize(&b, sz, std::max(SizeLen(sz), (int)r.range(1, 8)));
        if (e.type != 'M' && sz != kUnknown) b += r.bytes(sz);
      }
      break;
    }
  }
  int chaos = r.pick<int>({0, 0, 5, 100});
  uint64_t budget = 200000 + 60 * b.size();
  Wild cb(r.next(), chaos, budget);
  ScheduleReader rd(b, (int)r.u(4), r.next());
  rd.budget = 500000 + 60 * b.size();
  webm::WebmParser p;
  if (r.chance(15)) { p.DidSeek(); rd.pos = r.u(b.size() + 1); }
  int last = 0;
  uint64_t feeds = 0, stall = 0;
  try {
    for (;;) {
      if (++feeds > 100000 + 10 * b.size()) { R().viol("no-progress", how + ": Feed never finished"); break; }
      uint64_t before = rd.pos, c0 = cb.calls;
      last = p.Feed(&cb, &rd).code;
      if (last == Status::kSwitchToSkip) { R().viol("internal-status", "internal status code returned to the user"); break; }
      if (last == 0 || last <= -1025) break;
      bool moved = rd.pos != before || cb.calls != c0;
      if (rd.pos >= b.size() && !moved) break;
      if (last == Status::kEndOfFile && rd.pos >= b.size()) break;
      stall = moved ? 0 : stall + 1;
      if (stall > 2000) { R().viol("no-progress", how + Fmt(": stuck at %" PRIu64 " status %d", rd.pos, last)); break; }
    }
  } catch (const std::logic_error& e) { R().viol("budget", how + ": " + e.what()); return; }
  if (!rd.contract.empty()) R().viol("reader-contract", rd.contract);
  if (last <= -1025) {  // sticky
    uint64_t reads = rd.reads, c0 = cb.calls;
    for (int i = 0; i < 2; ++i) {
      int st = p.Feed(&cb, &rd).code;
      if (st != last || rd.reads != reads || cb.calls != c0) { R().viol("sticky", Fmt("after error %d: returned %d, %" PRIu64 " reads, %" PRIu64 " callbacks", last, st, rd.reads - reads, cb.calls - c0)); break; }
    }
    if (r.chance(30)) {  // recovers after a seek to a good stream
      Rng r2(r.next());
      GenOpt go; go.max_clusters = 1; go.max_blocks = 2;
      Doc d = GenDoc(r2, go);
      Ref ref; ref.Doc(d.top);
      Rec rec; ScheduleReader good(d.bytes, 0, 1);
      p.DidSeek();
      int st = p.Feed(&rec, &good).code;
      std::string df = Diff(ref.log, rec.log);
      if (st != 0 || !df.empty()) R().viol("recover", Fmt("after error and seek: status %d; ", st) + df);
      R().count("recoveries");
    }
  }
  R().count("input:" + how);
  R().count(Fmt("final_status:%d", last));
  R().count("bytes", b.size());
  R().count("callbacks", cb.calls);
  if (cb.calls > 3) R().sig(Hash(b));
  if (cb.calls > 10) R().sample(how + Fmt(": %zu bytes %s, status %d after %" PRIu64 " callbacks", b.size(), Hex(b, 48).c_str(), last, cb.calls));
}

}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"C16", C16}, {"C17", C17}, {"C18", C18}, {"C19", C19}, {"C20", C20}, {"C21", C21}});
}
