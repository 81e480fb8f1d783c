// C31: the readers and writers supplied with the libraries.
#include <fcntl.h>
#include <sys/stat.h>
#include <map>
#include "webm_common.h"

#include <fstream>
#include <istream>

#include "mkvmuxer/mkvwriter.h"
#include "mkvparser/mkvreader.h"
#include "webm/file_reader.h"
#include "webm/istream_reader.h"

namespace {

Bytes GenContent(Rng& r) {
  size_t n;
  switch (r.u(8)) {
    case 0: n = r.u(4); break;
    case 1: n = r.u(40); break;
    case 2: n = r.range(1020, 1030); break;
    case 3: n = r.range(4090, 4102); break;
    case 4: n = 20000 + r.u(30000); break;
    default: n = r.u(6000); break;
  }
  return r.bytes(n);
}

// A FILE backed by memory that can be told to fail.
struct Cookie {
  Bytes d; off64_t pos = 0; bool seekable = true; int read_fail_pct = 0, seek_fail_pct = 0, write_fail_pct = 0, short_pct = 0;
  Rng rng; uint64_t faults = 0; int* live;
  Cookie(const Bytes& b, uint64_t seed, int* l) : d(b), rng(seed), live(l) { ++*live; }
  ~Cookie() { --*live; }
};
ssize_t CkRead(void* c, char* b, size_t n) {
  Cookie* k = (Cookie*)c;
  if (k->read_fail_pct && k->rng.chance(k->read_fail_pct)) { ++k->faults; errno = EIO; return -1; }
  size_t left = k->pos >= (off64_t)k->d.size() ? 0 : k->d.size() - (size_t)k->pos;
  n = std::min(n, left);
  if (n > 1 && k->short_pct && k->rng.chance(k->short_pct)) n = 1 + k->rng.u(n);
  memcpy(b, k->d.data() + k->pos, n);
  k->pos += n;
  return (ssize_t)n;
}
ssize_t CkWrite(void* c, const char* b, size_t n) {
  Cookie* k = (Cookie*)c;
  if (k->write_fail_pct && k->rng.chance(k->write_fail_pct)) {
    ++k->faults; errno = ENOSPC;
    n = k->rng.u(n);   // part of it may have got through
    if (!n) return 0;
  }
  if ((size_t)k->pos + n > k->d.size()) k->d.resize((size_t)k->pos + n, '\0');
  k->d.replace((size_t)k->pos, n, b, n);
  k->pos += n;
  return (ssize_t)n;
}
int CkSeek(void* c, off64_t* o, int w) {
  Cookie* k = (Cookie*)c;
  if (!k->seekable) { errno = ESPIPE; return -1; }
  if (k->seek_fail_pct && k->rng.chance(k->seek_fail_pct)) { ++k->faults; errno = EIO; return -1; }
  off64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? k->pos : (off64_t)k->d.size(), t;
  if (__builtin_add_overflow(base, *o, &t) || t < 0) { errno = EINVAL; return -1; }
  k->pos = *o = t;
  return 0;
}
int CkClose(void* c) { delete (Cookie*)c; return 0; }
FILE* OpenCookie(Cookie* k, const char* mode) {
  cookie_io_functions_t f = {CkRead, CkWrite, CkSeek, CkClose};
  return fopencookie(k, mode, f);
}

// A stream that cannot seek, owned by the istream.
struct PipeBuf : std::streambuf {
  Bytes d; size_t pos = 0; char c; size_t piece;
  PipeBuf(const Bytes& b, size_t p) : d(b), piece(p) {}
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (pos >= d.size()) return traits_type::eof();
    size_t n = std::min(piece, d.size() - pos);
    setg(&d[pos], &d[pos], &d[pos] + n);
    pos += n;
    return traits_type::to_int_type(*gptr());
  }
};
struct PipeStream : std::istream {
  PipeBuf b;
  PipeStream(const Bytes& d, size_t piece) : std::istream(nullptr), b(d, piece) { rdbuf(&b); }
};

FILE* PipeFile(const Bytes& d) {
  int p[2];
  if (pipe(p)) return nullptr;
  fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
  size_t o = 0;
  while (o < d.size()) { ssize_t n = write(p[1], d.data() + o, d.size() - o); if (n <= 0) break; o += (size_t)n; }
  close(p[1]);
  return fdopen(p[0], "rb");
}
bool PipeOk(const Bytes& d) { return d.size() < 60000; }

enum Kind { kBuffer, kFile, kPipe, kCookie, kIString, kIFile, kIPipe, kKinds };
const char* const kNames[] = {"buffer", "file", "pipe", "cookie", "istringstream", "ifstream", "istream_pipe"};

// One reader of any kind, movable within its kind.
struct Any {
  Kind kind;
  webm::BufferReader b; webm::FileReader f; webm::IstreamReader i;
  webm::Reader* get() { return kind == kBuffer ? (webm::Reader*)&b : kind <= kCookie ? (webm::Reader*)&f : (webm::Reader*)&i; }
};
std::unique_ptr<Any> Make(Kind k, const Bytes& d, const std::string& path, Rng& r, int* live, Cookie** ck) {
  std::unique_ptr<Any> a(new Any);
  a->kind = k;
  switch (k) {
    case kBuffer: {
      std::vector<uint8_t> v(d.begin(), d.end());
      if (r.coin()) a->b = webm::BufferReader(v); else a->b = webm::BufferReader(std::move(v));
      break;
    }
    case kFile: { FILE* f = fopen(path.c_str(), "rb"); if (r.chance(20)) setvbuf(f, nullptr, _IONBF, 0); a->f = webm::FileReader(f); break; }
    case kPipe: a->f = webm::FileReader(PipeFile(d)); break;
    case kCookie: {
      Cookie* c = new Cookie(d, r.next(), live);
      if (ck) *ck = c;
      c->seekable = r.chance(60); c->short_pct = r.pick<int>({0, 30, 90});
      a->f = webm::FileReader(OpenCookie(c, "rb"));
      break;
    }
    case kIString: if (r.coin()) a->i = webm::IstreamReader(std::istringstream(d)); else a->i = webm::IstreamReader::Emplace<std::istringstream>(d); break;
    case kIFile: a->i = webm::IstreamReader::Emplace<std::ifstream>(path, std::ios::binary | std::ios::in); break;
    default: a->i = webm::IstreamReader::Emplace<PipeStream>(d, 1 + r.u(300)); break;
  }
  return a;
}

bool BadStatus(int code, uint64_t got, uint64_t want) {
  if (got > want) return true;
  if (code == Status::kOkCompleted) return got != want;
  if (code == Status::kOkPartial) return got == 0 || got >= want;
  return got != 0;
}

uint64_t GenLen(Rng& r, uint64_t left) {
  switch (r.u(7)) {
    case 0: return 1;
    case 1: return 1 + r.u(16);
    case 2: return std::max<uint64_t>(1, left);
    case 3: return left + 1 + r.u(3);
    case 4: return 1 + r.u(left + 1);
    case 5: return r.pick<uint64_t>({1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000});
    default: return 1 + r.u(300);
  }
}

void Readers(Rng& r) {
  Bytes d = GenContent(r);
  std::string path = A().tmp + "/in";
  Kind k = (Kind)r.u(kKinds);
  if (k == kPipe && !PipeOk(d)) k = kFile;
  if (k == kFile || k == kIFile) WriteFile(path, d);
  int live = 0; Cookie* ck = nullptr;
  bool faults = false;
  std::string name = kNames[k], hist = Fmt("%s of %zu bytes:", kNames[k], d.size());
  {
    std::unique_ptr<Any> a = Make(k, d, path, r, &live, &ck);
    if (ck && r.chance(50)) { faults = true; ck->read_fail_pct = (int)r.u(30); ck->seek_fail_pct = (int)r.u(60); }
    uint64_t pos = 0;
    if (a->get()->Position() != 0) R().viol("c31:position:" + name, "a new reader is not at position 0");
    int ops = 1 + (int)r.u(14);
    uint64_t seen = Hash(d);
    for (int i = 0; i < ops; ++i) {
      uint64_t left = pos < d.size() ? d.size() - pos : 0, got = 12345;
      int op = (int)r.u(10);
      if (op < 4) {
        uint64_t n = GenLen(r, left);
        uint8_t* buf = (uint8_t*)malloc(n);
        memset(buf, 0x5a, n);
        int st = a->get()->Read((size_t)n, buf, &got).code;
        hist += Fmt(" R%" PRIu64 "=%d/%" PRIu64, n, st, got);
        if (BadStatus(st, got, n)) { R().viol("c31:read status:" + name, hist); free(buf); return; }
        if (got > left) { R().viol("c31:read too much:" + name, hist); free(buf); return; }
        if (memcmp(buf, d.data() + (left ? pos : 0), (size_t)got)) { R().viol("c31:read bytes:" + name, hist); free(buf); return; }
        for (uint64_t q = got; !faults && q < n; ++q) if (buf[q] != 0x5a) { R().viol("c31:read overrun:" + name, hist); break; }
        if (!faults && got != std::min(n, left)) { R().viol("c31:read short:" + name, hist); free(buf); return; }
        if (!faults && got == 0 && st != Status::kEndOfFile) R().viol("c31:read eof:" + name, hist);
        free(buf);
        pos += got;
        R().count("reads"); R().count("read_bytes", got);
        if (got < n) R().count("short_reads");
      } else if (op < 8) {
        uint64_t n = r.chance(15) ? std::max<uint64_t>(1, r.edgy()) : GenLen(r, left);
        // A seek that glibc refuses only at the file system's size limit moves the FILE all the same.
        if ((k == kFile || k == kIFile) && n > 1ULL << 43 && n < 1ULL << 63) n >>= 21;
        int st = a->get()->Skip(n, &got).code;
        hist += Fmt(" S%" PRIu64 "=%d/%" PRIu64, n, st, got);
        if (BadStatus(st, got, n)) { R().viol("c31:skip status:" + name, hist); return; }
        if (got > left) { R().viol("c31:skip too much:" + name, hist + Fmt(" (%" PRIu64 " left)", left)); return; }
        if (faults && st == Status::kSeekFailed) break;  // the position is lost, and it says so
        if (!faults && left && !got) { R().viol("c31:skip nothing:" + name, hist); return; }
        if (!faults && got == 0 && st != Status::kEndOfFile) R().viol("c31:skip eof:" + name, hist);
        pos += got;
        R().count("skips");
        if (n > left) R().count("skips_past_end");
      } else if (op == 8) {
        if (a->kind < kFile || a->kind > kCookie || faults) { --i; if (r.chance(30)) break; continue; }
        bool can = k == kFile || (k == kCookie && ck->seekable);
        uint64_t to = r.chance(70) ? r.u(d.size() + 1) : r.chance(50) ? d.size() + r.u(5000) : (1ULL << 63) + r.edgy(~0ULL >> 1);
        int st = a->f.Seek(to).code;
        hist += Fmt(" K%" PRIu64 "=%d", to, st);
        if (st == Status::kOkCompleted) {
          if (!can) { R().viol("c31:seek:" + name, hist); return; }
          pos = to;
          R().count("seeks");
        } else {
          if (st != Status::kSeekFailed) R().viol("c31:seek status:" + name, hist);
          if (can && to <= d.size() + 5000) { R().viol("c31:seek refused:" + name, hist); return; }
          R().count("seeks_refused");
        }
      } else {
        // Moves (and copies of the buffer reader).
        std::unique_ptr<Any> o(new Any);
        o->kind = a->kind;
        int how = (int)r.u(5);
        hist += Fmt(" M%d", how);
        if (how == 0) {
          webm::BufferReader b2(std::move(a->b)); webm::FileReader f2(std::move(a->f)); webm::IstreamReader i2(std::move(a->i));
          o->b = std::move(b2); o->f = std::move(f2); o->i = std::move(i2);
        } else if (how == 1) {
          o->b = std::move(a->b); o->f = std::move(a->f); o->i = std::move(a->i);
        } else if (how == 2) {
          webm::BufferReader& b2 = a->b; webm::FileReader& f2 = a->f; webm::IstreamReader& i2 = a->i;
          a->b = std::move(b2); a->f = std::move(f2); a->i = std::move(i2);
          a.swap(o);
        } else if (how == 3) {
          // Something already open is replaced.
          o->b = {1, 2, 3}; o->f = webm::FileReader(fopen("/dev/null", "rb")); o->i = webm::IstreamReader(std::istringstream("xyz"));
          uint64_t g; o->b.Skip(2, &g);
          o->b = std::move(a->b); o->f = std::move(a->f); o->i = std::move(a->i);
        } else {
          if (a->kind != kBuffer) continue;
          webm::BufferReader c2(a->b);
          o->b = c2;
          a->b = o->b;
          a->b = webm::BufferReader();
        }
        a.swap(o);
        if (how != 2) {
          uint8_t x; uint64_t g = 7;
          int st = o->get()->Read(1, &x, &g).code;
          if (g != 0 || st != Status::kEndOfFile) R().viol("c31:moved-from:" + name, hist + Fmt(" read %d/%" PRIu64, st, g));
          g = 7;
          st = o->get()->Skip(1, &g).code;
          if (g != 0 || st != Status::kEndOfFile) R().viol("c31:moved-from:" + name, hist + Fmt(" skip %d/%" PRIu64, st, g));
          if (o->get()->Position() != 0) R().viol("c31:moved-from:" + name, hist + " position");
          if (o->kind >= kFile && o->kind <= kCookie && o->f.Seek(0).code == Status::kOkCompleted) R().viol("c31:moved-from:" + name, hist + " seek");
        }
        R().count("moves");
      }
      if (a->get()->Position() != pos) { R().viol("c31:position:" + name, hist + Fmt(" position %" PRIu64 ", %" PRIu64 " expected", a->get()->Position(), pos)); return; }
      if (a->kind == kBuffer && a->b.size() != d.size()) { R().viol("c31:size", hist); return; }
      seen = Mix(seen, pos * 16 + (uint64_t)op);
    }
    if (faults && ck) R().count("faults", ck->faults);
    R().sig(seen);
    R().sample(hist);
    R().count("reader_" + name);
  }
  if (live) R().viol("c31:file not closed", hist);
  unlink(path.c_str());
}

// The same document through every reader.
void Same(Rng& r) {
  GenOpt o; o.max_clusters = 2; o.max_blocks = 5;
  Doc doc = GenDoc(r, o);
  Bytes d = doc.bytes;
  if (r.chance(25)) d = MutateBytes(d, r, 3);
  if (r.chance(60)) d.resize(r.u(d.size() + 1));
  if (!PipeOk(d)) return;
  Plan plan; plan.seed = r.next(); plan.skip_pct = r.pick<int>({0, 15, 40});
  std::string path = A().tmp + "/doc";
  WriteFile(path, d);
  std::string first, first_name;
  int live = 0;
  uint64_t mk = r.next();
  for (int k = 0; k < kKinds; ++k) {
    Rng r2(mk);
    std::unique_ptr<Any> a = Make((Kind)k, d, path, r2, &live, nullptr);
    webm::WebmParser p;
    Rec rec; rec.plan = plan; rec.max_calls = 2000000;
    int st; uint64_t feeds = 0;
    for (;;) {
      st = p.Feed(&rec, a->get()).code;
      if (st != Status::kOkPartial || ++feeds > 100000) break;
    }
    std::string log = Fmt("status %d position %" PRIu64 "\n", st, a->get()->Position());
    for (auto& e : rec.log) log += e + "\n";
    R().count("parses");
    if (rec.skipped) R().count("parses_with_skips");
    if (k == 0) { first = log; first_name = kNames[k]; R().sig(Hash(log)); continue; }
    if (log != first) {
      size_t i = 0; while (i < log.size() && i < first.size() && log[i] == first[i]) ++i;
      size_t f = i > 100 ? i - 100 : 0;
      R().viol(std::string("c31:same:") + kNames[k], Fmt("%zu bytes; ", d.size()) + first_name + " <" + first.substr(0, 40) + ".." + first.substr(f, 300) + "> " + kNames[k] + " <" + log.substr(0, 40) + ".." + log.substr(f, 300) + ">");
    }
  }
  unlink(path.c_str());
}

// mkvparser's file reader.
void FileRd(Rng& r) {
  Bytes d = GenContent(r);
  std::string path = A().tmp + "/mk";
  std::string hist = Fmt("%zu bytes:", d.size());
  WriteFile(path, d);
  int mode = (int)r.u(5);  // 0,1 Open; 2 FILE; 3 faulty FILE; 4 odd things
  if (mode == 4) {
    mkvparser::MkvReader x;
    long long t = 5, av = 5; unsigned char c = 9;
    if (x.Length(&t, &av) >= 0) R().viol("c31:mkvreader:closed", "Length of a reader that is not open");
    if (x.Read(0, 1, &c) >= 0 || c != 9) R().viol("c31:mkvreader:closed", "Read of a reader that is not open");
    if (x.Open(nullptr) == 0) R().viol("c31:mkvreader:open", "no name");
    if (x.Open((A().tmp + "/missing").c_str()) == 0) R().viol("c31:mkvreader:open", "missing file");
    if (x.Length(&t, &av) >= 0) R().viol("c31:mkvreader:closed", "Length after a failed Open");
    x.Close();
    if (PipeOk(d)) {
      FILE* f = PipeFile(d);
      { mkvparser::MkvReader y(f);
        if (!d.empty() && y.Read(0, 1, &c) == 0 && (char)c != d[0]) R().viol("c31:mkvreader:pipe", "wrong byte from a pipe"); }
      mkvparser::MkvReader z;
      if (z.Open(Fmt("/dev/fd/%d", fileno(f)).c_str()) == 0) R().viol("c31:mkvreader:pipe", "a pipe, whose length is not known, was opened");
      fclose(f);
      R().count("mkvreader_pipes");
    }
    mkvparser::MkvReader z;
    unsigned char b[8];
    if (z.Open(A().tmp.c_str()) == 0 && z.Read(0, 8, b) == 0) R().viol("c31:mkvreader:directory", "read bytes of a directory");
    unlink(path.c_str());
    R().count("mkvreader_odd");
    return;
  }
  FILE* f = nullptr; int live = 0; Cookie* ck = nullptr;
  std::unique_ptr<mkvparser::MkvReader> m;
  bool exact = true;
  if (mode < 2) {
    m.reset(new mkvparser::MkvReader);
    if (m->Open(path.c_str()) != 0) { R().viol("c31:mkvreader:open", hist + " refused"); return; }
    if (m->Open(path.c_str()) == 0) R().viol("c31:mkvreader:open", "opened twice");
  } else {
    if (mode == 2) f = fopen(path.c_str(), "rb");
    else { ck = new Cookie(d, r.next(), &live); ck->short_pct = (int)r.u(60); f = OpenCookie(ck, "rb"); }
    if (r.coin()) { char t[64]; if (fread(t, 1, r.u(64), f)) {} }
    m.reset(new mkvparser::MkvReader(f));
    if (ck && r.chance(60)) { ck->read_fail_pct = (int)r.u(30); ck->seek_fail_pct = (int)r.u(60); exact = false; }
  }
  int ops = 1 + (int)r.u(12);
  bool truncated = false;
  for (int i = 0; i < ops; ++i) {
    long long t = -7, av = -7;
    int ls = r.chance(30) ? m->Length(nullptr, nullptr) : m->Length(&t, &av);
    if (ls != 0 || (t != -7 && (t != (long long)d.size() || av != t))) { R().viol("c31:mkvreader:length", hist + Fmt(" %d %lld %lld", ls, t, av)); break; }
    if (!f && !truncated && r.chance(5)) { if (truncate(path.c_str(), (off_t)r.u(d.size() + 1)) == 0) truncated = true; hist += " T"; exact = false; R().count("truncated_under"); }
    long long off; long len;
    off = r.chance(85) ? (long long)r.u(d.size() + 2) : r.chance(50) ? -(long long)(1 + r.edgy(1ULL << 62)) : (long long)r.edgy(~0ULL >> 1);
    uint64_t left = off >= 0 && off < (long long)d.size() ? d.size() - (uint64_t)off : 0;
    len = r.chance(5) ? 0 : r.chance(5) ? -(long)(1 + r.u(100)) : (long)GenLen(r, left);
    size_t cap = len > 0 ? (size_t)len : 0;
    unsigned char* b = (unsigned char*)malloc(cap ? cap : 1);
    int st = m->Read(off, len, b);
    hist += Fmt(" %lld+%ld=%d", off, len, st);
    bool inside = off >= 0 && len >= 0 && (uint64_t)len <= left;
    if (len != 0) {
      if (st == 0 && !inside) R().viol("c31:mkvreader:outside", hist);
      else if (st == 0 && memcmp(b, d.data() + off, (size_t)len)) R().viol("c31:mkvreader:bytes", hist);
      if (st != 0 && inside && exact) R().viol("c31:mkvreader:refused", hist);
      if (st > 0) R().viol("c31:mkvreader:positive", hist);  // "not yet available" is never right for a file
    }
    free(b);
    R().count(inside ? "mkvreader_reads" : "mkvreader_outside");
  }
  if (ck) R().count("faults", ck->faults);
  if (f) {
    m.reset();
    // The file belongs to the caller and is still open.
    if (ck) ck->read_fail_pct = ck->seek_fail_pct = 0;
    clearerr(f);
    char c;
    if (fseek(f, 0, SEEK_SET) || fread(&c, 1, 1, f) != (d.empty() ? 0u : 1u)) R().viol("c31:mkvreader:owner", hist + " the caller's file is not usable");
    if (ck && !live) R().viol("c31:mkvreader:owner", "the caller's file was closed");
    else fclose(f);
    R().count("mkvreader_files");
  } else {
    m->Close();
    long long t, av; unsigned char c;
    if (m->Length(&t, &av) >= 0 || m->Read(0, 1, &c) >= 0) R().viol("c31:mkvreader:closed", "usable after Close");
    WriteFile(path, d);
    if (r.coin()) {
      if (m->Open(path.c_str()) != 0 || m->Length(&t, &av) != 0 || t != (long long)d.size()) R().viol("c31:mkvreader:reopen", hist);
    }
  }
  R().sig(Hash(hist));
  R().sample("mkvreader " + hist);
  unlink(path.c_str());
}

// mkvmuxer's file writer.
void FileWr(Rng& r) {
  std::string path = A().tmp + "/out";
  std::string hist;
  unlink(path.c_str());
  int mode = (int)r.u(5);  // 0,1 Open; 2 FILE; 3 failing FILE; 4 /dev/full
  FILE* f = nullptr; int live = 0; Cookie* ck = nullptr;
  std::unique_ptr<mkvmuxer::MkvWriter> w;
  Bytes model; int64_t pos = 0;
  if (mode < 2) {
    w.reset(new mkvmuxer::MkvWriter);
    uint8_t c = 1;
    if (w->Write(&c, 1) == 0 || w->Position() > 0 || w->Position(0) == 0) R().viol("c31:mkvwriter:closed", "a writer that is not open wrote");
    if (w->Open(nullptr)) R().viol("c31:mkvwriter:open", "no name");
    if (w->Open((A().tmp + "/no/such/dir").c_str())) R().viol("c31:mkvwriter:open", "impossible path");
    if (r.coin()) WriteFile(path, r.bytes(r.u(5000)));  // previous contents must go
    if (!w->Open(path.c_str())) { R().viol("c31:mkvwriter:open", "refused"); return; }
    if (w->Open((path + "2").c_str())) R().viol("c31:mkvwriter:open", "opened twice");
    if (!access((path + "2").c_str(), F_OK)) R().viol("c31:mkvwriter:open", "a refused Open created a file");
  } else {
    if (mode == 4) { f = fopen("/dev/full", "wb"); setvbuf(f, nullptr, _IONBF, 0); }
    else if (mode == 3) { ck = new Cookie("", r.next(), &live); ck->write_fail_pct = r.pick<int>({0, 15, 50}); ck->seek_fail_pct = r.pick<int>({0, 30}); f = OpenCookie(ck, "wb"); setvbuf(f, nullptr, _IONBF, 0); }
    else f = fopen(path.c_str(), "wb");
    w.reset(new mkvmuxer::MkvWriter(f));
  }
  if (!w->Seekable()) R().viol("c31:mkvwriter:seekable", "a file writer is not seekable");
  int ops = 1 + (int)r.u(16);
  bool lost = false;
  for (int i = 0; i < ops && !lost; ++i) {
    int op = (int)r.u(10);
    if (op < 6) {
      uint32_t n = r.chance(5) ? 0 : (uint32_t)GenLen(r, model.size() > (size_t)pos ? model.size() - (size_t)pos : 0);
      Bytes b = r.bytes(n);
      uint8_t* exact = (uint8_t*)malloc(n ? n : 1);
      memcpy(exact, b.data(), n);
      uint64_t before = ck ? ck->faults : 0;
      int st = w->Write(exact, n);
      free(exact);
      hist += Fmt(" W%u=%d", n, st);
      if (mode == 4) { if (n && st == 0) R().viol("c31:mkvwriter:full", hist + " reported as written to a full device"); R().count("writes_to_full"); continue; }
      bool fault = ck && ck->faults != before;
      if (fault && st == 0 && n) R().viol("c31:mkvwriter:fault", hist + " a failed write was reported as done");
      if (!fault && st != 0) R().viol("c31:mkvwriter:refused", hist);
      if (fault || st) { lost = true; break; }
      if ((size_t)pos + n > model.size() && n) model.resize((size_t)pos + n, '\0');
      if (n) model.replace((size_t)pos, n, b);
      pos += n;
      R().count("writes");
    } else if (op < 8) {
      int64_t to = r.chance(90) ? (int64_t)r.u(model.size() + 1) : r.chance(60) ? (int64_t)(model.size() + r.u(3000)) : -(int64_t)(1 + r.u(1000));
      uint64_t before = ck ? ck->faults : 0;
      int st = w->Position(to);
      hist += Fmt(" P%" PRId64 "=%d", to, st);
      bool fault = (ck && ck->faults != before) || mode == 4;
      if (to < 0 && st == 0 && mode != 4) R().viol("c31:mkvwriter:position", hist + " negative position");
      if (to >= 0 && !fault && st != 0) R().viol("c31:mkvwriter:position", hist);
      if (fault && st == 0 && mode != 4) R().viol("c31:mkvwriter:position", hist + " a failed seek was reported as done");
      if (fault) { lost = true; break; }
      if (st == 0) pos = to;
      R().count("writer_seeks");
    } else if (op == 8) {
      if (w->Write(nullptr, 1 + (uint32_t)r.u(100)) == 0) R().viol("c31:mkvwriter:null", "no buffer");
      if (w->Write(nullptr, 0) != 0 && false) R().viol("c31:mkvwriter:null", "");
    } else {
      w->ElementStartNotify(r.next(), (int64_t)r.u(1000));
    }
    if (mode != 4 && w->Position() != pos) {
      uint64_t before = ck ? ck->faults : 0;
      int64_t again = w->Position();
      if (!ck || (!ck->seek_fail_pct && ck->faults == before)) { R().viol("c31:mkvwriter:position", hist + Fmt(" at %" PRId64 ", %" PRId64 " expected", again, pos)); break; }
    }
  }
  if (ck) { R().count("faults", ck->faults); ck->write_fail_pct = ck->seek_fail_pct = 0; }
  if (f) {
    w.reset();
    if (ck && !live) { R().viol("c31:mkvwriter:owner", "the caller's file was closed"); }
    else {
      if (mode == 2 && fwrite("!", 1, 1, f) != 1) R().viol("c31:mkvwriter:owner", "the caller's file is not usable");
      if (mode == 2) { if ((size_t)pos + 1 > model.size()) model.resize((size_t)pos + 1, '\0'); model[(size_t)pos] = '!'; }
      if (ck && !lost && ck->d != model) R().viol("c31:mkvwriter:bytes", hist);
      fclose(f);
    }
    R().count("writer_files");
  } else if (r.coin()) w->Close();
  else w.reset();
  if (mode < 3) {
    Bytes got;
    if (!ReadFile(path, &got) || got != model) {
      size_t i = 0; while (i < got.size() && i < model.size() && got[i] == model[i]) ++i;
      R().viol("c31:mkvwriter:bytes", hist + Fmt(" file has %zu bytes, %zu expected, differ at %zu", got.size(), model.size(), i));
    }
    R().count("files_compared");
    if (w) {
      uint8_t c = 1;
      if (w->Write(&c, 1) == 0) R().viol("c31:mkvwriter:closed", "wrote after Close");
      if (r.coin()) {
        if (!w->Open(path.c_str()) || w->Position() != 0) R().viol("c31:mkvwriter:reopen", hist);
        w->Close();
        if (ReadFile(path, &got) && !got.empty()) R().viol("c31:mkvwriter:reopen", "old contents left");
      }
    }
  }
  unlink(path.c_str());
  R().sig(Hash(hist));
  R().sample("mkvwriter" + hist);
}

// Positions beyond 2^31 and 2^32, in a file that is mostly holes.
struct Sparse {
  std::map<uint64_t, uint8_t> m;
  uint64_t size = 0;
  void Put(uint64_t pos, const Bytes& b) {
    for (size_t i = 0; i < b.size(); ++i) m[pos + i] = (uint8_t)b[i];
    if (!b.empty()) size = std::max<uint64_t>(size, pos + b.size());
  }
  Bytes Get(uint64_t pos, uint64_t len) const {
    Bytes o;
    for (uint64_t i = 0; i < len && pos + i < size; ++i) { auto it = m.find(pos + i); o.push_back(it == m.end() ? 0 : (char)it->second); }
    return o;
  }
};
void Large(Rng& r) {
  std::string path = A().tmp + "/big", hist = "large:";
  unlink(path.c_str());
  { int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600); bool ok = fd >= 0 && ftruncate(fd, 1LL << 41) == 0; if (fd >= 0) close(fd); unlink(path.c_str()); if (!ok) { R().count("no_sparse_files"); return; } }
  std::vector<uint64_t> marks;
  for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) marks.push_back((1ULL << r.pick<int>({31, 31, 32, 32, 33, 40})) - r.u(40));
  marks.push_back(0);
  auto near = [&]() { return r.pick(marks) + r.u(80); };
  Sparse model; uint64_t pos = 0;
  {
    mkvmuxer::MkvWriter w;
    if (!w.Open(path.c_str())) { R().viol("c31:mkvwriter:open", "refused"); return; }
    for (int i = 0, n = (int)r.range(2, 14); i < n; ++i) {
      if (r.coin()) {
        Bytes b = r.bytes(r.range(1, 60));
        if (w.Write(b.data(), (uint32_t)b.size()) != 0) { R().viol("c31:mkvwriter:refused", hist + Fmt(" write at %" PRIu64, pos)); return; }
        model.Put(pos, b); pos += b.size();
        hist += Fmt(" W%zu", b.size());
      } else {
        uint64_t to = near();
        if (w.Position((int64_t)to) != 0) { R().viol("c31:mkvwriter:position", hist + Fmt(" position %" PRIu64 " refused", to)); return; }
        pos = to;
        hist += Fmt(" P%" PRIu64, to);
      }
      if (w.Position() != (int64_t)pos) { R().viol("c31:mkvwriter:told", hist + Fmt(" position %" PRId64 ", %" PRIu64 " expected", w.Position(), pos)); return; }
    }
    w.Close();
  }
  struct stat sb;
  if (stat(path.c_str(), &sb) != 0 || (uint64_t)sb.st_size != model.size) { R().viol("c31:mkvwriter:contents", hist + Fmt(" left %lld bytes, %" PRIu64 " expected", (long long)sb.st_size, model.size)); return; }
  if (!model.size) { unlink(path.c_str()); return; }
  auto inside = [&]() { uint64_t p = near(); return p < model.size ? p : r.u(2) ? model.size - std::min<uint64_t>(model.size, r.range(1, 50)) : r.u(model.size); };
  {
    mkvparser::MkvReader m;
    long long t = 0, av = 0;
    if (m.Open(path.c_str()) != 0 || m.Length(&t, &av) != 0 || t != (long long)model.size || av != t) { R().viol("c31:mkvreader:length", hist + Fmt(" length %lld, available %lld", t, av)); return; }
    for (int i = 0; i < 8; ++i) {
      uint64_t p = inside(), n = std::min<uint64_t>(r.range(1, 80), model.size - p);
      Bytes b(n, 'Z');
      if (m.Read((long long)p, (long)n, (unsigned char*)&b[0]) != 0 || b != model.Get(p, n)) { R().viol("c31:mkvreader:bytes", hist + Fmt(" read %" PRIu64 "+%" PRIu64, p, n)); return; }
      if (m.Read((long long)(model.size - n + 1), (long)n, (unsigned char*)&b[0]) == 0) { R().viol("c31:mkvreader:past end", hist); return; }
    }
    m.Close();
  }
  for (int kind = 0; kind < 2; ++kind) {
    const char* name = kind ? "ifstream" : "file";
    webm::FileReader f; webm::IstreamReader is;
    if (kind == 0) f = webm::FileReader(fopen(path.c_str(), "rb")); else is = webm::IstreamReader::Emplace<std::ifstream>(path, std::ios::binary | std::ios::in);
    webm::Reader* a = kind ? (webm::Reader*)&is : (webm::Reader*)&f;
    pos = 0;
    for (int i = 0; i < 10; ++i) {
      uint64_t got = 0;
      if (kind == 0 && r.chance(25)) {
        uint64_t to = inside();
        if (f.Seek(to).code != Status::kOkCompleted) { R().viol("c31:seek refused:file", hist + Fmt(" %" PRIu64, to)); return; }
        pos = to; hist += Fmt(" K%" PRIu64, to);
      } else if (r.coin()) {
        uint64_t to = inside();
        if (to <= pos) continue;
        int st = a->Skip(to - pos, &got).code;
        hist += Fmt(" S%" PRIu64, to - pos);
        if (st != Status::kOkCompleted || got != to - pos) { R().viol(std::string("c31:skip:large:") + name, hist + Fmt(" = %d, %" PRIu64, st, got)); return; }
        pos = to;
        R().count("large_skips");
      } else {
        uint64_t n = r.range(1, 80);
        Bytes b(n, 'Z'), want = model.Get(pos, n);
        int st = a->Read(n, (uint8_t*)&b[0], &got).code;
        hist += Fmt(" R%" PRIu64, n);
        if (got != want.size() || b.compare(0, got, want) || BadStatus(st, got, n)) { R().viol(std::string("c31:read:large:") + name, hist + Fmt(" = %d, %" PRIu64, st, got)); return; }
        pos += got;
      }
      if (a->Position() != pos) { R().viol(std::string("c31:position:large:") + name, hist + Fmt(" position %" PRIu64 ", %" PRIu64 " expected", a->Position(), pos)); return; }
    }
  }
  unlink(path.c_str());
  R().count("large_files");
  R().sig(Hash(hist));
  R().sample(hist);
}

void C31(uint64_t, Rng& r) {
  if (r.chance(3)) return Large(r);
  switch (r.u(10)) {
    case 0: Same(r); break;
    case 1: case 2: FileRd(r); break;
    case 3: case 4: FileWr(r); break;
    default: Readers(r); break;
  }
}

}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, {{"C31", C31}}); }
