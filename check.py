#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

  check.py <ID> [--tier quick|thorough] [--seed N] [--scale F]
  check.py --replay FILE
  check.py --build-all

Exit 0: held on everything explored. Exit 1: violated (VIOLATION line).
Exit 2: the check itself could not do its work.
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks import PROPS, HARNESSES  # noqa: E402

JOBS = os.cpu_count() or 4
CXX = "clang++"
BASE = ["-std=gnu++14", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
        "-w", "-I" + REPO, "-I" + REPO + "/webm_parser", "-I" + REPO + "/webm_parser/include"]
MODES = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-DWEBM_FUZZER_BYTE_ELEMENT_SIZE_LIMIT=33554432"],
    "tsan": ["-O1", "-fsanitize=thread", "-DWEBM_FUZZER_BYTE_ELEMENT_SIZE_LIMIT=33554432"],
}
ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=77:detect_leaks=1:allocator_may_return_null=1:"
                       "detect_stack_use_after_return=1:strict_string_checks=1:"
                       "max_allocation_size_mb=3000:handle_abort=1:allow_user_segv_handler=0")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
ENV["LSAN_OPTIONS"] = "print_suppressions=0:exitcode=78"
ENV["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:second_deadlock_stack=1"
for s in ("/usr/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18", "/usr/lib/llvm-18/bin/llvm-symbolizer"):
    if os.path.exists(s):
        ENV["ASAN_SYMBOLIZER_PATH"] = s
        ENV["TSAN_SYMBOLIZER_PATH"] = s
        ENV["UBSAN_SYMBOLIZER_PATH"] = s
        break


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def headers_hash(kind):
    if kind in _hdr:
        return _hdr[kind]
    h = hashlib.sha256()
    files = []
    if kind == "repo":
        for d, dirs, fs in os.walk(REPO):
            dirs[:] = sorted(x for x in dirs if x not in (".git", "_build", "testdata"))
            files += [os.path.join(d, f) for f in sorted(fs) if f.endswith((".h", ".hpp", ".inc"))]
    else:
        for sub in ("lib", "harness"):
            for f in sorted(os.listdir(os.path.join(HERE, sub))):
                if f.endswith(".h"):
                    files.append(os.path.join(HERE, sub, f))
    for f in files:
        h.update(f.encode())
        h.update(read(f))
    _hdr[kind] = h.hexdigest()
    return _hdr[kind]


def lib_sources(dirs):
    out = []
    for d in dirs:
        p = os.path.join(REPO, d)
        if p.endswith(".cc"):
            out.append(p)
            continue
        if not os.path.isdir(p):
            raise CheckError("missing source directory " + p)
        for f in sorted(os.listdir(p)):
            if f.endswith(".cc") and not f.endswith(("_test.cc", "_tests.cc", "_main.cc", "_fuzzer.cc")):
                out.append(os.path.join(p, f))
    return out


def compile_one(src, flags, ours):
    key = sha(src, " ".join(flags), read(src), headers_hash("repo"), headers_hash("verif") if ours else "")
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(name):
    """Builds the named harness from the current tree; returns the binary."""
    h = HARNESSES[name]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags = BASE + MODES[h.get("mode", "asan")] + h.get("flags", [])
    hflags = flags + h.get("hflags", [])
    jobs = [(os.path.join(HERE, "harness", s), hflags, True) for s in h["main"]]
    jobs += [(s, flags, False) for s in lib_sources(h["dirs"])]
    for extra, ex in h.get("extra", []):
        jobs.append((os.path.join(REPO, extra), flags + ex, False))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    out = os.path.join(BUILD, "bin", name + "-" + sha(*(objs + flags)))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + objs + ["-o", tmp] + h.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.rename(tmp, out)
    if "tools" in h:
        for tool, t in h["tools"].items():
            ENV["VERIF_TOOL_" + tool] = build_tool(name, tool, t, flags)
    return out


def build_tool(name, tool, t, flags):
    """Builds a command-line tool of the tree as a server (harness/tool_driver.cc)."""
    jobs = [(os.path.join(HERE, "harness", "tool_driver.cc"), flags, True)]
    jobs += [(os.path.join(REPO, m), flags, False) for m in t["main"]]
    jobs += [(s, flags, False) for s in lib_sources(t["dirs"])]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    out = os.path.join(BUILD, "bin", tool + "-" + sha(*(objs + flags)))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + objs + ["-Wl,--wrap=main", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (tool, r.stdout[-4000:]))
        os.rename(tmp, out)
    return out


# ------------------------------------------------------------------ running
def clean_func(f):
    f = re.sub(r"\(anonymous namespace\)", "anon", f)
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"<.*", "", f)
    return f.strip().split(" ")[-1]


def crash_key(err, rc):
    """A stable name for a crash: sanitizer kind and innermost library function."""
    kind = None
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        kind = "assert(" + m.group(1)[:80] + ")"
    m = re.search(r"runtime error: (.*)", err)
    if not kind and m:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
    m = re.search(r"ERROR: (Address|Thread|Leak)Sanitizer: ([\w-]+)", err)
    if not kind and m:
        kind = m.group(1).lower()[0] + "san:" + m.group(2)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if not kind and m:
        kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    if not kind and re.search(r"terminate called|libc\+\+abi", err):
        kind = "uncaught-exception"
    if not kind:
        kind = "exit:%d" % rc
    fn = ""
    for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", err, re.M):
        if m.group(2).startswith(REPO + "/"):
            fn = clean_func(m.group(1))
            break
    return "crash:" + kind + (":" + fn if fn else "")


class Shard:
    def __init__(self, binary, prop, cfg, seed, tier, lo, hi, tmp, idx, deadline, known):
        self.a = (binary, prop, cfg, seed, tier, tmp, idx, deadline)
        self.lo, self.hi, self.known = lo, hi, known
        self.viols, self.reports, self.notes = [], [], []
        self.done_cases = 0

    def cmd(self, lo, hi, cur, cpu, tmp):
        binary, prop, cfg, seed, tier = self.a[:5]
        c = [binary, cfg.get("suite", prop), "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--cur", cur,
             "--tmp", tmp, "--tier", "1" if tier == "thorough" else "0", "--cpu", str(cpu)]
        return c + cfg.get("args", [])

    def run_once(self, lo, hi, cpu, timeout):
        tmp = tempfile.mkdtemp(prefix="s%d-" % self.a[6], dir=self.a[5])
        cur = os.path.join(tmp, "cur")
        work = os.path.join(tmp, "w")
        os.mkdir(work)
        with open(os.path.join(tmp, "out"), "wb") as fo, open(os.path.join(tmp, "err"), "wb") as fe:
            p = subprocess.Popen(self.cmd(lo, hi, cur, cpu, work), stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=ENV, cwd=work, start_new_session=True)
            timed = False
            try:
                p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                timed = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out = read(os.path.join(tmp, "out")).decode("utf8", "replace")
        err = read(os.path.join(tmp, "err")).decode("utf8", "replace")
        case = lo
        try:
            case = struct.unpack("<Q", read(cur)[:8])[0]
        except Exception:
            pass
        shutil.rmtree(tmp, ignore_errors=True)
        return p.returncode, out, err, case, timed

    def collect(self, out):
        rep = False
        for line in out.splitlines():
            if line.startswith("VIOL "):
                try:
                    self.viols.append(json.loads(line[5:]))
                except ValueError:
                    self.viols.append({"case": 0, "key": "garbled", "msg": line})
            elif line.startswith("REPORT "):
                self.reports.append(json.loads(line[7:]))
                rep = True
        return rep

    def run(self):
        cfg, deadline = self.a[2], self.a[7]
        cpu = cfg.get("cpu", 20)
        lo, restarts = self.lo, 0
        while lo < self.hi:
            left = deadline - time.time()
            if left < 5:
                self.notes.append("deadline at case %d" % lo)
                return
            rc, out, err, case, timed = self.run_once(lo, self.hi, cpu, left)
            rep = self.collect(out)
            if rc == 0 and rep:
                return
            if timed:
                self.notes.append("deadline during case %d" % case)
                return
            if rc == 97:  # leak found in a batch: LEAK a b
                m = re.search(r"^LEAK (\d+) (\d+)", out, re.M)
                a, b = (int(m.group(1)), int(m.group(2))) if m else (lo, case + 1)
                found = None
                for c in range(a, b):
                    r2, o2, e2, _, _ = self.run_once(c, c + 1, cpu, 120)
                    if r2 == 97:
                        found = (c, e2)
                        break
                c, e2 = found if found else (a, err)
                key = "leak"
                for m in re.finditer(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+", e2, re.M):
                    if m.group(2).startswith(REPO + "/"):
                        key += ":" + clean_func(m.group(1))
                        break
                self.viols.append({"case": c, "key": key, "msg": e2[:3000]})
                lo = b
            elif rc == 99:  # cpu limit in one case: confirm alone with more time
                r2, o2, e2, _, t2 = self.run_once(case, case + 1, cpu * 4, cpu * 30)
                if r2 == 99 or t2:
                    self.viols.append({"case": case, "key": "hang", "msg": "case used more than %d s of CPU" % (cpu * 4)})
                else:
                    self.collect(o2)
                    self.notes.append("slow case %d" % case)
                lo = case + 1
            else:
                if rc == 77 or "Sanitizer" in err or "runtime error" in err or "Assertion" in err or rc < 0 or "terminate called" in err:
                    self.viols.append({"case": case, "key": crash_key(err, rc), "msg": err[:4000]})
                    lo = case + 1
                else:
                    raise CheckError("harness ended with %d at case %d:\n%s\n%s" % (rc, case, out[-1000:], err[-2000:]))
            restarts += 1
            if restarts > cfg.get("restarts", 6):
                self.notes.append("stopped after %d restarts" % restarts)
                return


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def match_known(known, v):
    for k in known:
        if re.fullmatch(k["key"], v["key"]) and re.search(k.get("msg", ""), v["msg"]):
            return k
    return None


def run_prop(prop, tier, seed, scale):
    t0 = time.time()
    cfg = PROPS[prop]
    binary = build(cfg["harness"])
    tbuild = time.time() - t0
    known = load_known(prop)
    n = int(cfg["quick"] * scale) if tier == "quick" else int(cfg.get("thorough", cfg["quick"] * 20) * scale)
    n = max(n, JOBS)
    limit = cfg.get("limit", 600) if tier == "quick" else 4 * 3600
    deadline = time.time() + limit
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    shards = []
    try:
        per = cfg.get("chunk") or (n + JOBS - 1) // JOBS
        lo = 0
        while lo < n:
            hi = min(n, lo + per)
            shards.append(Shard(binary, prop, cfg, seed, tier, lo, hi, tmp, len(shards), deadline, known))
            lo = hi
        with concurrent.futures.ThreadPoolExecutor(cfg.get("jobs", JOBS)) as ex:
            for f in [ex.submit(s.run) for s in shards]:
                f.result()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    viols = [v for s in shards for v in s.viols]
    events, sigs, samples, evals = {}, set(), [], 0
    for s in shards:
        for r in s.reports:
            evals += r["evaluations"]
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
            sigs.update(r["sigs"])
            if len(samples) < 4:
                samples += r["samples"][:1]
    notes = [x for s in shards for x in s.notes]
    new, old = {}, {}
    for v in viols:
        k = match_known(known, v)
        if k:
            old.setdefault(k["id"], (k, v))
        else:
            new.setdefault(v["key"], v)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": cfg["rule"],
                       "samples": samples or ["none"], "observed": dict(sorted(events.items())),
                       "cases_planned": n, "notes": notes[:20], "known_findings_seen": sorted(old)},
          "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    ev["coverage"]["build_s"] = round(tbuild, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid in sorted(old):
        k, v = old[kid]
        print("KNOWN-FINDING: property=%s %s (case %d)" % (prop, k["what"], v["case"]))
    if new:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for key, v in list(new.items())[:10]:
            path = os.path.join(HERE, "replay", "%s-%s.json" % (prop, sha(key)[:10]))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed, "case": v["case"], "key": key, "msg": v["msg"],
                           "command": "python3 %s/check.py --replay %s" % (HERE, path)}, f, indent=1)
            print("violation: %s: %s" % (key, v["msg"][:600].replace("\n", "\n    ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # A run that observed nothing decides nothing.
    short = [k for k in cfg.get("need", []) if not events.get(k)]
    if evals == 0 or len(sigs) < cfg.get("min_sigs", 2) or short:
        raise CheckError("the monitors observed too little: %d evaluations, %d distinct, missing %s; %s" % (evals, len(sigs), short, notes))
    if evals < n and not old and evals < n // 4:
        raise CheckError("only %d of %d cases ran: %s" % (evals, n, notes))
    print("%s held: %d evaluations, %d distinct; build %.0f s, total %.0f s" % (prop, evals, len(sigs), tbuild, time.time() - t0))
    return 0


def replay(path):
    r = json.load(open(path))
    cfg = PROPS[r["property"]]
    binary = build(cfg["harness"])
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        s = Shard(binary, r["property"], cfg, r["seed"], r["tier"], r["case"], r["case"] + 1, tmp, 0, time.time() + 600, [])
        s.run()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for v in s.viols:
        print(v["key"] + ": " + v["msg"])
    if s.viols:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1 if s.viols else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    prop = None
    i = 0
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--seed":
            seed = int(a[i + 1]); i += 1
        elif a[i] == "--scale":
            scale = float(a[i + 1]); i += 1
        elif a[i] == "--replay":
            return replay(a[i + 1])
        elif a[i] == "--build-all":
            for n in HARNESSES:
                print(n, build(n))
            return 0
        else:
            prop = a[i]
        i += 1
    return run_prop(prop, tier, seed, scale)


if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("check error: %s" % e)
        rc = 2
    sys.exit(rc)
