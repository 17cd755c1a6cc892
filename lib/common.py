"""Shared machinery of all checks: environment, builds, verdicts, evidence."""
import hashlib, json, os, random, shutil, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
TOOLCHAIN = "nightly-2025-04-08"
TARGET = "x86_64-unknown-linux-gnu"
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

ASAN_OPTIONS = ("detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=99:"
                "strict_string_checks=1:detect_stack_use_after_return=1:"
                "check_initialization_order=1:alloc_dealloc_mismatch=1:"
                "allocator_may_return_null=1:print_legend=0")
UBSAN_OPTIONS = "halt_on_error=1:print_stacktrace=1:exitcode=98"
# pointer-overflow is not included: see DESIGN.md (slice iterators step
# backwards by adding a wrapped unsigned offset, which is what every compiler
# the library supports implements).
UBSAN_FLAGS = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow",
               "-fno-sanitize-recover=all",
               # the C++ library's own preconditions, and elements beyond size() of a std::vector
               "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR=1"]


def base_env(**extra):
    keep = ("PATH", "HOME", "LANG", "TMPDIR", "USER", "CARGO_HOME", "RUSTUP_HOME")
    e = {k: os.environ[k] for k in keep if k in os.environ}
    e.setdefault("HOME", "/root")
    e["PATH"] = e["HOME"] + "/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["LC_ALL"] = "C.UTF-8"
    e["ASAN_OPTIONS"] = ASAN_OPTIONS
    e["UBSAN_OPTIONS"] = UBSAN_OPTIONS
    e["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or ""
    for k, v in extra.items():
        if v is None: e.pop(k, None)
        else: e[k] = v
    return e


class InfraError(Exception):
    """The check could not give an answer (not a verdict on the property)."""


class Result:
    __slots__ = ("rc", "out", "err", "timeout", "secs")
    def __init__(s, rc, out, err, timeout, secs):
        s.rc, s.out, s.err, s.timeout, s.secs = rc, out, err, timeout, secs


def run(cmd, timeout=300, env=None, cwd=None, stdin=None, text=True):
    """Run a command in its own process group; kill the group on timeout."""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env or base_env(), cwd=cwd, start_new_session=True)
    if stdin is not None and isinstance(stdin, str): stdin = stdin.encode()
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
    if text:
        o = o.decode("utf-8", "replace"); e = e.decode("utf-8", "replace")
    return Result(p.returncode, o, e, to, time.time() - t0)


def pmap(fn, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(fn, items))


# --------------------------------------------------------------------- verdict
class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.dir = os.path.join(WORK, "run", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []
        self.vcounts = {}
        self.known_hits = {}
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0}
        self.distinct = set()
        self.samples = []
        self.notes = {}
        self.rule = ""
        self.lock = threading.Lock()
        self.known = load_known(pid)
        self.rng = random.Random("%s/%d/%s" % (pid, SEED, TIER))
        self.budget = None

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def elapsed(self):
        return time.time() - self.t0

    def count(self, n=1, key=None):
        with self.lock:
            self.cov["evaluations"] += n
            if key is not None: self.distinct.add(key)

    def saw(self, key):
        with self.lock: self.distinct.add(key)

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit: self.samples.append(s)

    def violation(self, key, what, files=None):
        """key identifies the failing input/call site; matched against known findings."""
        with self.lock:
            for k in self.known:
                if k["key"] == key or (k["key"].endswith("*") and key.startswith(k["key"][:-1])):
                    self.known_hits[k["key"]] = k["text"]
                    return
            seen = self.vcounts.get(key, 0)
            self.vcounts[key] = seen + 1
            if seen: return  # one report per key; the count is in the evidence
            n = len(self.violations)
            if n < 20:
                d = os.path.join(self.dir, "replay-%d" % n)
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "what.txt"), "w", errors="replace") as f:
                    f.write("property: %s\nseed: %d tier: %s\nkey: %s\n\n%s\n\nrerun: VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s\n"
                            % (self.pid, SEED, TIER, key, what, SEED, TIER, VERIF, self.pid))
                for name, content in (files or {}).items():
                    mode = "wb" if isinstance(content, bytes) else "w"
                    with open(os.path.join(d, name), mode) as f: f.write(content)
            else:
                d = os.path.join(self.dir, "replay-0")
            self.violations.append((key, what, d))
        if n < 6: self.log("violation", key, "::", what[:700])

    def finish(self, level="exploration"):
        self.cov["distinct_nontrivial"] = len(self.distinct)
        cov = dict(self.cov)
        cov["rule"] = self.rule
        cov["samples"] = self.samples
        cov.update(self.notes)
        cov["violations"] = sum(self.vcounts.values())
        cov["known_findings_seen"] = sorted(self.known_hits)
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, text in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        if self.violations:
            for key, what, d in self.violations[:20]:
                print("VIOLATION property=%s replay=%s" % (self.pid, d))
                print("  " + (key + ": " + what).replace("\n", "\n  ")[:700])
            sys.stdout.flush()
            return 1
        if not self.cov["evaluations"]:
            print("no observation was made", file=sys.stderr)
            return 2
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (
            self.pid, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
        return 0


def load_known(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("#"): continue
            if line.startswith("fixed:"): continue
            k = json.loads(line)
            if k["property"] == pid: out.append(k)
    return out


# ---------------------------------------------------------------------- builds
_locks = {}
_glock = threading.Lock()
def _named(name):
    with _glock:
        return _locks.setdefault(name, threading.Lock())


def cargo(manifest, target_dir, args=(), env=None, timeout=800, sub="build"):
    cmd = ["cargo", sub, "--offline", "--manifest-path", manifest, "--target-dir", target_dir,
           "--message-format=json-render-diagnostics", *args]
    with _named(target_dir):
        r = run(cmd, timeout=timeout, env=env)
    if r.rc != 0:
        raise InfraError("cargo failed: %s\n%s" % (" ".join(cmd), r.err[-6000:]))
    arts = []
    for line in r.out.splitlines():
        if line.startswith("{"):
            m = json.loads(line)
            arts.append(m)
    return arts


def find_artifact(arts, name, kind=None):
    for m in arts:
        if m.get("reason") == "compiler-artifact" and m["target"]["name"] == name:
            if kind and kind not in m["target"]["kind"]: continue
            if m.get("executable"): return m["executable"]
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")): return f
    raise InfraError("artifact %s not found" % name)


_cache = {}
def vgen_bin():
    with _named("vgen"):
        if "vgen" not in _cache:
            arts = cargo(os.path.join(HARNESS, "vgen", "Cargo.toml"), os.path.join(WORK, "target-vgen"), env=base_env())
            _cache["vgen"] = find_artifact(arts, "vgen")
    return _cache["vgen"]


def cli_bin():
    with _named("cli"):
        if "cli" not in _cache:
            arts = cargo(os.path.join(HARNESS, "cli", "Cargo.toml"), os.path.join(WORK, "target-cli"), env=base_env())
            _cache["cli"] = find_artifact(arts, "cxxbridge")
    return _cache["cli"]


def bdrv_bin():
    """A stand-in for a build script (harness/bdrv), linked with the real cxx-build."""
    with _named("bdrv"):
        if "bdrv" not in _cache:
            arts = cargo(os.path.join(HARNESS, "bdrv", "Cargo.toml"), os.path.join(WORK, "target-bdrv"), env=base_env())
            _cache["bdrv"] = find_artifact(arts, "bdrv")
    return _cache["bdrv"]


SAN = {
    # name: (rust -Z flags, C/C++ flags)
    "asan": (["-Zsanitizer=address"], UBSAN_FLAGS),
    "tsan": (["-Zsanitizer=thread"], ["-fsanitize=thread"]),
    "none": ([], []),
}
CXXBASE = ["-g1", "-O1", "-fno-omit-frame-pointer"]


# The configuration of the library under test (C30 switches it):
# harness crate, flags of the library's C++ half, flags of generated C++, whether units are #![no_std] crates.
CONF = {"name": "", "crate": "rtdeps", "lib": [], "bridge": [], "nostd": False, "rust": []}


class RtDeps:
    """cxx library + macro built from /repo with one instrumentation."""
    def __init__(self, san="asan", cxx="clang++"):
        self.san = san
        self.cxx = cxx
        zflags, cflags = SAN[san]
        zflags = zflags + CONF["rust"]
        self.zflags, self.cflags = zflags, CXXBASE + cflags
        tdir = os.path.join(WORK, "target-rt-%s-%s%s" % (san, cxx.replace("+", "x"), CONF["name"] and "-" + CONF["name"]))
        env = base_env(CXX=cxx, CXXFLAGS=" ".join(self.cflags + CONF["lib"]), RUSTFLAGS=" ".join(zflags))
        args = ["--target", TARGET]
        arts = cargo(os.path.join(HARNESS, CONF["crate"], "Cargo.toml"), tdir, args=args, env=env)
        self.cxx_rlib = find_artifact(arts, "cxx", "lib")
        self.deps = [os.path.dirname(self.cxx_rlib)]
        self.deps.append(os.path.dirname(find_artifact(arts, "cxxbridge_macro")))
        self.native = []
        for m in arts:
            if m.get("reason") == "build-script-executed":
                self.native += [p.split("=", 1)[-1] for p in m.get("linked_paths", [])]

    def rustc(self, src, out, crate_type="bin", extra=(), timeout=400, edition="2021", json_errors=False):
        cmd = ["rustc", src, "--edition", edition, "--crate-type", crate_type, "-o", out,
               "--extern", "cxx=" + self.cxx_rlib, "--target", TARGET, "-Cdebuginfo=1",
               "-Cdebug-assertions=on", *self.zflags, *extra]
        for d in self.deps: cmd += ["-L", "dependency=" + d]
        for d in self.native: cmd += ["-L", "native=" + d]
        if json_errors: cmd += ["--error-format=json"]
        return run(cmd, timeout=timeout)


def rtdeps(san="asan", cxx="clang++"):
    key = ("rt", san, cxx, CONF["name"])
    with _named(str(key)):
        if key not in _cache: _cache[key] = RtDeps(san, cxx)
    return _cache[key]


def cxx_include_dir():
    """A directory D with D/rust/cxx.h being the repository's header."""
    d = os.path.join(WORK, "include")
    with _named("incdir"):
        os.makedirs(os.path.join(d, "rust"), exist_ok=True)
        link = os.path.join(d, "rust", "cxx.h")
        if not os.path.lexists(link):
            os.symlink(os.path.join(REPO, "include", "cxx.h"), link)
    return d


def cxx_compile(src, obj, flags, cxx="clang++", std="c++17", timeout=400):
    cmd = [cxx, "-std=" + std, "-c", src, "-o", obj, *flags]
    return run(cmd, timeout=timeout)


# ---------------------------------------------------------- generator service
class VGen:
    """A vgen process: the real C++ generator, many inputs per process."""
    def __init__(self):
        self.p = None
    def _start(self):
        self.p = subprocess.Popen([vgen_bin()], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=base_env())
    def gen(self, src, opts=""):
        """-> ('OK', header, impl) | ('ERR', text) | ('LEXERR', t) | ('PANIC', t) | ('NONDET',) | ('DIED', rc)"""
        if self.p is None: self._start()
        s = src.encode() if isinstance(src, str) else src
        o = opts.encode()
        try:
            self.p.stdin.write(b"GEN %d %d\n" % (len(o), len(s)) + o + s)
            self.p.stdin.flush()
            line = self.p.stdout.readline().decode()
        except BrokenPipeError:
            line = ""
        if not line:
            rc = self.p.wait(); self.p = None
            return ("DIED", rc)
        f = line.split()
        if f[0] == "OK":
            h = self._read(int(f[1])); c = self._read(int(f[2]))
            return ("OK", h.decode("utf-8", "replace"), c.decode("utf-8", "replace"))
        if f[0] == "NONDET": return ("NONDET",)
        return (f[0], self._read(int(f[1])).decode("utf-8", "replace"))
    def _read(self, n):
        b = b""
        while len(b) < n:
            x = self.p.stdout.read(n - len(b))
            if not x: raise InfraError("vgen closed its output")
            b += x
        return b
    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None


def sanitizer_summary(text):
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line or ("runtime error:" in line and "fatal runtime error" not in line) or "ERROR: LeakSanitizer" in line \
           or "WARNING: ThreadSanitizer" in line or "ERROR: libFuzzer" in line:
            return line.strip()[:300]
    return None
