"""C22: generated headers stand alone, repeat, combine and match their source files."""
from common import *
import decl, random, re, subprocess, threading, typespace as ts, units

STDS = ["c++11", "c++14", "c++17", "c++20", "c++23"]
CXX = ["clang++", "g++"]
STDHEADS = ["<string>", "<vector>", "<memory>", "<cstdint>", "<array>", "<utility>", "<new>", "<cstddef>", "<exception>", "<type_traits>", "<algorithm>", "<initializer_list>", "<iterator>", "<stdexcept>", "<functional>", "<cassert>"]
FORWARD = ("#include <type_traits>\n#include <sys/types.h>\nnamespace rust { inline namespace cxxbridge1 { class String; class Str; template <typename T> class Slice; template <typename T> class Box; template <typename T> class Vec; template <typename Signature> class Fn; using isize = ssize_t; } }\n")


def syntax(path, cxx, std, d, extra=()):
    return run([cxx, "-std=" + std, "-fsyntax-only", "-w", "-I", d, "-I", cxx_include_dir(), *extra, path], timeout=300)

def errors(r): return "\n".join(l for l in r.err.splitlines() if "error" in l)[:700] or r.err[:700]


# ---- one declaration per bridge: every builtin on its own ------------------
def minimal(ck, i, items):
    """The header and the source of a bridge with one declaration, without help from the library header."""
    r = random.Random("%d/%d" % (SEED, i)); d = os.path.join(ck.dir, "min%d" % i); os.makedirs(d, exist_ok=True); g = units.vgen()
    os.makedirs(d + "/inc", exist_ok=True)
    for k, (x, pos) in enumerate(items):
        lang = ts.POSITIONS[pos][2]; dc = ts.decl(x, pos, 0); names = {y.c for y in walk(x)}
        env = {"Sh": ("shared", "struct Sh { x: u8 }"), "Lt<@>": ("shared", "struct Lt<'a> { s: &'a str }"), "En": ("shared", "#[repr(u8)] enum En { A }"), "T": ("C++", "type T;"), "Cx<@>": ("C++", "type Cx<'a>;"), "R": ("Rust", "type R;"), "Ru<@>": ("Rust", "type Ru<'a>;")}
        need = [env[n] for n in sorted(names) if n in env]
        for n in ("R", "T"):
            if re.search(r"self: (Pin<)?&(mut )?%s\b" % n, dc) and env[n] not in need: need.append(env[n])
        blocks = {"shared": [], "C++": [], "Rust": []}
        for l, t in need: blocks[l].append(t)
        if lang == "impl": blocks["shared"].append(dc)
        else: blocks[lang].append(dc)
        inc = 'include!("u%d.h"); ' % k if lang == "C++" or blocks["C++"] or "T" in names else ""
        text = "#[cxx::bridge] mod ffi { %s %s %s }" % (" ".join(blocks["shared"]), 'unsafe extern "C++" { %s%s }' % (inc, " ".join(blocks["C++"])) if inc or blocks["C++"] else "", 'extern "Rust" { %s }' % " ".join(blocks["Rust"]) if blocks["Rust"] else "")
        cls, cd = ts.cxx_decl(x, pos, 0)
        uh = "#pragma once\n#include <array>\n#include <cstdint>\n#include <cstddef>\n#include <memory>\n#include <string>\n#include <vector>\n" + FORWARD + "struct Sh; struct Lt; enum class En : std::uint8_t; struct R; struct Ru; struct Cx { int i; };\nstruct T { int i; %s };\n%s\n" % (cd if cls else "", cd if not cls else "")
        open("%s/u%d.h" % (d, k), "w").write(uh)
        res = g.gen(text)
        if res[0] != "OK": ck.violation("minimal/rejected", "%s\n%s" % (text, res), {"bridge.rs": text}); continue
        open("%s/b%d.h" % (d, k), "w").write(res[1]); open("%s/b%d.cc" % (d, k), "w").write(res[2])
        open("%s/h%d.cc" % (d, k), "w").write('#include "b%d.h"\n#include "b%d.h"\n' % (k, k))
        lib = '#include "rust/cxx.h"\n'; a = '#include "b%d.h"\n' % k
        open("%s/l%d.cc" % (d, k), "w").write(r.choice([lib + a, a + lib, a + lib + a]) + '#include "b%d.cc"\n' % k)
        cxx = CXX[(i + k) % 2]; std = "c++11" if r.random() < .6 else r.choice(STDS)
        for f in ("h%d.cc", "b%d.cc", "l%d.cc"):
            q = syntax("%s/%s" % (d, f % k), cxx, std, d)
            if q.timeout: raise InfraError("compiler timeout")
            ck.count(1, (pos, x.ctors(), f, cxx))
            if q.rc: ck.violation("minimal/%s/%s/%s" % (f[0], pos, "/".join(x.ctors())), "%s -std=%s: %s does not compile%s\n%s\n%s" % (cxx, std, {"h": "the header on its own", "b": "the source", "l": "the source after the header and the library header"}[f[0]], "", text, errors(q)), {"bridge.rs": text, "u%d.h" % k: uh, "header": res[1], "source": res[2]}); break
    with ck.lock: ck.notes["one-declaration bridges"] = ck.notes.get("one-declaration bridges", 0) + len(items)

def walk(x):
    while x is not None: yield x; x = x.a


# ---- programs ---------------------------------------------------------------
def library(r): return r.choice(['"rust/cxx.h"', '"rust/cxx.h"', r.choice(STDHEADS), '"u.h"'])

def program(ck, i):
    r = random.Random("%d/%s/p/%d" % (SEED, TIER, i)); d = os.path.join(ck.dir, "p%d" % i); os.makedirs(d, exist_ok=True); g = units.vgen()
    p = decl.Prog("%d/%s/22/%d" % (SEED, TIER, i), bridges=r.choice([1, 2, 2, 3]), rich=r.choice([4, 10]), numbered=r.choice([3, 8]))
    fs = p.files(); mods = [b.i for b in p.b]; ok = True
    for n, t in fs.items(): open(os.path.join(d, n), "w").write(t)
    for m in mods:
        res = g.gen(fs["ffi%d.rs" % m])
        if res[0] != "OK": ck.violation("program/rejected", str(res), fs); return
        open("%s/ffi%d.rs.h" % (d, m), "w").write(res[1]); open("%s/ffi%d.rs.cc" % (d, m), "w").write(res[2])
    def report(key, what): ck.violation("program/" + key, what, {n: open(os.path.join(d, n)).read() for n in sorted(os.listdir(d)) if n.endswith((".h", ".cc", ".rs"))})
    # every header alone, in every standard, with both compilers
    combos = [(c, s) for c in CXX for s in STDS]
    for m in mods:
        open("%s/alone%d.cc" % (d, m), "w").write('#include "ffi%d.rs.h"\n' % m)
        for c, s in combos if THOROUGH else [combos[(i * 3 + m * 7 + k) % len(combos)] for k in (0, 1, 5, 8)]:
            q = syntax("%s/alone%d.cc" % (d, m), c, s, d); ck.count(1, ("alone", c, s, i, m))
            if q.rc: report("alone", "%s -std=%s does not compile ffi%d.rs.h on its own\n%s" % (c, s, m, errors(q))); return
    # any order, any number of times, with the library and the standard headers
    orders = []
    for k in range(4):
        seq = ['"ffi%d.rs.h"' % m for m in mods] * r.choice([1, 2]) + [library(r) for _ in range(r.randint(0, 4))]; r.shuffle(seq)
        orders.append(seq)
    tail = fs["main.cc"].replace(p.includes(), "").replace('#include "rust/cxx.h"\n', "")
    # the part that names every function that the headers offer
    tail = "#include <cstdio>\n#include <cstdint>\n" + re.sub(r"int main\(\).*", "", tail, flags=re.S)

    objs = []
    c = CXX[i % 2]; s = STDS[(i // 2) % 5]
    for k, seq in enumerate(orders):
        f = "order%d.cc" % k
        open(os.path.join(d, f), "w").write("".join("#include %s\n" % h for h in seq) + ("#include \"rust/cxx.h\"\n" if k % 2 else "") + (pointers(p, i, k) if k < 2 else "") + (tail.replace("rust_main", "rust_main") if k == 2 else ""))
    for m in mods: open("%s/both%d.cc" % (d, m), "w").write("".join("#include %s\n" % h for h in r.choice(orders)) + '#include "ffi%d.rs.cc"\n' % m)
    lto = ["-flto", "-Wodr", "-fPIC"] if c == "g++" else ["-fPIC"]
    def comp(f, flags=()):
        q = run([c, "-std=" + s, "-O0", "-w", "-c", *lto, "-I", d, "-I", cxx_include_dir(), *flags, "-o", "%s/%s.o" % (d, f), "%s/%s" % (d, f)], timeout=400); ck.count(1, (f, c, s, i))
        if q.timeout: raise InfraError("compiler timeout")
        if q.rc: report("order", "%s -std=%s: %s\n%s\n%s" % (c, s, f, open(os.path.join(d, f)).read()[:300], errors(q))); return None
        return "%s/%s.o" % (d, f)
    for k in (2, 3):
        f = "order%d.cc" % k; c2 = CXX[(i + k) % 2]; s2 = r.choice(STDS); q = syntax("%s/%s" % (d, f), c2, s2, d); ck.count(1, (f, c2, s2, i))
        if q.rc: report("order", "%s -std=%s: %s\n%s\n%s" % (c2, s2, f, open(os.path.join(d, f)).read()[:300], errors(q))); return
    split = r.randrange(2)
    ccs = ["order0.cc", "order1.cc", "u.cc"] + [("both%d.cc" if (m + split) % 2 else "ffi%d.rs.cc") % m for m in mods]
    objs = [comp(f) for f in ccs]
    if None in objs: return
    # translation units of one program
    so = os.path.join(d, "all.so")
    q = run([c, "-shared", *([] if c == "clang++" else ["-flto", "-Wodr", "-O0"]), "-o", so, *objs], timeout=400); ck.count(1, ("link", c, i))
    if q.timeout: raise InfraError("linker timeout")
    if q.rc or "warning" in q.err and "odr" in q.err.lower() or "type of" in q.err and "does not match" in q.err: report("link", "%s: linking the translation units\n%s" % (c, q.err[:1500])); return
    # what the headers declare is what the sources define
    nm = run(["nm", "-u", "-C", so], timeout=60).out; und = [l.split(" ", 1)[-1].strip() for l in nm.splitlines()]; missing = []
    want = offered(p)
    dfn = run(["nm", "--defined-only", "-C", so], timeout=60).out; defined = [l.split(" ", 2)[2] for l in dfn.splitlines() if l.count(" ") >= 2]
    bare = {}
    for x in defined:
        n = x.split("(")[0].replace("[abi:cxx11]", ""); bare[n] = bare.get(n, 0) + 1
    for n, k in want.items():
        ck.count(1, ("defined", n.count("::"), i))
        if bare.get(n, 0) < k: missing.append("%s (%d of %d)" % (n, bare.get(n, 0), k))
    if missing: report("undefined", "declared in a header but not defined by its source: " + ", ".join(missing[:5])); return
    with ck.lock:
        t = ck.notes.setdefault("programs", {"bridges": 0, "programs": 0, "functions": 0, "orders": 0}); t["bridges"] += len(mods); t["programs"] += 1; t["functions"] += sum(want.values()); t["orders"] += 4


def offered(p):
    """Functions that the sources have to define, by qualified name: those implemented in Rust."""
    out = {}
    for b in p.b:
        for f in b.funcs:
            if f.lang != "Rust": continue
            q = "::".join((f.recv.ns + (f.recv.cxx,) if f.recv else f.ns) + (f.cxx,)); out[q] = out.get(q, 0) + 1
    return out

def pointers(p, i, k):
    """Addresses of everything that the headers offer."""
    o = []
    for b in p.b:
        for j, f in enumerate(b.funcs):
            if f.lang != "Rust": continue
            n = "ptr_%d_%d_%d_%d" % (i, k, b.i, j)
            if f.recv: o.append("%s (%s::*%s)(%s)%s = &%s::%s;" % (decl.gl(f.cxxret()), f.recv.qual(), n, decl.gl(f.cxxargs()), "" if f.mut else " const", f.recv.qual(), f.cxx))
            else: o.append("%s (*%s)(%s) = &%s::%s;" % (decl.gl(f.cxxret()), n, decl.gl(f.cxxargs()), "" if not f.ns else "::" + "::".join(f.ns), f.cxx))
    return "\n".join(o) + "\n"


def main(ck):
    ck.rule = "an evaluation is one compilation, link or symbol lookup; distinct counts distinct (position, type constructors, file, compiler) and (program, file, compiler, standard)"
    vgen_bin(); r = random.Random("%d/%s/22" % (SEED, TIER)); jobs = []
    d1 = [(x, p) for x in ts.types(1, odd=False) for p in ts.POSITIONS if ts.verdict(x, p)[0] is None]
    d2 = [(x, p) for x in ts.types(2, odd=False) if x.depth() == 2 for p in ts.POSITIONS if ts.verdict(x, p)[0] is None]
    # every (constructors, position) once, then more
    by = {}
    for x, p in d1 + r.sample(d2, 4000 if THOROUGH else 120): by.setdefault((x.ctors() if x.depth() < 2 else x.ctors()[:2], p), []).append((x, p))
    items = [r.choice(v) for v in by.values()]; r.shuffle(items)
    items = items if THOROUGH else items[:420]
    for i in range(0, len(items), 15): jobs.append(lambda i=i: minimal(ck, i // 15, items[i:i + 15]))
    ck.notes["one-declaration classes"] = len(by)
    for i in range(160 if THOROUGH else 28): jobs.append(lambda i=i: program(ck, i))
    r.shuffle(jobs); pmap(lambda j: j(), jobs)
