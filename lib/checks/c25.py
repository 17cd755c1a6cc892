"""C25: histories of build-script runs over scratch crates: what is reachable afterwards, what changed, what was written."""
from common import *
from bscript import *
import errno, os, posixpath, random, re, shutil, units

CXX_H = open(REPO + "/include/cxx.h", "rb").read()
_expect = {}


def text(v):
    """Source of a bridge; v is a tuple (structs, C++ functions, comments, headers)"""
    s, f, c, inc = v
    b = "".join("struct S%s { x: u8 } " % i for i in s) + "unsafe extern \"C++\" { %s%s}" % ("".join('include!("%s"); ' % i for i in inc), "".join("fn f%s(); " % i for i in f))
    return "// %s\n#[cxx::bridge(namespace = \"n\")]\nmod ffi { %s }\n" % (c, b)


def expected(t):
    if t not in _expect:
        o = units.vgen().gen(t, "cfgon")
        if o[0] != "OK": raise InfraError("cxx-gen: %s\n%s" % (o, t))
        _expect[t] = (o[1].encode(), o[2].encode())
    return _expect[t]


def norm(path):
    out = []
    for c in path.split("/"):
        if c in ("", "."): continue
        if c == "..": del out[-1:]
        else: out.append(c)
    return "/".join(out)


class Crate:
    def __init__(s, r, ws, d, name, out, link=None):
        s.name, s.dir, s.out, s.prefix, s.env, s.shown = name, d, out, None, {}, link or d
        s.bridges, s.headers, s.links = {}, {}, None
        for p in r.sample(["src/lib.rs", "src/main.rs", "src/ffi.rs", "src/ffi/mod.rs", "src/a b.rs", "src/\u00fcn\u00ef.rs", "src/noext", "src/x.y.rs", "bridge.rs", "src/deep/er/z.rs"], r.choice([1, 2, 2, 3, 4])):
            s.bridges[p] = s.variant(r)
        for p in r.sample(["include/x.h", "include/deep/y.hpp", "src/z.h", "top.h", "src/ffi.rs.in.h", "include/" + name + "/w.h"], 3): s.headers[p] = "// %s %s\n" % (name, p)
        s.write_all()
    def variant(s, r): return (tuple(range(r.randrange(4))), tuple(range(r.randrange(3))), r.randrange(9), ())
    def write_all(s):
        put(s.dir + "/Cargo.toml", "[package]\nname = \"%s\"\n" % s.name)
        for p, v in s.bridges.items(): put(s.dir + "/" + p, text(v))
        for p, t in s.headers.items(): put(s.dir + "/" + p, t)
    def pre(s): return norm(s.name if s.prefix is None else s.prefix)


def put(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").write(t)


class World:
    def __init__(s, sb, r, ncrates=1, layout=None):
        s.sb, s.r = sb, r; s.root = sb.dir(); root = s.root
        s.layout = layout or r.choice(["default", "default", "cachedir", "bare", "elsewhere", "env", "symlinked", "linkonly", "crate-link", "out-link", "in-target"])
        ws = root + "/" + r.choice(["ws", "ws", "w s", "w\u00e9"]); os.makedirs(ws)
        put(ws + "/Cargo.toml", "[workspace]\n"); s.env = {}
        tgt, shown = ws + "/target", None; L = s.layout
        if L in ("elsewhere", "env"): tgt = root + "/disk/tgt"
        if L == "symlinked": os.makedirs(root + "/disk/tgt"); os.symlink(root + "/disk/tgt", tgt)
        if L == "linkonly": tgt = root + "/disk/tgt"
        os.makedirs(tgt, exist_ok=True)
        if L == "cachedir": put(tgt + "/CACHEDIR.TAG", "Signature: 8a477f597d28d172789f06886806bc55\n")
        elif L not in ("bare", "env", "unknown", "env-rel"): put(tgt + "/.rustc_info.json", "{}")
        if L == "env-rel": s.env["CARGO_TARGET_DIR"] = "target"
        if L == "unknown": tgt = root + "/o"; os.makedirs(tgt)
        if L == "env": s.env["CARGO_TARGET_DIR"] = tgt
        s.target = tgt; s.crates = []
        for i in range(ncrates):
            name = r.choice(["demo", "demo", "my-crate", "a_b"]) if ncrates == 1 else "c%d" % i
            d = ws if ncrates == 1 and r.random() < .4 else ws + "/crates/" + name
            if L == "in-target": d = tgt + "/package/%s-1.0.0" % name
            out = "%s/%s/build/%s-%08x/out" % (tgt, r.choice(["debug", "release", "x86_64-unknown-linux-gnu/debug"]), name, r.getrandbits(32)); os.makedirs(out)
            link = None
            if L == "crate-link": os.path.exists(root + "/via") or os.symlink(ws, root + "/via"); link = root + "/via" + d[len(ws):]
            if L == "out-link": os.path.exists(root + "/t") or os.symlink(tgt, root + "/t"); out = root + "/t" + out[len(tgt):]
            if L == "linkonly": os.symlink(os.path.dirname(out[:-4]), root + "/l%d" % i); out = root + "/l%d/" % i + "/".join(out.split("/")[-2:])
            s.crates.append(Crate(r, ws, d, name, out, link))
        s.dep = None
        if r.random() < .75: s.set_dep(1)
        put(root + "/precious/keep.h", "precious\n"); put(root + "/precious/dir/keep.h", "precious\n")
        own(root)
    def set_dep(s, n):
        s.dep = None if n is None else "%s/registry/cxx-%d/include/cxx.h" % (s.root, n)
        if s.dep: put(s.dep, "// cxx.h of version %d\n" % n); own(s.root + "/registry")
    def allowed(s):
        if s.layout in ("unknown", "env-rel"): return [os.path.realpath(c.out) for c in s.crates] + s.sb.scratch
        return [os.path.realpath(c.out) for c in s.crates] + [os.path.realpath(s.target) + "/cxxbridge"]
    def cmd(s, c, log=None, fault=None, delay=None, ops=None):
        args = []
        for p in c.bridges:
            shapes = [p, "./" + p, c.shown + "/" + p, p.replace("/", "//"), p.replace("/", "/./")]
            if c.shown == c.dir: shapes += ["src/../" + p, "../" + os.path.basename(c.dir) + "/" + p, "../" * 30 + (c.dir + "/" + p)[1:]]
            if not c.__dict__.setdefault("shape", {}).get(p): c.shape[p] = s.r.choice(shapes[:1] * 4 + shapes)
            if "src/../" in c.shape[p] and not os.path.isdir(c.dir + "/src"): c.shape[p] = p
            args.append(c.shape[p])
        rels = [norm(a) for a in args]
        if len(set(rels)) != len(rels): c.shape = {p: p for p in c.bridges}; args = list(c.bridges)
        env = {"OUT_DIR": c.out, "CARGO_MANIFEST_DIR": c.shown, "CARGO_PKG_NAME": c.name, "LD_PRELOAD": s.sb.mon, **s.env}
        if c.links: env["CARGO_MANIFEST_LINKS"] = c.links
        if s.dep: env["DEP_CXXBRIDGE1_HEADER"] = s.dep
        if log: env["FSMON_LOG"] = log
        if fault: env["FSMON_AT"], env["FSMON_MODE"] = str(fault[0]), str(fault[1])
        if delay: env["FSMON_DELAY"] = delay
        o = [] if c.prefix is None else ["prefix=" + c.prefix]
        c.args = args
        return [s.sb.bin, *o, *["file=" + a for a in args], *(ops or ["build"])], env


def inside(p, roots): return any(p == x or p.startswith(x + "/") for x in roots)


def monitor(ck, w, log, what):
    """Every call that changed the file system."""
    ok = w.allowed(); n = 0
    try: lines = open(log, errors="surrogateescape").read().split("\n")
    except OSError: return 0
    for l in lines:
        f = l.split(" ", 2)
        if len(f) < 3: continue
        n += 1; p = f[2]
        if not inside(p, ok): ck.violation("outside/" + f[1], "%s of %s, which is neither in OUT_DIR nor in the shared target directory (%s)" % (f[1], p.replace(w.root, "ROOT"), what), {"log": "\n".join(lines).encode("utf-8", "surrogateescape")})
    os.unlink(log)
    ck.count(n)
    return n


def unchanged(ck, w, before, after, what):
    ok = w.allowed()
    for p in set(before) | set(after):
        if inside(p, ok): continue
        a, b = before.get(p), after.get(p)
        if any(x.startswith(p + "/") for x in ok) or any(x == p for x in ok): continue
        if a != b: ck.violation("outside/state", "%s: %s before, %s after (%s)" % (p.replace(w.root, "ROOT"), a and (a[0], a[1]), b and (b[0], b[1]), what))


def wanted(w, c):
    """[(name in #include, expected content, how)] and {real path: content} of regular files"""
    inc, reg = [], {}
    pre = c.pre(); j = lambda *x: "/".join(i for i in x if i)
    base = os.path.realpath(c.out) + "/cxxbridge"; sources = []
    for p, a in zip(c.bridges, c.args):
        h, cc = expected(text(c.bridges[p])); rel = norm(a)
        inc.append((j(pre, rel + ".h"), h, "header")); inc.append((j(pre, rel), h, "header-by-source-name"))
        reg[j(base, "include", pre, rel + ".h")] = h; reg[j(base, "sources", pre, rel + ".cc")] = cc
        sources.append((c.out + "/" + j("cxxbridge/sources", pre, rel + ".cc"), cc))
    rels = {norm(a) for a in c.args}
    for p, t in c.headers.items(): inc.append((j(pre, p), t.encode(), "crate"))
    inc.append(("rust/cxx.h", open(w.dep, "rb").read() if w.dep else CXX_H, "cxx.h"))
    if not w.dep and w.layout not in ("unknown", "env-rel"): reg[os.path.realpath(w.target) + "/cxxbridge/rust/cxx.h"] = CXX_H
    return inc, reg, sources, pre, rels


def post(ck, w, c, r, what, faulty=False, final=True):
    """The tree after a successful run of the build script of c."""
    ds = dirs_of(r.out); ls = listed(r.err); inc, reg, sources, pre, rels = wanted(w, c); n = 0
    ctx = "%s; layout %s, prefix %r, bridges %s" % (what, w.layout, c.prefix, c.args)
    rep = {"stdout": r.out, "stderr": r.err}
    if ls is None or ds != [d for d, _ in ls] or any(x for _, x in ls): ck.violation("reported-dirs", "told Cargo %s, told the user %s (%s)" % (ds, ls, ctx), rep); return
    for name, content, how in inc:
        if faulty and how == "header-by-source-name": continue
        p = lookup(ds, name); n += 1
        if p is None: ck.violation("unreachable/" + how, "#include \"%s\" finds nothing in %s (%s)" % (name, ds, ctx), rep); continue
        got = open(p, "rb").read()
        if got != content: ck.violation("stale/" + how, "#include \"%s\" finds %s with other contents (%s)\n%r" % (name, p.replace(w.root, "ROOT"), ctx, got[:300]), {**rep, "found": got, "expected": content})
    got = re.findall(r'^SOURCE "(.*)"$', r.out, re.M); want = [s for s, _ in sources]
    if [x for x in got] != want: ck.violation("sources", "compiles %s instead of %s (%s)" % (got, want, ctx), rep)
    for p, cc in sources:
        n += 1
        if not os.path.isfile(p) or open(p, "rb").read() != cc: ck.violation("stale/source", "%s is missing or not current (%s)" % (p.replace(w.root, "ROOT"), ctx), rep)
    if not faulty and final and w.layout not in ("unknown", "env-rel"):
        for p, a in zip(c.bridges, c.args):
            for e, x in zip((".h", ".cc"), expected(text(c.bridges[p]))):
                q = "/".join(i for i in (w.target, "cxxbridge", pre, norm(a) + e) if i); n += 1
                if not os.path.isfile(q) or open(q, "rb").read() != x: ck.violation("stale/shared", "%s is missing or not current (%s)" % (q.replace(w.root, "ROOT"), ctx), rep)
    ck.count(n)
    return reg


def stability(ck, w, before, after, regs, what):
    """Only what had to change has changed."""
    ok = w.allowed(); n = 0
    for p, a in before.items():
        if a[0] != "f" or not inside(p, ok): continue
        b = after.get(p)
        if b is None or b[0] != "f": continue
        n += 1
        if a[1] == b[1] and a[2] != b[2]: ck.violation("touched", "%s has the same contents but another modification time (%s; layout %s)" % (p.replace(w.root, "ROOT"), what, w.layout))
        if a[1] != b[1] and p not in regs: ck.violation("unaffected-changed", "%s changed although nothing it depends on did (%s; layout %s)" % (p.replace(w.root, "ROOT"), what, w.layout))
    ck.count(n)


def edit(w, c, r):
    k = r.choice(["rerun", "rerun", "bridge", "bridge", "comment", "add", "remove", "header", "prefix", "prefix", "dep", "dep", "newheader", "touch"])
    if k == "bridge": p = r.choice(sorted(c.bridges)); c.bridges[p] = c.variant(r)
    elif k == "comment": p = r.choice(sorted(c.bridges)); v = c.bridges[p]; c.bridges[p] = v[:2] + (v[2] + 1,) + v[3:]
    elif k == "add": c.bridges["src/added%d.rs" % r.randrange(3)] = c.variant(r)
    elif k == "remove" and len(c.bridges) > 1: p = r.choice(sorted(c.bridges)); del c.bridges[p]; os.unlink(c.dir + "/" + p)
    elif k == "header": p = r.choice(sorted(c.headers)); c.headers[p] += "// more\n"
    elif k == "newheader": c.headers["include/new%d.h" % r.randrange(3)] = "// new\n"
    elif k == "prefix": c.prefix = r.choice([None, None, c.name + "/src", c.name + "/include/deep", c.name + "/new/sub", "x", "x/src", "a/b/c", "a//b/", "a/./b", "./x", "", "", ".", "rust", "include", "\u00fc x"])
    elif k == "dep": w.set_dep(r.choice([None, 1, 1, 2, 3]))
    c.write_all(); own(c.dir if c.dir != w.root else w.root)
    if k == "touch": os.utime(c.dir + "/" + r.choice(sorted(c.bridges)))
    return k


def sabotage(w, c, r):
    """Leave something else in the place of something generated."""
    roots = [x for x in (os.path.realpath(c.out) + "/cxxbridge", os.path.realpath(w.target) + "/cxxbridge") if os.path.isdir(x)]
    if not roots: return "nothing"
    sn = {}
    for x in roots: sn.update(snapshot(x))
    cand = sorted(p for p, v in sn.items() if v[0] in "fl")
    if not cand: return "nothing"
    p = r.choice(cand); v = sn[p]
    k = r.choice(["truncate", "empty", "garbage", "longer", "remove", "dangling", "to-dir", "to-precious", "directory", "full-directory", "readonly", "unreadable", "copy", "hardlink", "remove-dir", "loop", "remove-all"])
    def rm():
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        elif os.path.lexists(p): os.unlink(p)
    if k in ("truncate", "garbage", "longer", "empty") and v[0] == "f":
        b = v[1]; rm(); open(p, "wb").write(b[:len(b) // 2] if k == "truncate" else b"" if k == "empty" else b + b"\n" if k == "longer" else b[:-2] + b"?\n")
    elif k == "remove": rm()
    elif k == "dangling": rm(); os.symlink("/nonexistent/" + os.path.basename(p), p)
    elif k == "loop": rm(); os.symlink(os.path.basename(p), p)
    elif k == "to-dir": rm(); os.symlink(w.root + "/precious/dir", p)
    elif k == "to-precious": rm(); os.symlink(w.root + "/precious/keep.h", p)
    elif k == "directory": rm(); os.mkdir(p)
    elif k == "full-directory": rm(); os.makedirs(p + "/a/b"); open(p + "/a/b/f", "w").write("x"); os.symlink(w.root + "/precious/dir", p + "/a/l")
    elif k == "readonly" and v[0] == "f": os.chmod(p, 0o444)
    elif k == "unreadable" and v[0] == "f": rm(); open(p, "wb").write(v[1][:9]); os.chmod(p, 0)
    elif k == "copy" and v[0] == "l" and os.path.exists(p):
        t = os.path.realpath(p); rm()
        if os.path.isdir(t): shutil.copytree(t, p, symlinks=True, ignore=lambda d, n: [x for x in n if x in ("target", "crates")])
        else: shutil.copy(t, p)
    elif k == "hardlink": rm(); os.link(w.root + "/precious/keep.h", p)
    elif k == "remove-dir": shutil.rmtree(os.path.dirname(p))
    elif k == "remove-all": shutil.rmtree(r.choice(roots))
    else: return "nothing"
    for x in roots:
        if os.path.isdir(x): own(x)
    return "%s %s" % (k, p.replace(w.root, "ROOT"))


def age(w):
    """Everything generated so far is old, so that any rewriting shows."""
    for x in w.allowed():
        for d, _, fs in os.walk(x):
            for f in fs:
                if not os.path.islink(d + "/" + f): os.utime(d + "/" + f, (1500000000, 1500000000))


def step(ck, w, c, what, fault=None, key=None):
    log = w.root + "/log"; age(w); before = snapshot(w.root)
    cmd, env = w.cmd(c, log, fault)
    r = w.sb.spawn(cmd, env, c.shown)
    killed = failed = False
    if os.path.exists(log): t = open(log, errors="replace").read(); killed = "KILLED" in t; failed = "FAILED" in t
    n = monitor(ck, w, log, what); after = snapshot(w.root); unchanged(ck, w, before, after, what)
    if r.timeout: ck.violation("hang", "does not end (%s)" % what); return r, n
    if killed: return r, n
    if r.rc:
        if not failed: ck.violation("fails", "exit status %s (%s; layout %s, prefix %r, bridges %s)\n%s" % (r.rc, what, w.layout, c.prefix, c.args, r.err[-600:]), {"stderr": r.err})
        elif "error" not in r.err and "ailed" not in r.err and "cxxbridge" not in r.err: ck.violation("silent-failure", "exit status %s without a message (%s)" % (r.rc, what), {"stderr": r.err})
        return r, n
    regs = post(ck, w, c, r, what, faulty=failed) or {}
    if not failed: stability(ck, w, before, after, regs, what)
    return r, n


def history(ck, sb, i):
    r = random.Random("%d/%s/history/%d" % (SEED, TIER, i)); w = World(sb, r); c = w.crates[0]; trace = ["fresh"]
    step(ck, w, c, "first run")
    for k in range(r.choice([4, 8, 12])):
        e = edit(w, c, r); trace.append(e); f = None; sab = None
        if r.random() < .4: sab = sabotage(w, c, r); trace.append(sab)
        if r.random() < .35:
            f = (r.randrange(1, 30), r.choice(["kill", "torn", "after", errno.ENOSPC, errno.EIO])); trace.append("fault %s" % (f,))
        if f: step(ck, w, c, " > ".join(trace[-8:]), f); trace.append("rerun")
        ck.count(0, ("history", w.layout, e, (sab or "").split(" ")[0], f and f[1]))
        step(ck, w, c, " > ".join(trace[-8:]))
        if r.random() < .3: step(ck, w, c, " > ".join(trace[-8:]) + " > again")
    if i == 0: ck.sample(" > ".join(trace))
    shutil.rmtree(w.root, ignore_errors=True)


def prepare(ck, sb, script, layout, dep, seed):
    r = random.Random(seed); w = World(sb, r, layout=layout); c = w.crates[0]
    c.shape = {p: p for p in c.bridges}
    w.set_dep(1 if dep else None)
    if script != "fresh": step(ck, w, c, "prepare " + script)
    if script == "changed":
        for p in c.bridges: v = c.bridges[p]; c.bridges[p] = (v[0] + (77,), v[1] + (88,)) + v[2:]
        if dep: w.set_dep(2)
    if script == "prefix": c.prefix = c.name + "/src"
    if script == "unprefix": c.prefix = c.name + "/src"; step(ck, w, c, "prepare unprefix"); c.prefix = None
    c.write_all(); own(w.root)
    return w, c


def crash_points(ck, sb, script, layout, dep):
    """Every call of one run, once as the last one and once failing; then a clean run."""
    seed = "crash/%s/%s/%s/%d" % (script, layout, dep, SEED)
    w, c = prepare(ck, sb, script, layout, dep, seed); log = w.root + "/log"
    cmd, env = w.cmd(c, log); sb.spawn(cmd, env, c.shown)
    ops = [l.split(" ", 2)[1] for l in open(log, errors="replace").read().split("\n") if l.count(" ") >= 2]
    shutil.rmtree(w.root, ignore_errors=True)
    for k, op in enumerate(ops, 1):
        modes = ["kill"] + (["torn"] if op == "write" else []) + ([errno.ENOSPC] if op not in ("unlink", "rmdir") else []) + (["all:%d" % errno.ENOSPC, errno.EIO] if THOROUGH and op not in ("unlink", "rmdir") else [])
        for m in modes:
            w, c = prepare(ck, sb, script, layout, dep, seed); what = "%s, layout %s: call %d (%s) %s" % (script, layout, k, op, m)
            step(ck, w, c, what, (k, m)); ck.count(0, ("crash", script, layout, dep, op, str(m)))
            step(ck, w, c, what + ", then a clean run")
            if THOROUGH: step(ck, w, c, what + ", then two clean runs")
            shutil.rmtree(w.root, ignore_errors=True)


def simultaneous(ck, sb, i):
    r = random.Random("%d/%s/sim/%d" % (SEED, TIER, i)); w = World(sb, r, ncrates=r.choice([2, 3, 4, 6])); what = "simultaneous runs"
    same = r.random() < .3
    if same:  # one package, built twice (host and target, or two versions)
        for c in w.crates[1:]: c.prefix = w.crates[0].name
    for rnd in range(r.choice([1, 2, 3])):
        before = snapshot(w.root); ps = []
        for j, c in enumerate(w.crates):
            if rnd and r.random() < .5: edit_some(w, c, r)
        age(w); before = snapshot(w.root)
        for j, c in enumerate(w.crates):
            fault = (r.randrange(1, 25), r.choice(["kill", "torn"])) if r.random() < .1 else None
            cmd, env = w.cmd(c, "%s/log%d" % (w.root, j), fault, "%d:%d" % (r.getrandbits(31), r.choice([200, 2000])))
            ps.append((c, sb.popen(cmd, env, c.shown)))
        rs, killed = [], False
        for j, (c, p) in enumerate(ps):
            q = sb.wait(p); k = os.path.exists("%s/log%d" % (w.root, j)) and "KILLED" in open("%s/log%d" % (w.root, j), errors="replace").read(); killed |= k
            monitor(ck, w, "%s/log%d" % (w.root, j), what); rs.append(None if k else q)
            # its own files have to be there now, not when all are done
            if not k and not q.rc and w.dep: post(ck, w, c, q, what + ", right after its end", final=False)
        after = snapshot(w.root); unchanged(ck, w, before, after, what); regs = {}
        for (c, _), q in zip(ps, rs):
            if q is None: continue
            if q.timeout or q.rc: ck.violation("fails-simultaneous", "exit status %s (%s crates, layout %s)\n%s" % (q.rc, len(ps), w.layout, q.err[-500:])); continue
            regs.update(post(ck, w, c, q, what, final=not same, faulty=False) or {})
        if not killed and not same: stability(ck, w, before, after, regs, what)
        ck.count(0, ("simultaneous", w.layout, len(ps), bool(w.dep), same))
    for c in w.crates: step(ck, w, c, "after simultaneous runs") if not same else None
    shutil.rmtree(w.root, ignore_errors=True)


def edit_some(w, c, r):
    p = r.choice(sorted(c.bridges)); c.bridges[p] = c.variant(r); c.write_all(); own(c.dir)


def compiled(ck, sb):
    """The compiler finds everything, too."""
    def one(x):
        layout, prefix, dep = x
        r = random.Random("compile/%s" % (x,)); w = World(sb, r, layout=layout); c = w.crates[0]; c.prefix = prefix
        real = sb.root + "/cxx.h"
        if not os.path.exists(real): shutil.copy(REPO + "/include/cxx.h", real); os.chmod(real, 0o644)
        w.dep = real if dep else None
        c.shape = {}; c.bridges = {}; c.headers = {"include/x.h": "#pragma once\nnamespace n { inline void f0() {} }\n"}
        pre = c.pre(); j = lambda x: (pre + "/" if pre else "") + x
        c.bridges = {"src/lib.rs": ((), (0,), 0, (j("include/x.h"), j("src/other.rs.h"), j("src/third.rs"))), "src/other.rs": ((1,), (), 0, ()), "src/third.rs": ((2,), (), 0, ("rust/cxx.h",))}
        c.shape = {p: p for p in c.bridges}
        c.write_all(); own(w.root)
        cmd, env = w.cmd(c, None, ops=["compile=bridge"]); env.pop("LD_PRELOAD")
        env.update(TARGET=TARGET, HOST=TARGET, OPT_LEVEL="0")
        q = sb.spawn(cmd, env, c.shown, 300); ck.count(1, ("compile",) + x)
        if q.rc: ck.violation("compile", "the C++ compiler does not find the headers (layout %s, prefix %r)\n%s" % (layout, prefix, (q.out + q.err)[-1500:]), {"stderr": q.err, "stdout": q.out})
        shutil.rmtree(w.root, ignore_errors=True)
    pmap(one, [("default", None, True), ("symlinked", "", False), ("crate-link", "a/b", True), ("elsewhere", ".", False)] + ([(l, p, d) for l in ("out-link", "linkonly", "env", "in-target", "bare") for p in (None, "", "a/b") for d in (True, False)] if THOROUGH else []))


def rejected(ck, sb):
    """Configurations that cannot be honoured within the output directory."""
    for prefix in ("..", "../x", "a/../b", "a/../../..", "../../../../../src", "../../../../../../precious", "/abs", "/"):
        r = random.Random(prefix); w = World(sb, r, layout="default"); c = w.crates[0]; c.prefix = prefix; c.shape = {p: p for p in c.bridges}
        before = snapshot(w.root); log = w.root + "/log"; cmd, env = w.cmd(c, log); q = sb.spawn(cmd, env, c.shown)
        monitor(ck, w, log, "prefix %r" % prefix); unchanged(ck, w, before, snapshot(w.root), "prefix %r" % prefix); ck.count(1, ("prefix", prefix))
        if not q.rc: ck.violation("prefix-accepted", "include_prefix = %r is accepted" % prefix)
        shutil.rmtree(w.root, ignore_errors=True)
    for arg in ("..", ".", "", "/", "src", "missing.rs", "src/missing.rs"):
        r = random.Random(arg); w = World(sb, r, layout="default"); c = w.crates[0]; log = w.root + "/log"; cmd, env = w.cmd(c, log)
        q = sb.spawn([cmd[0], "file=" + arg, "build"], env, c.shown); monitor(ck, w, log, "bridge %r" % arg); ck.count(1, ("bridge", arg))
        if not q.rc or not q.err.strip(): ck.violation("input-accepted", "bridge(%r): exit status %s, %r" % (arg, q.rc, q.err[-300:]))
        if "panicked" in q.err: ck.violation("input-panic", "bridge(%r): %s" % (arg, q.err[-300:]))
        shutil.rmtree(w.root, ignore_errors=True)


def unknown(ck, sb):
    """Where the target directory is not known, a directory common to all crates is used instead."""
    ds = [d for d in (os.path.join(WORK, "target-bdrv", "debug", "build", x, "out") for x in os.listdir(os.path.join(WORK, "target-bdrv", "debug", "build")) if x.startswith("scratch-")) if os.path.isdir(d)]
    for d in ds:
        shutil.rmtree(d + "/cxxbridge", ignore_errors=True); os.mkdir(d + "/cxxbridge"); os.chmod(d + "/cxxbridge", 0o777)
    ok = [d for d in ds if not sb.spawn(["/usr/bin/test", "-w", d + "/cxxbridge"], {}, "/").rc]
    ck.notes["scratch_directory_reachable"] = bool(ok)
    if not ok: return
    for i in range(60 if THOROUGH else 8):
        r = random.Random("unknown/%d/%d" % (SEED, i)); w = World(sb, r, layout=["unknown", "env-rel"][i % 2]); c = w.crates[0]
        sb.scratch = [os.path.realpath(x) + "/cxxbridge" for x in ok]
        for k in range(5):
            step(ck, w, c, "target directory not known, run %d" % k); edit(w, c, r)
        shutil.rmtree(w.root, ignore_errors=True)
    for d in ds: shutil.rmtree(d + "/cxxbridge", ignore_errors=True)


def broken_bridge(ck, sb):
    """A bridge with an error: a message, and the previous output untouched."""
    r = random.Random("broken"); w = World(sb, r, layout="default"); c = w.crates[0]; step(ck, w, c, "before an error")
    before = snapshot(w.root); p = sorted(c.bridges)[0]
    for bad in ("#[cxx::bridge] mod ffi { struct S { x: Missing } }", "fn f( {", "", "mod no_bridge {}"):
        put(c.dir + "/" + p, bad); cmd, env = w.cmd(c, w.root + "/log"); q = sb.spawn(cmd, env, c.shown); monitor(ck, w, w.root + "/log", "erroneous bridge"); ck.count(1, ("broken", bad))
        if not q.rc or not q.err.strip(): ck.violation("error-accepted", "exit status %s for %r" % (q.rc, bad))
    after = snapshot(w.root); stability(ck, w, {k: v for k, v in before.items() if "/src/" not in k or "/cxxbridge/" in k}, after, {}, "erroneous bridge")
    c.write_all(); own(w.root); step(ck, w, c, "after an error")
    shutil.rmtree(w.root, ignore_errors=True)


def unremovable(ck, sb):
    """A leftover that cannot be removed."""
    r = random.Random("unremovable"); w = World(sb, r, layout="default"); c = w.crates[0]; w.set_dep(1); step(ck, w, c, "first run")
    w.set_dep(2); d = os.path.realpath(c.out) + "/cxxbridge/include/rust"; os.chmod(d, 0o555)
    cmd, env = w.cmd(c); q = sb.spawn(cmd, env, c.shown); os.chmod(d, 0o755); ck.count(1, "unremovable")
    if not q.rc and open(d + "/cxx.h").read() != open(w.dep).read(): ck.violation("unremovable-link", "a symlink that cannot be replaced is silently left pointing to the old cxx.h")
    shutil.rmtree(w.root, ignore_errors=True)


def main(ck):
    ck.rule = ("an evaluation is one header looked up through the reported directories, one generated source, shared link or unaffected file compared, or one file-system call whose target was checked; "
               "distinct counts distinct (layout, edit, leftover, fault), (script, layout, crash point, mode) and (layout, number of simultaneous runs)")
    vgen_bin(); sb = Sandbox("c25")
    try:
        unknown(ck, sb); rejected(ck, sb); broken_bridge(ck, sb); unremovable(ck, sb)
        S = ("fresh", "rerun", "changed", "prefix", "unprefix"); L = ["default", "symlinked", "env", "cachedir", "bare", "elsewhere", "linkonly", "crate-link", "out-link", "in-target"]
        jobs = [(crash_points, (s, l, d)) for s in S for l in (L if THOROUGH else ["default"]) for d in (True, False)]
        jobs += [(history, (i,)) for i in range(5000 if THOROUGH else 120)] + [(simultaneous, (i,)) for i in range(2000 if THOROUGH else 50)]
        random.Random(SEED).shuffle(jobs)
        pmap(lambda j: j[0](ck, sb, *j[1]), jobs); compiled(ck, sb)
    finally: sb.close()
