"""C26: graphs of crates whose build scripts run in Cargo's order with the metadata Cargo would pass on."""
from common import *
from bscript import *
import os, random, re, shutil

PREFIXES = [None, None, None, "group/api/%s", "group/api/contrib/%s", "group/apix/%s", "detail/%s", "%s/v1", "same", "same/%s", "", "group/api", "./dot/%s", "sl//ash/%s/"]
MATCH = ["group", "group/api", "group/ap", "group/api/", "group/api/contrib", "detail", "same", "nothing", "grou", "dot"]


def comps(p): return [c for c in p.split("/") if c not in ("", ".")]


def envify(k): return k.upper().replace("-", "_")


class Node:
    def __init__(s, g, r, i):
        s.g, s.i, s.name = g, i, r.choice(["c%d", "crate-%d", "k_%d"]) % i
        s.dir = "%s/crates/%s" % (g.root, s.name); s.out = "%s/target/debug/build/%s-%04x/out" % (g.root, s.name, r.getrandbits(16)); os.makedirs(s.out); os.makedirs(s.dir + "/src"); os.makedirs(s.dir + "/include")
        p = r.choice(PREFIXES); s.setprefix = None if p is None else p.replace("%s", s.name); s.prefix = "/".join(comps(s.name if p is None else s.setprefix))
        s.links = r.choice(["%s", "lib-%s", "Mixed_%s", "cxxbridge_dir%s"]) % i if r.random() < .85 else None
        s.deps = []; s.dirs = []; s.eprefixes = []; s.elinks = []; s.dox = r.random() < .2
        s.header = (s.prefix + "/" if s.prefix else "") + "include/own%d.h" % i; s.bridge = (s.prefix + "/" if s.prefix else "") + "src/b%d.rs.h" % i
        open(s.dir + "/src/b%d.rs" % i, "w").write("#[cxx::bridge(namespace = \"n%d\")] mod ffi { struct T%d { x: u8 } }\n" % (i, i))
        open(s.dir + "/include/own%d.h" % i, "w").write("#pragma once\nenum { OWN%d = %d };\n" % (i, i))
        open(s.dir + "/Cargo.toml", "w").write("[package]\n")
    def add_dir(s, r):
        if s.g.dirs and r.random() < .3: d = r.choice(s.g.dirs)
        else:
            d = "%s/ext/d%d%s" % (s.g.root, len(s.g.dirs), r.choice(["", " x", "\u00e9"])); os.makedirs(d); open(d + "/ext%d.h" % len(s.g.dirs), "w").write("enum { EXT%d };\n" % len(s.g.dirs)); s.g.dirs.append(d)
        if d not in s.dirs: s.dirs.append(d)
    def own_dirs(s):
        return [s.out + "/cxxbridge/include", s.out + "/cxxbridge/crate" if s.prefix else s.dir] + s.dirs
    # what the documentation promises
    def exports(s, d): return (d.links is not None and d.links in s.elinks) or any(comps(d.prefix)[:len(comps(p))] == comps(p) for p in s.eprefixes)
    def visible_deps(s): return [d for d in s.deps if d.links is not None and not d.nocxx]
    def exported(s):
        """Sets of directories that a direct dependent sees."""
        out = set(s.own_dirs())
        for d in s.visible_deps():
            if s.exports(d): out |= d.exported()
        return out
    def visible(s):
        out = set(s.own_dirs())
        for d in s.visible_deps(): out |= d.exported()
        return out
    nocxx = False
    def error(s):
        """Why the configuration is invalid."""
        if any(not d.startswith("/") for d in s.dirs): return "exported_header_dirs"
        if any(p == "" for p in s.eprefixes): return "exported_header_prefixes"
        if s.links is None:
            if s.dirs: return "exported_header_dirs"
            if s.eprefixes: return "exported_header_prefixes"
            if s.elinks: return "exported_header_links"
        vs = s.visible_deps()
        for l in s.elinks:
            if not any(d.links == l for d in vs): return "exported_header_links"
        for p in s.eprefixes:
            if not any(comps(d.prefix)[:len(comps(p))] == comps(p) for d in vs): return "exported_header_prefixes"
    def ops(s, r):
        """The same configuration written in different ways."""
        o = []
        if s.setprefix is not None: o += [r.choice(["prefix=", "var-prefix="]) + s.setprefix]
        if s.dirs:
            k = r.randrange(3)
            if k == 0: o += ["dir=" + d for d in s.dirs]
            elif k == 1: o += ["setdirs=" + ":".join(s.dirs)]
            else: o += ["var-dirs=" + ":".join(s.dirs)]
        if s.eprefixes: o += ["hprefix=" + p for p in s.eprefixes] if "" in s.eprefixes or r.random() < .5 else ["sethprefixes=" + ",".join(s.eprefixes)]
        if s.elinks: o += ["hlink=" + p for p in s.elinks] if "" in s.elinks or r.random() < .5 else ["sethlinks=" + ",".join(s.elinks)]
        if s.dox: o += ["dox=1"]
        if r.random() < .3: o = ["warm"] + o
        if r.random() < .2: o = ["dir=/wrong", "hprefix=wrong", "hlink=wrong", "clear"] + o
        if r.random() < .3: o += ["warm", "show"]
        if r.random() < .2: o += ["thread"]
        return o


class Graph:
    def __init__(s, sb, r, n, dense=.5):
        s.sb, s.r, s.root, s.dirs, s.nodes = sb, r, sb.dir(), [], []
        os.makedirs(s.root + "/target"); open(s.root + "/target/.rustc_info.json", "w").write("{}")
        s.dep = s.root + "/cxx/include/cxx.h"; os.makedirs(os.path.dirname(s.dep)); open(s.dep, "w").write("// cxx.h\n")
        for i in range(n):
            x = Node(s, r, i); x.deps = [d for d in s.nodes if r.random() < dense]; s.nodes.append(x)
            for _ in range(r.choice([0, 0, 1, 2, 3, 12]) if x.links else 0): x.add_dir(r)
            if x.links:
                vs = x.visible_deps()
                x.elinks = [d.links for d in vs if r.random() < .3]
                x.eprefixes = [p for p in r.sample(MATCH, 3) if any(comps(d.prefix)[:len(comps(p))] == comps(p) for d in vs)]
                x.eprefixes += [d.prefix for d in vs if d.prefix and r.random() < .2 and d.prefix not in x.eprefixes]
        own(s.root)
    def env(s, x, extra=()):
        e = {"OUT_DIR": x.out, "CARGO_MANIFEST_DIR": x.dir, "CARGO_PKG_NAME": x.name, "DEP_CXXBRIDGE1_HEADER": s.dep}
        if x.links is not None: e["CARGO_MANIFEST_LINKS"] = x.links
        l = list(e.items())
        for d in x.deps:
            if d.links is None: continue
            for k, v in d.meta: l.append(("DEP_%s_%s" % (envify(d.links), envify(k)), v))
        l += list(extra); s.r.shuffle(l)
        return dict(l)


NOISE = [("DEP_Z_INCLUDE", "/usr/include"), ("DEP_Z_CXXBRIDGE_DIR", "/etc"), ("DEP_OPENSSL_VERSION_NUMBER", "3"), ("DEP_Z_CXXBRIDGE_DIRX1", "/etc"), ("XDEP_Y_CXXBRIDGE_DIR0", "/etc"), ("CXXBRIDGE_DIR0", "/etc"), ("DEP_Y_CXXBRIDGE_FOO", "x"), ("CARGO_FEATURE_DEP_Q_CXXBRIDGE_DIR1", "/etc"), ("DEP_Z_CXXBRIDGE_DIR1X", "/etc"), ("dep_z_CXXBRIDGE_DIR1", "/etc")]


def run_node(g, x, extra=(), ops=None):
    o = x.ops(g.r) if ops is None else ops
    cmd = [g.sb.bin, *o, "file=src/b%d.rs" % x.i, "build"]
    r = g.sb.spawn(cmd, g.env(x, extra), x.dir)
    return r, cmd


def meta_of(out): return [tuple(l[6:].split("=", 1)) for l in out.split("\n") if l.startswith("cargo:") and "=" in l]


def describe(g):
    return "\n".join("%s: prefix %r links %r deps %s dirs %s exports prefixes %s links %s" % (x.name, x.prefix, x.links, [d.name for d in x.deps], [d.replace(g.root, "") for d in x.dirs], x.eprefixes, x.elinks) for x in g.nodes)


def judge(ck, g, x, r, cmd):
    rel = lambda l: [d.replace(g.root, "ROOT") for d in l]; rep = {"graph.txt": describe(g), "stdout": r.out, "stderr": r.err, "cmd": " ".join(cmd)}; ctx = "crate %s in\n%s" % (x.name, describe(g))
    want = x.error(); ck.count(1, ("error", want, x.links is None))
    if want:
        if not r.rc: ck.violation("accepted/" + want, "an invalid CFG.%s is accepted: %s" % (want, ctx), rep)
        elif want not in r.err: ck.violation("message/" + want, "the message does not name CFG.%s: %s" % (want, r.err), rep)
        return False
    if r.rc: ck.violation("rejected", "%s\n%s" % (r.err[-500:], ctx), rep); return False
    dirs = listed(r.err); got = [d for d, _ in dirs]; pub = [d for d, p in dirs if not p]
    rest = got[len(x.own_dirs()):]
    if len(set(rest)) != len(rest): ck.violation("twice", "%s is offered twice: %s" % (rel([d for d in rest if rest.count(d) > 1][:1]), ctx), rep)
    if set(got) - x.visible(): ck.violation("too-much", "also sees %s: %s" % (rel(sorted(set(got) - x.visible())), ctx), rep)
    if x.visible() - set(got): ck.violation("too-little", "does not see %s: %s" % (rel(sorted(x.visible() - set(got))), ctx), rep)
    if set(pub) - x.exported(): ck.violation("exports-too-much", "re-exports %s: %s" % (rel(sorted(set(pub) - x.exported())), ctx), rep)
    if x.exported() - set(pub): ck.violation("exports-too-little", "does not re-export %s: %s" % (rel(sorted(x.exported() - set(pub))), ctx), rep)
    if dirs_of(r.out) != pub: ck.violation("metadata-differs", "tells Cargo %s but the user %s: %s" % (rel(dirs_of(r.out)), rel(pub), ctx), rep)
    # order: its own first, each dependency's in that dependency's order
    if got[:len(x.own_dirs())] != x.own_dirs(): ck.violation("order/own", "%s instead of %s first: %s" % (rel(got), rel(x.own_dirs()), ctx), rep)
    seen, rest = set(x.own_dirs()), got[len(x.own_dirs()):]
    pos = {d: i for i, d in enumerate(rest)}; claimed = set()
    for d in x.visible_deps():
        l = list(dict.fromkeys(y for y in dirs_of(d.out_text) if y in pos))
        for a, b in zip(l, l[1:]):
            # a directory already offered by an earlier dependency keeps its place there
            others = [set(dirs_of(e.out_text)) for e in x.visible_deps() if e is not d]
            if pos[a] > pos[b] and not any(a in o or b in o for o in others): ck.violation("order/dependency", "%s after %s, against the order of %s: %s" % (rel([a]), rel([b]), d.name, ctx), rep)
    ck.count(len(got), ("visible", len(got) > 4, len(pub) == len(got), len(x.visible_deps())))
    # through #include
    vis = x.visible()
    for y in g.nodes:
        for name, d, mark in ((y.header, y.own_dirs()[1], "OWN%d " % y.i), (y.bridge, y.own_dirs()[0], "T%d" % y.i)):
            p = lookup(got, name); ck.count(1)
            if d in vis and y.ran:
                if p is None or mark not in open(p).read(): ck.violation("include", "#include \"%s\" of %s finds %s: %s" % (name, y.name, p, ctx), rep)
            elif p is not None and y.prefix: ck.violation("include-extra", "#include \"%s\" of %s finds %s: %s" % (name, y.name, p, ctx), rep)
    m = dict(meta_of(r.out))
    if m.get("CXXBRIDGE_PREFIX") != x.prefix or m.get("CXXBRIDGE_LINKS") != x.links: ck.violation("metadata", "%s: %s" % (m, ctx), rep)
    return True


def graph(ck, sb, i):
    r = random.Random("%d/%s/graph/%d" % (SEED, TIER, i)); g = Graph(sb, r, r.choice([2, 4, 6, 9]), r.choice([.2, .5, .8]))
    for x in g.nodes: x.ran = False; x.meta = []; x.out_text = ""
    for x in g.nodes:
        if x.links and r.random() < .08:  # a dependency that does not use cxx-build
            x.nocxx = True; x.meta = r.choice([[], [("include", "/usr/include"), ("version", "1")]])
            # dependents written for the other case lose their export of it
            for y in g.nodes:
                if x in y.deps:
                    y.elinks = [l for l in y.elinks if l != x.links]
                    y.eprefixes = [p for p in y.eprefixes if any(comps(d.prefix)[:len(comps(p))] == comps(p) for d in y.visible_deps())]
    for x in g.nodes:
        if x.nocxx: continue
        extra = r.sample(NOISE, r.randrange(4))
        q, cmd = run_node(g, x, extra)
        x.ran = not q.rc; x.out_text = q.out
        judge(ck, g, x, q, cmd)
        if q.rc: break
        x.meta = meta_of(q.out)
        # the same in another order of the environment, and written differently
        q2, cmd2 = run_node(g, x, r.sample(NOISE, r.randrange(4))); strip = lambda t: "\n".join(l for l in t.split("\n") if l.startswith("cargo:"))
        ck.count(1)
        if (strip(q.out), listed(q.err)) != (strip(q2.out), listed(q2.err)): ck.violation("unstable", "another order of the same environment, or the same configuration written in another way, gives another result\n%s\n%s\n%s\n%s" % (cmd, listed(q.err), cmd2, listed(q2.err)), {"graph.txt": describe(g)})
        # spoiled configurations of the same crate
        if r.random() < .5: spoiled(ck, g, x, r)
    if i == 0: ck.sample(describe(g))
    shutil.rmtree(g.root, ignore_errors=True)


def spoiled(ck, g, x, r):
    save = x.dirs, x.eprefixes, x.elinks, x.links
    k = r.randrange(8)
    if k == 0: x.dirs = x.dirs + [r.choice(["include", "./x", "../x", "a/b"])]
    elif k == 1: x.eprefixes = x.eprefixes + [""]
    elif k == 2: x.links = None; x.dirs = x.dirs or [g.root + "/ext"]
    elif k == 3: x.links = None; x.eprefixes = x.eprefixes or ["group"]; x.dirs = []
    elif k == 4: x.links = None; x.elinks = x.elinks or ["z"]; x.dirs = []; x.eprefixes = []
    elif k == 5: x.elinks = x.elinks + [r.choice(["nothing", "LIB-1", "lib", "lib_1", ""] + [d.links.upper() + "x" for d in x.visible_deps()] + [n.name for n in g.nodes])]
    elif k == 6: x.eprefixes = x.eprefixes + [r.choice(["nothing", "grou", "group/ap", "crate", "c", "dotx", "same/none"])]
    else:
        far = [n for n in g.nodes if n not in x.deps and n is not x and n.links]
        if far: f = r.choice(far); (x.elinks if r.random() < .5 else x.eprefixes).append(f.links); x.elinks, x.eprefixes = list(x.elinks), list(x.eprefixes)
    q, cmd = run_node(g, x); out, x.out_text = x.out_text, q.out
    judge(ck, g, x, q, cmd); ck.count(0, ("spoiled", k))
    x.out_text = out; x.dirs, x.eprefixes, x.elinks, x.links = save
    x.elinks = [l for l in x.elinks if any(d.links == l for d in x.visible_deps())]; x.eprefixes = [p for p in x.eprefixes if any(comps(d.prefix)[:len(comps(p))] == comps(p) for d in x.visible_deps())]
    q, cmd = run_node(g, x)  # leave the tree as it should be


def settings(ck, sb, i):
    """Sequences of assignments to CFG, against a model of them."""
    r = random.Random("%d/%s/settings/%d" % (SEED, TIER, i)); d = sb.dir(); ops = []; m = {"prefix": "demo", "dirs": [], "prefixes": [], "links": [], "dox": False}; shows = []; nthreads = 0
    for _ in range(r.choice([3, 10, 30])):
        k = r.choice(["prefix", "var-prefix", "dir", "hprefix", "hlink", "dox", "setdirs", "sethprefixes", "sethlinks", "var-dirs", "clear", "show", "show", "warm", "thread"])
        v = r.choice(["a", "b/c", "", "\u00e9", "x y", "a"]); l = [r.choice(["p", "q", "r/s", "p"]) for _ in range(r.randrange(4))]
        if k == "thread":
            if nthreads > 3: continue
            nthreads += 1; ops.append(k); continue
        if k in ("prefix", "var-prefix"): m["prefix"] = v; ops.append("%s=%s" % (k, v))
        elif k == "dir": m["dirs"] = m["dirs"] + ["/" + v]; ops.append("dir=/" + v)
        elif k == "hprefix": m["prefixes"] = m["prefixes"] + [v]; ops.append("hprefix=" + v)
        elif k == "hlink": m["links"] = m["links"] + [v]; ops.append("hlink=" + v)
        elif k == "dox": b = r.random() < .5; m["dox"] = b; ops.append("dox=%d" % b)
        elif k == "setdirs": m["dirs"] = ["/" + x for x in l]; ops.append("setdirs=" + ":".join(m["dirs"]))
        elif k == "sethprefixes": m["prefixes"] = l; ops.append("sethprefixes=" + ",".join(l))
        elif k == "sethlinks": m["links"] = l; ops.append("sethlinks=" + ",".join(l))
        elif k == "var-dirs": m["dirs"] = m["dirs"] + ["/" + x for x in l]; ops.append("var-dirs=" + ":".join("/" + x for x in l))
        elif k == "clear": m["dirs"], m["prefixes"], m["links"] = [], [], []; ops.append("clear")
        else: ops.append(k)
        if k == "show": shows.append(dict(m))
    ops.append("show"); shows.append(dict(m))
    q = sb.spawn([sb.bin, *ops], {"CARGO_PKG_NAME": "demo"}, d)
    lst = lambda x: "[" + ", ".join('"%s"' % y for y in x) + "]"
    want = []
    for s in shows:
        b = str(s["dox"]).lower()
        want.append('SHOW prefix="%s" dirs=%s prefixes=%s links=%s dox=%s' % (s["prefix"], lst(s["dirs"]), lst(s["prefixes"]), lst(s["links"]), b))
        want.append('DEBUG Cfg { include_prefix: "%s", exported_header_dirs: %s, exported_header_prefixes: %s, exported_header_links: %s, doxygen: %s }' % (s["prefix"], lst(s["dirs"]), lst(s["prefixes"]), lst(s["links"]), b))
    got = q.out.rstrip("\n").split("\n"); ck.count(len(want), ("settings", len(ops) > 10, nthreads))
    if q.rc or got != want: ck.violation("settings", "CFG is not what was assigned to it: %s\n%s\nexpected %s\n%s" % (ops, next(((a, b) for a, b in zip(got + [""], want) if a != b), got[-1:]), len(want), q.err[-300:]), {"ops": "\n".join(ops)})
    os.rmdir(d)


def environment(ck, sb):
    """What Cargo always sets is missing."""
    r = random.Random("env"); g = Graph(sb, r, 1); x = g.nodes[0]; x.ran = False
    x.dirs, x.eprefixes, x.elinks, x.meta, x.out_text = [], [], [], [], ""
    for k in ("OUT_DIR", "CARGO_MANIFEST_DIR", "CARGO_PKG_NAME"):
        e = g.env(x); del e[k]; q = sb.spawn([sb.bin, "prefix=p", "file=src/b0.rs", "build"], e, x.dir); ck.count(1, ("env", k))
        if k == "CARGO_PKG_NAME":
            if q.rc: ck.violation("environment", "fails without %s although a prefix is given: %s" % (k, q.err[-300:]))
        elif not q.rc or k not in q.err: ck.violation("environment", "%s missing: exit status %s, %s" % (k, q.rc, q.err[-300:]))
    # values that are not UTF-8 are passed to the compiler as they are
    bad = os.fsdecode(b"/tmp/\xff\xfe"); e = g.env(x, [("DEP_B_CXXBRIDGE_DIR0", bad), ("DEP_B_CXXBRIDGE_PREFIX", "b")]); q = sb.spawn([sb.bin, "file=src/b0.rs", "build"], e, x.dir); ck.count(1, ("env", "utf8"))
    if q.rc: ck.violation("environment", "a dependency in a directory that is not UTF-8: %s" % q.err[-300:])
    shutil.rmtree(g.root, ignore_errors=True)


def compiled(ck, sb):
    """A chain a <- b <- c <- d through the real compiler: what is exported is found, what is private is not."""
    def one(k):
        r = random.Random("chain%d" % k); g = Graph(sb, r, 4, 0); a, b, c, d = g.nodes
        for i, x in enumerate(g.nodes):
            x.ran, x.meta, x.out_text, x.dirs, x.eprefixes, x.elinks, x.dox = False, [], "", [], [], [], False
            x.links = "l%d" % i; x.setprefix = ["p%d" % i, "deep/p%d" % i][k % 2]; x.prefix = x.setprefix
            x.header = x.prefix + "/include/own%d.h" % i; x.bridge = x.prefix + "/src/b%d.rs.h" % i
        b.deps, c.deps, d.deps = [a], [b], [c]
        if k & 1: b.elinks = [a.links]
        if k & 2: c.eprefixes = [b.prefix]
        if k & 4: a.add_dir(r)
        open(g.dep, "w").write(open(REPO + "/include/cxx.h").read()); own(g.root)
        for x in g.nodes:
            vis = x.visible(); inc = []
            for y in g.nodes:
                if y.i < x.i:
                    n = [y.header, y.bridge]; inc += [(m, y.own_dirs()[0] in vis, y.i) for m in n]
            t = "".join("#if %s__has_include(\"%s\")\n#error %s %s\n#endif\n" % ("!" if v else "", m, "missing" if v else "unexpected", m) for m, v, _ in inc)
            open(x.dir + "/include/probe.h", "w").write("#pragma once\n" + t + "".join("#include \"%s\"\n" % m for m, v, _ in inc if v))
            open(x.dir + "/src/probe.rs", "w").write("#[cxx::bridge(namespace = \"n%d\")] mod ffi { struct P%d { x: u8 } unsafe extern \"C++\" { include!(\"%s/include/probe.h\"); } }\n" % (x.i, x.i, x.prefix))
            own(x.dir)
            e = g.env(x); e.update(TARGET=TARGET, HOST=TARGET, OPT_LEVEL="0")
            q = sb.spawn([sb.bin, *x.ops(r), "file=src/b%d.rs" % x.i, "file=src/probe.rs", "compile=bridge"], e, x.dir, 300); ck.count(1 + len(inc), ("compile", k, x.i))
            if q.rc: ck.violation("compile", "%s\n%s" % (describe(g), (q.out + q.err)[-1500:]), {"out": q.out, "err": q.err, "env": str(e)}); break
            x.meta = [m for m in meta_of(q.out) if m[0].startswith("CXXBRIDGE")]
        shutil.rmtree(g.root, ignore_errors=True)
    pmap(one, range(8))


def main(ck):
    ck.rule = ("an evaluation is one directory or header of one crate compared with what the dependency graph and its re-exports allow, one configuration judged valid or not, one state of CFG compared with a model, or one repetition in another order; "
               "distinct counts distinct (kind, reason for an error or size of the result)")
    sb = Sandbox("c26")
    try:
        environment(ck, sb)
        jobs = [(graph, i) for i in range(4000 if THOROUGH else 200)] + [(settings, i) for i in range(10000 if THOROUGH else 500)]
        pmap(lambda j: j[0](ck, sb, j[1]), jobs); compiled(ck, sb)
    finally: sb.close()
