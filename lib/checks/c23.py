"""C23: conditional items, against rustc's own evaluation of the predicates, in every front end."""
from common import *
from compileprobe import Probe, compile_probes
import os, random, re, shutil, units

NAMES = ["alpha", "beta", "gamma_1", "delta", "eps"]
KEYS = ["mode", "feature", "kind_2", "alpha2"]
VALS = ["x", "my-feat", "Under_score", "a b", "v1.2", "héé", "default", "x64", "true"]
SPECIAL = [("unix", None), ("windows", None), ("target_os", "linux"), ("target_os", "macos"), ("target_pointer_width", "64"), ("target_pointer_width", "32"), ("target_family", "unix"), ("target_endian", "little"), ("target_arch", "x86_64"), ("panic", "unwind"), ("target_env", "gnu")]
REAL = {("unix", None), ("target_os", "linux"), ("target_pointer_width", "64"), ("target_family", "unix"), ("target_endian", "little"), ("target_arch", "x86_64"), ("panic", "unwind"), ("target_env", "gnu")}

T, F, U = True, False, None


def lit(r, v):
    k = r.randrange(6)
    if k == 0: return 'r"%s"' % v
    if k == 1: return 'r#"%s"#' % v
    if k == 2 and v: return '"\\x%02x%s"' % (ord(v[0]), v[1:]) if ord(v[0]) < 128 else '"\\u{%x}%s"' % (ord(v[0]), v[1:])
    return '"%s"' % v


class Pred:
    """A predicate and its value under a three-valued model."""
    def __init__(s, r, model, depth=None, special=True):
        s.r, s.model, s.special = r, model, special
        s.text, s.val = s.gen(r.choice([0, 1, 1, 2, 3, 4]) if depth is None else depth)
    def gen(s, d):
        r = s.r; k = r.randrange(6) if d else r.randrange(2)
        sp = lambda: r.choice(["", "", "", " ", "\n", "/**/"]) if s.special else ""
        if k < 2:
            if s.special and r.random() < .15: n, v = r.choice(SPECIAL)
            elif k == 0: n, v = r.choice(NAMES + s.model.extra_names), None
            else: n, v = r.choice(KEYS), r.choice(VALS)
            return (n if v is None else "%s%s=%s%s" % (n, sp(), sp(), lit(r, v))), s.model.truth(n, v)
        if k == 2:
            t, v = s.gen(d - 1)
            return "not%s(%s%s%s)" % (sp(), sp(), t, r.choice(["", "", ","])), None if v is None else not v
        l = [s.gen(d - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        vs = [v for _, v in l]
        body = (sp() + "," + sp()).join(t for t, _ in l) + (r.choice(["", "", ","]) if l else "")
        if k in (3, 4): return "all%s(%s)" % (sp(), body), F if F in vs else U if U in vs else T
        return "any%s(%s)" % (sp(), body), T if T in vs else U if U in vs else F


class Model:
    """A configuration as one front end knows it."""
    def __init__(s, r, fe, special=True):
        s.fe, s.names, s.kvs, s.unk, s.extra_names = fe, set(), set(), set(), []
        s.falses = set()
        for n in NAMES:
            k = r.randrange(3 if fe == "rustc" else 4)
            if k == 0: s.names.add(n)
            elif k == 1 or fe in ("rustc", "build"): s.falses.add(n)
            elif k == 2: s.falses.add(n)
            else: s.unk.add(n)
        for k in KEYS:
            for v in VALS:
                if r.random() < .25: s.kvs.add((k, v))
        if fe == "lib":
            for k in KEYS:
                if r.random() < .15: s.unk.add(k)
        s.special = special
    def truth(s, n, v):
        if (n, v) in REAL or (n, v) in SPECIAL:
            if s.fe in ("rustc", "build"): return (n, v) in REAL
            if s.fe == "lib": return (n, v) in REAL
            # command line: told everything that is true; the rest is known only for known keys
            if v is None: return (n, v) in REAL if (n, v) in REAL else U
            return (n, v) in REAL
        if v is None: return U if n in s.unk else n in s.names
        if s.fe == "lib" and n in s.unk: return U
        if s.fe == "cli" and n != "feature" and not any(k == n for k, _ in s.kvs): return U
        return (n, v) in s.kvs
    def lib_opts(s):
        o = ["cfgon"] + ["cfg " + n for n in sorted(s.names)] + ["cfgkv %s=%s" % kv for kv in sorted(s.kvs)] + ["unk " + n for n in sorted(s.unk)]
        return "\n".join(o + ["cfg " + n if v is None else "cfgkv %s=%s" % (n, v) for n, v in sorted(REAL, key=str)])
    def cli_args(s, r):
        o = [r.choice([n, n + "=true"]) for n in sorted(s.names)] + [n + "=false" for n in sorted(s.falses)] + ['%s="%s"' % kv for kv in sorted(s.kvs)]
        o += [n if v is None else '%s="%s"' % (n, v) for n, v in sorted(REAL, key=str)]
        r.shuffle(o); return [x for a in o for x in ("--cfg", a)]
    def rustc_args(s):
        return [x for n in sorted(s.names) for x in ("--cfg", n)] + [x for k, v in sorted(s.kvs) for x in ("--cfg", '%s="%s"' % (k, v))]
    def cargo_env(s, exact=True):
        """What Cargo passes to the build script of a crate compiled in this configuration."""
        e, by = {}, {}
        for n in s.names: e["CARGO_CFG_" + n.upper()] = ""
        for n, v in REAL: by.setdefault(n, []).append(v) if v is not None else e.setdefault("CARGO_CFG_" + n.upper(), "")
        for k, v in sorted(s.kvs):
            if k != "feature": by.setdefault(k, []).append(v)
        for k, vs in by.items(): e["CARGO_CFG_" + k.upper()] = ",".join(vs)
        feats = sorted(v for k, v in s.kvs if k == "feature")
        for f in feats: e["CARGO_FEATURE_" + f.upper().replace("-", "_")] = "1"
        if exact and feats: e["CARGO_CFG_FEATURE"] = ",".join(feats)
        return e


# kind -> (text with #P for the attributes and # for the number, C++ identifier, Rust presence probe or None, needs own wrapper)
KINDS = {
    "struct": ("#P #[derive(PartialEq, Hash, Clone)] struct St# { x: u8 }", "St#"),
    "enum": ("#P enum En# { A, B }", "En#"),
    "field": ("struct Fh# { base: u8, #P fld#: u16, tail: u8 }", "fld#"),
    "variant": ("#[repr(u8)] enum Vh# { A = 1, #P Var# = 7, Z = 9 }", "Var#"),
    "cfn": ("unsafe extern \"C++\" { #P fn cfn#(x: u8) -> u8; }", "cfn#"),
    "cmethod": ("unsafe extern \"C++\" { type Ch#; #P fn cm#(self: &Ch#); }", "cm#"),
    "ctype": ("unsafe extern \"C++\" { #P type Ct#; }", "Ct#"),
    "rfn": ("extern \"Rust\" { #P fn rfn#(x: u8); }", "rfn#"),
    "rtype": ("extern \"Rust\" { #P type Rt#; }", "Rt#"),
    "rmethod": ("extern \"Rust\" { type Rh#; #P fn rm#(self: &Rh#); }", "rm#"),
    "smethod": ("struct Sh# { x: u8 } extern \"Rust\" { #P fn sm#(self: &Sh#); }", "sm#"),
    "block": ("#P unsafe extern \"C++\" { fn bf#(); }", "bf#"),
    "rblock": ("#P extern \"Rust\" { fn br#(); }", "br#"),
    "binclude": ("#P unsafe extern \"C++\" { include!(\"incb#.h\"); }", "incb#"),
    "include": ("unsafe extern \"C++\" { include!(\"plain#.h\"); #P include!(\"inc#.h\"); }", "inc#"),
    "impl": ("struct Ih# { x: u8 } #P impl Vec<Ih#> {}", "rust_vec$Ih#"),
    "impl-u": ("unsafe extern \"C++\" { type Iu#; } #P impl UniquePtr<Iu#> {}", "unique_ptr$Iu#"),
    "alias": ("unsafe extern \"C++\" { #P type Al# = crate::ext::Al#; #P fn al#(x: &Al#); }", "al#"),
    "estruct": ("#P struct Xs# { x: u8 } unsafe extern \"C++\" { #P type Xs#; }", "Xs#"),
    "uses": ("#P struct Us# { x: u8 } #P impl Vec<Us#> {} extern \"Rust\" { #P fn us#(x: &Us#, y: Vec<Us#>); }", "Us#"),
}
# items whose presence in Rust can be asked for directly
RUST = {"cfn": "use crate::ffi::cfn# as x;", "block": "use crate::ffi::bf# as x;", "cmethod": "fn p(x: &crate::ffi::Ch#) { x.cm#() }", "field": "fn p(x: &crate::ffi::Fh#) { let _ = &x.fld#; }",
        "variant": "fn p() { let _ = crate::ffi::Vh#::Var#; }", "alias": "use crate::ffi::Al# as x;", "impl": None}
# Rust functions that have to exist when the item does: a bridge of its own
OWN = {"rfn": "#[cxx::bridge] mod ffi { extern \"Rust\" { #P fn rfn#(x: u8); } }", "rblock": "#[cxx::bridge] mod ffi { #P extern \"Rust\" { fn br#(); } }", "rmethod": "struct Rh#; #[cxx::bridge] mod ffi { extern \"Rust\" { type Rh#; #P fn rm#(self: &Rh#); } }",
       "mod": "#P #[cxx::bridge] mod ffi { extern \"Rust\" { fn missing#(); } }", "mod2": "#[cxx::bridge] #P mod ffi { extern \"Rust\" { fn missing#(); } }", "mod3": "#[cxx::bridge(namespace = \"q\")] mod ffi { #Q extern \"Rust\" { fn missing#(); } }"}
# expansions that refer to an absent item when the predicate is false (see known_findings.jsonl)
FRAGILE = {
    "struct": "#[cxx::bridge] mod ffi { #[cfg(any())] struct S { x: u8 } }",
    "struct-derive": "#[cxx::bridge] mod ffi { #[cfg(any())] #[derive(PartialEq, Clone, Debug)] struct S { x: u8 } }",
    "enum": "#[cxx::bridge] mod ffi { #[cfg(any())] enum E { A } }",
    "ctype": "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { #[cfg(any())] type O; } }",
    "rtype": "#[cxx::bridge] mod ffi { extern \"Rust\" { #[cfg(any())] type R; } }",
    "cxx-block": "#[cxx::bridge] mod ffi { #[cfg(any())] unsafe extern \"C++\" { type O; fn f() -> UniquePtr<O>; } }",
    "rust-block": "#[cxx::bridge] mod ffi { #[cfg(any())] extern \"Rust\" { type R; fn f() -> Box<R>; } }",
    "field-derive": "#[cxx::bridge] mod ffi { #[derive(Clone, Debug, PartialEq)] struct S { a: u8, #[cfg(any())] b: u16 } }",
    "variant-derive": "#[cxx::bridge] mod ffi { #[derive(Debug)] enum E { A, #[cfg(any())] B = 7 } }",
}


DOCUMENTED = {"struct", "enum", "field", "variant", "cfn", "cmethod", "ctype", "rfn", "rtype", "rmethod", "smethod"}


class Item:
    def __init__(s, r, kind, i, model, special=True):
        s.kind, s.i = kind, i
        ps = [Pred(r, model, special=special) for _ in range(r.choice([1, 1, 1, 1, 2, 3]))]
        vs = [p.val for p in ps]
        s.preds = [p.text for p in ps]
        s.val = F if F in vs else U if U in vs else T
        s.attr = (r.choice(["", "", '#[doc = "doc"] ', "#[allow(dead_code)] "]) if special and kind in DOCUMENTED else "") + " ".join("#[cfg%s(%s%s)]" % (r.choice(["", " "]), p.text, r.choice(["", ","])) for p in ps)
        if kind in ("mod", "mod2", "mod3"): s.text = s.ident = None; return
        t, ident = KINDS[kind]
        s.text = sub(t, s.attr, i); s.ident = ident.replace("#", str(i))
    def any_unknown(s): return s.val is U


def sub(t, attr, i):
    out, k = "", 0
    while k < len(t):
        if t.startswith("#P", k): out += attr; k += 2
        elif t.startswith("#Q", k): out += attr.replace("#[", "#!["); k += 2
        elif t[k] == "#" and t[k + 1:k + 2] != "[" : out += str(i); k += 1
        else: out += t[k]; k += 1
    return out


def source(r, items, bridges=1):
    """-> text, {line: item}"""
    lines, where = [], {}
    groups = [items[k::bridges] for k in range(bridges)]
    for g, its in enumerate(groups):
        lines.append("#[cxx::bridge] mod ffi%s {" % ("" if g == 0 else g))
        for it in its:
            for l in it.text.split("\n"): where[len(lines) + 1] = it; lines.append(l)
        lines.append("}")
    return "\n".join(lines) + "\n", where


def mentions(text, ident):
    return re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(ident).replace("\\$", "\\$"), text) is not None


def judge_output(ck, fe, src, items, header, impl, extra=""):
    text = header + "\n" + impl
    for it in items:
        here = mentions(text, it.ident)
        ck.count(1, (fe, it.kind, it.val, len(it.preds)))
        if here != it.val:
            ck.violation("%s/%s/%s" % (fe, it.kind, "extra" if here else "missing"), "%s: %s is %s in the generated C++ although its predicate is %s\n%s%s" % (fe, it.ident, "present" if here else "absent", it.val, it.text, extra), {"bridge.rs": src, "out.h": header, "out.cc": impl})


def judge_error(ck, fe, src, where, items, lines, msg):
    """An error is due; it has to point at an item whose predicate cannot be decided."""
    unk = {it for it in items if it.val is U}
    ck.count(1, (fe, "undetermined"))
    if not lines: ck.violation(fe + "/unlocated", "undetermined predicates are reported without a position: %s" % msg[:800], {"bridge.rs": src})
    for l in lines:
        if where.get(l) not in unk: ck.violation(fe + "/wrong-item", "the error points at line %s, where nothing is undetermined: %s" % (l, msg[:800]), {"bridge.rs": src})


def make(r, model, n, special=True, kinds=None):
    ks = sorted(kinds or KINDS)
    items = [Item(r, r.choice(ks), i, model, special) for i in range(n)]
    if r.random() < .7:  # mostly decidable files, else everything ends in an error
        items = [it for it in items if it.val is not U]
    return items


def lib_round(ck, i):
    r = random.Random("%d/%s/lib/%d" % (SEED, TIER, i)); m = Model(r, "lib")
    items = make(r, m, r.choice([3, 20, 50]))
    src, where = source(r, items, r.choice([1, 1, 2, 3]))
    out = units.vgen().gen(src, m.lib_opts())
    unk = [it for it in items if it.val is U]
    if unk:
        if out[0] != "ERR": ck.violation("lib/guessed", "no error although a predicate cannot be decided (%s): %s" % (out[0], unk[0].text), {"bridge.rs": src, "opts": m.lib_opts()}); return
        ls = [l.split()[0] for l in out[1].splitlines()]
        judge_error(ck, "lib", src, where, items, [int(x) for x in ls if x.isdigit()], out[1])
    elif out[0] != "OK": ck.violation("lib/rejected", "%s\n" % (out,), {"bridge.rs": src, "opts": m.lib_opts()})
    else: judge_output(ck, "lib", src, items, out[1], out[2])
    # without an evaluator nothing can be decided but constants
    if i % 8 == 0:
        out = units.vgen().gen(src); ck.count(1, ("default", out[0]))
        named = [it for it in items if re.search(r"\b(%s)\b" % "|".join(NAMES + KEYS + [n for n, _ in SPECIAL]), " ".join(it.preds))]
        if named and out[0] == "OK" and all(len(it.preds) == 1 and re.fullmatch(r"\w+", it.preds[0]) for it in named): ck.violation("lib/default-guessed", "a file with conditions is accepted without any configuration", {"bridge.rs": src})


def cli_round(ck, i):
    r = random.Random("%d/%s/cli/%d" % (SEED, TIER, i)); m = Model(r, "cli")
    items = make(r, m, r.choice([2, 20, 50]))
    src, where = source(r, items, r.choice([1, 2]))
    d = os.path.join(ck.dir, "cli%d" % i); os.makedirs(d); p = d + "/in.rs"; open(p, "w").write(src)
    q = run([cli_bin(), p, "-o", d + "/o.h", "-o", d + "/o.cc", *m.cli_args(r)], env=base_env(TERM="dumb"))
    unk = [it for it in items if it.val is U]
    if unk:
        if q.rc == 0: ck.violation("cli/guessed", "no error although a predicate cannot be decided: %s" % unk[0].text, {"bridge.rs": src}); return
        judge_error(ck, "cli", src, where, items, [int(x) for x in re.findall(r"in\.rs:(\d+):\d+", q.err)], q.err)
    elif q.rc: ck.violation("cli/rejected", q.err[:1500], {"bridge.rs": src, "args": " ".join(m.cli_args(r))})
    else: judge_output(ck, "cli", src, items, open(d + "/o.h").read(), open(d + "/o.cc").read())
    shutil.rmtree(d)


def ascii_only(m):
    """Cargo accepts only such names for features."""
    m.kvs = {(k, v) for k, v in m.kvs if k != "feature" or re.fullmatch(r"[A-Za-z0-9_-]+", v)}


def run_build(ck, d, src, env):
    os.makedirs(d + "/src", exist_ok=True); os.makedirs(d + "/target/out", exist_ok=True)
    open(d + "/Cargo.toml", "w").write("[package]\nname = \"p\"\n"); open(d + "/src/lib.rs", "w").write(src)
    e = base_env(TERM="dumb", OUT_DIR=d + "/target/out", CARGO_MANIFEST_DIR=d, CARGO_PKG_NAME="pkg", **env)
    q = run([bdrv_bin(), "file=src/lib.rs", "build"], env=e, cwd=d)
    o = d + "/target/out/cxxbridge/"
    try: return q, open(o + "include/pkg/src/lib.rs.h").read(), open(o + "sources/pkg/src/lib.rs.cc").read()
    except OSError: return q, None, None


def build_round(ck, i):
    r = random.Random("%d/%s/build/%d" % (SEED, TIER, i)); m = Model(r, "build"); ascii_only(m)
    exact = r.random() < .7
    items = make(r, m, r.choice([2, 20, 50]))
    src, where = source(r, items, r.choice([1, 2]))
    d = os.path.join(ck.dir, "build%d" % i)
    q, h, c = run_build(ck, d, src, m.cargo_env(exact))
    if q.rc: ck.violation("build/rejected", q.err[:1500], {"bridge.rs": src, "env": str(m.cargo_env(exact))})
    else: judge_output(ck, "build", src, items, h, c, "\nenv: %s" % m.cargo_env(exact))
    shutil.rmtree(d)


def rust_round(ck, i):
    """The same file in rustc and in all front ends, in one configuration."""
    r = random.Random("%d/%s/rustc/%d" % (SEED, TIER, i)); m = Model(r, "rustc"); ascii_only(m)
    items = [Item(r, r.choice(sorted(KINDS)), k, m) for k in range(70)]
    own = [Item(r, r.choice(sorted(OWN)), 1000 + k, m) for k in range(24)]
    src, where = source(r, items)
    probes = []
    for it in items + own:
        # the predicate itself, as rustc sees it: the model is checked too
        probes.append((it, Probe("pred", "%s pub struct Marker; use self::Marker as y;" % " ".join("#[cfg(%s)]" % p for p in it.preds), it.val)))
    for it in items:
        if RUST.get(it.kind): probes.append((it, Probe("rust/" + it.kind, sub(RUST[it.kind], "", it.i), it.val)))
    for it in own: probes.append((it, Probe("rust/" + it.kind, sub(OWN[it.kind], it.attr, it.i), not it.val)))
    inrust = [it for it in items if it.kind in ("cfn", "block", "cmethod", "field", "variant", "alias", "include", "binclude")]
    prelude = "#![allow(warnings)]\npub mod ext { %s }\n" % " ".join("#[repr(C)] pub struct Al%d { x: u8 } unsafe impl cxx::ExternType for Al%d { type Id = cxx::type_id!(\"Al%d\"); type Kind = cxx::kind::Trivial; }" % (it.i, it.i, it.i) for it in items if it.kind == "alias") + source(r, inrust)[0].replace("mod ffi {", "pub mod ffi {", 1)
    compile_probes(ck, "rustc%d" % i, [p for _, p in probes], prelude, extra=m.rustc_args())
    for it, p in probes:
        ck.count(1, (p.key, p.ok))
        if p.key == "pred":
            if bool(p.err) == p.ok: raise InfraError("the model and rustc disagree on %s: %s %s" % (it.preds, it.val, p.err))
        elif bool(p.err) == p.ok: ck.violation(p.key, "the item is %s in Rust although its predicate is %s (%s)\n%s" % ("absent" if it.val else "present", it.val, p.err, it.text or p.text), {"bridge.rs": src, "probe.rs": p.text})
    # front ends, same configuration
    out = units.vgen().gen(src, m.lib_opts())
    if out[0] != "OK": ck.violation("lib/rejected", "%s" % (out,), {"bridge.rs": src})
    else: judge_output(ck, "lib", src, items, out[1], out[2])
    d = os.path.join(ck.dir, "all%d" % i)
    q, h, c = run_build(ck, d, src, m.cargo_env())
    if q.rc: ck.violation("build/rejected", q.err[:1500], {"bridge.rs": src})
    else:
        judge_output(ck, "build", src, items, h, c, "\nenv: %s" % m.cargo_env())
        if out[0] == "OK" and (h, c) != (out[1], out[2]): ck.violation("front-ends-differ/build", "the same file in the same configuration gives different C++ in cxx-build and cxx-gen", {"bridge.rs": src, "build.h": h, "gen.h": out[1]})
    # the command line knows every name the file can ask for, except false specials
    args = m.cli_args(r) + [x for n, v in SPECIAL if v is None and (n, v) not in REAL for x in ("--cfg", n + "=false")] + [x for k in KEYS for x in ("--cfg", k + '="never"')]
    q = run([cli_bin(), d + "/src/lib.rs", "-o", d + "/o.h", "-o", d + "/o.cc", *args], env=base_env(TERM="dumb"))
    if q.rc: ck.violation("cli/rejected", q.err[:1500], {"bridge.rs": src})
    else:
        judge_output(ck, "cli", src, items, open(d + "/o.h").read(), open(d + "/o.cc").read())
    shutil.rmtree(d)
    if i == 0: ck.sample(src[:600])


def malformed(ck):
    """What is not a predicate is an error everywhere, not a guess."""
    g = units.vgen(); probes = []
    bads = ["", "alpha beta", "not()", "not(alpha, beta)", "alpha = x", "alpha = 1", "alpha = ", "= \"x\"", "nope(alpha)", "alpha(beta)", "all(alpha", "all(alpha beta)", "all(, alpha)", "any(,)", "\"alpha\"", "1", "alpha, beta", "not alpha", "alpha = b\"x\"", "a::b", "alpha = \"x\" = \"y\"", "all(alpha,, beta)", "not(alpha,,)", "alpha,,"]
    goods = ["alpha", "alpha,", "not(alpha,)", "all()", "any()", "all(alpha,)", "not(not(alpha))", "mode = r#\"x\"#", "any(all(), alpha)"]
    for t in bads + goods:
        for k in ("struct", "field", "cfn", "rtype", "variant", "impl", "include", "block"):
            src = "#[cxx::bridge] mod ffi { %s }" % sub(KINDS[k][0], "#[cfg(%s)]" % t, 1)
            out = g.gen(src, "cfgon\ncfg alpha\ncfgkv mode=x"); ck.count(1, ("malformed", t, out[0]))
            if (out[0] == "OK") != (t in goods): ck.violation("malformed/" + k, "#[cfg(%s)]: %s" % (t, out[:1]), {"bridge.rs": src})
    for form in ("#[cfg]", "#[cfg = \"alpha\"]", "#[cfg[]]"):
        out = g.gen("#[cxx::bridge] mod ffi { %s struct S { x: u8 } }" % form, "cfgon\ncfg alpha"); ck.count(1, ("form", form, out[0]))
        if out[0] == "OK" and form != "#[cfg[]]": ck.violation("malformed/form", form)


def fragile(ck):
    """Bridges that have to compile in Rust when a conditional item is absent."""
    ps = [Probe("fragile/" + k, t, True) for k, t in sorted(FRAGILE.items())]
    compile_probes(ck, "fragile", ps)
    for p in ps:
        ck.count(1, p.key)
        if p.err: ck.violation("absent-item/" + p.key[8:], "does not compile in Rust with the item compiled out: %s\n%s" % (p.err, p.text), {"bridge.rs": p.text})


def cargo_limits(ck):
    """Configurations that Cargo's variables do not tell apart."""
    S = lambda p: "#[cxx::bridge] mod ffi { struct Keep { x: u8 } #[cfg(%s)] struct Cond { x: u8 } }" % p
    for key, pred, env, want in (
        ("cargo-env/case", "baz", {"CARGO_CFG_BAZ": ""}, False),                    # rustc --cfg Baz
        ("cargo-env/comma", "bar = \"y\"", {"CARGO_CFG_BAR": "x,y,z"}, False),      # rustc --cfg bar="x" --cfg bar="y,z"
        ("cargo-env/empty-value", "foo = \"\"", {"CARGO_CFG_FOO": ""}, False),      # rustc --cfg foo
        ("cargo-env/debug_assertions", "debug_assertions", {}, False),              # newer Cargo, assertions off in the profile but on in the build script
        ("cargo-env/rustc-cfg", "from_build_script", {}, True),                     # cargo:rustc-cfg=from_build_script printed by this build script
        ("cargo-env/feature-hyphen", "feature = \"a-b\"", {"CARGO_FEATURE_A_B": "1", "CARGO_CFG_FEATURE": "a-b"}, True),
        ("cargo-env/feature-underscore", "feature = \"a_b\"", {"CARGO_FEATURE_A_B": "1", "CARGO_CFG_FEATURE": "a-b"}, False),
        ("cargo-env/feature-case", "feature = \"A-B\"", {"CARGO_FEATURE_A_B": "1", "CARGO_CFG_FEATURE": "a-b"}, False),
        ("cargo-env/feature-old-cargo", "feature = \"a-b\"", {"CARGO_FEATURE_A_B": "1"}, True),
        ("cargo-env/name-of-key-value", "target_os", {"CARGO_CFG_TARGET_OS": "linux"}, None),
        ("cargo-env/test", "test", {}, None),
        ("cargo-env/feature-alone", "feature", {"CARGO_CFG_FEATURE": "a"}, None),
    ):
        d = os.path.join(ck.dir, "lim"); q, h, c = run_build(ck, d, S(pred), env); ck.count(1, key)
        got = None if q.rc else "Cond" in h
        if got != want: ck.violation(key, "cfg(%s) with %s in the environment is %s in C++, %s in Rust" % (pred, env, got, want), {"bridge.rs": S(pred)})
        shutil.rmtree(d)


def cli_flags(ck):
    """Every pair of flags about one name, every query about it: the answer is rustc's for the same configuration, or an error where the flags leave it open or contradict each other."""
    flags = [("n", "n"), ("n=true", "n"), ("n=false", None), ('n="a"', 'n="a"'), ('n="b"', 'n="b"'), ('n=""', 'n=""'), ('n="true"', 'n="true"'), ('n=r"a"', 'n="a"')]
    queries = ["n"] + ['n = "%s"' % v for v in ("a", "b", "", "true", "false", "A", "a,b", "a ")]
    sets = [()] + [(a,) for a in flags] + [(a, b) for a in flags for b in flags] + [tuple(random.Random("%d/%s/fl/%d" % (SEED, TIER, i)).choices(flags, k=4)) for i in range(200 if THOROUGH else 20)]
    env = base_env(TERM="dumb"); exe = cli_bin(); d = os.path.join(ck.dir, "flags"); os.makedirs(d)
    files = {}
    for i, q in enumerate(queries):
        files[q] = os.path.join(d, "q%d.rs" % i); open(files[q], "w").write("#[cxx::bridge] mod ffi { struct Keep { x: u8 } #[cfg(%s)] struct Cond { x: u8 } }" % q)
    truth = {}; probe = os.path.join(d, "p.rs")
    open(probe, "w").write("#![allow(unexpected_cfgs)]\n" + "".join("#[cfg(%s)] compile_error!(\"Q%d.\");\n" % (q, i) for i, q in enumerate(queries)))
    def rust(c):
        q = run(["rustc", "--edition", "2021", "--crate-name", "p", "--crate-type", "lib", "--emit=metadata", "-o", os.path.join(d, "m%d" % (hash(c) & 0xffffff))] + [x for f in c for x in ("--cfg", f)] + [probe], env=env)
        truth[c] = [("Q%d." % i) in q.err for i in range(len(queries))]
    confs = sorted(set(tuple(sorted({f for _, f in s if f})) for s in sets)); pmap(rust, confs)
    def one(s):
        got = {}
        names = {a for a, _ in s}; t, f = bool(names & {"n", "n=true"}), "n=false" in names
        want = truth[tuple(sorted({x for _, x in s if x}))]
        for i, q in enumerate(queries):
            r = run([exe, files[q]] + [x for a, _ in s for x in ("--cfg", a)], env=env); ck.count(1, ("flags", len(s), i, r.rc))
            known = (t != f) if q == "n" else bool(s)
            g = None if r.rc else "Cond" in r.out
            if r.rc and not r.err.strip(): ck.violation("flags/silent", "cfg(%s) with %s" % (q, names))
            if known and g != want[i] and not (t and f and g is None): ck.violation("flags/wrong", "cfg(%s) with %s is %s in C++ and %s under rustc" % (q, [a for a, _ in s], "an error" if g is None else g, want[i]), {"bridge.rs": open(files[q]).read(), "flags": "\n".join(a for a, _ in s)})
            if not known and g is not None: ck.violation("flags/guessed", "cfg(%s) with %s is %s in C++ although the flags leave it open" % (q, [a for a, _ in s], g), {"bridge.rs": open(files[q]).read(), "flags": "\n".join(a for a, _ in s)})
    pmap(one, sets)
    shutil.rmtree(d)


def main(ck):
    ck.rule = ("an evaluation is one item looked for in one generated output (or in Rust, through a use of it) and compared with the value of its predicate, one predicate evaluated by rustc, one error position, or one malformed predicate; "
               "distinct counts distinct (front end, kind of item, value, number of attributes)")
    rtdeps("none"); vgen_bin(); cli_bin(); bdrv_bin()
    malformed(ck)
    jobs = [(lib_round, i) for i in range(4000 if THOROUGH else 400)] + [(cli_round, i) for i in range(1500 if THOROUGH else 150)] + [(build_round, i) for i in range(1500 if THOROUGH else 120)] + [(rust_round, i) for i in range(60 if THOROUGH else 6)]
    pmap(lambda j: j[0](ck, j[1]), jobs[::-1])
    fragile(ck); cargo_limits(ck); cli_flags(ck)
