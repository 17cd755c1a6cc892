"""C18: values and underlying types of shared enums, against rustc's own enums and a model of the rules."""
from common import *
import units, random, re

REPR = "u8 i8 u16 i16 u32 i32 u64 i64 usize isize".split()
SIZE = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}
CT = lambda r: {"usize": "::std::size_t", "isize": "::rust::isize"}.get(r) or "::std::%sint%s_t" % ("u" if r[0] == "u" else "", r[1:])
def lim(r):
    b = SIZE.get(r, 64)
    return (0, (1 << b) - 1) if r[0] == "u" else (-(1 << b - 1), (1 << b - 1) - 1)

def lit(r, mag, suffix):
    k = r.randrange(8)
    t = str(mag)
    if k == 0: t = hex(mag)
    elif k == 1: t = "0x%X" % mag
    elif k == 2: t = oct(mag)
    elif k == 3: t = bin(mag)
    if r.random() < .2 and len(t) > 4: t = t[:-3] + "_" + t[-3:]
    if suffix: t += ("_" if r.random() < .3 else "") + suffix
    return t

class E:
    """One enum: text, and what the rules make of it."""
    def __init__(s, r, name):
        s.name = name
        s.attr = r.choice(REPR + [None] * 6)
        base = s.attr or r.choice([None, None, "u8"] + REPR)
        suffix = base if not s.attr and r.random() < .4 and base else None
        home = s.attr or suffix or r.choice(REPR)
        lo, hi = lim(home)
        n = r.choice([1, 1, 2, 3, 4, 5, 6, 8]); s.vars = []
        used = set(); repr_, prev, bad = s.attr, None, None
        for i in range(n):
            v, t, sx = "V%d" % i if r.random() < .9 else "r#V%d" % i, None, None
            if r.random() < .55:
                edge = [lo, hi, lo + 1, hi - 1, 0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, -(1 << 31), -(1 << 31) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, -(1 << 63), lo - 1, hi + 1, -(1 << 63) - 1, 1 << 64, 1 << 65]
                x = r.choice(edge) if r.random() < .5 else r.randint(lo, hi) if r.random() < .7 else r.randint(0, 20)
                if r.random() < .75: x = min(max(x, lo), hi)
                if suffix and r.random() < .7: sx = suffix
                elif s.attr and r.random() < .2: sx = s.attr
                elif r.random() < .03: sx = r.choice(REPR + ["u128", "i7"])
                mag = abs(x)
                t = ("-" if x < 0 else "") + lit(r, mag, sx)
                if x >= 0 and s.attr and s.attr[0] == 'i' and r.random() < .1: t = "--" + t if x else "-" + t
            if t is None: x = 0 if prev is None else prev + 1
            if not bad:
                if sx and sx not in REPR: bad = "suffix"
                elif abs(x) >= 1 << 64: bad = "magnitude"
                elif t is None and prev is not None and x >= 1 << 64: bad = "overflow"
                else:
                    if sx:
                        if repr_ is None:
                            repr_ = sx
                            if any(not lim(sx)[0] <= y <= lim(sx)[1] for _, _, y in s.vars): bad = "past"
                        elif repr_ != sx: bad = "mixed"
                    if repr_ and not lim(repr_)[0] <= x <= lim(repr_)[1]: bad = "limits"
            prev = x
            s.vars.append((v, t, x))
        vals = [x for _, _, x in s.vars]
        if not bad and not repr_:
            for c in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"):
                if lim(c)[0] <= min(vals) and max(vals) <= lim(c)[1]: repr_ = c; break
            else: bad = "no type"
        s.bad, s.repr = bad, repr_
        s.dup = len(set(vals)) != len(vals)
        s.ns = r.choice([None, None, None, "na::nb"]); s.ren = r.random() < .15
        s.form = "%s%s%s%s/%s" % ("attr," if s.attr else "", "suffix," if any(t and re.search("[ui]", t) for _, t, _ in s.vars) else "", "neg," if min(vals) < 0 else "", "implicit" if any(t is None for _, t, _ in s.vars) else "", bad or repr_)
    def body(s): return ", ".join(v + ("" if t is None else " = " + t) for v, t, _ in s.vars)
    def text(s): return "%s%s%senum %s { %s }" % ('#[namespace = "%s"] ' % s.ns if s.ns else "", '#[cxx_name = "Cxx%s"] ' % s.name if s.ren else "", "#[repr(%s)] " % s.attr if s.attr else "", s.name, s.body())
    def cpp(s): return ("::" + s.ns if s.ns else "") + "::" + ("Cxx" if s.ren else "") + s.name
    def cval(s, x): return "static_cast<%s>(%s)" % (CT(s.repr), "-9223372036854775807ll - 1" if x == -(1 << 63) else "%dll" % x if x < (1 << 63) else "%dull" % x)


def main(ck):
    ck.rule = ("an evaluation is one fact about a declaration: one variant's value in generated C++ (static_assert) or in Rust (against the same enum compiled by rustc), an underlying type, one round trip of a value, "
               "or the acceptance/rejection of a declaration by generator and macro against the rules; distinct counts distinct (declaration form, verdict/underlying type) and failure reasons")
    rtdeps("none"); vgen_bin()
    pmap(lambda i: values(ck, i), range(40 if THOROUGH else 6), 4)
    rejections(ck)
    for i in range(6 if THOROUGH else 2): extern_enums(ck, i)
    cfg_stripped(ck)


def pick(rng, want_bad, n, pre):
    out = []
    while len(out) < n:
        e = E(rng, "%s%d" % (pre, len(out)))
        if e.dup or bool(e.bad) != want_bad: continue
        out.append(e)
    return out


def values(ck, i):
    rng = random.Random("%d/%s/values/%d" % (SEED, TIER, i))
    es = pick(rng, False, 40, "E")
    order = list(es); rng.shuffle(order)
    # one declaration at a time first, so that a wrong rejection is attributed
    g = units.vgen(); ok = []
    for e in es:
        r = g.gen("#[cxx::bridge] mod ffi { %s }" % e.text())
        ck.count(1, ("accept", e.form))
        if r[0] != "OK": ck.violation("rejected-valid/" + e.form, "the generator rejects a valid enum (%s): %s\n%s" % (r[0], e.text(), r[1:2]), {"enum.rs": e.text()})
        else: ok.append(e)
    es = ok
    fns = "\n".join("fn echo_%s(e: %s) -> %s; fn raw_%s(e: %s) -> %s; fn from_%s(e: %s) -> %s;" % (e.name, e.name, e.name, e.name, e.name, e.repr, e.name, e.repr, e.name) for e in es)
    ffi = "#[cxx::bridge]\npub mod ffi0 {\n%s\nunsafe extern \"C++\" { include!(\"unit.h\"); %s }\n}\n" % ("\n".join(e.text() for e in order if e in es), fns)
    ref, tst = [], []
    for e in es:
        neg = "#[repr(%s)] " % e.repr
        refbody = ", ".join(v + ("" if t is None else " = " + strip(t, e.repr)) for v, t, _ in e.vars)
        ref.append("%s#[derive(Clone, Copy)] pub enum %s { %s }" % (neg, e.name, refbody))
        tst.append("println!(\"T {} {} {}\", \"%s\", std::mem::size_of::<ffi0::%s>() == std::mem::size_of::<reference::%s>(), std::mem::align_of::<ffi0::%s>() == std::mem::align_of::<reference::%s>());" % ((e.name,) * 5))
        for v, _, x in e.vars:
            tst.append("{ let x: %s = ffi0::%s::%s.repr; println!(\"V {} {} {} {}\", \"%s.%s\", x as i128, reference::%s::%s as %s as i128, ffi0::raw_%s(ffi0::echo_%s(ffi0::%s::%s)) as i128); assert!(matches!(ffi0::from_%s(x), ffi0::%s::%s)); }" % (e.repr, e.name, v, e.name, v, e.name, v, e.repr, e.name, e.name, e.name, v, e.name, e.name, v))
        tst.append("for x in [0, 1, %s::MAX, %s::MIN, %s::MAX / 2, %s::MAX / 3 * 2] { let e = ffi0::from_%s(x); println!(\"R {} {} {} {}\", \"%s\", x as i128, ffi0::echo_%s(e).repr as i128, ffi0::raw_%s(ffi0::%s { repr: x }) as i128); }" % (e.repr, e.repr, e.repr, e.repr, e.name, e.name, e.name, e.name, e.name))
    unit = "#![allow(warnings)]\ninclude!(\"ffi0.rs\");\nmod reference { %s }\n#[no_mangle] pub extern \"C\" fn rs_main() { %s }\n" % ("\n".join(ref), "\n".join(tst))
    hd = "#pragma once\n#include \"rust/cxx.h\"\n" + "\n".join("%senum class %s : %s;%s" % ("namespace na { namespace nb { " if e.ns else "", e.cpp().split("::")[-1], CT(e.repr), " } }" if e.ns else "") for e in es) + "\n" + \
        "\n".join("%s echo_%s(%s e); %s raw_%s(%s e); %s from_%s(%s e);" % (e.cpp(), e.name, e.cpp(), CT(e.repr), e.name, e.cpp(), e.cpp(), e.name, CT(e.repr)) for e in es)
    cc = "#include \"ffi0.rs.h\"\nextern \"C\" void rs_main(); int main() { rs_main(); }\n" + "\n".join("%s echo_%s(%s e) { return e; } %s raw_%s(%s e) { return static_cast<%s>(e); } %s from_%s(%s e) { return static_cast<%s>(e); }" % (e.cpp(), e.name, e.cpp(), CT(e.repr), e.name, e.cpp(), CT(e.repr), e.cpp(), e.name, CT(e.repr), e.cpp()) for e in es)
    st = ["#include \"ffi0.rs.h\""]; what = {}
    for e in es:
        st.append("static_assert(::std::is_same<::std::underlying_type<%s>::type, %s>::value, \"underlying\"); static_assert(!::std::is_convertible<%s, %s>::value, \"scoped\");" % (e.cpp(), CT(e.repr), e.cpp(), CT(e.repr)))
        what[len(st)] = (e, "underlying type should be " + e.repr)
        for v, _, x in e.vars:
            st.append("static_assert(static_cast<%s>(%s::%s) == %s, \"value\");" % (CT(e.repr), e.cpp(), v.replace("r#", ""), e.cval(x)))
            what[len(st)] = (e, "%s should be %d" % (v, x))
    files = {"ffi0.rs": ffi, "unit.rs": unit, "unit.h": hd + "\n", "main.cc": cc}
    d = os.path.join(ck.dir, "v%d" % i)
    try: exe = units.build_plain(files, d, "g++" if i % 4 == 3 else "clang++", rng.choice(["c++11", "c++14", "c++17", "c++20"]))
    except units.BuildFailure as x:
        ck.violation("build/" + x.stage, "valid enums do not build: %s\n%s" % (x.stage, x.text), x.files); return
    open(os.path.join(d, "asserts.cc"), "w").write("\n".join(st) + "\n")
    r = run(["clang++", "-std=c++14", "-fsyntax-only", "-w", "-ferror-limit=0", "-I", d, "-I", cxx_include_dir(), os.path.join(d, "asserts.cc")])
    bad = {int(m.group(1)): m.group(0) for m in re.finditer(r"asserts\.cc:(\d+):\d+: error:.*", r.err)}
    for ln, (e, w) in what.items():
        ck.count(1, ("value", e.form))
        if ln in bad: ck.violation("cxx-value/" + w.split()[0], "in C++, %s\nfor %s\n%s" % (w, e.text(), bad[ln]), files)
    r = run([exe])
    if r.rc: ck.violation("run", "enum program ended with %s\n%s" % (r.rc, r.err[-1500:]), files)
    by = {e.name: e for e in es}
    for l in r.out.splitlines():
        f = l.split(); ck.count(1)
        e = by[f[1].split(".")[0]]
        if f[0] == "T" and f[2:] != ["true", "true"]: ck.violation("rust-size", "size or alignment differs from #[repr(%s)]: %s" % (e.repr, e.text()), files)
        if f[0] == "V":
            want = dict((v, x) for v, _, x in e.vars)[f[1].split(".")[1]]
            if not (str(want) == f[2] == f[3] == f[4]): ck.violation("rust-value", "%s: rules %d, rustc's enum %s, bridge %s, after a round trip through C++ %s\n%s" % (f[1], want, f[3], f[2], f[4], e.text()), files)
        if f[0] == "R" and not f[2] == f[3] == f[4]: ck.violation("round-trip", "value %s of %s came back as %s, seen in C++ as %s" % (f[2], e.text(), f[3], f[4]), files)
    ck.sample(es[0].text())


def strip(t, rep):
    return re.sub(r"_?(?:[ui](?:8|16|32|64|size))$", "", t)


def rejections(ck):
    """Declarations the rules reject, and valid ones between them; macro and generator."""
    rng = random.Random("%d/%s/reject" % (SEED, TIER))
    n = 900 if THOROUGH else 200
    bad, good = pick(rng, True, n, "B"), pick(rng, False, n // 4, "G")
    g = units.vgen()
    for e in bad:
        r = g.gen("#[cxx::bridge] mod ffi { %s }" % e.text())
        ck.count(1, ("reject", e.form))
        if r[0] != "ERR": ck.violation("accepted-invalid/gen/%s" % e.bad, "the C++ generator accepts an enum that Rust's rules reject (%s; %s): %s" % (e.bad, r[0], e.text()), {"enum.rs": e.text(), "out.h": r[1] if len(r) > 1 else ""})
    for name, es in (("bad", bad),):
        mods = es + good; rng.shuffle(mods)
        src = "#![allow(warnings)]\n" + "\n".join("#[cxx::bridge] mod m%d { %s }" % (k, e.text()) for k, e in enumerate(mods)) + "\n"
        p = os.path.join(ck.dir, name + ".rs"); open(p, "w").write(src)
        r = rtdeps("none").rustc(p, os.path.join(ck.dir, name + ".rlib"), "lib", ["--emit=metadata"], json_errors=True)
        lines = {}
        for l in r.err.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("level") != "error": continue
            for s in m["spans"]: lines.setdefault(s["line_start"], m["message"])
        for k, e in enumerate(mods):
            hit = lines.get(k + 2)
            ck.count(1, ("macro", e.form))
            if e.bad and not hit: ck.violation("accepted-invalid/macro/%s" % e.bad, "no error is reported in Rust for an enum that the rules reject (%s): %s" % (e.bad, e.text()), {name + ".rs": src})
            if not e.bad and hit: ck.violation("rejected-valid/macro", "Rust reports an error for a valid enum: %s\n%s" % (e.text(), hit), {name + ".rs": src})
    ck.notes["rejection_reasons"] = {k: sum(e.bad == k for e in bad) for k in sorted(set(e.bad for e in bad))}


def extern_enums(ck, i):
    """Enums defined in C++: the generated code has to refuse any disagreement."""
    rng = random.Random("%d/%s/extern/%d" % (SEED, TIER, i))
    es = [e for e in pick(rng, False, 40, "X")]
    defs, wrong, ok = [], {}, {}
    for e in es:
        k = rng.randrange(4)
        vals = [(v.replace("r#", ""), x) for v, _, x in e.vars]
        rep = e.repr
        if k == 0:
            j = rng.randrange(len(vals)); x = vals[j][1]
            y = x + 1 if x < lim(rep)[1] else x - 1
            vals[j] = (vals[j][0], y); wrong[(e.name, vals[j][0])] = "C++ has %d, the bridge %d" % (y, x)
        elif k == 1:
            new = rng.choice([x for x in REPR if CT(x) != CT(rep) and lim(x)[0] <= min(v for _, v in vals) and max(v for _, v in vals) <= lim(x)[1] and (SIZE.get(x, 64) != SIZE.get(rep, 64))] or [None])
            if new: wrong[(e.name, None)] = "underlying type %s in C++, %s in the bridge" % (new, rep); rep = new
        if (e.name, None) not in wrong and not any(a == e.name for a, _ in wrong): ok[e.name] = e
        big = lambda x: "(-9223372036854775807ll - 1)" if x == -(1 << 63) else "%dll" % x if x < (1 << 63) else "%dull" % x
        defs.append("%senum class %s : %s { %s };%s" % ("namespace na { namespace nb { " if e.ns else "", e.cpp().split("::")[-1], CT(rep), ", ".join("%s = %s" % (v, big(x)) for v, x in vals), " } }" if e.ns else ""))
    d = os.path.join(ck.dir, "x%d" % i); os.makedirs(d)
    open(os.path.join(d, "unit.h"), "w").write("#pragma once\n#include \"rust/cxx.h\"\n" + "\n".join(defs) + "\n")
    src = "#[cxx::bridge]\nmod ffi {\n%s\nunsafe extern \"C++\" { include!(\"unit.h\"); %s }\n}\n" % ("\n".join(e.text() for e in es), " ".join("%s%stype %s;" % ('#[namespace = "%s"] ' % e.ns if e.ns else "", '#[cxx_name = "Cxx%s"] ' % e.name if e.ren else "", e.name) for e in es))
    r = units.vgen().gen(src)
    if r[0] != "OK": ck.violation("extern-enum/generate", "%s\n%s" % (r, src), {"bridge.rs": src}); return
    open(os.path.join(d, "g.cc"), "w").write(r[2])
    c = run(["clang++", "-std=c++14", "-fsyntax-only", "-w", "-ferror-limit=0", "-I", d, "-I", cxx_include_dir(), os.path.join(d, "g.cc")])
    text = r[2].splitlines(); errs = {}
    for m in re.finditer(r"g\.cc:(\d+):\d+: error:(.*)", c.err): errs[int(m.group(1))] = m.group(2)
    elines = [text[n - 1] for n in errs]
    if c.rc and not errs: ck.violation("extern-enum/compile", c.err[:3000], {"g.cc": r[2]}); return
    for e in es:
        mine = [l for l in elines if re.search(r"\b%s\b" % e.cpp().split("::")[-1], l)]
        w = {v: t for (n, v), t in wrong.items() if n == e.name}
        ck.count(1, ("extern", tuple(sorted(map(str, w))) and "wrong" or "right", e.repr))
        if not w and mine: ck.violation("extern-enum/false-mismatch", "a C++ enum that agrees with the bridge is refused: %s\n%s" % (e.text(), mine), {"bridge.rs": src, "unit.h": "\n".join(defs)})
        for v, t in w.items():
            if not [l for l in mine if v is None or re.search(r"::%s\b" % v, l)]:
                ck.violation("extern-enum/mismatch-accepted", "%s %s: compiles although %s" % (e.text(), v, t), {"bridge.rs": src, "unit.h": "\n".join(defs), "g.cc": r[2]})


def cfg_stripped(ck):
    """A variant that is compiled out does not count for the implicit value of the next one."""
    src = "#![allow(warnings)]\n#[cxx::bridge] pub mod ffi { enum E { A = 4, #[cfg(any())] B, C } }\nconst _: () = assert!(ffi::E::C.repr == 5);\n"
    p = os.path.join(ck.dir, "cfg.rs"); open(p, "w").write(src)
    r = rtdeps("none").rustc(p, os.path.join(ck.dir, "cfg.rlib"), "lib", ["--emit=metadata"])
    ck.count(1, "cfg")
    if r.rc: ck.violation("cfg-stripped-predecessor", "a variant after one that is compiled out does not have the value Rust's rules give it: %s" % r.err[:500], {"cfg.rs": src})
