"""Programs of several bridges that are rich in declarations: names, namespaces, renames, overloads, methods, aliases.

Two sorts of functions: plain ones (any accepted type, compiled and linked but
never called) and numbered ones (simple arguments; they return a number of
their own and are called from the other language)."""
import random, typespace as ts
from typespace import X, leaf

TYPES = """Str Slice Error Fn Opaque ManuallyDrop MaybeUninit Option Some Drop Clone Copy Send Sync Unpin Sized Default Debug Eq Ord Hash Iterator Into From Ordering PhantomData ExternType Exception
Rust Cxx T U Deleter Impl Hasher Layout Ptr Kind Id Target Output Item Vector Result Ok Err None Type Owned Borrow TypeId VectorElement UniquePtrTarget Uninit Bool Usize isize_ string_view optional unit cxx core std_ alloc_ Foo Bar Node Client""".split()
FUNCS = """swap size data begin_ finish forward_ get release reset hash clone string_ destroy allocate trycatch uninit repr transmute from into ok err panic unwrap len ptr alloc layout deref as_ref as_str as_ptr push pop call trampoline ret tag
drop new_ take_ make is_null set reserve truncate value throw_ catch_ invoke f g h i_ j_ self_ this_ main_ init_ fail run_""".split()
ARGS = """ret value T size_t layout trampoline ptr arg0 arg1 self_ that result error fail len str String Box std rust cxx core x _x uninit f C e msg repr retval func method invoke call y z_ item data isize_ u8 i32 usize Vec_ Pin UniquePtr impl_ this_ extern_ missing a b""".split()
FIELDS = "x y drop clone self_ rhs lhs hash state formatter cxx core T String Box data size len f repr_ value z std rust this_ other a b c".split()
VARIANTS = "A B None Some Ok Err repr_ True False_ Red Green Blue Self_ Zero T u8 i32 X".split()
NS = [(), (), (), ("a",), ("a", "b"), ("a", "std"), ("a", "rust"), ("rust", "inner"), ("cxx_",), ("org", "example", "detail"), ("b", "cxx"), ("b", "c", "b"), ("ns_core",)]
# names of rust:: and std:: matter only when a namespace would reopen them, which none of NS does for their own members


class N:
    """A named type."""
    def __init__(s, kind, rust, cxx, ns, bridge, lt=False):
        s.kind, s.rust, s.cxx, s.ns, s.bridge, s.lt = kind, rust, cxx, ns, bridge, lt
        s.fields, s.variants, s.derives, s.repr, s.simple, s.alias_of, s.exported = [], [], [], None, False, None, False
    def qual(s): return "::" + "::".join(s.ns + (s.cxx,))
    def local(s): return s.rust + ("<@>" if s.lt else "")
    def path(s): return ("self::" if s.kind == "rust" and not s.alias_of else "ffi::") + s.rust + ("<@>" if s.lt else "")


class L(X):
    """A leaf that is a named type."""
    __slots__ = ("n",)
    def __init__(s, n): s.c, s.a, s.n = n.local(), None, n


def remap(x, f):
    if leaf(x): return f(x)
    return X(f(x), remap(x.a, f))

def local(x, lt): return ts.fill(x.text(), lt)

PATHS = {"UniquePtr": "::cxx::UniquePtr", "SharedPtr": "::cxx::SharedPtr", "WeakPtr": "::cxx::WeakPtr", "CxxVector": "::cxx::CxxVector", "Box": "::std::boxed::Box", "Vec": "::std::vec::Vec", "String": "::std::string::String", "CxxString": "::cxx::CxxString", "c_char": "::std::os::raw::c_char"}
def outside(x, lt, own):
    """The type as written outside of the bridge module."""
    def f(x):
        if not leaf(x): return PATHS.get(x.c, x.c)
        if isinstance(x, L):
            n = x.n
            return X(n.path() if n.bridge is own else "crate::ffi%d::%s" % (n.bridge.i, n.path().replace("self::", "")))
        return X(PATHS.get(x.c, x.c))
    return ts.fill(remap(x, f).text(), lt).replace("Pin<", "::std::pin::Pin<")

def cx(x):
    names = {}
    def f(x):
        if leaf(x) and isinstance(x, L):
            k = "Q%dQ" % len(names); names[k] = x.n.qual(); return X(k)
        return x if leaf(x) else x.c
    # the model writes a named leaf as ::name
    t = ts.cx(remap(x, f))
    for k, q in names.items(): t = t.replace("::" + k, q)
    return t


class F:
    """A function; sig is [(name, X)]."""
    def __init__(s, lang, rust, cxx, ns, args, ret, recv=None, mut=False, throws=False, unsafe=False, num=None):
        s.lang, s.rust, s.cxx, s.ns, s.args, s.ret, s.recv, s.mut, s.throws, s.unsafe, s.num = lang, rust, cxx, ns, args, ret, recv, mut, throws, unsafe, num
        s.vals = []
    def cxxargs(s): return ", ".join(cx(x) for _, x in s.args)
    def cxxret(s): return cx(s.ret) if s.ret else "void"


class B:
    def __init__(s, i, ns): s.i, s.ns, s.types, s.funcs, s.impls = i, ns, [], [], []


SIMPLE = [("u8", "1", "std::uint8_t(1)"), ("i32", "-2", "std::int32_t(-2)"), ("u64", "3", "std::uint64_t(3)"), ("f64", "0.5", "0.5"), ("bool", "true", "true"), ("f32", "0.25", "0.25f"), ("i8", "-1", "std::int8_t(-1)"),
          ("&str", '"s"', '::rust::Str("s")'), ("&String", "&::std::string::String::new()", "::rust::String()"), ("Vec<u8>", "::std::vec::Vec::new()", "::rust::Vec<std::uint8_t>()"), ("String", '::std::string::String::from("q")', '::rust::String("q")'), ("u16", "7", "std::uint16_t(7)")]
SIMPLE_X = {"&str": X("&", X("str")), "&String": X("&", X("String")), "Vec<u8>": X("Vec", X("u8"))}
def simple_x(t): return SIMPLE_X.get(t) or X(t)


class Prog:
    def __init__(s, seed, bridges=None, rich=8, numbered=14, heavy=True):
        s.r = r = random.Random(seed); s.nid = 0; s.used = set(); s.names = set()
        s.include_cxx = r.random() < .5
        s.cxxscope = {}      # (ns, name) -> kind of C++ entity
        s.sigs = set()
        s.b = [B(i, r.choice(NS)) for i in range(bridges or r.choice([1, 2, 2, 3]))]
        s.opaque_inst = []
        for b in s.b:
            b.tnames = set(); b.fnames = set()
            for _ in range(r.randint(3, 8) if heavy else r.randint(1, 3)): s.new_type(b)
            r.shuffle(b.types)
            if b.i and r.random() < .8:
                for _ in range(r.randint(1, 3)): s.new_alias(b)
            for _ in range(rich): s.rich(b)
            for _ in range(numbered): s.numbered(b)
            for _ in range(r.randint(0, 2)): s.new_impl(b)
            r.shuffle(b.funcs)

    # --- names
    def fresh(s, pool, taken, p=.75):
        for _ in range(20):
            n = s.r.choice(pool) if s.r.random() < p else "%s%d" % (s.r.choice(["ty", "Ty", "q", "N"]), s.r.randint(0, 99))
            if n not in taken: return n
        s.nid += 1; return "x%d" % s.nid

    def cxx_name(s, pool, ns, kind, keep=None):
        """A C++ name that is free in the namespace."""
        for _ in range(40):
            n = keep if keep and s.r.random() < .8 else s.fresh(pool, ())
            k = (ns, n); keep = None if s.r.random() < .5 else keep
            if k in s.cxxscope or n in [x for y in NS for x in y] or not ns and (n[0].islower() and n in ("f", "g", "h") and False): continue
            s.cxxscope[k] = kind; return n
        s.nid += 1; n = "X%d" % s.nid; s.cxxscope[(ns, n)] = kind; return n

    def new_type(s, b):
        r = s.r; kind = r.choice(["struct", "struct", "struct", "enum", "xstruct", "xenum", "cxx", "cxx", "rust", "rust"])
        rust = s.fresh(TYPES, b.tnames | ({"cxx", "core"} if kind == "rust" else set())); b.tnames.add(rust); ns = b.ns if r.random() < .6 else r.choice(NS)
        cxx = s.cxx_name(TYPES, ns, "type", rust)
        n = N(kind, rust, cxx, ns, b, kind in ("cxx", "rust") and r.random() < .2)
        if kind in ("enum", "xenum"):
            n.repr = r.choice(["u8", "i8", "u16", "i32", "u32", "i64", "u64", "isize", "usize"]); vs = r.sample(VARIANTS, r.randint(1, 5)); used = set(); v = 0
            for x in vs:
                if r.random() < .4: v = r.randint(0, 100)
                while v in used: v += 1
                used.add(v); n.variants.append((x, x if r.random() < .8 or x in ("u8",) else x + "c9", v)); v += 1
            n.derives = [d for d in ("Debug", "Hash", "PartialOrd", "Ord") if r.random() < .2]
            if "Ord" in n.derives and "PartialOrd" not in n.derives: n.derives.append("PartialOrd")
            n.simple = True
        if kind in ("struct", "xstruct"):
            names = [x for x in FIELDS if x != cxx]; r.shuffle(names); n.simple = r.random() < .6 or kind == "xstruct"; cnames = set()
            prev = [x for x in b.types if x.kind in ("struct", "enum")]
            if kind == "struct" and r.random() < .15: n.lt = True; n.simple = False
            for f in names[:r.randint(1, 5)]:
                if n.simple: x = X(r.choice(ts.PRIM + (["String"] if kind == "struct" else [])))
                else: x = s.type(b, "field", 2, lt=n.lt, only=[t for t in prev])
                c = f if r.random() < .8 else f + "c9"
                n.fields.append((f, c, x))
            if n.lt and not any(x.slots() for _, _, x in n.fields): n.fields.append(("lt_", "lt_", X("&", X("str"))))
            if kind == "struct" and n.simple: n.derives = [d for d in ("Clone", "Debug", "Default", "PartialEq", "PartialOrd") if r.random() < .3 and not (d == "PartialOrd" and "PartialEq" not in n.derives)]
            if "PartialOrd" in n.derives and "PartialEq" not in n.derives: n.derives.append("PartialEq")
        if kind == "rust": n.exported = r.random() < .4 and not n.lt
        b.types.append(n); return n

    def new_alias(s, b):
        r = s.r; pool = [t for o in s.b[:b.i] for t in o.types if t.alias_of is None and not t.lt and t.kind in ("struct", "enum", "cxx", "rust", "xstruct", "xenum") and (t.kind != "rust" or t.exported)]
        if not pool: return
        t = r.choice(pool)
        if any(x.alias_of is t for x in b.types): return
        rust = t.rust if t.rust not in b.tnames else s.fresh(TYPES, b.tnames); b.tnames.add(rust)
        n = N(t.kind, rust, t.cxx, t.ns, b); n.alias_of = t; n.fields, n.simple, n.variants = t.fields, False, t.variants; b.types.append(n)

    # --- types
    def type(s, b, pos, depth, lt=None, only=None):
        """An accepted type for the position."""
        r = s.r; pool = b.types if only is None else only
        for _ in range(400):
            x = ts.random_type(r, r.choice([0, 1, 1, 2, depth])); v = ts.verdict(x, pos)[0]
            if v or not ts.compilable(x) or leaf(x) and x.c == "()": continue
            l = x
            while not leaf(l): l = l.a
            k = ts.kind(l)
            if k:
                want = {"Sh": ("struct", "xstruct"), "Lt<@>": ("struct",), "En": ("enum", "xenum"), "T": ("cxx",), "Cx<@>": ("cxx",), "R": ("rust",), "Ru<@>": ("rust",)}[l.c]
                c = [t for t in pool if t.kind in want and t.lt == ("@" in l.c)]
                if not c: continue
                n = r.choice(c)
                # types of other bridges: only where no implementation in this bridge is needed
                cs = x.ctors()
                if n.alias_of and (n.kind in ("cxx", "rust") and cs[:-1] not in (("&",), ("Pin&mut",), ("Pin&",)) or n.kind == "rust" and cs[0] != "&" or n.kind not in ("cxx", "rust") and cs[:-1] not in ((), ("&",), ("&mut",), ("&[]",))): continue
                x = remap(x, lambda y: L(n) if leaf(y) else y.c)
            if lt is False and x.slots(): continue
            return x
        return X("u8")

    def rich(s, b):
        r = s.r; lang = r.choice(["C++", "Rust"]); recv = None; mut = False
        if r.random() < .35:
            c = [t for t in b.types if not t.lt and (t.kind in (("cxx", "struct", "xstruct")[:2] if lang == "C++" else ("rust", "struct")))and not t.alias_of]
            if c: recv = r.choice(c); mut = r.random() < .5
        unsafe = r.random() < .2; base = ("cxx" if lang == "C++" else "rust") + ("-method" if recv else "") ; p = base + "-arg"
        if unsafe and not recv: p = base + "-unsafe-arg"
        ret = None; throws = r.random() < .25
        if r.random() < .7: ret = s.type(b, ("cxx" if lang == "C++" else "rust") + "-ret", 2)
        if ret is not None and not leaf(ret) and ret.c == "Result": throws = True; ret = ret.a if not (leaf(ret.a) and ret.a.c == "()") else None
        borrowed = ret is not None and ret.slots(); an = r.sample(ARGS, 4); args = []
        for a in an[:r.randint(0, 3)]: args.append((a, s.type(b, p, 2, lt=False if borrowed else None)))
        if borrowed and ret.slots() > 0:
            if recv: mut = True
            else: args.append((an[3], X("&mut", X("u8"))))
        if r.random() < .08 and args and "arg%d" % 0 not in an: args[0] = ("_", args[0][1])
        s.add(b, lang, recv, mut, args, ret, throws, unsafe, None)

    def numbered(s, b):
        r = s.r; lang = r.choice(["C++", "Rust"]); recv = None; mut = False
        if r.random() < .5:
            c = [t for t in b.types if not t.lt and not t.alias_of and (t.kind == ("cxx" if lang == "C++" else "rust") or t.kind == "struct" and t.simple)]
            if c: recv = r.choice(c); mut = r.random() < .4
        k = r.choice([0, 1, 1, 2]); vals = [r.choice(SIMPLE) for _ in range(k)]
        s.nid += 1
        f = s.add(b, lang, recv, mut, [(a, simple_x(v[0])) for a, v in zip(r.sample(ARGS, k), vals)], X("u32"), r.random() < .2, False, 1000 + s.nid)
        f.vals = vals

    def add(s, b, lang, recv, mut, args, ret, throws, unsafe, num):
        r = s.r; taken = {x[1] for x in b.fnames if x[0] is recv}
        rust = s.fresh(FUNCS, taken); b.fnames.add((recv, rust)); ns = b.ns if r.random() < .7 else r.choice(NS)
        if recv and lang == "C++": ns = b.ns if r.random() < .9 else ns
        sig = tuple(cx(x).replace(" const &", "").replace(" &", "") for _, x in args)
        scope = ("m", recv.qual()) if recv else ns
        for _ in range(40):
            c = rust if r.random() < .7 else r.choice(FUNCS)
            bad = c == recv.cxx or c in [f[1] for f in recv.fields] if recv else s.cxxscope.get((ns, c)) == "type" or c in [x for y in NS for x in y]
            # overloads that differ only in constness or in value and reference are ambiguous
            if bad or (scope, c, sig) in s.sigs or (scope, c) in s.used and recv is None and num is None: continue
            break
        else: s.nid += 1; c = "u%d" % s.nid
        # the same symbol from two bridges is the user's business: one namespace, one Rust name
        if recv is None and any(o is not b and q is None and (ns2, rust2) == (ns, rust) for o, q, ns2, rust2 in s.names_done()): s.nid += 1; rust = "u%d" % s.nid; b.fnames.add((recv, rust))
        s.used.add((scope, c)); s.sigs.add((scope, c, sig))
        if not recv: s.cxxscope[(ns, c)] = "fn"
        f = F(lang, rust, c, ns, args, ret, recv, mut, throws, unsafe, num); f.bridge = b; b.funcs.append(f); return f

    def names_done(s): return [(b, f.recv, f.ns, f.rust) for b in s.b for f in b.funcs]

    def new_impl(s, b):
        r = s.r; c = [t for t in b.types if not t.lt and not t.alias_of]
        if not c: return
        t = r.choice(c); k = r.choice({"cxx": ["UniquePtr", "SharedPtr", "WeakPtr", "CxxVector"], "rust": ["Box", "Vec"]}.get(t.kind, ["UniquePtr", "SharedPtr", "Vec", "Box", "CxxVector"]))
        if k == "WeakPtr": b.impls.append("impl SharedPtr<%s> {}" % t.rust)
        i = "impl %s<%s> {}" % (k, t.rust)
        if i not in b.impls: b.impls.append(i)
        b.impls = list(dict.fromkeys(b.impls))

    # --- Rust
    def attrs(s, ns, rust, cxx, cur):
        o = ""
        if ns != cur: o += '#[namespace = "%s"] ' % "::".join(ns) if s.r.random() < .7 or not ns else "#[namespace = %s] " % "::".join(ns)
        return o + ('#[cxx_name = "%s"] ' % cxx if rust != cxx else "")

    def fn_decl(s, f, cur):
        r = s.r; o = ""
        if f.ns != cur: o += '#[namespace = "%s"] ' % "::".join(f.ns)
        name = f.rust
        if f.rust != f.cxx:
            if f.lang == "C++" and r.random() < .3: o += '#[rust_name = "%s"] ' % f.rust; name = f.cxx
            else: o += '#[cxx_name = "%s"] ' % f.cxx
        ps = []
        if f.recv: ps.append("self: " + (("Pin<&mut %s>" if f.recv.kind == "cxx" else "&mut %s") if f.mut else "&%s") % f.recv.rust)
        ps += ["%s: %s" % (a, local(x, "")) for a, x in f.args]
        ret = local(f.ret, "") if f.ret else "()"
        if f.throws: ret = "Result<%s>" % ret
        return "%s%sfn %s(%s)%s;" % (o, "unsafe " if f.unsafe else "", name, ", ".join(ps), "" if ret == "()" else " -> " + ret)

    def bridge_rs(s, b):
        r = s.r; items = []; blocks = []     # (lang, ns, [text])
        def put(lang, ns, mk):
            same = [x for x in blocks if x[0] == lang]
            if not same or r.random() < .15:
                bn = r.choice([b.ns, b.ns, ns, r.choice(NS)]); blocks.append((lang, bn, [])); same = blocks[-1:]
            x = r.choice(same); x[2].append(mk(x[1]))
        for t in b.types:
            a = lambda cur, t=t: s.attrs(t.ns, t.rust, t.cxx, cur); g = "<'a>" if t.lt else ""
            if t.alias_of:
                o = t.alias_of; path = "crate::ffi%d::%s%s" % (o.bridge.i, "" if o.kind == "rust" else "ffi::", o.rust)
                put("C++", t.ns, lambda cur, t=t, a=a, path=path: a(cur) + "type %s = %s;" % (t.rust, path))
            elif t.kind == "cxx": put("C++", t.ns, lambda cur, t=t, a=a, g=g: a(cur) + "type %s%s;" % (t.rust, g))
            elif t.kind == "rust": put("Rust", t.ns, lambda cur, t=t, a=a, g=g: ("#[derive(ExternType)] " if t.exported else "") + a(cur) + "type %s%s;" % (t.rust, g))
            else:
                d = "#[derive(%s)] " % ", ".join(t.derives) if t.derives else ""
                if t.kind in ("struct", "xstruct"): items.append(d + a(b.ns) + "pub struct %s%s { %s }" % (t.rust, g, ", ".join(('#[cxx_name = "%s"] ' % c if c != f else "") + "pub %s: %s" % (f, local(x, "'a" if t.lt else "")) for f, c, x in t.fields)))
                else:
                    items.append(d + a(b.ns) + "#[repr(%s)] pub enum %s { %s }" % (t.repr, t.rust, ", ".join(('#[cxx_name = "%s"] ' % c if c != v else "") + "%s = %d" % (v, k) for v, c, k in t.variants)))
                if t.kind[0] == "x": put("C++", t.ns, lambda cur, t=t, a=a: a(cur) + "type %s;" % t.rust)
        for f in b.funcs: put(f.lang, f.ns, lambda cur, f=f: s.fn_decl(f, cur))
        incs = ['include!("u.h");'] + ['include!("ffi%d.rs.h");' % k for k in sorted({t.alias_of.bridge.i for t in b.types if t.alias_of})]
        first = True
        for lang, ns, ls in blocks:
            r.shuffle(ls)
            if lang == "C++" and first: ls[:0] = incs; first = False
            items.append(('#[namespace = "%s"] ' % "::".join(ns) if ns != b.ns else "") + ("unsafe extern \"C++\"" if lang == "C++" else "extern \"Rust\"") + " {\n  " + "\n  ".join(ls) + "\n}")
        if first: items.append('unsafe extern "C++" { %s }' % " ".join(incs))
        items += b.impls; r.shuffle(items)
        return "#[cxx::bridge%s]\npub mod ffi {\n%s\n}\n" % ('(namespace = "%s")' % "::".join(b.ns) if b.ns else "", "\n".join(items))

    def rust_side(s, b):
        o = []
        for t in b.types:
            if t.kind == "rust" and not t.alias_of: o.append("pub struct %s { pub v: %s }" % ((t.rust + "<'a>", "&'a u8") if t.lt else (t.rust, "u8")))
        for f in b.funcs:
            if f.lang != "Rust": continue
            ps = (["&mut self" if f.mut else "&self"] if f.recv else []) + ["_: " + outside(x, "", b) for _, x in f.args]
            ret = outside(f.ret, "", b) if f.ret else "()"
            body = ("%d" % f.num if f.num else "::std::process::abort()")
            if f.throws: ret = "::std::result::Result<%s, ::std::string::String>" % ret; body = "::std::result::Result::Ok(%s)" % body if f.num else body
            t = "pub %sfn %s(%s) -> %s { %s }" % ("unsafe " if f.unsafe else "", f.rust, ", ".join(ps), ret, body)
            o.append("impl %s { %s }" % (("self::" if f.recv.kind == "rust" else "ffi::") + f.recv.rust, t) if f.recv else t)
        # calls
        o.append("pub fn drive(bad: &mut u32) { let _ = &bad;")
        for f in b.funcs:
            if f.lang != "C++" or f.num is None: continue
            args = [v[1] for v in f.vals]
            if f.recv:
                n = f.recv
                if n.kind == "cxx": pre = "unsafe extern \"C\" { fn inst_%d_%s() -> *mut ffi::%s; } let p = unsafe { &mut *inst_%d_%s() };" % (b.i, n.rust, n.rust, b.i, n.rust); me = "unsafe { ::std::pin::Pin::new_unchecked(p) }" if f.mut else "&*p"
                else: pre = "let mut v = ffi::%s { %s }; let p = &mut v;" % (n.rust, ", ".join("%s: %s" % (fl, rs_default(x)) for fl, _, x in n.fields)); me = "p" if f.mut else "&*p"
                call = "ffi::%s::%s(%s)" % (n.rust, f.rust, ", ".join([me] + args))
            else: pre = ""; call = "ffi::%s(%s)" % (f.rust, ", ".join(args))
            if f.throws: call += ".unwrap()"
            o.append("{ %s let got: u32 = %s; if got != %d { *bad += 1; println!(\"MIX Rust calls ffi%d %s: %d expected, {} answered\", got); } }" % (pre, call, f.num, b.i, f.rust, f.num))
        o.append("}")
        for t in b.types:
            if t.kind == "rust" and not t.alias_of and not t.lt:
                o.append("#[unsafe(no_mangle)] pub extern \"C\" fn rinst_%d_%s() -> *mut %s { ::std::boxed::Box::into_raw(::std::boxed::Box::new(%s { v: 0 })) }" % (b.i, t.rust, t.rust, t.rust))
        return "\n".join(o)

    # --- C++
    def forward(s):
        o = []
        for b in s.b:
            for t in b.types:
                if t.alias_of: continue
                d = {"enum": "enum class %s : %s;" % (t.cxx, t.repr and gl(ts.CXXPRIM[t.repr]))}.get(t.kind, "struct %s;" % t.cxx)
                if t.kind == "xenum": d = "enum class %s : %s { %s };" % (t.cxx, gl(ts.CXXPRIM[t.repr]), ", ".join("%s = %d" % (c, k) for _, c, k in t.variants))
                if t.kind == "xstruct": d = "struct %s { %s };" % (t.cxx, " ".join("%s %s;" % (gl(cx(x)), c) for _, c, x in t.fields))
                o.append(inside(t.ns, d))
        return o

    def header(s):
        o = ["#pragma once", "#include <array>\n#include <cstdint>\n#include <cstddef>\n#include <memory>\n#include <string>\n#include <vector>"]
        if s.include_cxx: o.append('#include "rust/cxx.h"')
        else: o.append("#include <type_traits>\n#if defined(_WIN32)\n#endif\n#include <sys/types.h>\nnamespace rust { inline namespace cxxbridge1 { class String; class Str; template <typename T> class Slice; template <typename T> class Box; template <typename T> class Vec; template <typename Signature> class Fn; using isize = ssize_t; } }")
        o += s.forward()
        for b in s.b:
            for t in b.types:
                if t.kind == "cxx" and not t.alias_of:
                    ms = [s.method(f) for f in s.methods(t)]
                    o.append(inside(t.ns, "struct %s { int i_nt = 0; %s };" % (t.cxx, " ".join(m + ";" for m in ms))))
            for f in b.funcs:
                if f.lang == "C++" and not f.recv: o.append(inside(f.ns, "%s %s(%s);" % (gl(f.cxxret()), f.cxx, gl(f.cxxargs()))))
        return "\n".join(o) + "\n"

    def methods(s, t): return [f for b in s.b for f in b.funcs if f.recv is t and f.lang == "C++"]
    def method(s, f, q=""): return "%s %s%s(%s)%s" % (gl(f.cxxret()), q, f.cxx, gl(f.cxxargs()), ("" if f.mut else " const") + (" noexcept" if f.recv.kind == "struct" and not f.throws else ""))

    def includes(s): return "".join('#include "ffi%d.rs.h"\n' % b.i for b in s.b)

    def cxx_side(s):
        o = ['#include "u.h"\n#include "rust/cxx.h"\n#include <cstdlib>\n' + s.includes()]
        for b in s.b:
            for f in b.funcs:
                if f.lang != "C++": continue
                body = "{ return %d; }" % f.num if f.num else "{ ::std::abort(); }"
                if f.recv: o.append(inside(f.recv.ns, s.method(f, f.recv.cxx + "::") + " " + body))
                else: o.append(inside(f.ns, "%s %s(%s) %s" % (gl(f.cxxret()), f.cxx, gl(f.cxxargs()), body)))
        return "\n".join(o) + "\n"

    def main_cc(s):
        o = [s.includes() + '#include "rust/cxx.h"\n#include <cstdio>\n#include <type_traits>\nextern "C" unsigned rust_main();\nstatic unsigned bad = 0;\nstatic void judge(const char *what, std::uint32_t want, std::uint32_t got) { if (want != got) { ++bad; std::printf("MIX C++ calls %s: %u expected, %u answered\\n", what, want, got); } }']
        calls = []
        for b in s.b:
            for t in b.types:
                if t.alias_of: continue
                if t.kind == "cxx" and not t.lt: o.append('extern "C" %s *inst_%d_%s() { return new %s; }' % (t.qual(), b.i, t.rust, t.qual()))
                if t.kind == "rust" and not t.lt: o.append('extern "C" %s *rinst_%d_%s();' % (t.qual(), b.i, t.rust))
                if t.kind in ("struct", "xstruct"):
                    for f, c, x in t.fields: o.append("static_assert(std::is_same<decltype(%s::%s), %s>::value, \"field %s of %s\");" % (t.qual(), c, gl(cx(x)), c, t.qual()))
                if t.kind in ("enum", "xenum"):
                    o.append("static_assert(std::is_same<std::underlying_type<%s>::type, %s>::value, \"enum %s\");" % (t.qual(), gl(ts.CXXPRIM[t.repr]), t.qual()))
                    for v, c, k in t.variants: o.append("static_assert(static_cast<long long>(%s::%s) == %d, \"variant %s\");" % (t.qual(), c, k, c))
            for f in b.funcs:
                if f.lang == "Rust" or f.recv and f.recv.kind == "struct":
                    ne = "" if f.throws or f.lang == "C++" else " noexcept"
                    if f.recv: o.append("static_assert(static_cast<%s (%s::*)(%s)%s>(&%s::%s) != nullptr, \"\");" % (gl(f.cxxret()), f.recv.qual(), gl(f.cxxargs()), ("" if f.mut else " const") + "NE" * bool(ne), f.recv.qual(), f.cxx))
                    else: o.append("static_assert(static_cast<%s (*)(%s)%s>(&%s::%s) != nullptr, \"\");" % (gl(f.cxxret()), gl(f.cxxargs()), "NE" * bool(ne), "" if not f.ns else "::" + "::".join(f.ns), f.cxx))
                if f.lang == "Rust" and f.num:
                    args = ", ".join(v[2] for v in f.vals)
                    if not f.recv: call = "%s::%s(%s)" % ("" if not f.ns else "::" + "::".join(f.ns), f.cxx, args); pre = ""
                    elif f.recv.kind == "rust": pre = "%s *p = rinst_%d_%s();" % (f.recv.qual(), b.i, f.recv.rust); call = ("p->%s(%s)" if f.mut else "const_cast<const %s *>(p)->%%s(%%s)" % f.recv.qual()) % (f.cxx, args)
                    else: pre = "%s v{};" % f.recv.qual(); call = ("v.%s(%s)" if f.mut else "const_cast<const %s &>(v).%%s(%%s)" % f.recv.qual()) % (f.cxx, args)
                    calls.append('{ %s judge("ffi%d %s", %d, %s); }' % (pre, b.i, f.rust, f.num, call))
        head = "#if __cplusplus >= 201703L\n#define NE noexcept\n#else\n#define NE\n#endif\n"
        return head + "\n".join(o).replace(")NE>", ") NE>").replace("constNE", "const NE") + "\nint main() {\n%s\nbad += rust_main(); std::printf(\"DONE %%u\\n\", bad); return bad != 0; }\n" % "\n".join(calls)

    def files(s):
        fs = {"u.h": s.header(), "u.cc": s.cxx_side(), "main.cc": s.main_cc()}
        for b in s.b: fs["ffi%d.rs" % b.i] = s.bridge_rs(b) + s.rust_side(b) + "\n"
        fs["unit.rs"] = ("#![deny(warnings)]\n#![allow(dead_code, non_camel_case_types, non_snake_case, non_upper_case_globals, improper_ctypes, improper_ctypes_definitions, clashing_extern_declarations, ambiguous_glob_reexports)]\n" +
                         "".join("pub mod ffi%d;\n" % b.i for b in s.b) + '#[unsafe(no_mangle)] pub extern "C" fn rust_main() -> u32 { let mut bad = 0; %s bad }\n' % " ".join("ffi%d::drive(&mut bad);" % b.i for b in s.b))
        return fs

    def numbered_count(s): return sum(f.num is not None for b in s.b for f in b.funcs)


def gl(t): return t.replace("std::", "::std::").replace("rust::", "::rust::").replace("::::", "::").replace("a::::", "a::") if t else t
def inside(ns, t): return "".join("namespace %s { " % n for n in ns) + t + " }" * len(ns)
def rs_default(x): return {"bool": "false", "f32": "0.0", "f64": "0.0", "String": "::std::string::String::new()"}.get(x.c, "0")
