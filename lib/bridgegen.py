"""Generator of bridge programs with a value/ownership trace monitor.

A Unit is one executable: some bridge modules, the Rust and C++ sides of every
declared function (written by this file, independently of the code under
test), and one test per function.  See lib/xb/support.h for the monitor."""
import random, zlib

PRIMS = ["bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"]
CXXPRIM = {"bool": "bool", "c_char": "char", "u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t",
           "u64": "std::uint64_t", "usize": "std::size_t", "i8": "std::int8_t", "i16": "std::int16_t",
           "i32": "std::int32_t", "i64": "std::int64_t", "isize": "rust::isize", "f32": "float", "f64": "double"}
INTS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"]


class Ty:
    def has_ref(s): return False       # needs a lifetime somewhere
    def assignable(s): return True     # C++ copy/move-assignable & makeable
    def children(s): return []
    def walk(s):
        yield s
        for c in s.children(): yield from c.walk()
    def __repr__(s): return s.rs("'_")
    def key(s): return s.rs("")
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, Ty) and s.key() == o.key()

class Prim(Ty):
    def __init__(s, n): s.n = n
    def rs(s, lt): return s.n
    def cx(s): return CXXPRIM[s.n]
class Str(Ty):
    def rs(s, lt): return "&%sstr" % (lt + " " if lt else "")
    def cx(s): return "rust::Str"
    def has_ref(s): return True
class RString(Ty):
    def rs(s, lt): return "String"
    def cx(s): return "rust::String"
class CString(Ty):   # only behind pointers
    def rs(s, lt): return "CxxString"
    def cx(s): return "std::string"
class Gen1(Ty):
    rname = cname = None
    def __init__(s, t): s.t = t
    def rs(s, lt): return "%s<%s>" % (s.rname, s.t.rs(lt))
    def cx(s): return "%s<%s>" % (s.cname, s.t.cx())
    def has_ref(s): return s.t.has_ref()
    def children(s): return [s.t]
class Box(Gen1): rname, cname = "Box", "rust::Box"
class Vec(Gen1): rname, cname = "Vec", "rust::Vec"
class UP(Gen1): rname, cname = "UniquePtr", "std::unique_ptr"
class SP(Gen1): rname, cname = "SharedPtr", "std::shared_ptr"
class WP(Gen1): rname, cname = "WeakPtr", "std::weak_ptr"
class CV(Gen1): rname, cname = "CxxVector", "std::vector"
class Ref(Ty):
    def __init__(s, t, mut=False): s.t, s.mut = t, mut
    def pin(s): return s.mut and isinstance(s.t, (CString, CV, COpaque))
    def rs(s, lt):
        r = "&%s%s%s" % (lt + " " if lt else "", "mut " if s.mut else "", s.t.rs(lt))
        return "Pin<%s>" % r if s.pin() else r
    def cx(s): return "%s &" % s.t.cx() if s.mut else "%s const &" % s.t.cx()
    def has_ref(s): return True
    def children(s): return [s.t]
class Slice(Ty):
    def __init__(s, t, mut=False): s.t, s.mut = t, mut
    def rs(s, lt): return "&%s%s[%s]" % (lt + " " if lt else "", "mut " if s.mut else "", s.t.rs(lt))
    def cx(s): return "rust::Slice<%s%s>" % (s.t.cx(), "" if s.mut else " const")
    def has_ref(s): return True
    def children(s): return [s.t]
class Arr(Ty):
    def __init__(s, t, n): s.t, s.n = t, n
    def rs(s, lt): return "[%s; %d]" % (s.t.rs(lt), s.n)
    def cx(s): return "std::array<%s, %d>" % (s.t.cx(), s.n)
    def has_ref(s): return s.t.has_ref()
    def children(s): return [s.t]
class Ptr(Ty):
    def __init__(s, t, mut=False): s.t, s.mut = t, mut
    def rs(s, lt): return "*%s %s" % ("mut" if s.mut else "const", s.t.rs(lt))
    def cx(s): return "%s %s*" % (s.t.cx(), "" if s.mut else "const ")
    def children(s): return [s.t]
class Fn(Ty):
    def __init__(s, args, ret): s.args, s.ret = args, ret
    def rs(s, lt): return "fn(%s)%s" % (", ".join(a.rs("") for a in s.args), " -> " + s.ret.rs("") if s.ret else "")
    def cx(s): return "rust::Fn<%s(%s)>" % (s.ret.cx() if s.ret else "void", ", ".join(a.cx() for a in s.args))
    def children(s): return list(s.args) + ([s.ret] if s.ret else [])
class Named(Ty):
    lts = False
    ns = ()
    def qual(s): return "::" + "::".join(list(s.ns) + [s.cxxname])
    def cx(s): return s.qual()
    def rs(s, lt):
        if s.lts and lt: return "%s<%s>" % (s.name, lt)
        return s.name + ("<'_>" if s.lts else "")
    def key(s): return s.name
    def has_ref(s): return s.lts
class Struct(Named):
    def __init__(s, name, cxxname, ns, bridge):
        s.name, s.cxxname, s.ns, s.bridge = name, cxxname, ns, bridge
        s.fields = []; s.derives = []; s.align = None; s.methods = []
    def finish(s): s.lts = any(f.ty.has_ref() for f in s.fields)
    def assignable(s): return not any(isinstance(f.ty, Ref) for f in s.fields) and \
        all(t.assignable() for f in s.fields for t in f.ty.walk() if isinstance(t, Struct))
    def children(s): return []
class Field:
    def __init__(s, name, cxxname, ty): s.name, s.cxxname, s.ty = name, cxxname, ty
class Enum(Named):
    def __init__(s, name, cxxname, ns, bridge, repr_, variants, explicit):
        s.name, s.cxxname, s.ns, s.bridge, s.repr, s.variants, s.explicit = name, cxxname, ns, bridge, repr_, variants, explicit
        s.derives = []
class ROpaque(Named):
    def __init__(s, name, cxxname, ns, bridge, size_kind):
        s.name, s.cxxname, s.ns, s.bridge, s.size_kind = name, cxxname, ns, bridge, size_kind
        s.methods = []
    def assignable(s): return False
class COpaque(Named):
    def __init__(s, name, cxxname, ns, bridge, movable):
        s.name, s.cxxname, s.ns, s.bridge, s.movable = name, cxxname, ns, bridge, movable
        s.methods = []
    def assignable(s): return False

CXX_ONLY = (CString, CV, COpaque)   # made only in C++

NOTHROW = False   # programs for C++ without exceptions have no fallible functions
class Func:
    """A bridged function. lang = 'C++' (implemented in C++) or 'Rust'."""
    def __init__(s, lang, name, cxxname, ns, args, ret, throws=False, recv=None, recv_mut=False):
        s.lang, s.name, s.cxxname, s.ns = lang, name, cxxname, ns
        s.args, s.ret, s.throws, s.recv, s.recv_mut = args, ret, throws and not NOTHROW, recv, recv_mut
        s.unsafe = any(isinstance(t, Ptr) for a in args for t in [a]) and True
        s.style = 0


class Bridge:
    def __init__(s, idx, ns):
        s.idx, s.ns = idx, ns
        s.mod = "ffi%d" % idx
        s.items = []         # Struct/Enum/ROpaque/COpaque in declaration order
        s.funcs = []
        s.aliases = []       # Named types of other bridges used here
        s.impls = []


def mut_ref(a): return isinstance(a, Ref) and a.mut or isinstance(a, Slice) and a.mut


class Unit:
    def __init__(s, name, seed):
        s.name = name
        s.rng = random.Random("unit/%s/%s" % (name, seed))
        s.bridges = []
        s.n = 0
        s.glue = {}          # CXX-made types: key -> (idx, Ty, kinds)
        s.rtests, s.ctests = [], []
        s.extra_rust, s.extra_cxx = [], []

    def uid(s):
        s.n += 1
        return s.n

    # ------------------------------------------------------------ declarations
    def bridge(s, ns=()):
        b = Bridge(len(s.bridges), tuple(ns)); s.bridges.append(b); return b

    def rand_ns(s, b):
        r = s.rng.random()
        if r < .5: return b.ns
        return s.rng.choice([(), ("alpha",), ("alpha", "beta"), ("gamma", "rust1"), ("org", "x", "y"), ("ns%d" % b.idx,)])

    def new_name(s, stem):
        i = s.uid()
        name = "%s%d" % (stem, i)
        cxx = name
        if s.rng.random() < .25: cxx = s.rng.choice(["Cx", "cx_", "_c", "Final", "T"]) + name
        return name, cxx

    def add_struct(s, b, tys, derives=(), ns=None, align=None):
        name, cxx = s.new_name("S")
        st = Struct(name, cxx, s.rand_ns(b) if ns is None else ns, b)
        for i, t in enumerate(tys):
            fn = "f%d" % i
            fc = fn if s.rng.random() < .8 else "m_%d" % i
            st.fields.append(Field(fn, fc, t))
        st.derives = list(derives); st.align = align
        st.finish()
        s.use_types(b, tys)
        b.items.append(st)
        return st

    def add_enum(s, b, repr_, explicit=True):
        name, cxx = s.new_name("E")
        signed = repr_[0] == "i"
        bits = 64 if repr_.endswith("size") else int(repr_[1:])
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        vs = []; cur = None
        cand = [None, None, None, 0, 1, lo, hi - 2, hi // 2, 7, -1 if signed else 3, lo + 1]
        used = set()
        for i in range(s.rng.randrange(1, 6)):
            d = s.rng.choice(cand)
            v = d if d is not None else (0 if cur is None else cur + 1)
            if v in used or v > hi or v < lo: continue
            used.add(v); cur = v
            vn = "V%d" % i
            vs.append((vn, vn if s.rng.random() < .8 else "k_%d" % i, d, v))
        en = Enum(name, cxx, s.rand_ns(b), b, repr_, vs, explicit)
        b.items.append(en)
        return en

    def add_ropaque(s, b, kind="normal"):
        name, cxx = s.new_name("R")
        t = ROpaque(name, cxx, s.rand_ns(b), b, kind); b.items.append(t); return t

    def add_copaque(s, b, movable=False):
        name, cxx = s.new_name("C")
        t = COpaque(name, cxx, s.rand_ns(b), b, movable); b.items.append(t); return t

    def use_types(s, b, tys):
        for t0 in tys:
            for t in t0.walk():
                if isinstance(t, Gen1) and isinstance(t.t, Named) and t.t.bridge is not b:
                    i = "impl %s<%s> {}" % (t.rname, t.t.name)
                    if i not in t.t.bridge.impls: t.t.bridge.impls.append(i)
                if isinstance(t, WP) and isinstance(t.t, Named):
                    i = "impl SharedPtr<%s> {}" % t.t.name
                    if i not in t.t.bridge.impls: t.t.bridge.impls.append(i)
                if isinstance(t, Named) and t.bridge is not b and t not in b.aliases:
                    b.aliases.append(t)

    def add_func(s, b, lang, args, ret, throws=False, recv=None, recv_mut=False, name=None):
        i = s.uid()
        name = name or "%s%d" % ("c_" if lang == "C++" else "r_", i)
        cxx = name if s.rng.random() < .75 else "%s_%s" % (s.rng.choice(["Aa", "cx", "op"]), name)
        ns = s.rand_ns(b)
        f = Func(lang, name, cxx, ns, args, ret, throws, recv, recv_mut)
        f.bridge = b
        f.style = s.rng.randrange(4)
        s.use_types(b, args + ([ret] if ret else []) + ([recv] if recv else []))
        b.funcs.append(f)
        return f

    # ------------------------------------------------------------- lifetimes
    def fn_lifetime(s, f):
        """(explicit lifetime or '', anchor arg needed?)"""
        refs = [a for a in f.args if a.has_ref()]
        nrefs = sum(s.count_refs(a) for a in f.args) + (1 if f.recv else 0)
        if f.ret is None or not f.ret.has_ref(): return ""
        if f.recv: return ""
        if nrefs == 1:
            # (explicit and elided forms are both exercised)
            if s.rng_lt(f): return "'a"
            return ""
        return "'a"
    def rng_lt(s, f): return f.style == 3
    def count_refs(s, t):
        if isinstance(t, Fn): return 0
        n = 0
        for x in t.walk():
            if isinstance(x, (Str, Ref, Slice)): n += 1
            elif isinstance(x, Named) and x.lts: n += 1
        return n

    # --------------------------------------------------------------- rust code
    def bridge_rs(s, b):
        o = []
        ns = '(namespace = "%s")' % "::".join(b.ns) if b.ns else ""
        o.append("#[cxx::bridge%s]\npub mod %s {" % (ns, b.mod))
        for it in b.items:
            if isinstance(it, Struct):
                s.item_attrs(o, it, b)
                if it.derives: o.append("    #[derive(%s)]" % ", ".join(it.derives))
                if it.align: o.append("    #[repr(align(%d))]" % it.align)
                o.append("    pub struct %s%s {" % (it.name, "<'a>" if it.lts else ""))
                for f in it.fields:
                    if f.cxxname != f.name: o.append('        #[cxx_name = "%s"]' % f.cxxname)
                    o.append("        pub %s: %s," % (f.name, f.ty.rs("'a" if it.lts else "")))
                o.append("    }")
            elif isinstance(it, Enum):
                s.item_attrs(o, it, b)
                if it.derives: o.append("    #[derive(%s)]" % ", ".join(it.derives))
                if it.explicit: o.append("    #[repr(%s)]" % it.repr)
                o.append("    pub enum %s {" % it.name)
                for vn, vc, d, v in it.variants:
                    if vc != vn: o.append('        #[cxx_name = "%s"]' % vc)
                    o.append("        %s%s," % (vn, "" if d is None else " = %d" % d))
                o.append("    }")
        o.append('    unsafe extern "C++" {\n        include!("unit.h");')
        for m in sorted({t.bridge.mod for t in b.aliases}):
            o.append('        include!("%s.rs.h");' % m)
        for it in b.items:
            if isinstance(it, COpaque):
                s.item_attrs(o, it, b, 8)
                o.append("        type %s;" % it.name)
        for t in b.aliases:
            s.item_attrs(o, t, b, 8)
            path = t.name if isinstance(t, ROpaque) else "%s::%s" % (t.bridge.mod, t.name)
            o.append("        type %s%s = crate::%s%s;" % (t.name, "<'a>" if t.lts else "", path, "<'a>" if t.lts else ""))
        for f in b.funcs:
            if f.lang == "C++": s.func_decl(o, b, f)
        o.append("    }")
        o.append('    extern "Rust" {')
        for it in b.items:
            if isinstance(it, ROpaque):
                s.item_attrs(o, it, b, 8)
                if any(it in b2.aliases for b2 in s.bridges): o.append("        #[derive(ExternType)]")
                o.append("        type %s;" % it.name)
        for f in b.funcs:
            if f.lang == "Rust": s.func_decl(o, b, f)
        o.append("    }")
        for i in b.impls: o.append("    " + i)
        o.append("}")
        return "\n".join(x for x in o if x is not None)

    def item_attrs(s, o, it, b, ind=4):
        p = " " * ind
        if tuple(it.ns) != tuple(b.ns):
            o.append('%s#[namespace = "%s"]' % (p, "::".join(it.ns)))
        if it.cxxname != it.name:
            o.append('%s#[cxx_name = "%s"]' % (p, it.cxxname))

    def func_sig(s, f, for_bridge):
        lt = s.fn_lifetime(f)
        ps = []
        if f.recv:
            if f.recv_mut and isinstance(f.recv, COpaque): ps.append("self: Pin<&mut %s>" % f.recv.name)
            elif for_bridge: ps.append("self: &%s%s" % ("mut " if f.recv_mut else "", f.recv.rs("")))
            else: ps.append("&mut self" if f.recv_mut else "&self")
        for i, a in enumerate(f.args): ps.append("a%d: %s" % (i, a.rs(lt)))
        r = ""
        if f.ret or f.throws:
            rt = f.ret.rs(lt) if f.ret else "()"
            if f.throws: rt = "Result<%s>" % rt if for_bridge else "Result<%s, Err0>" % rt
            r = " -> " + rt
        return "fn %s%s(%s)%s" % (f.name, "<'a>" if lt else "", ", ".join(ps), r)

    def is_unsafe(s, f):
        return any(isinstance(a, Ptr) for a in f.args) or (f.lang == "Rust" and s.fn_lifetime(f) != "")

    def func_decl(s, o, b, f):
        if not f.recv and tuple(f.ns) != tuple(b.ns): o.append('        #[namespace = "%s"]' % "::".join(f.ns))
        if f.cxxname != f.name: o.append('        #[cxx_name = "%s"]' % f.cxxname)
        o.append("        %s%s;" % ("unsafe " if s.is_unsafe(f) else "", s.func_sig(f, True)))

    # value events, rust side
    def r_ev(s, what, slot, t, e):
        if isinstance(t, Ref): return '%s_r("%s", &*(%s));' % (what, slot, e)
        return '%s_v("%s", &%s);' % (what, slot, e)
    def c_ev(s, what, slot, t, e):
        if isinstance(t, Ref): return 'xb::%s_r<%s>("%s", %s);' % (what, t.t.cx(), slot, e)
        return 'xb::%s_v<%s>("%s", %s);' % (what, t.cx(), slot, e)

    def r_static(s, t):
        return t.rs("'static")

    # Rust caller of a C++ function
    def r_caller(s, f, o):
        n = f.name
        o.append("#[no_mangle] pub unsafe extern \"C\" fn t_%s() {" % n)
        pre, call, post = [], [], []
        if f.recv:
            s.r_make_ref(pre, post, n, "self", Ref(f.recv, f.recv_mut), "me")
        for i, a in enumerate(f.args):
            v = "a%d" % i
            if isinstance(a, Fn): call.append("cb_%s_%d" % (n, i)); continue
            if isinstance(a, Ref): s.r_make_ref(pre, post, n, v, a, v)
            elif isinstance(a, Slice) and a.mut:
                pre.append("    let p_%s: *mut [_] = <%s as Make>::make();" % (v, s.r_static(a)))
                pre.append('    let %s: %s = &mut *p_%s; send_v("%s.%s", &%s);' % (v, s.r_static(a), v, n, v, v))
                post.append('    recv_v("%s.%s.post", &*p_%s);' % (n, v, v))
            else:
                pre.append("    let %s = %s; %s" % (v, s.r_field_make(a), s.r_ev("send", "%s.%s" % (n, v), a, v)))
            call.append(v)
        o += pre
        callee = "me.%s" % f.name if f.recv else "%s::%s" % (f.bridge.mod, f.name)
        c = "%s(%s)" % (callee, ", ".join(call))
        if f.throws:
            o.append("    match %s {" % c)
            o.append("        Ok(_r) => { %s }" % (s.r_ev("recv", n + ".ret", f.ret, "_r") if f.ret else 'recv_s("%s.ret", b"()");' % n))
            o.append('        Err(e) => { recv_s("%s.err", e.what().as_bytes()); if e.to_string() != e.what() { fail("%s.err", "Display differs from what()") } }' % (n, n))
            o.append("    }")
        elif f.ret:
            o.append("    let _r = %s; %s" % (c, s.r_ev("recv", n + ".ret", f.ret, "_r")))
        else:
            o.append("    %s;" % c)
        o += post
        o.append("}")
        s.rtests.append("t_" + n)
        for i, a in enumerate(f.args):
            if isinstance(a, Fn): s.r_callback(f, i, a, o)

    def r_make_ref(s, pre, post, n, slot, a, v):
        t = a.t
        if isinstance(t, CXX_ONLY):
            pre.append("    let p_%s: *mut %s = <%s as CxxMake>::arena();" % (v, s.r_static(t), s.r_static(t)))
            s.need_glue(t, "ref")
        else:
            pre.append("    let p_%s: *mut %s = keep(<%s as Make>::make());" % (v, s.r_static(t), s.r_static(t)))
        if a.pin(): pre.append("    let %s = Pin::new_unchecked(&mut *p_%s);" % (v, v))
        else: pre.append("    let %s: %s = &%s*p_%s;" % (v, s.r_static(a), "mut " if a.mut else "", v))
        pre.append('    send_r("%s.%s", &*p_%s);' % (n, slot, v))
        if a.mut: post.append('    recv_r("%s.%s.post", &*p_%s);' % (n, slot, v))

    def r_callback(s, f, i, a, o):
        n = "%s.a%d" % (f.name, i)
        ps = ", ".join("x%d: %s" % (j, x.rs("")) for j, x in enumerate(a.args))
        o.append("fn cb_%s_%d(%s)%s {" % (f.name, i, ps, " -> " + a.ret.rs("") if a.ret else ""))
        for j, x in enumerate(a.args): o.append("    " + s.r_ev("recv", "%s.x%d" % (n, j), x, "x%d" % j))
        if a.ret:
            o.append("    let r = %s; %s r" % (s.r_field_make(a.ret), s.r_ev("send", n + ".ret", a.ret, "r")))
        o.append("}")

    # Rust callee
    def r_callee(s, f, o):
        n = f.name
        sig = s.func_sig(f, False)
        # implementation signature: 'static sources satisfy any lifetime
        o.append("    %s {" % sig if f.recv else "pub %s%s {" % ("unsafe " if s.is_unsafe(f) else "", sig))
        b = []
        muts = []
        if f.recv:
            b.append('send_or_recv')
            b[-1] = 'recv_r("%s.self", &*self);' % n
            if f.recv_mut: muts.append(("self", Ref(f.recv, True), "self"))
        for i, a in enumerate(f.args):
            v = "a%d" % i
            b.append(s.r_ev("recv", "%s.%s" % (n, v), a, v))
            if mut_ref(a): muts.append((v, a, v))
            if isinstance(a, Ref) and a.pin(): b.append("let mut %s = %s;" % (v, v))
        if f.recv and f.recv_mut and isinstance(f.recv, COpaque): raise ValueError
        for slot, a, v in muts:
            if isinstance(a, Slice): b.append("{ for x in %s.iter_mut() { unsafe { Make::mutate(&mut *(x as *mut _ as *mut %s)) } } send_v(\"%s.%s.post\", &%s); }" % (v, s.r_static(a.t), n, slot, v) if a.t.has_ref() else
                                            "{ for x in %s.iter_mut() { Make::mutate(x) } send_v(\"%s.%s.post\", &%s); }" % (v, n, slot, v))
            elif isinstance(a.t, COpaque): b.append('{ cmut_%s(%s.get_unchecked_mut() as *mut %s); }' % (a.t.name, "let m = %s; m" % v if False else v, a.t.name)); b[-1] = 'unsafe { let q: *mut %s = %s.as_mut().get_unchecked_mut(); cmut_%s(q); send_r("%s.%s.post", &*q); }' % (a.t.name, v, a.t.name, n, slot)
            elif isinstance(a.t, CString): b.append('{ let t = rand_text(); if coin(2) { %s.as_mut().clear(); } if coin(2) { %s.as_mut().push_str(&t); } send_r("%s.%s.post", &*%s); }' % (v, v, n, slot, v))
            elif isinstance(a.t, CV):
                e = a.t.t
                if isinstance(e, Prim): b.append("if coin(2) { %s.as_mut().push(Make::make()); }" % v)
                b.append('send_r("%s.%s.post", &*%s);' % (n, slot, v))
            elif a.t.has_ref(): b.append('unsafe { Make::mutate(&mut *(%s as *mut _ as *mut %s)); } send_r("%s.%s.post", &*%s);' % (v, s.r_static(a.t), n, slot, v))
            else: b.append('Make::mutate(%s); send_r("%s.%s.post", &*%s);' % ("&mut *" + v, n, slot, v))
        if f.throws:
            b.append('if coin(3) { let m = rand_err(); send_s("%s.err", m.as_bytes()); return Err(Err0(m)); }' % n)
        if f.ret:
            b.append(s.r_make_ret(f))
            b.append(s.r_ev("send", n + ".ret", f.ret, "r"))
            rv = "unsafe { std::mem::transmute(r) }" if mut_ref(f.ret) and f.ret.t.has_ref() else "r"
            b.append("Ok(%s)" % rv if f.throws else rv)
        elif f.throws:
            b.append('send_s("%s.ret", b"()"); Ok(())' % n)
        for l in b: o.append("    " + l)
        o.append("    }" if f.recv else "}")

    def r_make_ret(s, f):
        t = f.ret
        # return one of the arguments if the type is the same (identity)
        for i, a in enumerate(f.args):
            if isinstance(t, (Ref, Slice, Str)) and not mut_ref(t) and a.key() == t.key() and s.fn_lifetime(f) == "'a" or \
               isinstance(t, (Ref, Slice, Str)) and not mut_ref(t) and a.key() == t.key() and s.count_refs(a) == 1 and not f.recv:
                return "let r: %s = a%d;" % (t.rs("'_"), i)
        if isinstance(t, Ref):
            if isinstance(t.t, CXX_ONLY):
                s.need_glue(t.t, "ref")
                src = "<%s as CxxMake>::arena()" % s.r_static(t.t)
            else: src = "keep(<%s as Make>::make())" % s.r_static(t.t)
            if t.pin(): return "let r = unsafe { Pin::new_unchecked(&mut *%s) };" % src
            return "let r: %s = unsafe { &%s*%s };" % (t.rs("'static"), "mut " if t.mut else "", src)
        return "let r = %s;" % s.r_field_make(t)

    # ---------------------------------------------------------------- C++ code
    def c_sig(s, f, name, with_names=True):
        ps = ", ".join(a.cx() + (" a%d" % i if with_names else "") for i, a in enumerate(f.args))
        return "%s %s(%s)" % (f.ret.cx() if f.ret else "void", name, ps)

    def c_callee(s, f, o):
        n = f.name
        if f.recv:
            o.append("%s%s {" % (s.c_sig(f, "%s::%s" % (f.recv.qual()[2:], f.cxxname)), "" if f.recv_mut else " const"))
            if isinstance(f.recv, Struct): o[-1] = "%s%s {" % (s.c_sig(f, "%s::%s" % (f.recv.qual()[2:], f.cxxname)), ("" if f.recv_mut else " const") + ("" if f.throws else " noexcept"))
        else:
            o.append("%s {" % s.c_sig(f, "::".join(list(f.ns) + [f.cxxname])))
        b = []; muts = []
        if f.recv:
            b.append('xb::recv_r<%s>("%s.self", *this);' % (f.recv.cx(), n))
            if f.recv_mut: muts.append(("self", Ref(f.recv, True), "(*this)"))
        for i, a in enumerate(f.args):
            v = "a%d" % i
            if isinstance(a, Fn): s.c_use_fn(f, i, a, b); continue
            b.append(s.c_ev("recv", "%s.%s" % (n, v), a, v))
            if mut_ref(a): muts.append((v, a, v))
        for slot, a, v in muts:
            if isinstance(a, Slice): b.append('xb::mutate<%s>(%s); xb::send_v<%s>("%s.%s.post", %s);' % (a.cx(), v, a.cx(), n, slot, v))
            else: b.append('xb::mutate<%s>(%s); xb::send_r<%s>("%s.%s.post", %s);' % (a.t.cx(), v, a.t.cx(), n, slot, v))
        if f.throws:
            ex = {0: "throw std::runtime_error(m);", 1: "throw std::logic_error(m);", 2: "throw MyErr(m);", 3: "throw MyErr2(m);"}[f.style]
            b.append('if (xb::coin(3)) { std::string m = xb::rand_cmsg(); std::string l; rs_lossy((const std::uint8_t*)m.data(), m.size(), &l); xb::send_s("%s.err", l); %s }' % (n, ex))
        if f.ret:
            b.append(s.c_make_ret(f))
            b.append(s.c_ev("send", n + ".ret", f.ret, "r"))
            b.append("return r;")
        elif f.throws: b.append('xb::send_s("%s.ret", "()");' % n)
        for l in b: o.append("  " + l)
        o.append("}")

    def c_make(s, t):
        return "xb::make<%s>()" % t.cx()

    def c_make_ret(s, f):
        t = f.ret
        for i, a in enumerate(f.args):
            if isinstance(t, (Ref, Slice, Str)) and a.key() == t.key() and not mut_ref(t):
                return "%s r = a%d;" % (t.cx(), i)
        if isinstance(t, Ref): return "%s r = xb::Val<%s>::ref();" % (t.cx(), t.t.cx())
        return "%s r = %s;" % (t.cx(), s.c_make(t))

    def c_use_fn(s, f, i, a, b):
        n = "%s.a%d" % (f.name, i)
        b.append("{ auto cbcopy = a%d; for (int k = (int)xb::below(3); k >= 0; k--) {" % i)
        call = []
        for j, x in enumerate(a.args):
            v = "x%d" % j
            if isinstance(x, Ref): b.append("%s %s = xb::Val<%s>::ref();" % (x.cx(), v, x.t.cx()))
            else: b.append("%s %s = %s;" % (x.cx(), v, s.c_make(x)))
            b.append(s.c_ev("send", "%s.%s" % (n, v), x, v))
            call.append(v if isinstance(x, Ref) else "std::move(%s)" % v)
        c = "(k == 1 ? cbcopy : a%d)(%s)" % (i, ", ".join(call))
        if a.ret: b.append("%s r = %s; %s" % (a.ret.cx(), c, s.c_ev("recv", n + ".ret", a.ret, "r")))
        else: b.append(c + ";")
        b.append("} }")

    def c_caller(s, f, o):
        n = f.name
        o.append('static void t_%s() {' % n)
        call, post = [], []
        if f.recv:
            o.append('  %s &me = xb::Val<%s>::ref(); xb::send_r<%s>("%s.self", me);' % (f.recv.cx(), f.recv.cx(), f.recv.cx(), n))
            if f.recv_mut: post.append('  xb::recv_r<%s>("%s.self.post", me);' % (f.recv.cx(), n))
        for i, a in enumerate(f.args):
            v = "a%d" % i
            if isinstance(a, Ref):
                o.append("  %s &%s = xb::Val<%s>::ref(); %s" % (a.t.cx(), v, a.t.cx(), s.c_ev("send", "%s.%s" % (n, v), a, v)))
                call.append(v)
                if a.mut: post.append('  xb::recv_r<%s>("%s.%s.post", %s);' % (a.t.cx(), n, v, v))
            else:
                o.append("  %s %s = %s; %s" % (a.cx(), v, s.c_make(a), s.c_ev("send", "%s.%s" % (n, v), a, v)))
                if isinstance(a, Slice) and a.mut:
                    call.append(v); post.append('  xb::recv_v<%s>("%s.%s.post", %s);' % (a.cx(), n, v, v))
                else: call.append("std::move(%s)" % v)
        callee = "me.%s" % f.cxxname if f.recv else "::" + "::".join(list(f.ns) + [f.cxxname])
        c = "%s(%s)" % (callee, ", ".join(call))
        body = "%s r = %s; %s" % (f.ret.cx(), c, s.c_ev("recv", n + ".ret", f.ret, "r")) if f.ret else c + ";"
        if f.throws:
            if not f.ret: body += ' xb::recv_s("%s.ret", "()");' % n
            o.append('  try { %s }\n  catch (const rust::Error &e) { xb::recv_s("%s.err", e.what()); }' % (body, n))
        else: o.append("  " + body)
        o += post
        o.append("}")
        s.ctests.append("t_" + n)

    # ------------------------------------------------------- per-type support
    def need_glue(s, t, kind):
        k = t.key()
        g = s.glue.setdefault(k, [len(s.glue), t, set()])
        g[2].add(kind)

    def collect_glue(s):
        for b in s.bridges:
            for t0 in [t for f in b.funcs for t in f.args + ([f.ret] if f.ret else [])] + \
                      [fl.ty for it in b.items if isinstance(it, Struct) for fl in it.fields]:
                for t in t0.walk():
                    if isinstance(t, UP): s.need_glue(t.t, "up")
                    if isinstance(t, SP): s.need_glue(t.t, "sp")
                    if isinstance(t, WP): s.need_glue(t.t, "wp")

    def glue_code(s, ro, co):
        for k, (i, t, kinds) in sorted(s.glue.items(), key=lambda kv: kv[1][0]):
            rt, ct = t.rs("'static"), t.cx()
            co.append('extern "C" void *g%d_fresh() { return xb::Val<%s>::fresh(); }' % (i, ct))
            co.append('extern "C" void *g%d_ref() { return &xb::Val<%s>::ref(); }' % (i, ct))
            ro.append('extern "C" { fn g%d_fresh() -> *mut c_void; fn g%d_ref() -> *mut c_void; }' % (i, i))
            body = "fn fresh() -> *mut Self { unsafe { g%d_fresh().cast() } } fn arena() -> *mut Self { unsafe { g%d_ref().cast() } }" % (i, i)
            for kd, cn, rn in (("sp", "std::shared_ptr", "shared"), ("wp", "std::weak_ptr", "weak")):
                if kd in kinds:
                    co.append('extern "C" void g%d_%s(void *o) { new (o) %s<%s>(xb::make<%s<%s>>()); }' % (i, kd, cn, ct, cn, ct))
                    ro.append('extern "C" { fn g%d_%s(o: *mut c_void); }' % (i, kd))
                    body += " fn %s(o: *mut c_void) { unsafe { g%d_%s(o) } }" % (rn, i, kd)
            ro.append("impl CxxMake for %s { %s }" % (rt, body))

    def type_code(s, ro, co_early, co, items):
        """Val/Make/Dump implementations of named types."""
        for it in items:
            q = it.cx()
            if isinstance(it, Struct):
                co_early.append("template <> struct xb::Val<%s>;" % q)
                ro.append("impl Make for %s { fn make() -> Self { let _d = Deeper::new(); %s { %s } } }" % (
                    it.rs("'static"), it.name, ", ".join("%s: %s" % (f.name, s.r_field_make(f.ty)) for f in it.fields)))
                ro.append("impl%s Dump for %s { fn dump(&self, d: &mut D) { put(d, \"{\"); %s put(d, \"}\"); } }" % (
                    "<'a>" if it.lts else "", it.rs("'a"),
                    " ".join(s.r_field_dump(f) + ' put(d, ",");' for f in it.fields)))
                mk = ", ".join(s.c_field_make(f.ty) for f in it.fields)
                dm = " ".join(s.c_field_dump(f) + ' put(d, ",");' for f in it.fields)
                rustonly = isinstance(it, Struct)
                mu = not it.assignable()
                co_early[-1] = """template <> struct xb::Val<%(q)s> : xb::ValBase<%(q)s> { static %(q)s make(); static void dump(const %(q)s &v, D &d); %(mut)s };""" % dict(q=q, mut="static void mutate(%s &) {}" % q if mu else "")
                co.append("""%(q)s xb::Val<%(q)s>::make() { Deeper dd; return %(q)s{%(mk)s}; }
void xb::Val<%(q)s>::dump(const %(q)s &v, D &d) { put(d, "{"); %(dm)s put(d, "}"); }""" % dict(q=q, mk=mk, dm=dm))
            elif isinstance(it, Enum):
                ro.append("impl Make for %s { fn make() -> Self { let v: Vec<%s> = vec![%s]; %s { repr: if coin(2) && !v.is_empty() { v[below(v.len() as u64) as usize].repr } else { Make::make() } } } }" % (
                    it.name, it.name, ", ".join("%s::%s" % (it.name, v[0]) for v in it.variants), it.name))
                ro.append('impl Dump for %s { fn dump(&self, d: &mut D) { put(d, "E"); self.repr.dump(d) } }' % it.name)
            elif isinstance(it, ROpaque):
                n = it.name
                kind = it.size_kind
                if kind == "zst":
                    ro.append("pub struct %s;" % n)
                    ro.append("impl Make for %s { fn make() -> Self { %s } fn mutate(&mut self) {} }" % (n, n))
                    ro.append('impl Dump for %s { fn dump(&self, d: &mut D) { put(d, "Z") } }' % n)
                else:
                    pad = {"normal": "", "odd": "pub pad: [u8; 3],", "big": "pub pad: [u64; 37],", "aligned": "pub pad: u8,"}[kind]
                    padv = {"normal": "", "odd": "pad: [0xA5; 3],", "big": "pad: [0xA5A5; 37],", "aligned": "pad: 7,"}[kind]
                    padc = {"normal": "true", "odd": "self.pad == [0xA5; 3]", "big": "self.pad == [0xA5A5; 37]", "aligned": "self.pad == 7 && (self as *const Self as usize) % 64 == 0"}[kind]
                    ro.append("%spub struct %s { pub t: Tracked, %s }" % ("#[repr(align(64))] " if kind == "aligned" else "", n, pad))
                    ro.append('impl Make for %s { fn make() -> Self { %s { t: Tracked::new("%s"), %s } } fn mutate(&mut self) { self.t.mutate() } }' % (n, n, n, padv))
                    ro.append('impl Dump for %s { fn dump(&self, d: &mut D) { if !(%s) { put(d, "CORRUPT") } self.t.dump(d) } }' % (n, padc))
                ro.append("""#[no_mangle] unsafe extern "C" fn %(n)s_dump(p: *const %(n)s, d: *mut c_void) { let mut o = D::new(); (*p).dump(&mut o); d_put(d, o.as_ptr(), o.len()) }
#[no_mangle] unsafe extern "C" fn %(n)s_box() -> *mut %(n)s { Box::into_raw(Box::new(Make::make())) }
#[no_mangle] unsafe extern "C" fn %(n)s_ref() -> *mut %(n)s { keep(Make::make()) }
#[no_mangle] unsafe extern "C" fn %(n)s_mut(p: *mut %(n)s) { (*p).mutate() }
#[no_mangle] unsafe extern "C" fn %(n)s_vec(p: *mut Vec<%(n)s>) { *p = Make::make() }
#[no_mangle] unsafe extern "C" fn %(n)s_slice(len: *mut usize) -> *mut %(n)s { let s = <&'static mut [%(n)s]>::make(); *len = s.len(); s.as_mut_ptr() }""" % dict(n=n))
                usesvec = any(isinstance(t, Vec) and t.t.key() == it.key() for b in s.bridges for f in b.funcs for t0 in f.args + ([f.ret] if f.ret else []) for t in t0.walk()) or \
                    any(isinstance(t, Vec) and t.t.key() == it.key() for b in s.bridges for i2 in b.items if isinstance(i2, Struct) for fl in i2.fields for t in fl.ty.walk())
                co_early.append("""extern "C" { void %(n)s_dump(const %(q)s *, void *); %(q)s *%(n)s_box(); %(q)s *%(n)s_ref(); void %(n)s_mut(%(q)s *); %(q)s *%(n)s_slice(std::size_t *); void %(n)s_vec(void *); }
template <> struct xb::Val<%(q)s> {
  static %(q)s &ref() { return *%(n)s_ref(); }
  static void dump(const %(q)s &v, D &d) { %(n)s_dump(&v, &d); }
  static void mutate(%(q)s &v) { %(n)s_mut(&v); }
  static rust::Box<%(q)s> make_box() { return rust::Box<%(q)s>::from_raw(%(n)s_box()); }
  template <class T> static rust::Slice<T> make_slice() { std::size_t n; auto *p = %(n)s_slice(&n); return rust::Slice<T>(p, n); }
};""" % dict(n=n, q=q))
                if usesvec:
                    co_early.append("""template <> struct xb::Val<rust::Vec<%(q)s>> : xb::ValBase<rust::Vec<%(q)s>> {
  static rust::Vec<%(q)s> make() { rust::Vec<%(q)s> v; %(n)s_vec(&v); return v; }
  static void dump(const rust::Vec<%(q)s> &v, D &d) { put(d, "["); put_u(d, v.size()); for (auto &x : v) { put(d, "|"); Val<%(q)s>::dump(x, d); } put(d, "]"); }
};""" % dict(n=n, q=q))
            elif isinstance(it, COpaque):
                n = it.name
                ro.append('extern "C" { fn %s_dump(p: *const %s, d: *mut c_void); fn cmut_%s(p: *mut %s); }' % (n, n, n, n))
                ro.append('impl Dump for %s { fn dump(&self, d: &mut D) { unsafe { %s_dump(self, (d as *mut D).cast()) } } }' % (n, n))
                co.append('extern "C" void %s_dump(const %s *p, void *d) { xb::D s; p->t.dump(s); rs_put(d, (const std::uint8_t *)s.data(), s.size()); }' % (n, q))
                co.append('extern "C" void cmut_%s(%s *p) { p->t.mutate(); }' % (n, q))
        # done

    def r_field_make(s, t):
        if isinstance(t, Ptr):
            if isinstance(t.t, CXX_ONLY):
                s.need_glue(t.t, "ref")
                src = "<%s as CxxMake>::arena()" % s.r_static(t.t)
            else: src = "keep(<%s as Make>::make())" % s.r_static(t.t)
            return "(if coin(6) { std::ptr::null_mut::<%s>() } else { %s } as %s)" % (s.r_static(t.t), src, s.r_static(t))
        if isinstance(t, Ref):
            src = "<%s as CxxMake>::arena()" % s.r_static(t.t) if isinstance(t.t, CXX_ONLY) else "keep(<%s as Make>::make())" % s.r_static(t.t)
            if isinstance(t.t, CXX_ONLY): s.need_glue(t.t, "ref")
            if t.pin(): return "unsafe { Pin::new_unchecked(&mut *%s) }" % src
            return "unsafe { &%s*%s }" % ("mut " if t.mut else "", src)
        return "<%s as Make>::make()" % s.r_static(t)
    def r_field_dump(s, f):
        if isinstance(f.ty, Ref): return 'put(d, "&"); put_addr(d, &*self.%s as *const _); (*self.%s).dump(d);' % (f.name, f.name)
        return "self.%s.dump(d);" % f.name
    def c_field_make(s, t):
        if isinstance(t, Ref): return "xb::Val<%s>::ref()" % t.t.cx()
        return s.c_make(t)
    def c_field_dump(s, f):
        if isinstance(f.ty, Ref): return 'put(d, "&"); put_addr(d, &v.%s); Val<%s>::dump(v.%s, d);' % (f.cxxname, f.ty.t.cx(), f.cxxname)
        return "Val<%s>::dump(v.%s, d);" % (f.ty.cx(), f.cxxname)

    # ------------------------------------------------------------------ output
    def emit(s):
        """-> dict of files: unit.rs, ffiN.rs (bridge sources), unit.h, main.cc"""
        s.collect_glue()
        files = {}
        rs = ["#![allow(warnings)]", "mod support { include!(\"support.rs\"); }"]
        rs[1] = open_support_rs()
        for b in s.bridges:
            code = s.bridge_rs(b)
            files[b.mod + ".rs"] = code
            rs.append(code)
            names = [it.name for it in b.items if not isinstance(it, ROpaque)]
            if names: rs.append("use %s::{%s};" % (b.mod, ", ".join(names)))
        rs.append('#[no_mangle] unsafe extern "C" fn rs_put(d: *mut c_void, p: *const u8, n: usize) { (*(d as *mut D)).extend_from_slice(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }) }')
        # unit.h: everything the generated code needs to see
        h = ["#pragma once", '#include "rust/cxx.h"', '#include "support.h"', "#include <array>", "#include <stdexcept>"]
        for b in s.bridges:
            for it in b.items:
                ns = "::".join(it.ns)
                d = None
                if isinstance(it, (Struct, ROpaque)): d = "struct %s;" % it.cxxname
                elif isinstance(it, COpaque): d = "class %s;" % it.cxxname
                elif isinstance(it, Enum): d = "enum class %s : %s;" % (it.cxxname, CXXPRIM[it.repr])
                h.append("namespace %s { %s }" % (ns, d) if ns else d)
        for b in s.bridges:
            for it in b.items:
                if isinstance(it, COpaque):
                    ms = []
                    for b2 in s.bridges:
                        for f in b2.funcs:
                            if f.lang == "C++" and f.recv is it:
                                ms.append("  %s%s;" % (s.c_sig(f, f.cxxname, False), "" if f.recv_mut else " const"))
                    mv = "%s(%s &&) = default; %s &operator=(%s &&) = default;" % ((it.cxxname,) * 4) if it.movable else "%s(const %s &) = delete; void operator=(const %s &) = delete;" % ((it.cxxname,) * 3)
                    d = "class %s {\npublic:\n  %s() : t(\"%s\") {}\n  %s\n  xb::Tracked t;\n%s\n};" % (it.cxxname, it.cxxname, it.name, mv, "\n".join(ms))
                    ns = "::".join(it.ns)
                    h.append("namespace %s { %s }" % (ns, d) if ns else d)
                    base = "xb::ValBase<%s>" % it.cx()
                    h.append("""template <> struct xb::Val<%(q)s> {
  static %(q)s *fresh() { return new %(q)s; }
  static %(q)s &ref() { return keep(fresh()); }
  static void dump(const %(q)s &v, D &d) { v.t.dump(d); }
  static void mutate(%(q)s &v) { v.t.mutate(); }
  %(mk)s
};""" % dict(q=it.cx(), mk="static %s make() { return %s(); }" % (it.cx(), it.cx()) if it.movable else ""))
        for b in s.bridges:
            for f in b.funcs:
                if f.lang == "C++" and not f.recv:
                    d = s.c_sig(f, f.cxxname, False) + ";"
                    ns = "::".join(f.ns)
                    h.append("namespace %s { %s }" % (ns, d) if ns else d)
        h += s.extra_h if hasattr(s, "extra_h") else []
        files["unit.h"] = "\n".join(h) + "\n"
        # main.cc
        early, co, ro = [], [], []
        items = [it for b in s.bridges for it in b.items]
        s.type_code(ro, early, co, items)
        rimpl = {}
        for b in s.bridges:
            for f in b.funcs:
                if f.lang == "C++":
                    s.c_callee(f, co); s.r_caller(f, ro)
                else:
                    s.c_caller(f, co)
                    if f.recv:
                        body = []; s.r_callee(f, body)
                        rimpl.setdefault(f.recv.name, (f.recv, []))[1].extend(body)
                    else: s.r_callee(f, ro)
        for name, (t, body) in rimpl.items():
            ro.append("impl%s %s {" % ("<'a>" if t.lts else "", t.rs("'a"))); ro += body; ro.append("}")
        s.glue_code(ro, co)
        main = ['#include "unit.h"'] + ['#include "%s.rs.h"' % b.mod for b in s.bridges]
        main += ["#include <stdexcept>", "#include <new>", "using xb::D;",
                 "namespace { struct MyErr : std::exception { std::string m; MyErr(std::string s) : m(std::move(s)) {} const char *what() const noexcept override { return m.c_str(); } };",
                 "struct MyErr2 : std::invalid_argument { using invalid_argument::invalid_argument; }; }",
                 'extern "C" void rs_put(void *, const std::uint8_t *, std::size_t);']
        main += early
        # structs in dependency-safe order: Val definitions only instantiate on use
        main += co
        main += s.extra_cxx
        for t in s.rtests: main.append('extern "C" void %s();' % t)
        main.append("static const xb::Test TESTS[] = {")
        for t in s.rtests + s.ctests: main.append('  {"%s", %s},' % (t, t))
        main.append("};\nint main(int c, char **v) { return xb::run_main(c, v, TESTS, sizeof TESTS / sizeof *TESTS); }")
        files["main.cc"] = "\n".join(main) + "\n"
        rs += ro + s.extra_rust
        files["unit.rs"] = "\n".join(rs) + "\n"
        return files


def open_support_rs():
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "xb", "support.rs")
    return open(p).read()
