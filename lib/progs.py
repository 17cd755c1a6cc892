"""Standard populations of generated bridge programs."""
import random
import bridgegen as bg
from bridgegen import *

U8 = Prim("u8")

class Pool:
    """Named types of one unit and the legal types built from them."""
    def __init__(s, u, b, rich=True):
        s.u, s.b = u, b
        s.C = u.add_copaque(b); s.CM = u.add_copaque(b, True)
        s.R = [u.add_ropaque(b, k) for k in ("normal", "odd", "big", "aligned", "zst")]
        s.E = [u.add_enum(b, r) for r in ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize")] if rich else [u.add_enum(b, "u8"), u.add_enum(b, "i32")]
        s.Ei = u.add_enum(b, "u8", explicit=False) if False else None

    def struct(s, tys, **kw):
        return s.u.add_struct(s.b, tys, **kw)


def every_position(u, b, t, langs=("C++", "Rust"), callbacks=True):
    """One function per position a by-value type can occupy."""
    anchor = [Ref(U8)] if t.has_ref() else []
    for lang in langs:
        u.add_func(b, lang, [t], None)
        u.add_func(b, lang, [t, Prim("u8"), t], None)
        u.add_func(b, lang, anchor, t)
        u.add_func(b, lang, anchor, t, throws=True)
        u.add_func(b, lang, [t], None, throws=True)
        if not (t.has_ref() and isinstance(t, (Slice, Ref)) and t.mut):
            u.add_func(b, lang, [t], t)
    if callbacks and not isinstance(t, Ptr):
        u.add_func(b, "C++", [Fn([t], None)], None)
        if not t.has_ref():
            u.add_func(b, "C++", [Fn([], t)], None)
            u.add_func(b, "C++", [Fn([t, U8], t)], None)


def every_ref(u, b, t, langs=("C++", "Rust")):
    for lang in langs:
        for m in (False, True):
            u.add_func(b, lang, [Ref(t, m)], None)
            u.add_func(b, lang, [Ref(t, m), U8], None, throws=True)
            u.add_func(b, lang, [Ref(U8, m)], Ref(t, m))
            u.add_func(b, lang, [Ref(U8, m)], Ref(t, m), throws=True)
            if not isinstance(t, (Str, Slice)):
                u.add_func(b, lang, [Ptr(t, m)], None)
                u.add_func(b, lang, [], Ptr(t, m))
    u.add_func(b, "C++", [Fn([Ref(t)], None)], None)


def every_slice(u, b, t, langs=("C++", "Rust")):
    for lang in langs:
        for m in (False, True):
            u.add_func(b, lang, [Slice(t, m)], None)
            u.add_func(b, lang, [Ref(U8, m)], Slice(t, m))
            u.add_func(b, lang, [Slice(t, m)], None, throws=True)
    u.add_func(b, "C++", [Fn([Slice(t)], None)], None)


def methods(u, b, t, langs, rnd):
    for lang in langs:
        for m in (False, True):
            for _ in range(2):
                args = [rnd() for _ in range(u.rng.randrange(0, 3))]
                ret = rnd()
                if ret.has_ref(): ret = None
                u.add_func(b, lang, args, ret, throws=u.rng.random() < .4, recv=t, recv_mut=m)


def unit_prims(seed):
    u = Unit("prims", seed); b = u.bridge(("demo", "prims")); p = Pool(u, b)
    for t in [Prim(x) for x in PRIMS] + p.E: every_position(u, b, t)
    return u

def unit_prim_refs(seed):
    u = Unit("primrefs", seed); b = u.bridge(()); p = Pool(u, b)
    for t in [Prim(x) for x in PRIMS] + p.E[:6]:
        every_ref(u, b, t); every_slice(u, b, t)
    return u

def unit_strings(seed):
    u = Unit("strings", seed); b = u.bridge(("demo",)); p = Pool(u, b, False)
    st = p.struct([RString(), U8])
    for t in [RString(), Str(), Vec(RString()), Vec(Str()), UP(CString()), SP(CString()), WP(CString()), Arr(RString(), 2), Slice(RString()), Slice(Str())]:
        every_position(u, b, t)
    for t in [RString(), CString(), Vec(RString()), UP(CString()), SP(CString()), WP(CString()), Str()]:
        every_ref(u, b, t)
    every_slice(u, b, RString()); every_slice(u, b, Str())
    return u

def unit_vecs(seed):
    u = Unit("vecs", seed); b = u.bridge(("demo", "v")); p = Pool(u, b, False)
    s1 = p.struct([U8, Prim("u64"), RString()]); s2 = p.struct([Prim("i16"), p.E[0]])
    el = [Prim(x) for x in PRIMS] + [s1, s2, p.E[0], p.E[1]] + p.R[:4]
    for t in el:
        v = Vec(t)
        for lang in ("C++", "Rust"):
            u.add_func(b, lang, [v], None); u.add_func(b, lang, [], v, throws=True)
            u.add_func(b, lang, [v, v], v)
            u.add_func(b, lang, [Ref(v)], None); u.add_func(b, lang, [Ref(v, True)], None)
            u.add_func(b, lang, [Ref(U8)], Ref(v))
        u.add_func(b, "C++", [Fn([v], v)], None)
    return u

def unit_structs(seed):
    u = Unit("structs", seed); b = u.bridge(("demo", "s")); p = Pool(u, b, False)
    base = [Prim(x) for x in PRIMS]
    S = [p.struct([x]) for x in (U8, Prim("f64"), Prim("bool"), Prim("u64"))]
    S.append(p.struct(base))
    S.append(p.struct([U8, Prim("u64"), U8, Prim("u32"), Prim("bool"), Prim("f32")]))
    S.append(p.struct([Prim("f32"), Prim("f32"), Prim("f32"), Prim("f32")]))
    S.append(p.struct([Prim("f64"), Prim("i64")]))
    S.append(p.struct([U8, Prim("u16")]))
    S.append(p.struct([U8] * 3))
    S.append(p.struct([RString(), Vec(U8), Vec(RString())]))
    S.append(p.struct([Box(p.R[0]), U8, Box(p.R[3])]))
    S.append(p.struct([UP(p.C), SP(p.C), WP(p.C), U8]))
    S.append(p.struct([Arr(U8, 5), Arr(Prim("u32"), 3), Prim("bool")]))
    S.append(p.struct([S[5], S[8], U8, p.E[0]]))
    S.append(p.struct([S[10], S[12], S[11]]))
    S.append(p.struct([Arr(RString(), 2), Arr(S[5], 2)]))
    S.append(p.struct([Str(), U8]))
    S.append(p.struct([Ref(S[5]), Ref(p.C), Ref(p.R[0]), Slice(U8), Ref(CString())]))
    S.append(p.struct([Ptr(U8), Ptr(p.C, True), Ptr(S[5])]))
    S.append(p.struct([Vec(S[10]), Box(S[12]), UP(S[5]), SP(S[10])]))
    S.append(p.struct([UP(CV(U8)), UP(CString()), UP(CV(CString()))]))
    for t in S: every_position(u, b, t)
    for t in S:
        if not t.lts: every_ref(u, b, t); every_slice(u, b, t)
    for t in S:
        if not t.lts: methods(u, b, t, ("C++", "Rust"), lambda: u.rng.choice(base + [RString(), S[10], Str()]))
    return u

def unit_ptrs(seed):
    u = Unit("ptrs", seed); b = u.bridge(("demo", "p")); p = Pool(u, b, False)
    s1 = p.struct([U8, Prim("u64")]); s2 = p.struct([RString(), Vec(U8)])
    T = [Box(r) for r in p.R] + [Box(s1), Box(s2), Box(p.E[0])]
    T += [UP(p.C), UP(p.CM), UP(s1), UP(s2), UP(p.E[0]), UP(CString())]
    T += [SP(p.C), SP(p.CM), SP(s1), SP(s2), SP(p.E[1])] + [SP(Prim(x)) for x in PRIMS if x != "c_char"]
    T += [WP(p.C), WP(p.CM), WP(s1), WP(s2)] + [WP(Prim(x)) for x in ("bool", "u8", "i64", "f64")]
    T += [UP(CV(x)) for x in (U8, Prim("i64"), Prim("f32"), CString(), s1, s2, p.C, p.CM, p.E[0]) if x is not p.C]
    for t in T: every_position(u, b, t, callbacks=not isinstance(t, (SP, WP)) or isinstance(t.t, Named))
    return u

def unit_refs(seed):
    u = Unit("refs", seed); b = u.bridge(("demo", "r")); p = Pool(u, b, False)
    s1 = p.struct([U8, Prim("u64")]); s2 = p.struct([RString(), Vec(U8)])
    T = [p.C, p.CM] + p.R + [Box(p.R[0]), Box(s1), UP(p.C), UP(s2), SP(p.C), SP(Prim("i32")), WP(p.C), Arr(U8, 4), Arr(s2, 2)]
    T += [CV(U8), CV(Prim("usize")), CV(s1), CV(s2), CV(CString()), CV(p.CM)]
    for t in T: every_ref(u, b, t)
    for t in p.R[:4] + [Box(p.R[0]), UP(p.C), SP(p.C), WP(p.C), Arr(U8, 4), Arr(RString(), 2), Vec(U8), Vec(RString()), s2]: every_slice(u, b, t)
    base = [U8, RString(), Str(), s2, Box(p.R[0]), UP(p.C)]
    for t in p.R: methods(u, b, t, ("Rust",), lambda: u.rng.choice(base))
    for t in (p.C, p.CM): methods(u, b, t, ("C++",), lambda: u.rng.choice(base))
    return u

def unit_fallible(seed, lang):
    """Every return type and receiver of a fallible function of one language."""
    u = Unit("fallible", seed); b = u.bridge(("demo", "f")); p = Pool(u, b)
    st = [p.struct([U8, Prim("u64"), U8]), p.struct([RString(), Vec(U8)]), p.struct([Prim("f32"), Prim("f32")]), p.struct([Box(p.R[0]), UP(p.C)]), p.struct([Str(), U8]), p.struct([Prim("f64"), Prim("i64")])]
    T = [Prim(x) for x in PRIMS] + p.E[:4] + [RString(), Str()] + [Vec(x) for x in (U8, RString(), st[0], p.R[0], Prim("f64"))] + st
    T += [Box(p.R[0]), Box(p.R[4]), Box(st[1]), UP(p.C), UP(st[1]), UP(CString()), UP(CV(U8)), UP(CV(CString())), SP(p.C), SP(U8), WP(p.CM), Arr(U8, 5), Arr(RString(), 2), Slice(U8), Slice(RString()), Slice(st[0], True), Slice(Str())]
    for t in T:
        anchor = [Ref(U8, isinstance(t, Slice) and t.mut)] if t.has_ref() else []
        u.add_func(b, lang, anchor, t, throws=True)
        u.add_func(b, lang, [t], None, throws=True)
        if not t.has_ref(): u.add_func(b, lang, [t, U8, t], t, throws=True)
    for t in [U8, Prim("f64"), p.E[0], RString(), CString(), p.C, p.CM, p.R[0], p.R[4], st[0], st[1], Vec(U8), Vec(RString()), CV(U8), UP(p.C), SP(p.C), Box(p.R[0])]:
        for m in (False, True): u.add_func(b, lang, [Ref(U8, m)], Ref(t, m), throws=True)
    for t in (st[0], st[1]) + ((p.C, p.CM) if lang == "C++" else (p.R[0], p.R[1])):
        for m in (False, True):
            for ret in (None, U8, RString(), st[1], Box(p.R[0]), UP(p.C)): u.add_func(b, lang, [RString()], ret, throws=True, recv=t, recv_mut=m)
    return u

def unit_fallible_cxx(seed): return unit_fallible(seed, "C++")
def unit_fallible_rust(seed): return unit_fallible(seed, "Rust")
FALLIBLE = [unit_fallible_cxx, unit_fallible_rust]

SYSTEMATIC = [unit_prims, unit_prim_refs, unit_strings, unit_vecs, unit_structs, unit_ptrs, unit_refs]


# ------------------------------------------------------------------- random
class RandPool:
    def __init__(s, u):
        s.u, s.rng = u, u.rng
        s.S, s.SL, s.E, s.R, s.RR, s.C, s.CM = [], [], [], [], [], [], []

    def prim(s): return Prim(s.rng.choice(PRIMS))
    def pick(s, *lists):
        l = [x for y in lists for x in y]
        return s.rng.choice(l) if l else None

    def rust_elem(s):
        """Vec / Box / slice element legal on the Rust side."""
        r = s.rng.random()
        if r < .35: return s.prim()
        if r < .5: return RString()
        return s.pick(s.S, s.E, s.R) or s.prim()

    def cxx_elem(s):
        r = s.rng.random()
        if r < .3: return Prim(s.rng.choice([p for p in PRIMS if p not in ("bool", "c_char")]))
        if r < .5: return CString()
        return s.pick(s.S, s.E, s.CM) or CString()

    def boxed(s): return s.pick(s.R, s.S, s.E)
    def up_target(s):
        r = s.rng.random()
        if r < .15: return CString()
        if r < .35: return CV(s.cxx_elem())
        return s.pick(s.C, s.CM, s.S, s.E)
    def sp_target(s):
        r = s.rng.random()
        if r < .15: return CString()
        if r < .3: return Prim(s.rng.choice([p for p in PRIMS if p != "c_char"]))
        return s.pick(s.C, s.CM, s.S, s.E)

    def val(s, refs=False, depth=0):
        while True:
            r = s.rng.random()
            if r < .18: return s.prim()
            if r < .26: return RString()
            if r < .36 and s.S: return s.rng.choice(s.S)
            if r < .41 and s.E: return s.rng.choice(s.E)
            if r < .47 and s.boxed(): return Box(s.boxed())
            if r < .55: return Vec(s.rust_elem())
            if r < .62 and s.up_target(): return UP(s.up_target())
            if r < .67 and s.sp_target(): return SP(s.sp_target())
            if r < .70 and s.sp_target(): return WP(s.sp_target())
            if r < .74 and depth < 2:
                t = s.val(False, depth + 1)
                # arrays of aliased types are rejected unless used by value
                if any(isinstance(x, Named) and x.bridge is not s.b for x in t.walk()): continue
                return Arr(t, s.rng.randrange(1, 5))
            if not refs: continue
            if r < .79: return Str()
            if r < .85: return Slice(s.slice_elem(), s.rng.random() < .3)
            if r < .97: return s.ref()
            if s.SL: return s.rng.choice(s.SL)

    def slice_elem(s):
        r = s.rng.random()
        if r < .5: return s.rust_elem()
        if r < .6: return Str()
        return s.val(False, 1)

    def ref(s, mut=None):
        t = s.pick(s.C, s.CM, s.RR, s.S, s.E, [CString(), CV(s.cxx_elem()), s.val(False, 1), RString(), s.prim()])
        m = s.rng.random() < .35 if mut is None else mut
        # opaque Rust types of another bridge are only usable behind & (a
        # mutable reference demands a trivial type)
        if isinstance(t, ROpaque) and t.bridge is not s.b: m = False
        return Ref(t, m)

    def func(s, b, lang, recv=None):
        u, rng = s.u, s.rng
        args = [s.val(True) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
        if rng.random() < .12: args.append(Ptr(s.pick(s.C, s.R, s.S, [s.prim(), RString(), CString()]), rng.random() < .5))
        if lang == "C++" and rng.random() < .2:
            args.append(Fn([s.val(False) for _ in range(rng.randrange(0, 3))] + ([s.ref(False)] if rng.random() < .3 else []),
                           s.val(False) if rng.random() < .6 else None))
        ret = None
        if rng.random() < .75: ret = s.val(True)
        if ret is not None and ret.has_ref():
            if isinstance(ret, (Ref, Slice)) and ret.mut or isinstance(ret, Ptr):
                if recv is not None: ret = None
                else: args.insert(0, Ref(U8, True))
            elif recv is not None and any(a.has_ref() for a in args): ret = None
            elif recv is None and not any(a.has_ref() for a in args): args.insert(0, Ref(U8))
        if recv is not None and ret is not None and ret.has_ref(): ret = None
        rng.shuffle(args)
        # explicit lifetimes and invariance do not mix well in the callee harness
        f = u.add_func(b, lang, args, ret, throws=rng.random() < .3, recv=recv, recv_mut=recv is not None and rng.random() < .5)
        return f


def unit_random(seed, nfuncs=90, nbridges=None):
    u = Unit("rand%s" % seed, seed)
    p = RandPool(u); rng = u.rng
    nb = nbridges or rng.choice([1, 1, 2, 3])
    for bi in range(nb):
        b = u.bridge(rng.choice([(), ("app",), ("app", "inner"), ("other%d" % bi,)]))
        mine = []; p.b = b; p.R = []
        p.C.append(u.add_copaque(b)); p.CM.append(u.add_copaque(b, True))
        for _ in range(2): p.R.append(u.add_ropaque(b, rng.choice(["normal", "odd", "big", "aligned"])))
        p.RR += p.R
        for _ in range(3): p.E.append(u.add_enum(b, rng.choice(INTS)))
        for _ in range(rng.randrange(3, 7)):
            s = u.add_struct(b, [p.val(False) for _ in range(rng.randrange(1, 6))]); p.S.append(s); mine.append(s)
        s = u.add_struct(b, [p.val(False), Str(), Ref(p.pick(p.S, p.C, p.R)), Slice(p.rust_elem())]); p.SL.append(s); mine.append(s)
        mine += [x for x in (p.C[-1], p.CM[-1])] + p.R[-2:]
        for _ in range(nfuncs // nb):
            lang = rng.choice(["C++", "Rust"]); recv = None
            if rng.random() < .25:
                t = rng.choice(mine)
                if not t.lts:
                    recv = t
                    if isinstance(t, ROpaque): lang = "Rust"
                    if isinstance(t, COpaque): lang = "C++"
            p.func(b, lang, recv)
        rng.shuffle(b.items)
    return u
