"""C15: what opaque types and their wrappers may not do, in both languages."""
from common import *
from compileprobe import Probe, judge_all, compile_probes, cxx_lines
import os, random, units

IMPL = "(<HasCap<%s>>::%s)"
PRELUDE = """#![allow(warnings)]
pub mod k {
    pub struct HasCap<T: ?Sized>(core::marker::PhantomData<T>);
    pub trait NoCap { const SEND: bool = false; const SYNC: bool = false; const UNPIN: bool = false; const CLONE: bool = false; const COPY: bool = false; const DEFAULT: bool = false; }
    impl<T: ?Sized> NoCap for HasCap<T> {}
    impl<T: ?Sized + Send> HasCap<T> { pub const SEND: bool = true; }
    impl<T: ?Sized + Sync> HasCap<T> { pub const SYNC: bool = true; }
    impl<T: ?Sized + Unpin> HasCap<T> { pub const UNPIN: bool = true; }
    impl<T: Clone> HasCap<T> { pub const CLONE: bool = true; }
    impl<T: Copy> HasCap<T> { pub const COPY: bool = true; }
    impl<T: Default> HasCap<T> { pub const DEFAULT: bool = true; }
    pub fn give<T>() -> T { loop {} }
}
"""
USE = "use crate::k::{self, HasCap, NoCap}; use cxx::{let_cxx_string, CxxString, CxxVector, ExternType, SharedPtr, UniquePtr, WeakPtr}; use std::pin::Pin;"
CAPS = ("SEND", "SYNC", "UNPIN", "CLONE", "COPY", "DEFAULT")


class T:
    """One bridge with one opaque C++ type, declared in some way."""
    def __init__(s, r, i):
        s.name = r.choice(["Opq", "O%d" % i, "Send", "Unpin", "Opaque", "r#type", "Pin2", "Layout", "Aé"]) if r.random() < .5 else "Opq"
        if s.name in ("Send", "Unpin"): s.name = "My" + s.name
        s.lt = r.choice(["", "", "", "<'a>", "<'a, 'b>"])
        s.send, s.sync = r.random() < .5, r.random() < .5
        s.vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) "])
        s.attr = r.choice(["", "", "#[namespace = \"a::b\"] ", "#[cxx_name = \"Other\"] ", "#[doc = \"x\"] ", "#[allow(dead_code)] "])
        g = s.lt.replace("'a", "'_").replace("'b", "'_")
        uses = ["", "fn f(x: &%s);" % (s.name + g), "fn g(x: Pin<&mut %s>);" % (s.name + g), "fn h() -> UniquePtr<%s>;" % s.name, "fn s() -> SharedPtr<%s>;" % s.name, "fn v() -> UniquePtr<CxxVector<%s>>;" % s.name]
        fns = " ".join(r.sample(uses[:3] if s.lt else uses, r.randrange(3)))
        fns = "".join(("unsafe fn %s%d%s" % (f[3], i, "<'a>" ) + f[4:].replace("'_", "'a") if "&mut" in f and s.lt else "fn %s%d" % (f[3], i) + f[4:]) + " " for i, f in enumerate(x for x in fns.replace(";", ";\n").split("\n") if x.strip().startswith("fn ") for x in [x.strip()]))
        blocks = ["unsafe extern \"C++\" { %s%stype %s%s; %s }" % (s.attr, s.vis, s.name, s.lt, fns)]
        if r.random() < .3: blocks.append("extern \"Rust\" { fn rusty(x: &%s); }" % (s.name + g))
        if r.random() < .3: blocks.append("struct Sh { a: u8, p: UniquePtr<CxxString> }")
        s.rusty = "fn rusty(x: &ffi::%s) {}" % (s.name + g) if "rusty" in "".join(blocks) else ""
        impls = "" if s.lt else "impl UniquePtr<%s> {} impl SharedPtr<%s> {} impl WeakPtr<%s> {} impl CxxVector<%s> {}" % ((s.name,) * 4)
        r.shuffle(blocks)
        s.ns = r.choice(["", "(namespace = \"x::y\")", "(namespace = x)"])
        s.bridge = "#[cxx::bridge%s] pub mod ffi { %s %s }" % (s.ns, " ".join(blocks), impls)
        lt = s.lt and ("<'a>" if s.lt == "<'a>" else "<'a, 'b>")
        st = "ffi::" + s.name + (s.lt and "<" + ", ".join(["'static"] * s.lt.count("'")) + ">")
        s.ty = st
        s.user = "".join("unsafe impl%s %s for ffi::%s%s {} " % (lt, c, s.name, lt) for c, y in (("Send", s.send), ("Sync", s.sync)) if y)
        s.decl = "%s %s %s " % (s.bridge, s.user, s.rusty) + USE
        s.form = "%s%s%s%s" % ("lt" if s.lt else "", "S" if s.send else "s", "Y" if s.sync else "y", "ns" if s.ns else "")


def caps(t, send, sync, wrappers=True):
    """(type, {capability: truth}) for the type itself and everything around it."""
    b = send and sync
    out = [(t, dict(SEND=send, SYNC=sync, UNPIN=False, CLONE=False, COPY=False, DEFAULT=False)),
           ("&'static " + t, dict(SEND=sync, SYNC=sync, UNPIN=True, CLONE=True, COPY=True)),
           ("Pin<&'static mut %s>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False, COPY=False)),
           ("*const " + t, dict(SEND=False, SYNC=False)),
           ("Option<&'static %s>" % t, dict(SEND=sync, SYNC=sync))]
    if wrappers: out += [
        ("UniquePtr<%s>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False, COPY=False)),
        ("Option<UniquePtr<%s>>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False)),
        ("Vec<UniquePtr<%s>>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False)),
        ("SharedPtr<%s>" % t, dict(SEND=b, SYNC=b, UNPIN=True, CLONE=True, COPY=False)),
        ("Vec<SharedPtr<%s>>" % t, dict(SEND=b, SYNC=b, UNPIN=True, CLONE=True)),
        ("WeakPtr<%s>" % t, dict(SEND=b, SYNC=b, CLONE=True, COPY=False)),
        ("CxxVector<%s>" % t, dict(SEND=send, SYNC=sync, UNPIN=False, CLONE=False, COPY=False, DEFAULT=False)),
        ("UniquePtr<CxxVector<%s>>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False)),
        ("&'static CxxVector<%s>" % t, dict(SEND=sync, SYNC=sync, UNPIN=True)),
        ("Pin<&'static mut CxxVector<%s>>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False)),
        ("cxx::vector::Iter<'static, %s>" % t, dict(SEND=sync, SYNC=sync, UNPIN=True, COPY=False)),
        ("cxx::vector::IterMut<'static, %s>" % t, dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False, COPY=False)),
        ("(UniquePtr<%s>, SharedPtr<%s>)" % (t, t), dict(SEND=b, SYNC=b, CLONE=False))]
    return out


def fact(ty, cap, v): return "const _: () = assert!(%s%s);" % ("" if v else "!", IMPL % (ty, cap))


def matrix(ck, rng):
    """Send/Sync/Unpin/Clone/Copy/Default of every wrapper of every pointee."""
    out = []
    def add(group, decl, rows, check_default=True):
        for ty, m in rows:
            for c, v in m.items(): out.append(Probe("cap/%s/%s/%s" % (group, c, ty.replace("'static ", "").replace("'static", "")), decl + " " + fact(ty, c, v), True, "%s is %s%s" % (ty, "" if v else "not ", c)))
    # combination by combination, whatever the rest of the declaration looks like
    for send in (False, True):
        for sync in (False, True):
            for lt in (False, True):
                while True:
                    t = T(rng, 0)
                    if (t.send, t.sync, bool(t.lt)) == (send, sync, lt): break
                rows = caps(t.ty, send, sync, not lt)
                add("opaque-" + t.form[:4], t.decl, rows)
    # pointees that are not opaque declarations
    add("CxxString", USE, [("CxxString", dict(SEND=True, SYNC=True, UNPIN=False, CLONE=False, COPY=False, DEFAULT=False))] + [(a, m) for a, m in caps("CxxString", True, True) if a != "CxxString"])
    for prim in ("i32", "f64", "u8", "usize"):
        b = [(a, m) for a, m in caps(prim, True, True) if "Ptr" in a or "Vector<" in a or "vector::" in a]
        b = [(a, m) for a, m in b if "UniquePtr<%s>" % prim not in a]
        add("prim", USE, b)
    sh = "#[cxx::bridge] pub mod ffi { struct S { a: u8, p: UniquePtr<Opq> } struct P { a: u8, s: String } struct H { p: SharedPtr<Opq> } struct K { p: WeakPtr<Opq> } struct V { v: UniquePtr<CxxVector<Opq>> } enum E { A } unsafe extern \"C++\" { type Opq; fn f(x: UniquePtr<Opq>, y: SharedPtr<Opq>, v: UniquePtr<CxxVector<Opq>>); } impl WeakPtr<Opq> {} impl UniquePtr<S> {} impl SharedPtr<S> {} impl UniquePtr<P> {} impl SharedPtr<P> {} impl CxxVector<P> {} impl WeakPtr<P> {} impl CxxVector<S> {} }"
    for send, sync in ((False, False), (True, False), (False, True), (True, True)):
        u = sh + ("unsafe impl Send for ffi::Opq {} " if send else "") + ("unsafe impl Sync for ffi::Opq {} " if sync else "") + USE
        b = send and sync
        add("struct-fields", u, [("ffi::S", dict(SEND=send, SYNC=sync, UNPIN=True, CLONE=False)), ("ffi::H", dict(SEND=b, SYNC=b)), ("ffi::K", dict(SEND=b, SYNC=b)), ("ffi::V", dict(SEND=send, SYNC=sync)), ("ffi::P", dict(SEND=True, SYNC=True, CLONE=False, COPY=False)), ("ffi::E", dict(SEND=True, SYNC=True, COPY=True)),
                                 ("UniquePtr<ffi::S>", dict(SEND=send, SYNC=sync)), ("SharedPtr<ffi::S>", dict(SEND=b, SYNC=b)), ("CxxVector<ffi::S>", dict(SEND=send, SYNC=sync, UNPIN=False)), ("SharedPtr<ffi::P>", dict(SEND=True, SYNC=True)), ("WeakPtr<ffi::P>", dict(SEND=True, SYNC=True)), ("CxxVector<ffi::P>", dict(SEND=True, SYNC=True, UNPIN=False))])
    ext = "#[repr(C)] pub struct X { p: *mut u8 } unsafe impl cxx::ExternType for X { type Id = cxx::type_id!(\"X\"); type Kind = cxx::kind::Trivial; } #[cxx::bridge] pub mod ffi { unsafe extern \"C++\" { type X = super::X; } impl UniquePtr<X> {} impl SharedPtr<X> {} impl WeakPtr<X> {} impl CxxVector<X> {} }"
    for send, sync in ((False, False), (True, False), (False, True), (True, True)):
        rows = [(a, {c: v for c, v in m.items() if c in ("SEND", "SYNC")}) for a, m in caps("ffi::X", send, sync) if "*" not in a]
        add("extern", ext + ("unsafe impl Send for X {} " if send else "") + ("unsafe impl Sync for X {} " if sync else "") + USE, rows)
    add("exception", USE, [("cxx::Exception", dict(SEND=True, SYNC=True))])
    # group the facts of one declaration into one module unless something is wrong: far fewer expansions
    groups = {}
    for p in out:
        d, _, f = p.text.rpartition(" const _: ()")
        groups.setdefault(d, []).append((p, "const _: ()" + f))
    merged = [Probe("caps/%d" % i, d + " " + " ".join(f for _, f in l), True) for i, (d, l) in enumerate(groups.items())]
    compile_probes(ck, "caps", merged, PRELUDE)
    again = []
    for m, (d, l) in zip(merged, groups.items()):
        if m.err: again += [p for p, _ in l]
        else:
            for p, _ in l: ck.count(1, p.key)
    if again: judge_all(ck, "caps-again", again, PRELUDE)
    ck.notes["capability_facts"] = len(out)
    ck.sample(out[7].key)


def rust_side(ck, rng):
    """What safe code cannot do with a value it only sees by reference, next to what it can."""
    out = []
    def add(key, decl, body, ok, why): out.append(Probe(key, "%s %s" % (decl, body), ok, why))
    for i in range(60 if THOROUGH else 12):
        t = T(rng, i); d, ty = t.decl, t.ty
        f = t.form
        two = [
            ("unpin-get_mut", "fn p(x: Pin<&mut %s>) { let _: &mut %s = x.get_mut(); }", False), ("pin-as_mut", "fn p(mut x: Pin<&mut %s>) { let _: Pin<&mut %s> = x.as_mut(); }", True),
            ("into_inner", "fn p(x: Pin<&mut %s>) { let _: &mut %s = Pin::into_inner(x); }", False), ("get_ref", "fn p(x: Pin<&mut %s>) { let _: &%s = x.into_ref().get_ref(); }", True),
            ("pin-new", "fn p(x: &mut %s) { let _: Pin<&mut %s> = Pin::new(x); }", False), ("pin-new-unchecked", "fn p(x: &mut %s) { let _: Pin<&mut %s> = unsafe { Pin::new_unchecked(x) }; }", True),
            ("pin-set", "fn p(mut x: Pin<&mut %s>, y: %s) { *x = y; }", False), ("deref", "fn p(x: Pin<&mut %s>) { let _: &%s = &*x; }", True),
            ("clone", "fn p(x: &%s) -> %s { x.clone() }", False), ("copy", "fn p(x: &%s) -> %s { fn c<T: Copy>(x: &T) -> T { *x } c(x) }", False), ("ref-copy", "fn p<'t>(x: &'t %s) -> (&'t %s, &'t u8) { fn c<T: Copy>(x: &T) -> T { *x } c(&(x, &0)) }", True),
            ("default", "fn p() -> %s { let _: Option<%s> = None; Default::default() }", False), ("literal", "fn p() -> %s { let _: Option<%s> = None; ffi::" + t.name + " { _private: k::give() } }", False),
            ("static", "fn p(x: &'static %s) { fn need<T: Sync>(_: &T) {} let _: &%s = x; need(x); }", t.sync),
            ("spawn-ref", "fn p(x: &'static %s) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.sync),
            ("spawn-mut", "fn p(x: Pin<&'static mut %s>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.send),
            ("user-unpin", "impl%s Unpin for ffi::" % t.lt + t.name + t.lt + " {} fn p(x: &%s, y: &%s) {}", False),
            ("user-drop", "impl%s Drop for ffi::" % t.lt + t.name + t.lt + " { fn drop(&mut self) {} } fn p(x: &%s, y: &%s) {}", None),
        ]
        if not t.lt: two += [
            ("uptr-new", "fn p(x: %s) -> UniquePtr<%s> { UniquePtr::new(x) }", False), ("sptr-new", "fn p(x: %s) -> SharedPtr<%s> { SharedPtr::new(x) }", False), ("uptr-null", "fn p() -> UniquePtr<%s> { let _: Option<&%s> = None; UniquePtr::null() }", True),
            ("uptr-derefmut", "fn p(x: &mut UniquePtr<%s>) { let _: &mut %s = &mut **x; }", False), ("uptr-deref", "fn p(x: &UniquePtr<%s>) { let _: &%s = &**x; }", True), ("uptr-as_mut", "fn p(x: &mut UniquePtr<%s>) { let _: Pin<&mut %s> = x.as_mut().unwrap(); }", True),
            ("uptr-as_mut-unpinned", "fn p(x: &mut UniquePtr<%s>) { let _: &mut %s = x.as_mut().unwrap(); }", False), ("uptr-pin_mut", "fn p(x: &mut UniquePtr<%s>) { let _: Pin<&mut %s> = x.pin_mut(); }", True), ("uptr-pin_mut-unpinned", "fn p(x: &mut UniquePtr<%s>) { let _: &mut %s = x.pin_mut(); }", False),
            ("uptr-move-out", "fn p(x: UniquePtr<%s>) -> %s { *x }", False), ("uptr-clone", "fn p(x: &UniquePtr<%s>) -> UniquePtr<%s> { x.clone() }", False), ("sptr-clone", "fn p(x: &SharedPtr<%s>) -> SharedPtr<%s> { x.clone() }", True),
            ("sptr-mut", "fn p(x: &mut SharedPtr<%s>) { let _: &mut %s = &mut **x; }", False), ("sptr-pin", "fn p(x: &mut SharedPtr<%s>) { let _: Pin<&mut %s> = x.pin_mut(); }", False), ("sptr-move-out", "fn p(x: SharedPtr<%s>) -> %s { *x }", False),
            ("vec-push", "fn p(v: Pin<&mut CxxVector<%s>>, x: %s) { v.push(x) }", False), ("vec-pop", "fn p(v: Pin<&mut CxxVector<%s>>) -> Option<%s> { v.pop() }", False), ("vec-as_slice", "fn p(v: &CxxVector<%s>) -> &[%s] { v.as_slice() }", False), ("vec-as_mut_slice", "fn p(v: Pin<&mut CxxVector<%s>>) -> &mut [%s] { v.as_mut_slice() }", False),
            ("vec-iter_mut", "fn p(v: Pin<&mut CxxVector<%s>>) { for x in v { let _: &mut %s = x; } }", False), ("vec-iter_mut-pin", "fn p(v: Pin<&mut CxxVector<%s>>) { for x in v { let _: Pin<&mut %s> = x; } }", True), ("vec-index_mut", "fn p(v: Pin<&mut CxxVector<%s>>) { let _: &mut %s = v.index_mut(0).unwrap(); }", False), ("vec-index_mut-pin", "fn p(v: Pin<&mut CxxVector<%s>>) { let _: Pin<&mut %s> = v.index_mut(0).unwrap(); }", True),
            ("vec-get", "fn p(v: &CxxVector<%s>) -> Option<&%s> { v.get(0) }", True), ("vec-index-mut-op", "fn p(mut v: Pin<&mut CxxVector<%s>>) { let _: &mut %s = &mut v[0]; }", False), ("vec-extend", "fn p(v: Pin<&mut CxxVector<%s>>, x: %s) { v.extend(Some(x)) }", False),
            ("vec-unpin", "fn p(v: Pin<&mut CxxVector<%s>>) { let _: Option<&%s> = None; v.get_mut(); }", False),
            ("spawn-uptr", "fn p(x: UniquePtr<%s>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.send), ("spawn-sptr", "fn p(x: SharedPtr<%s>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.send and t.sync),
            ("spawn-wptr", "fn p(x: WeakPtr<%s>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.send and t.sync), ("share-uptr", "fn p(x: &'static UniquePtr<%s>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.sync),
            ("spawn-vec", "fn p(x: UniquePtr<CxxVector<%s>>) { let _: Option<&%s> = None; std::thread::spawn(move || { let y = x; }); }", t.send),
            ("trivial-kind", "fn p() { fn n<T: ExternType<Kind = cxx::kind::Trivial>>() {} let _: Option<(&%s, &%s)> = None; n::<" + ty + ">(); }", False), ("opaque-kind", "fn p() { fn n<T: ExternType<Kind = cxx::kind::Opaque>>() {} let _: Option<(&%s, &%s)> = None; n::<" + ty + ">(); }", True),
        ]
        for k, body, ok in two:
            if ok is None: continue
            b = body.replace("%s", ty)
            add("use/%s%s" % (k, "/lt" if t.lt else ""), d, b, ok, "%s of an opaque C++ type (%s)" % (k, f))
    # the library's own opaque types
    S, V = "CxxString", "CxxVector<i32>"
    for ty in (S, V, "CxxVector<CxxString>"):
        for k, b, ok in (("get_mut", "fn p(x: Pin<&mut %s>) { x.get_mut(); }", False), ("by-ref", "fn p(x: Pin<&mut %s>) -> usize { let y: &%s = &x; y.len() }", True), ("new", "fn p() -> %s { %s::new() }", False), ("swap", "fn p(mut x: Pin<&mut %s>, mut y: Pin<&mut %s>) { std::mem::swap(&mut *x, &mut *y); }", False),
                         ("clone", "fn p(x: &%s) -> %s { x.clone() }", False), ("uptr-derefmut", "fn p(x: &mut UniquePtr<%s>) -> &mut %s { &mut **x }", False), ("uptr-move", "fn p(x: UniquePtr<%s>) -> %s { *x }", False), ("uptr-new", "fn p(x: %s) -> UniquePtr<%s> { UniquePtr::new(x) }", False), ("take", "fn p(mut x: Pin<&mut %s>) { std::mem::take(&mut *x); }", False)):
            add("library/%s/%s" % (k, ty), USE, b.replace("%s", ty), ok, k)
    add("library/let_cxx_string-move", USE, "fn p() { let_cxx_string!(s = \"x\"); let t: CxxString = *s; }", False, "a string on the stack cannot be moved"); add("library/let_cxx_string", USE, "fn p() { let_cxx_string!(s = \"x\"); let t: Pin<&mut CxxString> = s; t.push_str(\"y\"); }", True, "")
    add("library/vec-push-string", USE, "fn p(v: Pin<&mut CxxVector<CxxString>>, x: CxxString) { v.push(x) }", False, "push of an opaque element"); add("library/vec-push-i32", USE, "fn p(v: Pin<&mut CxxVector<i32>>) { v.push(1) }", True, "")
    add("library/vec-slice-string", USE, "fn p(v: &CxxVector<CxxString>) -> &[CxxString] { v.as_slice() }", False, "slice of opaque elements"); add("library/vec-slice-u8", USE, "fn p(v: &CxxVector<u8>) -> &[u8] { v.as_slice() }", True, "")
    # opaque Rust types have to be sized and movable, in every declaration context
    for i in range(8 if THOROUGH else 3):
        r = rng
        wrap = lambda body: "#[cxx::bridge%s] mod ffi { %s extern \"Rust\" { %s%stype R%%s; %s } %s }" % (r.choice(["", "(namespace = \"q\")"]), r.choice(["", "struct Z { x: u8 }"]), r.choice(["", "#[cxx_name = \"CR\"] ", "#[namespace = \"n::m\"] "]), "", body, r.choice(["", "impl Box<R%s> {}", "unsafe extern \"C++\" { fn c(x: &R%s); }"]).replace("%s", ""))
        for k, decl, lt, ok, fn in (("plain", "pub struct R { x: u8 }", "", True, "fn take(x: &R);"), ("pinned", "pub struct R { x: u8, p: std::marker::PhantomPinned }", "", False, "fn take(x: &R);"), ("dyn", "pub type R = dyn Fn();", "", False, ""), ("str", "pub type R = str;", "", False, ""), ("slice", "pub struct R { x: [u8] }", "", False, ""),
                                ("box-dyn", "pub struct R { x: Box<dyn Fn()> }", "", True, ""), ("rc", "pub struct R { x: std::rc::Rc<u8> }", "", True, ""), ("life", "pub struct R<'a> { x: &'a u8 }", "<'a>", True, ""), ("life-pinned", "pub struct R<'a> { x: &'a u8, p: std::marker::PhantomPinned }", "<'a>", False, ""), ("pinned-deep", "pub struct I(std::marker::PhantomPinned); pub struct R { x: (u8, [I; 2]) }", "", False, ""), ("pinned-boxed", "pub struct R { x: Box<std::marker::PhantomPinned> }", "", True, "")):
            w = wrap(fn if lt == "" else "")
            if lt and ("impl Box" in w or "fn c(" in w): w = w.split("impl Box")[0].rstrip() + (" }" if "impl Box" in w else "") if "impl Box" in w else w.replace("unsafe extern \"C++\" { fn c(x: &R); }", "")
            add("rust-type/" + k, decl + (" fn take(x: &R) {}" if fn and lt == "" else "") + " " + w.replace("%s", lt), "", ok, "an opaque Rust type that is " + k)
    judge_all(ck, "use", out, PRELUDE)


CXX_FACTS = [
    ("copy", "static_assert(!::std::is_copy_constructible<%s>::value, \"\");"), ("move", "static_assert(!::std::is_move_constructible<%s>::value, \"\");"), ("default", "static_assert(!::std::is_default_constructible<%s>::value, \"\");"),
    ("destroy", "static_assert(!::std::is_destructible<%s>::value, \"\");"), ("copy-assign", "static_assert(!::std::is_copy_assignable<%s>::value, \"\");"), ("move-assign", "static_assert(!::std::is_move_assignable<%s>::value, \"\");"),
    ("aggregate", "template <typename T, typename = void> struct braces%d : ::std::false_type {}; template <typename T> struct braces%d<T, decltype((void)T{})> : ::std::true_type {}; static_assert(!braces%d<%s>::value, \"\");"),
    ("from-copy", "static_assert(!::std::is_constructible<%s, const %s &>::value && !::std::is_convertible<%s &, %s>::value, \"\");"), ("from-int", "static_assert(!::std::is_constructible<%s, int>::value && !::std::is_constructible<%s, void *>::value, \"\");"),
]
CXX_BAD = [("local", "inline void f%d() { %s r; }"), ("new", "inline void *f%d() { return new %s; }"), ("new-array", "inline void *f%d() { return new %s[3]; }"), ("delete", "inline void f%d(%s *p) { delete p; }"), ("derive", "struct D%d : %s {}; inline void g%d(D%d *p) { static_cast<%s *>(p); }"), ("by-value-return", "inline %s f%d(%s &r) { return r; }"), ("by-value-call", "void h%d(%s r); inline void f%d(%s &r) { h%d(r); }"),
           ("member", "struct M%d { %s r; }; inline void f%d() { M%d m; }"), ("static", "static %s r%d;"), ("assign", "inline void f%d(%s &a, %s &b) { a = b; }"), ("swap", "inline void f%d(%s &a, %s &b) { ::std::swap(a, b); }"), ("unique_ptr", "inline void f%d(%s *p) { ::std::unique_ptr<%s> q(p); }"), ("make_unique", "inline void f%d() { ::std::make_shared<%s>(); }"), ("vector", "inline void f%d() { ::std::vector<%s> v(1); }"),
           ("placement", "inline void f%d(void *p) { ::new (p) %s; }"), ("destroy", "inline void f%d(%s &r) { r.~%t(); }"), ("layout", "inline ::std::size_t f%d() { return %s::layout::size(); }"), ("box-copy", "inline ::rust::Box<%s> f%d(const ::rust::Box<%s> &b) { return b; }"), ("box-value", "inline ::rust::Box<%s> f%d(%s &r) { return ::rust::Box<%s>(r); }"), ("vec-push", "inline void f%d(::rust::Vec<%s> &v, %s &r) { v.push_back(r); }")]
CXX_GOOD = [("ref", "inline const %s &f%d(const %s &r) { return r; }"), ("ptr", "inline const %s *f%d(const %s &r) { return &r; }"), ("box-move", "inline ::rust::Box<%s> f%d(::rust::Box<%s> b) { return b; }"), ("box-deref", "inline %s &f%d(::rust::Box<%s> &b) { return *b; }"), ("size", "inline ::std::size_t f%d() { return ::rust::size_of<%s>() + ::rust::align_of<%s>(); }"), ("vec-index", "inline %s &f%d(::rust::Vec<%s> &v) { return v[0]; }"), ("vec-slice", "inline ::rust::Slice<const %s> f%d(const ::rust::Vec<%s> &v) { return ::rust::Slice<const %s>(v); }"), ("vec-move", "inline ::rust::Vec<%s> f%d(::rust::Vec<%s> v) { return v; }"), ("compare", "inline bool f%d(const %s &a, const %s &b) { return &a == &b; }")]


def cxx_side(ck, rng, i):
    """What C++ code cannot do with an opaque Rust type, next to what it can."""
    names, decl, cpp = [], [], []
    for j in range(4):
        n = "R%d" % j; ns = rng.choice([None, None, "a", "a::b"]); ren = rng.random() < .3
        body = rng.choice(["", "fn m%d(self: &%s);" % (j, n), "fn m%d(self: &mut %s, x: &str) -> Result<u8>;" % (j, n), "fn n%d() -> Box<%s>;" % (j, n), "fn l%d(x: &[%s]);" % (j, n)])
        decl.append("%s%stype %s; %s" % ("#[namespace = \"%s\"] " % ns if ns else "", "#[cxx_name = \"C%s\"] " % n if ren else "", n, body))
        cpp.append("::" + (ns + "::" if ns else "") + ("C" if ren else "") + n)
    outer = rng.choice(["", "", "(namespace = \"top\")"])
    if outer: cpp = [c if c.count("::") > 1 else "::top" + c for c in cpp]
    src = "#[cxx::bridge%s] mod ffi { extern \"Rust\" { %s } %s }" % (outer, " ".join(decl), " ".join("impl Box<R%d> {} impl Vec<R%d> {}" % (j, j) for j in range(4)))
    r = units.vgen().gen(src)
    if r[0] != "OK": ck.violation("generate", "%s\n%s" % (r, src), {"bridge.rs": src}); return
    d = os.path.join(ck.dir, "cxx%d" % i); os.makedirs(d); open(d + "/b.rs.h", "w").write(r[1])
    head = ["#include \"b.rs.h\"", "#include <memory>", "#include <vector>", "#include <utility>", "#include <type_traits>"]
    lines, meta = list(head), [None] * len(head)
    k = 0
    for c in cpp:
        for kind, tab, ok in (("fact", CXX_FACTS, True), ("misuse", CXX_BAD, False), ("use", CXX_GOOD, True)):
            for key, t in tab:
                k += 1
                lines.append(t.replace("%s", c).replace("%d", str(k)).replace("%t", c.split("::")[-1])); meta.append((kind, key, ok, c))
    for cxx, std in ((("clang++", "c++11"), ("g++", "c++20"), ("clang++", "c++17"), ("g++", "c++11")) if THOROUGH else (("clang++", rng.choice(["c++11", "c++17", "c++20"])), ("g++", rng.choice(["c++11", "c++14", "c++20"])))):
        bad = cxx_lines(ck, "cxx%d/%s" % (i, cxx[:3] + std[3:]), lines, cxx=cxx, std=std, inc=[d])
        if any(n < len(head) for n in bad): ck.violation("header", "the generated header does not compile\n%s" % bad, {"bridge.rs": src, "b.rs.h": r[1]}); return
        for n, m in enumerate(meta):
            if not m: continue
            kind, key, ok, c = m; ck.count(1, (kind, key, ok, cxx))
            # g++ reports instantiation errors of library code at the library's line
            if ok and n in bad: ck.violation("cxx/%s/%s" % (kind, key), "C++ (%s %s): %s\n%s" % (cxx, std, lines[n], bad[n]), {"bridge.rs": src, "b.rs.h": r[1]})
            if not ok and n not in bad and not (key in ("swap", "unique_ptr", "make_unique", "vector", "vec-push", "box-value", "box-copy")): ck.violation("cxx/%s/%s" % (kind, key), "C++ (%s %s) accepts, for an opaque Rust type: %s" % (cxx, std, lines[n]), {"bridge.rs": src, "b.rs.h": r[1]})
    # those whose error appears inside library headers, one translation unit each
    if i == 0:
        sel = [(l, m) for l, m in zip(lines, meta) if m and m[1] in ("swap", "unique_ptr", "make_unique", "vector", "vec-push", "box-value", "box-copy") and m[3] in cpp[:2]]
        def one(x):
            n, (l, m) = x
            p = os.path.join(d, "s%d.cc" % n); open(p, "w").write("\n".join(head + [l]) + "\n")
            q = run(["clang++", "-std=c++17", "-fsyntax-only", "-w", "-I", d, "-I", cxx_include_dir(), p]); ck.count(1, ("misuse", m[1], "tu"))
            if q.rc == 0: ck.violation("cxx/misuse/" + m[1], "C++ accepts, for an opaque Rust type: %s" % l, {"bridge.rs": src, "b.rs.h": r[1]})
        pmap(one, list(enumerate(sel)))
    ck.sample(lines[20])


def main(ck):
    ck.rule = ("an evaluation is one fact settled by the real compiler about one declaration: a capability (Send, Sync, Unpin, Clone, ...) of a type built from it, or whether one use of it compiles; "
               "distinct counts distinct (use or capability, expected verdict, error code)")
    rng = random.Random("%d/%s/c15" % (SEED, TIER))
    rtdeps("none"); vgen_bin()
    for _ in range(6 if THOROUGH else 1): matrix(ck, rng)
    rust_side(ck, rng)
    for i in range(12 if THOROUGH else 3): cxx_side(ck, rng, i)
