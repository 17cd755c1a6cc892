"""What a user's crate may contain next to a bridge: names the expansion must not look up in the user's scope.

`groups()` yields (name, [(label, text before the bridge, text after it)], crate attribute lines). The bridge writes none of
these names except as the builtins it means by them, and everything the user's own code writes is spelled by absolute path, so
an item of that name cannot be meant by anybody: whether the crate compiles depends on the expansion alone."""
BR='''#[::cxx::bridge(namespace = "n")]
pub mod ffi {
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
    pub struct S { a: u8, b: String, c: Vec<u8>, d: [u16; 3], e: bool, f: i64 }
    #[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
    struct Fl { x: f64, y: usize }
    #[derive(Debug, Hash, PartialOrd, Ord)]
    enum En { A, B = 5 }
    struct Lt<'a> { x: &'a str, y: &'a [u8] }
    struct Own { a: UniquePtr<CxxString>, b: SharedPtr<S>, c: WeakPtr<S>, d: Box<R>, e: Vec<String>, f: UniquePtr<CxxVector<u32>> }
    extern "Rust" {
        type R;
        #[derive(ExternType)]
        type Q;
        type L<'a>;
        fn r0(x: u8, y: String, z: &str, v: Vec<String>) -> Result<String>;
        fn r1(self: &R, s: &S, o: Own) -> Box<R>;
        fn r2(self: &mut R, x: &[S], y: &mut [u8], z: &Vec<R>) -> usize;
        unsafe fn r3<'a>(x: &'a L<'a>, y: Lt<'a>) -> &'a str;
        fn r4(self: &S) -> Vec<S>;
        fn r5() -> Result<()>;
        fn r6(x: UniquePtr<T>, y: Pin<&mut T>, z: &CxxVector<T>) -> UniquePtr<CxxVector<u8>>;
        fn r7(e: En, f: Fl) -> Result<Vec<Fl>>;
        unsafe fn r8(p: *const u8) -> *mut T;
        fn r9() -> bool;
    }
    unsafe extern "C++" {
        include!("u.h");
        type T;
        type U<'a>;
        fn c0(x: u8, y: String, z: &str, v: Vec<String>) -> Result<String>;
        fn c1(self: &T, s: &S, o: Own) -> Box<R>;
        fn c2(self: Pin<&mut T>, x: &[S], y: &mut [u8], z: &Vec<R>) -> usize;
        unsafe fn c3<'a>(x: &'a U<'a>, y: Lt<'a>) -> &'a str;
        fn c4(s: &S) -> Vec<S>;
        fn c5() -> Result<()>;
        fn c6(x: UniquePtr<T>, y: Pin<&mut T>, z: &CxxVector<T>, f: fn(u8, &str) -> String) -> UniquePtr<CxxVector<u8>>;
        fn c7(e: En, f: Fl) -> Result<Vec<Fl>>;
        unsafe fn c8(p: *const u8) -> *mut T;
        fn c9(f: fn(x: Box<R>) -> bool, v: SharedPtr<CxxString>, w: WeakPtr<T>) -> Result<Box<R>>;
        fn c10() -> Result<&'static str>;
        fn c11(x: &[u8]) -> Result<&[u8]>;
        fn c12(x: &CxxString) -> &CxxString;
    }
    impl Box<S> {}
    impl UniquePtr<S> {}
    impl Vec<En> {}
    impl CxxVector<S> {}
    impl SharedPtr<T> {}
}
pub struct R; pub struct Q; pub struct L<'a>(&'a u8);
impl R { fn r1(&self, _: &ffi::S, _: ffi::Own) -> ::std::boxed::Box<R> { loop {} } fn r2(&mut self, _: &[ffi::S], _: &mut [::std::primitive::u8], _: &::std::vec::Vec<R>) -> ::std::primitive::usize { loop {} } }
impl ffi::S { fn r4(&self) -> ::std::vec::Vec<ffi::S> { loop {} } }
fn r0(_: ::std::primitive::u8, _: ::std::string::String, _: &::std::primitive::str, _: ::std::vec::Vec<::std::string::String>) -> ::std::result::Result<::std::string::String, ::std::fmt::Error> { loop {} }
unsafe fn r3<'a>(_: &'a L<'a>, _: ffi::Lt<'a>) -> &'a ::std::primitive::str { loop {} }
fn r5() -> ::std::result::Result<(), ::std::fmt::Error> { loop {} }
fn r6(_: ::cxx::UniquePtr<ffi::T>, _: ::std::pin::Pin<&mut ffi::T>, _: &::cxx::CxxVector<ffi::T>) -> ::cxx::UniquePtr<::cxx::CxxVector<::std::primitive::u8>> { loop {} }
fn r7(_: ffi::En, _: ffi::Fl) -> ::std::result::Result<::std::vec::Vec<ffi::Fl>, ::std::fmt::Error> { loop {} }
unsafe fn r8(_: *const ::std::primitive::u8) -> *mut ffi::T { loop {} }
fn r9() -> ::std::primitive::bool { true }
'''
MAC="concat module_path stringify panic assert assert_eq unreachable vec format matches debug_assert unimplemented todo write line file column env include cfg".split()
TY="Option Some None Ok Err Result String Vec Box Drop Clone Copy Debug PartialEq Eq PartialOrd Ord Hash Default From Into Iterator Send Sync Sized Fn FnOnce FnMut ToString ToOwned AsRef AsMut Deref Pin UniquePtr SharedPtr WeakPtr CxxString CxxVector ExternType Exception Formatter Ordering PhantomData MaybeUninit ManuallyDrop Opaque Private Item Kind Id Target Error".split()
MODS="core std alloc cxx private memory mem ptr fmt hash cmp option result kind ops marker string boxed vec pin n".split()
FNS="drop f new into from repr size_of align_of hash eq ne lt le gt ge cmp fmt get to_string __return this len".split()
PRIM="u8 u16 u32 u64 usize i8 i16 i32 i64 isize bool char str f32 f64".split()

LINTS = ("warnings", "unsafe_op_in_unsafe_fn", "rust_2018_idioms", "rust_2021_compatibility", "future_incompatible", "nonstandard_style", "elided_lifetimes_in_paths")

def groups():
    yield "macro", [(m, "macro_rules! %s { ($($t:tt)*) => { compile_error!(\"%s! of the user\") } }\n" % (m, m), "") for m in MAC], ""
    for k, t in (("generic", "pub struct %s<A, B>(A, B);\n"), ("const", "pub const %s: () = ();\n"), ("trait", "pub trait %s {}\n")):
        yield k, [(x, "", t % x) for x in TY], ""
    yield "mod", [(x, "", "pub mod %s {}\n" % x) for x in MODS], ""
    yield "free-fn", [(x, "", "pub fn %s() {}\n" % x) for x in FNS], ""
    yield "static", [(x, "", "pub static %s: () = ();\n" % x) for x in FNS], ""
    yield "primitive", [(x, "", "pub struct %s;\n" % x) for x in PRIM], ""
    yield "no_implicit_prelude", [("", "", "")], "#![no_implicit_prelude]\n"
    for l in LINTS: yield "deny/" + l, [("", "", "")], "#![deny(%s)]\n" % l


# Names of the bridge's own items: every one of them means something to the code that is generated around them, none is a
# C++ keyword. The library's own type names are reserved and C++ headers own the rest of the global namespace: all in n.
TYPES = [x for x in TY if x not in "String Vec Box UniquePtr SharedPtr WeakPtr CxxString CxxVector Self_".split()] + """Rust Cxx Void Repr Fat Layout Iter Str
    Slice Uint Type Ret Ptr Std std rust detail string uint8_t size_t forward is_complete deleter_if repr PtrLen
    unsafe_bitcopy vector shared_ptr unique_ptr initializer_list operator_ U V exception byte nullptr_t int8_t Func basic_string array impl_
    missing behavior Try Fail value type_ pointer const_iterator iterator size_type reference difference_type cxx n Arg Args Field""".split()
VALUES = list(dict.fromkeys([x for x in FNS + MODS if x not in "new this private n __return".split()] + """concat clone_ as_ptr deref drop_in_place main_ cast swap result call
    export_name std rust detail string forward vector exception value iterator repr_ trycatch tmp index out ptr_ len_ s lhs rhs error_ end begin data size at raw_ self_ body args""".split()))
HEADER = """#pragma once
#include <rust/cxx.h>
#include <string>
#include <vector>
#include <memory>
namespace n {
struct S; struct Own; struct R;
class T { public: ::rust::Box<R> c1(const S&, Own) const; %s };
::rust::String c0(::std::uint8_t, ::rust::String, ::rust::Str, ::rust::Vec<::rust::String>); ::rust::Slice<const ::std::uint8_t> c3(::rust::Fn<::rust::String(::std::uint8_t, ::rust::Str)>);
::std::unique_ptr<::std::vector<::std::uint8_t>> c4(Own, ::std::shared_ptr<::std::string>); ::std::shared_ptr<T> c5(::std::unique_ptr<::std::vector<S>>, ::std::weak_ptr<T>); void c6(); const ::std::string &c7(const ::std::string &);
%s
}
"""
SMALL = """#[::cxx::bridge(namespace = "n")]
pub mod ffi {
  #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] struct S { a: u8, b: String, c: Vec<u8>, d: [u16; 3], f: i64 }
  enum En { A, B = 5 }
  struct Own { a: UniquePtr<CxxString>, b: SharedPtr<S>, c: WeakPtr<S>, d: Box<R>, e: Vec<String>, f: UniquePtr<CxxVector<u32>> }
  extern "Rust" { type R; fn r0(x: u8, y: String, z: &str, v: Vec<String>) -> Result<String>; fn r1(self: &R, s: &S, o: Own) -> Box<R>; fn r2(self: &mut R, x: &[S], y: &mut [u8], z: &Vec<R>) -> usize; fn r7(e: En) -> Result<()>; }
  unsafe extern "C++" { include!("u.h"); type T; fn c0(x: u8, y: String, z: &str, v: Vec<String>) -> Result<String>; fn c1(self: &T, s: &S, o: Own) -> Box<R>; fn c3(f: fn(u8, &str) -> String) -> Result<&'static [u8]>; fn c4(x: Own, y: SharedPtr<CxxString>) -> UniquePtr<CxxVector<u8>>; fn c5(x: UniquePtr<CxxVector<S>>, y: WeakPtr<T>) -> SharedPtr<T>; fn c6() -> Result<()>; fn c7(x: &CxxString) -> &CxxString; }
%s
  impl Box<S> {} impl Vec<En> {} impl CxxVector<S> {}
}
pub struct R;
impl R { fn r1(&self, _: &ffi::S, _: ffi::Own) -> ::std::boxed::Box<R> { loop {} } fn r2(&mut self, _: &[ffi::S], _: &mut [::std::primitive::u8], _: &::std::vec::Vec<R>) -> ::std::primitive::usize { loop {} } }
fn r0(_: ::std::primitive::u8, _: ::std::string::String, _: &::std::primitive::str, _: ::std::vec::Vec<::std::string::String>) -> ::std::result::Result<::std::string::String, ::std::fmt::Error> { loop {} }
fn r7(_: ffi::En) -> ::std::result::Result<(), ::std::fmt::Error> { loop {} }
%s
"""
RS = "_: ::std::string::String) -> ::std::result::Result<%s, ::std::fmt::Error> { loop {} }"
OWNED, BORROWED = RS % "::std::string::String", RS % "&::std::primitive::str"
ALL = "#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]"
# kind: names, bridge items, Rust implementation, free C++ declarations, members of T
KINDS = {
    "struct": (TYPES, ALL + " struct @ { x: u8, y: String }", "", "", ""),
    "enum": (TYPES, "#[derive(Debug, Hash)] enum @ { Aa, Bb }", "", "", ""),
    "opaque C++ type": (TYPES, 'unsafe extern "C++" { type @; fn tk~(x: &@) -> UniquePtr<@>; } impl SharedPtr<@> {}', "", "class @ {}; ::std::unique_ptr<@> tk~(const @ &);", ""),
    "opaque Rust type": (TYPES, 'extern "Rust" { type @; fn tr~(x: &@, y: Box<@>) -> Vec<@>; }', "pub struct @ {} fn tr~(_: &@, _: ::std::boxed::Box<@>) -> ::std::vec::Vec<@> { loop {} }", "", ""),
    "unit struct": ("repr value raw this new pos out len other formatter".split(), 'extern "Rust" { type @; fn tr~(x: &@, y: Box<@>) -> Vec<@>; }', "pub struct @; fn tr~(_: &@, _: ::std::boxed::Box<@>) -> ::std::vec::Vec<@> { loop {} }", "", ""),
    "C++ function": (VALUES, 'unsafe extern "C++" { fn @(x: String, b: &str) -> Result<String>; }', "", "::rust::String @(::rust::String, ::rust::Str);", ""),
    "Rust function": (VALUES, 'extern "Rust" { fn @(x: String) -> Result<String>; }', "fn @(" + OWNED, "", ""),
    "C++ method": (VALUES, 'unsafe extern "C++" { fn @(self: Pin<&mut T>, x: String) -> Result<&str>; }', "", "", "::rust::Str @(::rust::String);"),
    "Rust method": (VALUES, 'extern "Rust" { fn @(self: &mut R, x: String) -> Result<&str>; }', "impl R { fn @(&mut self, " + BORROWED + " }", "", ""),
    "argument": (VALUES, 'unsafe extern "C++" { fn zz~(@: String, b0: &[u8]) -> Result<String>; } extern "Rust" { fn zr~(@: String, b0: Own) -> Result<String>; }', "fn zr~(_: ::std::string::String, _: ffi::Own) -> ::std::result::Result<::std::string::String, ::std::fmt::Error> { loop {} }", "::rust::String zz~(::rust::String, ::rust::Slice<const ::std::uint8_t>);", ""),
    "field": (VALUES, ALL + " struct Zz~ { @: String, b0: u8 }", "", "", ""),
    "variant": (TYPES, "#[derive(Debug, Hash, PartialOrd, Ord)] enum Zz~ { @, Other }", "", "", ""),
}

def named(kind, names):
    """(bridge and its crate, header) that declare one item of the kind for every name."""
    _, b, r, c, m = KINDS[kind]; put = lambda t: "\n".join("  " + t.replace("@", n).replace("~", str(i)) for i, n in enumerate(names) if t)
    return SMALL % (put(b), put(r)), HEADER % (put(m), put(c))
