"""Programs whose declarations come close to each other or to names that the bridge uses itself."""

class Case:
    def __init__(s, key, bridges, header="", rust=None, source=""): s.key, s.bridges, s.header, s.rust, s.source = key, bridges, header, rust, source
    def files(s):
        fs = {"u.h": "#pragma once\n#include \"rust/cxx.h\"\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n" + s.header + "\n"}
        for i, (b, o) in enumerate(s.bridges):
            fs["ffi%d.rs" % i] = "#[cxx::bridge] pub mod ffi { %s unsafe extern \"C++\" { include!(\"u.h\"); } }\n%s\n" % (b, o)
        inc = "".join('#include "ffi%d.rs.h"\n' % i for i in range(len(s.bridges)))
        fs["u.cc"] = '#include "u.h"\n' + inc + s.source + "\n"
        fs["main.cc"] = '#include "u.h"\n' + inc + 'extern "C" void pull(); int main() { ::rust::String q("abc"); ::rust::Vec<std::uint8_t> v; v.push_back(7); if (q.size() != 3 || v.size() != 1) return 3; try { pull(); } catch (...) { return 4; } return 0; }\n'
        fs["unit.rs"] = "#[unsafe(no_mangle)] pub extern \"C\" fn pull() { cxx::let_cxx_string!(s = \"abcd\"); assert_eq!(s.len(), 4); assert_eq!(s.to_string(), \"abcd\"); let mut v = cxx::CxxVector::<i32>::new(); v.pin_mut().push(3); assert_eq!(v.len(), 1); %s }\n%s" % (s.rust or "", "".join("pub mod ffi%d; " % i for i in range(len(s.bridges))))
        return fs

CASES = []
def case(key, *bridges, header="", rust=None, source=""): CASES.append(Case(key, [b if isinstance(b, tuple) else (b, "") for b in bridges], header, rust, source))
def cx(t): return 'unsafe extern "C++" { include!("u.h"); %s }' % t
def ru(t): return 'extern "Rust" { %s }' % t

# names of the library's own symbols
case("library-symbol/fn", (ru("fn exception(x: u8) -> u8;"), "fn exception(x: u8) -> u8 { x }"))
case("library-symbol/fn-in-namespace", ('#[namespace = "q"] ' + ru("fn exception(x: u8) -> u8;"), "fn exception(x: u8) -> u8 { x }"))
case("library-symbol/method-string", cx("type string; fn len(self: &string) -> u8; fn ptr(self: &string);"), header="struct string { std::uint8_t len() const { return 1; } void ptr() const {} };")
case("library-symbol/method-cxx_string", cx("type cxx_string; fn length(self: &cxx_string) -> u8; fn data(self: &cxx_string);"), header="struct cxx_string { std::uint8_t length() const { return 1; } void data() const {} };")
case("library-symbol/method-in-namespace", '#[namespace = "q"] ' + cx("type string; fn len(self: &string) -> u8; type cxx_string; fn length(self: &cxx_string);"), header="namespace q { struct string { std::uint8_t len() const { return 1; } }; struct cxx_string { void length() const {} }; }")
case("library-symbol/Vec-of-u8", ('#[cxx_name = "u8"] struct Foo { x: u16 } ' + ru("fn f(x: Vec<Foo>);"), "fn f(_: Vec<ffi::Foo>) {}"))
case("library-symbol/Vec-of-u8-in-namespace", ('#[namespace = "q"] #[cxx_name = "u8"] struct Foo { x: u16 } ' + ru("fn f(x: Vec<Foo>);"), "fn f(_: Vec<ffi::Foo>) {}"))
case("library-symbol/vector-of-i32", '#[cxx_name = "i32"] struct Foo { x: u16 } ' + cx("fn g(x: &CxxVector<Foo>);"), header="struct i32; inline void g(const std::vector<i32>&) {}")
case("library-symbol/vector-of-string", cx("type string; fn g(x: &CxxVector<string>);"), header="struct string {}; inline void g(const std::vector<string>&) {}")
case("library-symbol/names-of-kinds", (ru('#[namespace = "q"] type unique_ptr; #[namespace = "q"] type rust_vec; #[namespace = "q"] type shared_ptr; fn a() -> Box<unique_ptr>; fn b() -> Vec<rust_vec>; fn c(x: &shared_ptr); fn len(self: &unique_ptr); fn drop(self: &rust_vec);'), "pub struct unique_ptr; pub struct rust_vec; pub struct shared_ptr; fn a() -> Box<unique_ptr> { loop {} } fn b() -> Vec<rust_vec> { loop {} } fn c(_: &shared_ptr) {} impl unique_ptr { fn len(&self) {} } impl rust_vec { fn drop(&self) {} }"))
case("namespace-named-like-a-kind", ('#[namespace = "box"] ' + ru("type T; fn alloc(self: &T); fn make() -> Box<T>;") + ru('#[cxx_name = "T"] type T2; fn make2() -> Box<T2>;'), "pub struct T; pub struct T2; impl T { fn alloc(&self) {} } fn make() -> Box<T> { loop {} } fn make2() -> Box<T2> { loop {} }"))

# same C++ name in different namespaces
case("same-name/C++", cx('#[namespace = "a"] type X; #[namespace = "b"] #[cxx_name = "X"] type Y; #[cxx_name = "X"] type Z; fn get(self: &X) -> u8; fn get(self: &Y) -> u8; fn get(self: &Z) -> u8; fn ma() -> UniquePtr<X>; fn mb() -> UniquePtr<Y>; fn mc() -> UniquePtr<Z>;'),
     header="namespace a { struct X { std::uint8_t get() const { return 1; } }; } namespace b { struct X { std::uint8_t get() const { return 2; } }; } struct X { std::uint8_t get() const { return 3; } }; inline std::unique_ptr<a::X> ma() { return std::unique_ptr<a::X>(new a::X); } inline std::unique_ptr<b::X> mb() { return std::unique_ptr<b::X>(new b::X); } inline std::unique_ptr<X> mc() { return std::unique_ptr<X>(new X); }",
     rust="assert_eq!((ffi0::ffi::ma().get(), ffi0::ffi::mb().get(), ffi0::ffi::mc().get()), (1, 2, 3));")
case("same-name/Rust", (ru('#[namespace = "a"] type X; #[namespace = "b"] #[cxx_name = "X"] type Y; fn get(self: &X) -> u8; fn get(self: &Y) -> u8; fn mx() -> Box<X>; fn my() -> Box<Y>;') + cx("fn ask(x: &X, y: &Y) -> u16;"), "pub struct X; pub struct Y; impl X { fn get(&self) -> u8 { 1 } } impl Y { fn get(&self) -> u8 { 2 } } fn mx() -> Box<X> { Box::new(X) } fn my() -> Box<Y> { Box::new(Y) } pub fn go() -> u16 { ffi::ask(&X, &Y) }"),
     header="namespace a { struct X; } namespace b { struct X; } std::uint16_t ask(const a::X &, const b::X &);", source="std::uint16_t ask(const a::X &x, const b::X &y) { return x.get() * 10 + y.get(); }", rust="assert_eq!(ffi0::go(), 12);")
case("same-name/struct", ('#[namespace = "a"] struct X { v: u8 } #[namespace = "b"] #[cxx_name = "X"] struct Y { v: u16 } ' + ru("fn get(self: &X) -> u8; fn get(self: &Y) -> u8; fn vx() -> Vec<X>; fn vy() -> Vec<Y>;"), "impl ffi::X { fn get(&self) -> u8 { 1 } } impl ffi::Y { fn get(&self) -> u8 { 2 } } fn vx() -> Vec<ffi::X> { vec![] } fn vy() -> Vec<ffi::Y> { vec![] }"))
case("same-name/type-in-two-bridges", (cx('#[namespace = "a"] type X; fn get(self: &X);'), ""), (cx('#[namespace = "b"] type X; fn get(self: &X);'), ""), header="namespace a { struct X { void get() const {} }; } namespace b { struct X { void get() const {} }; }")

# several bridges
case("two-bridges/C++-and-Rust", cx("fn f(x: u8);"), (ru("fn f(x: &str);"), "fn f(_: &str) {}"), header="inline void f(std::uint8_t) {}")
case("two-bridges/C++-and-Rust-in-namespaces", '#[namespace = "a"] ' + cx("fn f(x: u8);"), ('#[namespace = "b"] ' + ru("fn f(x: &str);"), "fn f(_: &str) {}"), header="namespace a { inline void f(std::uint8_t) {} }")
case("two-bridges/same-function", cx("fn f(x: u8);"), cx("fn f(x: u8);"), header="inline void f(std::uint8_t) {}")
case("two-bridges/same-function-renamed", cx("fn f(x: u8);"), cx('#[cxx_name = "f"] fn g(x: u8);'), header="inline void f(std::uint8_t) {}")
case("two-bridges/overload", cx("fn f(x: u8);"), cx("fn f(x: &str);"), header="inline void f(std::uint8_t) {} inline void f(rust::Str) {}")
case("two-bridges/overload-renamed", cx("fn f(x: u8);"), cx('#[cxx_name = "f"] fn f2(x: &str);'), header="inline void f(std::uint8_t) {} inline void f(rust::Str) {}")
case("two-bridges/Rust-overload", (ru("fn f(x: u8);"), "fn f(_: u8) {}"), (ru("fn f(x: &str);"), "fn f(_: &str) {}"))
case("two-bridges/Rust-overload-renamed", (ru("fn f(x: u8);"), "fn f(_: u8) {}"), (ru('#[cxx_name = "f"] fn f2(x: &str);'), "fn f2(_: &str) {}"))
case("two-bridges/alias", cx("type O; fn f() -> UniquePtr<O>;"), cx("type O = crate::ffi0::ffi::O; fn g() -> UniquePtr<O>;"), header="struct O {}; inline std::unique_ptr<O> f() { return nullptr; } inline std::unique_ptr<O> g() { return nullptr; }")
case("two-bridges/opaque-twice", cx("type O; fn f() -> UniquePtr<O>;"), cx("type O; fn g() -> UniquePtr<O>;"), header="struct O {}; inline std::unique_ptr<O> f() { return nullptr; } inline std::unique_ptr<O> g() { return nullptr; }")
case("two-bridges/opaque-twice-by-reference", cx("type O; fn f() -> UniquePtr<O>;"), cx("type O; fn g(x: &O);"), header="struct O {}; inline std::unique_ptr<O> f() { return nullptr; } inline void g(const O &) {}")

# names that the generated code uses itself
case("protocol-name/struct-IsRelocatable", "struct IsRelocatable { x: u8 }")
case("protocol-name/field-IsRelocatable", "struct S { IsRelocatable: u8 }")
case("protocol-name/Rust-type-layout", (ru("type layout; fn f() -> Box<layout>;"), "pub struct layout; fn f() -> Box<layout> { loop {} }"))
case("protocol-name/Rust-type-Opaque", (ru("type Opaque; fn f() -> Box<Opaque>;"), "pub struct Opaque; fn f() -> Box<Opaque> { loop {} }"))
case("protocol-name/method-layout", (ru("type R; fn layout(self: &R) -> u8; fn size(self: &R); fn align(self: &R); fn f() -> Box<R>;"), "pub struct R; impl R { fn layout(&self) -> u8 { 1 } fn size(&self) {} fn align(&self) {} } fn f() -> Box<R> { loop {} }"))
case("argument/error", (ru("fn f(error: String, fail: String) -> Result<String>; type R; fn m(self: &R, error: Vec<u8>) -> Result<u8>;"), "fn f(a: String, b: String) -> Result<String, String> { Ok(a + &b) } pub struct R; impl R { fn m(&self, _: Vec<u8>) -> Result<u8, String> { Ok(0) } }"))
case("argument/wildcard", cx("fn f(_: u8, arg0: u16) -> u16; fn g(arg1: u8, _: u16) -> u16; fn h(_: u8, _: u16);"), header="inline std::uint16_t f(std::uint8_t, std::uint16_t x) { return x; } inline std::uint16_t g(std::uint8_t, std::uint16_t x) { return x; } inline void h(std::uint8_t, std::uint16_t) {}", rust="assert_eq!((ffi0::ffi::f(1, 2), ffi0::ffi::g(3, 4)), (2, 4));")
case("argument/wildcard-Rust", (ru("fn f(_: u8, arg0: u16) -> u16;") + cx("fn ask() -> u16;"), "fn f(_: u8, x: u16) -> u16 { x }"), header="std::uint16_t ask();", source="std::uint16_t ask() { return f(1, 2); }")
case("argument/fn-pointer", (cx("fn f(a: fn(x: u8, x: u16) -> u16, b: fn(_: u8, arg0: u8) -> u8, c: fn(arg1: u8, u8) -> u8) -> u32;"), "fn a(_: u8, x: u16) -> u16 { x } fn b(_: u8, x: u8) -> u8 { x } pub fn go() -> u32 { ffi::f(a, b, b) }"),
     header="inline std::uint32_t f(rust::Fn<std::uint16_t(std::uint8_t, std::uint16_t)> a, rust::Fn<std::uint8_t(std::uint8_t, std::uint8_t)> b, rust::Fn<std::uint8_t(std::uint8_t, std::uint8_t)> c) { return a(1, 2) * 100u + b(3, 4) * 10u + c(5, 6); }", rust="assert_eq!(ffi0::go(), 246);")
case("cfg/only-user-removed", cx("type O; #[cfg(any())] fn f() -> UniquePtr<O>;"), header="struct O {};")
case("nested-containers", (cx("type O; fn f() -> UniquePtr<CxxVector<O>>; fn g(x: &CxxVector<CxxString>) -> SharedPtr<O>;") + ru("fn h(x: Vec<String>) -> Vec<u8>;"), "fn h(_: Vec<String>) -> Vec<u8> { vec![] }"), header="struct O {}; inline std::unique_ptr<std::vector<O>> f() { return nullptr; } inline std::shared_ptr<O> g(const std::vector<std::string> &) { return nullptr; }")
