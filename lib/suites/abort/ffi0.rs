#[cxx::bridge]
pub mod ffi0 {
    #[derive(PartialEq, PartialOrd, Eq, Ord, Hash)]
    struct St { a: u32, s: String, b: Box<R> }
    #[derive(Clone, Copy)]
    struct Pod { a: u32, b: u64 }
    enum En { A, B }
    struct Deep { v: Vec<St>, r: Vec<R>, s: String }
    unsafe extern "C++" {
        include!("unit.h");
        type Opq; type Thrower;
        @CF@
        fn mk_opq() -> UniquePtr<Opq>; fn static_opq() -> &'static Opq; fn mk_thrower() -> UniquePtr<Thrower>; fn sh_thrower() -> SharedPtr<Thrower>; fn vec_thrower() -> UniquePtr<CxxVector<Thrower>>;
        fn take_st(s: St); fn take_up(u: UniquePtr<St>); fn hold_sp(s: SharedPtr<St>); fn catch_and_call(f: fn(u32) -> u32) -> u32; fn call_thread(f: fn(u32) -> u32); fn mid_unwind(f: fn(u32) -> u32); fn call_str(f: fn(&str) -> String, s: &str) -> String; fn call_box(f: fn(Box<R>)); fn call_vec(f: fn(&mut Vec<u8>));
        fn call_ref(f: fn(&R) -> &R, r: &R); fn call_deep(d: Deep); fn make_then_throw(kind: u32) -> Result<Box<R>>; fn static_throw(kind: u32); fn throw_in_noexcept(kind: u32) -> Result<()>;
    }
    extern "Rust" {
        type R;
        fn mk_r() -> Box<R>; fn mk_rs(n: usize) -> Vec<R>; fn mk_st() -> St; fn mk_sts(n: usize) -> Vec<St>;
        fn arm(k: u32);
        unsafe fn life<'a>(a: &'a str, r: &'a R) -> &'a str;
        @RF@
    }
    impl Box<R> {}
    impl WeakPtr<Thrower> {}
    impl Vec<St> {}
    impl UniquePtr<St> {}
    impl SharedPtr<St> {}
    impl CxxVector<St> {}

}
