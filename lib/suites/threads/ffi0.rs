#[cxx::bridge]
pub mod ffi0 {
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    struct SP { a: u64, s: String, v: Vec<u32> }
    unsafe extern "C++" {
        include!("unit.h");
        type Obj;
        fn id(self: &Obj) -> u64; fn set(self: Pin<&mut Obj>, v: u64);
        fn mk_obj(id: u64) -> SharedPtr<Obj>; fn mk_uobj(id: u64) -> UniquePtr<Obj>;
        fn mk_sp(a: u64) -> SharedPtr<SP>; fn mk_u64(a: u64) -> SharedPtr<u64>; fn mk_str(a: u64) -> SharedPtr<CxxString>;
        fn cnt_obj(p: &SharedPtr<Obj>) -> usize; fn cnt_sp(p: &SharedPtr<SP>) -> usize; fn cnt_u64(p: &SharedPtr<u64>) -> usize; fn cnt_str(p: &SharedPtr<CxxString>) -> usize;
        fn via_obj(p: SharedPtr<Obj>, n: u32) -> SharedPtr<Obj>; fn weak_obj(p: &WeakPtr<Obj>) -> SharedPtr<Obj>; fn to_weak(p: &SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn live() -> usize; fn destroyed() -> usize;
        fn boom(kind: u32, msg: &str) -> Result<u64>;
        fn relay(msg: &str, depth: u32) -> Result<String>;
        fn cstr(b: &[u8]) -> UniquePtr<CxxString>; fn cvec(seed: u64, n: usize) -> UniquePtr<CxxVector<u32>>; fn cvs(n: usize, tag: &str) -> UniquePtr<CxxVector<CxxString>>;
        fn concat(a: &str, b: String, c: &CxxString) -> String;
        fn vec_ops(v: Vec<u32>, x: u32) -> Vec<u32>; fn strs_ops(v: Vec<String>, x: &str) -> Vec<String>;
        fn sp_ops(s: SP) -> SP; fn sum_slice(s: &[u32]) -> u64;
        fn call_fn(f: fn(u64) -> u64, x: u64) -> u64;
        fn own_ops(seed: u64, n: u32) -> String;
        fn push_q(o: UniquePtr<Obj>, b: Box<RObj>, s: String, v: Vec<SP>); fn pop_q(o: &mut UniquePtr<Obj>, s: &mut String, v: &mut Vec<SP>) -> u64;
        fn read_shared(s: &String, v: &Vec<u32>, c: &CxxString, cv: &CxxVector<u32>, sp: &SP, b: &Box<RObj>, p: &SharedPtr<Obj>) -> u64;
        unsafe fn pool(t: usize, seed: u64, n: u32, p: &SharedPtr<Obj>, w: &WeakPtr<Obj>) -> Vec<String>;
    }
    extern "Rust" {
        type RObj;
        fn rget(self: &RObj) -> u64; fn rset(self: &mut RObj, v: u64); fn mk_robj(v: u64) -> Box<RObj>; fn rlive() -> usize;
        fn fail_rs(msg: &str) -> Result<u64>; fn relay_rs(msg: &str, depth: u32) -> Result<String>;
        fn twice(s: &str) -> String; fn upto(n: u32) -> Vec<u32>; fn sp_cmp(a: &SP, b: &SP) -> bool;
        fn worker_obj(t: u32, seed: u64, n: u32, p: &SharedPtr<Obj>, w: &WeakPtr<Obj>) -> String;
        fn hold(p: SharedPtr<Obj>) -> u64;
    }
    impl WeakPtr<Obj> {}
    impl WeakPtr<SP> {}
    impl UniquePtr<SP> {}
}
