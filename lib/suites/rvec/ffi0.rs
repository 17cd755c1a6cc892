#[cxx::bridge]
pub mod ffi0 {
    #[derive(Clone)]
    struct SP { a: u32, s: String, v: Vec<u8>, b: i8 }
    #[derive(Clone)]
    struct Tree { n: u32, name: String, kids: Vec<Tree> }
    struct SU { u: UniquePtr<CxxString>, n: u8 }
    enum En { A = 3, B = 200, C }
    unsafe extern "C++" {
        include!("unit.h");
        type Reloc = crate::Reloc;
    }
    impl Vec<Reloc> {}
    extern "Rust" {
        type R;
        type Pod;
        type Z;
        fn mk_tree(n: u32) -> Tree;
        fn tree_str(t: &Tree) -> String;
        fn rs_zv(n: usize) -> Vec<Z>;
        fn z_addr(z: &Z) -> usize;
        fn id(self: &R) -> u64;
        fn val(self: &Pod) -> u32;
        fn mk_r(n: usize, extra: usize) -> Vec<R>;
        fn mk_pod(n: usize, extra: usize) -> Vec<Pod>;
        fn echo_r(v: Vec<R>) -> Vec<R>;
        fn push_r(v: &mut Vec<R>);
        fn echo_pod(v: Vec<Pod>) -> Vec<Pod>;
        fn push_pod(v: &mut Vec<Pod>);

        fn echo_u8(v: Vec<u8>) -> Vec<u8>;
        fn echo_i64(v: Vec<i64>) -> Vec<i64>;
        fn echo_u16(v: Vec<u16>) -> Vec<u16>;
        fn echo_bool(v: Vec<bool>) -> Vec<bool>;
        fn echo_f64(v: Vec<f64>) -> Vec<f64>;
        fn echo_us(v: Vec<usize>) -> Vec<usize>;
        fn echo_str(v: Vec<String>) -> Vec<String>;
        fn echo_sp(v: Vec<SP>) -> Vec<SP>;
        fn echo_su(v: Vec<SU>) -> Vec<SU>;
        fn echo_en(v: Vec<En>) -> Vec<En>;
        fn echo_rl(v: Vec<Reloc>) -> Vec<Reloc>;
        fn grow_u8(v: &mut Vec<u8>, n: usize);
        fn grow_i64(v: &mut Vec<i64>, n: usize);
        fn grow_u16(v: &mut Vec<u16>, n: usize);
        fn grow_bool(v: &mut Vec<bool>, n: usize);
        fn grow_f64(v: &mut Vec<f64>, n: usize);
        fn grow_us(v: &mut Vec<usize>, n: usize);
        fn grow_str(v: &mut Vec<String>, n: usize);
        fn grow_sp(v: &mut Vec<SP>, n: usize);
        fn grow_su(v: &mut Vec<SU>, n: usize);
        fn grow_en(v: &mut Vec<En>, n: usize);
        fn grow_rl(v: &mut Vec<Reloc>, n: usize);
    }
}
