use ffi0::*;
pub struct R(u32);
impl R { fn get(&self) -> u32 { self.0 } }
impl Drop for R { fn drop(&mut self) { if self.0 == 13 { panic!("marker drop") } } }
fn nx_vec(n: usize) -> Vec<u16> { (0..n as u16).collect() }
fn nx_strings(n: usize) -> Vec<String> { (0..n).map(|i| format!("element number {} of the vector", i)).collect() }
fn nx_box() -> Box<R> { Box::new(R(unsafe { MODE })) }
static mut MODE: u32 = 7;
#[no_mangle] unsafe extern "C" fn nx_mode(m: u32) { MODE = m }
fn nx_panic(a: Box<R>, s: &str, v: Vec<String>) -> String { if s == "now" { panic!("marker body") } format!("{}/{}/{}", a.0, s, v.len()) }
fn nx_sum(v: &[u32]) -> u32 { v.iter().sum() }
#[no_mangle] extern "C" fn nx_callback(bad: bool) -> u32 { if bad { nx_call(|_| panic!("marker callback"), 1) } else { nx_call(|x| x + 1, 4) } }
#[no_mangle] extern "C" fn nx_round() -> bool {
    cxx::let_cxx_string!(s = "a C++ string that does not fit in place");
    let t = nx_str(&s); let u = nx_st(St { a: 3, s: "x".repeat(40) });
    t.as_ref().unwrap().as_bytes() == s.as_bytes() && u.a == 4 && u.s == "x".repeat(40) + "!"
}
