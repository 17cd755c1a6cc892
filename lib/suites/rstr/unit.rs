fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } } }
fn sl16<'a>(p: *const u16, n: usize) -> &'a [u16] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } } }
#[no_mangle] unsafe extern "C" fn o_lossy16(p: *const u16, n: usize, d: *mut c_void) { let s = String::from_utf16_lossy(sl16(p, n)); d_put(d, s.as_ptr(), s.len()) }
#[no_mangle] unsafe extern "C" fn o_cmp(a: *const u8, an: usize, b: *const u8, bn: usize) -> i32 {
    let a = std::str::from_utf8(sl(a, an)).unwrap(); let b = std::str::from_utf8(sl(b, bn)).unwrap();
    match a.cmp(b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 }
}
// reads the String object itself, not through the bridge
#[no_mangle] unsafe extern "C" fn o_read(s: *const String, d: *mut c_void) { let s = &*s; assert!(std::str::from_utf8(s.as_bytes()).is_ok() && s.capacity() >= s.len()); d_put(d, s.as_ptr(), s.len()) }
#[no_mangle] unsafe extern "C" fn o_cap(s: *const String) -> usize { (*s).capacity() }
#[no_mangle] unsafe extern "C" fn o_read_str(s: *const &str, d: *mut c_void) { let s = *s; assert!(std::str::from_utf8(s.as_bytes()).is_ok()); d_put(d, s.as_ptr(), s.len()) }
fn rs_take_string(s: String) -> usize { s.len() }
fn rs_same(s: &str, b: &[u8]) -> bool { s.as_bytes() == b }
fn rs_echo(s: String) -> String { s }
fn rs_concat(a: &str, b: &String) -> String { let mut r = a.to_owned(); r.push_str(b); r }
fn rs_push(s: &mut String, t: &str) { s.push_str(t) }
