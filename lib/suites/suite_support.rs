pub fn st_eq<A: std::fmt::Debug + ?Sized, B: std::fmt::Debug + ?Sized>(slot: &str, want: &A, got: &B) {
    let (w, g) = (format!("{:?}", want), format!("{:?}", got));
    unsafe { ev_send(slot.as_ptr(), slot.len(), w.as_ptr(), w.len()); ev_recv(slot.as_ptr(), slot.len(), g.as_ptr(), g.len()); }
}
pub fn st_ok(slot: &str, b: bool) { st_eq(slot, &true, &b) }
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
    })
}
#[no_mangle] unsafe extern "C" fn rs_put(d: *mut c_void, p: *const u8, n: usize) { (*(d as *mut D)).extend_from_slice(if n == 0 { &[] } else { std::slice::from_raw_parts(p, n) }) }
