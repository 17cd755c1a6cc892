use ffi0::*;
use std::fmt;
pub struct R { reg: u64 }
impl R { fn new() -> R { R { reg: unsafe { reg_new(b"R".as_ptr(), 1) } } } fn rid(&self) -> u64 { self.reg }
  fn e_self(&self, fail: bool, s: &str) -> Result<u8, String> { if fail { Err(s.to_owned()) } else { Ok(9) } }
  fn e_mut(&mut self, fail: bool, s: &str) -> Result<u64, String> { if fail { Err(format!("{}{}", s, self.reg)) } else { Ok(self.reg) } } }
impl Drop for R { fn drop(&mut self) { unsafe { reg_del(self.reg) } } }
fn mk_r() -> Box<R> { Box::new(R::new()) }
fn e_string(fail: bool, s: &str) -> Result<u32, String> { if fail { Err(s.to_owned()) } else { Ok(s.len() as u32) } }
fn e_boxed(fail: bool, s: &str) -> Result<String, Box<dyn std::error::Error>> { if fail { Err(s.into()) } else { Ok(s.to_owned()) } }
struct Pieces(String); impl fmt::Display for Pieces { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("<")?; for c in self.0.chars() { write!(f, "{}", c)? } write!(f, "|{}>", self.0) } }
fn e_pieces(fail: bool, s: &str) -> Result<Pair, Pieces> { if fail { Err(Pieces(s.to_owned())) } else { Ok(Pair { a: s.len() as u32, s: s.to_owned() }) } }
fn e_io(fail: bool, s: &str) -> std::io::Result<()> { if fail { Err(std::io::Error::new(std::io::ErrorKind::Other, s)) } else { Ok(()) } }
struct Counted(R, String); impl fmt::Display for Counted { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.1) } }
fn e_exc(fail: bool, s: &str) -> Result<Box<R>, Counted> { if fail { Err(Counted(R::new(), s.to_owned())) } else { Ok(Box::new(R::new())) } }
fn e_static(fail: bool, _s: &str) -> Result<f64, &'static str> { if fail { Err("a fixed text") } else { Ok(0.5) } }
fn e_fmt(fail: bool, s: &str) -> Result<Vec<u16>, std::borrow::Cow<'static, str>> { if fail { return Err(format!("{}: {}", s.len(), s).into()) } Ok(vec![1; s.len()]) }
fn e_ref<'a>(fail: bool, s: &'a str) -> Result<&'a str, String> { if fail { Err(s.to_owned()) } else { Ok(s) } }
fn e_arg(r: Box<R>, v: Vec<String>, fail: bool, s: &str) -> Result<usize, String> { let n = v.len(); if coin(2) { drop(v) } if fail { Err(s.to_owned()) } else { let _ = r; Ok(n) } }
fn pong(d: u32, m: &[u8]) -> Result<u64, Box<dyn std::error::Error + Send + Sync>> { let _r = R::new(); if d == 0 { return Err(String::from_utf8_lossy(m).into()) } let v = if coin(2) { ping(d - 1, m)? } else { ping(d - 1, m).map_err(|e| e.to_string())? }; Ok(v + 1) }
fn msg() -> Vec<u8> { let mut v = rand_text().into_bytes(); if coin(2) { const BAD: [&[u8]; 10] = [b"\x80", b"\xc0\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f\x98", b"\xe2\x82\xac", b"\0"];
  for _ in 0..1 + below(4) { let i = below(v.len() as u64 + 1) as usize; let b = BAD[below(10) as usize]; v.splice(i..i, b.iter().copied()); } } v }
fn want() -> String { String::from_utf8_lossy(last_expected().as_bytes()).into_owned() }
fn chk<T>(slot: &str, thrown: bool, r: Result<T, cxx::Exception>, ok: impl FnOnce(T)) -> Option<cxx::Exception> {
    match r {
        Ok(v) => { st_ok(slot, !thrown); ok(v); None }
        Err(e) => { st_ok(slot, thrown); let w = want(); st_eq(slot, &w, &e.what()); st_eq(slot, &w, &e.to_string()); st_eq(slot, &format!("Exception {{ what: {:?} }}", w), &format!("{:?}", e));
            { let d: &(dyn std::error::Error + Send + Sync) = &e; st_ok(slot, d.source().is_none()); } st_eq(slot, &w, &String::from_utf8(e.what().as_bytes().to_vec()).unwrap()); Some(e) }
    }
}
thread_local! { static KEPT: RefCell<Vec<(String, cxx::Exception)>> = RefCell::new(vec![]); }
#[no_mangle] extern "C" fn t_x() {
    let k = below(20) as u32; let t = k < 15; let m = msg(); let mut es = vec![];
    es.push(chk("x.u64", t, boom(k, &m), |v| st_eq("x.u64.ok", &0xfeedfacecafebeefu64, &v)));
    es.push(chk("x.unit", t, boom_unit(k, &m), |_| ()));
    es.push(chk("x.str", t, boom_str(k, &m), |v| st_eq("x.str.ok", &"about to go wrong, with some heap text", &v.as_str())));
    es.push(chk("x.pair", t, boom_pair(k, &m), |p| st_eq("x.pair.ok", &(7u32, "heap text of the pair, long"), &(p.a, p.s.as_str()))));
    es.push(chk("x.up", t, boom_up(k, &m), |p| st_ok("x.up.ok", p.oid() > 0)));
    let mut o = mk_opq(); let a = &*o as *const Opq;
    es.push(chk("x.ref", t, unsafe { boom_ref(&o, k, &m) }, |r| st_eq("x.ref.ok", &a, &(r as *const Opq))));
    es.push(chk("x.method", t, o.boom_m(k, &m), |v| st_eq("x.method.ok", &200u8, &v)));
    es.push(chk("x.pin", t, o.pin_mut().boom_pin(k, &m), |r| st_eq("x.pin.ok", &a, &(&*r as *const Opq))));
    es.push(chk("x.arg", t, boom_arg(o, "s".repeat(40), vec!["v".repeat(40); 2], Pair { a: 1, s: "p".repeat(30) }, k, &m), |n| st_eq("x.arg.ok", &(40 + 2 + 30 + 1), &n)));
    fn cb(x: u32) -> u32 { x.wrapping_mul(3) + 1 }
    es.push(chk("x.cb", t, boom_cb(cb, k, &m), |n| st_eq("x.cb.ok", &cb(cb(k)), &n)));
    let w = want();
    KEPT.with(|q| { let mut q = q.borrow_mut(); for e in es.into_iter().flatten() { if coin(3) { q.push((w.clone(), e)) } } for (w, e) in q.iter() { st_eq("x.kept", w, &e.what()) }
        if q.len() > 6 || coin(4) { let v = std::mem::take(&mut *q); std::thread::spawn(move || { for (w, e) in &v { assert_eq!(w, e.what()) } drop(v) }).join().unwrap() } });
    // by the question mark, as a boxed error
    let r: Result<(), Box<dyn std::error::Error + Send + Sync>> = (|| { boom_unit(k, &m)?; Ok(()) })(); st_eq("x.question", &(if t { Err(want()) } else { Ok(()) }), &r.map_err(|e| e.to_string()));
    KEPT.with(|q| q.borrow_mut().clear());
}
#[no_mangle] extern "C" fn t_chain() { let m = msg(); let d = below(7) as u32; let r = if coin(2) { ping(d, &m).map_err(|e| e.what().to_owned()) } else { pong(d, &m).map_err(|e| e.to_string()) };
    let l = String::from_utf8_lossy(&m).into_owned(); let cut = l.split('\0').next().unwrap().to_owned();
    match r { Ok(_) => st_ok("chain", false), Err(e) => st_ok("chain", e == cut || e == l) } }
#[no_mangle] extern "C" fn t_cust() { use ffi1::*;
    let k = below(11) as u32; let t = k < 8; let m = msg(); handled();
    let w = || String::from_utf8_lossy(expected().as_bytes()).into_owned();
    let r = cboom(k, &m).map_err(|e| e.to_string()); st_eq("x.cust.u64", &(if t { Err(w()) } else { Ok(77) }), &r);
    let r = cboom_s(k, &m).map_err(|e| e.to_string()); st_eq("x.cust.str", &(if t { Err(w()) } else { Ok("text to be freed, long enough".to_owned()) }), &r);
    let r = cboom_u(k, &m).map_err(|e| e.what().to_owned()); st_eq("x.cust.unit", &(if t { Err(w()) } else { Ok(()) }), &r);
    st_eq("x.cust.handled", &(if t { 3u32 } else { 0 }), &handled()); }
fn eau_0(fail: bool) -> Result<(), String> { if fail { Err("arity 0".to_owned()) } else { Ok(()) } }
fn ean_0(fail: bool) -> Result<u64, String> { if fail { Err("arity 0".to_owned()) } else { Ok(0) } }
fn eas_0(fail: bool) -> Result<String, String> { if fail { Err("arity 0".to_owned()) } else { Ok("arity 0".to_owned()) } }
fn eau_1(fail: bool, _a0: u32) -> Result<(), String> { if fail { Err("arity 1".to_owned()) } else { Ok(()) } }
fn ean_1(fail: bool, _a0: u32) -> Result<u64, String> { if fail { Err("arity 1".to_owned()) } else { Ok(1) } }
fn eas_1(fail: bool, _a0: u32) -> Result<String, String> { if fail { Err("arity 1".to_owned()) } else { Ok("arity 1".to_owned()) } }
fn eau_2(fail: bool, _a0: u32, _a1: u64) -> Result<(), String> { if fail { Err("arity 2".to_owned()) } else { Ok(()) } }
fn ean_2(fail: bool, _a0: u32, _a1: u64) -> Result<u64, String> { if fail { Err("arity 2".to_owned()) } else { Ok(2) } }
fn eas_2(fail: bool, _a0: u32, _a1: u64) -> Result<String, String> { if fail { Err("arity 2".to_owned()) } else { Ok("arity 2".to_owned()) } }
fn eau_3(fail: bool, _a0: u32, _a1: u64, _a2: u8) -> Result<(), String> { if fail { Err("arity 3".to_owned()) } else { Ok(()) } }
fn ean_3(fail: bool, _a0: u32, _a1: u64, _a2: u8) -> Result<u64, String> { if fail { Err("arity 3".to_owned()) } else { Ok(3) } }
fn eas_3(fail: bool, _a0: u32, _a1: u64, _a2: u8) -> Result<String, String> { if fail { Err("arity 3".to_owned()) } else { Ok("arity 3".to_owned()) } }
fn eau_4(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16) -> Result<(), String> { if fail { Err("arity 4".to_owned()) } else { Ok(()) } }
fn ean_4(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16) -> Result<u64, String> { if fail { Err("arity 4".to_owned()) } else { Ok(4) } }
fn eas_4(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16) -> Result<String, String> { if fail { Err("arity 4".to_owned()) } else { Ok("arity 4".to_owned()) } }
fn eau_5(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str) -> Result<(), String> { if fail { Err("arity 5".to_owned()) } else { Ok(()) } }
fn ean_5(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str) -> Result<u64, String> { if fail { Err("arity 5".to_owned()) } else { Ok(5) } }
fn eas_5(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str) -> Result<String, String> { if fail { Err("arity 5".to_owned()) } else { Ok("arity 5".to_owned()) } }
fn eau_6(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool) -> Result<(), String> { if fail { Err("arity 6".to_owned()) } else { Ok(()) } }
fn ean_6(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool) -> Result<u64, String> { if fail { Err("arity 6".to_owned()) } else { Ok(6) } }
fn eas_6(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool) -> Result<String, String> { if fail { Err("arity 6".to_owned()) } else { Ok("arity 6".to_owned()) } }
fn eau_7(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool, _a6: f64) -> Result<(), String> { if fail { Err("arity 7".to_owned()) } else { Ok(()) } }
fn ean_7(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool, _a6: f64) -> Result<u64, String> { if fail { Err("arity 7".to_owned()) } else { Ok(7) } }
fn eas_7(fail: bool, _a0: u32, _a1: u64, _a2: u8, _a3: i16, _a4: &str, _a5: bool, _a6: f64) -> Result<String, String> { if fail { Err("arity 7".to_owned()) } else { Ok("arity 7".to_owned()) } }
struct Alt(String); impl fmt::Display for Alt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{} {}", if f.alternate() || f.width().is_some() || f.precision().is_some() || f.sign_plus() || f.fill() != ' ' { "altered" } else { "plain" }, self.0) } } impl fmt::Debug for Alt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("debug") } }
fn e_alt(fail: bool, s: &str) -> Result<u8, Alt> { if fail { Err(Alt(s.to_owned())) } else { Ok(3) } }
#[no_mangle] extern "C" fn t_xa() { let o = mk_opq(); let k = below(20) as u32; let t = k < 15;
  chk("x.arity.u", t, btu_0(k), |_| ()); chk("x.arity.n", t, btn_0(k), |v| st_eq("x.arity.n.ok", &5u64, &v)); chk("x.arity.s", t, bts_0(k), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_0(k), |_| ()); chk("x.arity.m.n", t, o.bmn_0(k), |v| st_eq("x.arity.m.n.ok", &5u64, &v)); chk("x.arity.m.s", t, o.bms_0(k), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_1(k, 1), |_| ()); chk("x.arity.n", t, btn_1(k, 1), |v| st_eq("x.arity.n.ok", &6u64, &v)); chk("x.arity.s", t, bts_1(k, 1), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_1(k, 1), |_| ()); chk("x.arity.m.n", t, o.bmn_1(k, 1), |v| st_eq("x.arity.m.n.ok", &6u64, &v)); chk("x.arity.m.s", t, o.bms_1(k, 1), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_2(k, 1, 2), |_| ()); chk("x.arity.n", t, btn_2(k, 1, 2), |v| st_eq("x.arity.n.ok", &7u64, &v)); chk("x.arity.s", t, bts_2(k, 1, 2), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_2(k, 1, 2), |_| ()); chk("x.arity.m.n", t, o.bmn_2(k, 1, 2), |v| st_eq("x.arity.m.n.ok", &7u64, &v)); chk("x.arity.m.s", t, o.bms_2(k, 1, 2), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_3(k, 1, 2, 3), |_| ()); chk("x.arity.n", t, btn_3(k, 1, 2, 3), |v| st_eq("x.arity.n.ok", &8u64, &v)); chk("x.arity.s", t, bts_3(k, 1, 2, 3), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_3(k, 1, 2, 3), |_| ()); chk("x.arity.m.n", t, o.bmn_3(k, 1, 2, 3), |v| st_eq("x.arity.m.n.ok", &8u64, &v)); chk("x.arity.m.s", t, o.bms_3(k, 1, 2, 3), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_4(k, 1, 2, 3, 4), |_| ()); chk("x.arity.n", t, btn_4(k, 1, 2, 3, 4), |v| st_eq("x.arity.n.ok", &9u64, &v)); chk("x.arity.s", t, bts_4(k, 1, 2, 3, 4), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_4(k, 1, 2, 3, 4), |_| ()); chk("x.arity.m.n", t, o.bmn_4(k, 1, 2, 3, 4), |v| st_eq("x.arity.m.n.ok", &9u64, &v)); chk("x.arity.m.s", t, o.bms_4(k, 1, 2, 3, 4), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_5(k, 1, 2, 3, 4, "five"), |_| ()); chk("x.arity.n", t, btn_5(k, 1, 2, 3, 4, "five"), |v| st_eq("x.arity.n.ok", &10u64, &v)); chk("x.arity.s", t, bts_5(k, 1, 2, 3, 4, "five"), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_5(k, 1, 2, 3, 4, "five"), |_| ()); chk("x.arity.m.n", t, o.bmn_5(k, 1, 2, 3, 4, "five"), |v| st_eq("x.arity.m.n.ok", &10u64, &v)); chk("x.arity.m.s", t, o.bms_5(k, 1, 2, 3, 4, "five"), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_6(k, 1, 2, 3, 4, "five", true), |_| ()); chk("x.arity.n", t, btn_6(k, 1, 2, 3, 4, "five", true), |v| st_eq("x.arity.n.ok", &11u64, &v)); chk("x.arity.s", t, bts_6(k, 1, 2, 3, 4, "five", true), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_6(k, 1, 2, 3, 4, "five", true), |_| ()); chk("x.arity.m.n", t, o.bmn_6(k, 1, 2, 3, 4, "five", true), |v| st_eq("x.arity.m.n.ok", &11u64, &v)); chk("x.arity.m.s", t, o.bms_6(k, 1, 2, 3, 4, "five", true), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_7(k, 1, 2, 3, 4, "five", true, 6.0), |_| ()); chk("x.arity.n", t, btn_7(k, 1, 2, 3, 4, "five", true, 6.0), |v| st_eq("x.arity.n.ok", &12u64, &v)); chk("x.arity.s", t, bts_7(k, 1, 2, 3, 4, "five", true, 6.0), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_7(k, 1, 2, 3, 4, "five", true, 6.0), |_| ()); chk("x.arity.m.n", t, o.bmn_7(k, 1, 2, 3, 4, "five", true, 6.0), |v| st_eq("x.arity.m.n.ok", &12u64, &v)); chk("x.arity.m.s", t, o.bms_7(k, 1, 2, 3, 4, "five", true, 6.0), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |_| ()); chk("x.arity.n", t, btn_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |v| st_eq("x.arity.n.ok", &13u64, &v)); chk("x.arity.s", t, bts_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |_| ()); chk("x.arity.m.n", t, o.bmn_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |v| st_eq("x.arity.m.n.ok", &13u64, &v)); chk("x.arity.m.s", t, o.bms_8(k, 1, 2, 3, 4, "five", true, 6.0, b"seven"), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.u", t, btu_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |_| ()); chk("x.arity.n", t, btn_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |v| st_eq("x.arity.n.ok", &14u64, &v)); chk("x.arity.s", t, bts_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |v| st_eq("x.arity.s.ok", &"a string that stays in the heap", &v.as_str()));
  chk("x.arity.m.u", t, o.bmu_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |_| ()); chk("x.arity.m.n", t, o.bmn_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |v| st_eq("x.arity.m.n.ok", &14u64, &v)); chk("x.arity.m.s", t, o.bms_9(k, 1, 2, 3, 4, "five", true, 6.0, b"seven", 8), |v| st_eq("x.arity.m.s.ok", &"a string that stays in the heap", &v.as_str()));
}
