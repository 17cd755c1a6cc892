use cxx::let_cxx_string;
use ffi0::*;
use std::borrow::Cow;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::collections::hash_map::DefaultHasher;
fn h<T: Hash + ?Sized>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn bytes() -> Vec<u8> {
    let mut v = rand_text().into_bytes();
    match below(4) { 0 => { for _ in 0..below(4) { let i = below(v.len() as u64 + 1) as usize; v.insert(i, rnd() as u8) } }
        1 => { const BAD: [&[u8]; 9] = [b"\x80", b"\xc0\x80", b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f\x98", b"\0"];
            for _ in 0..1 + below(3) { let i = below(v.len() as u64 + 1) as usize; let b = BAD[below(9) as usize]; v.splice(i..i, b.iter().copied()); } } _ => {} }
    v
}
// Expected Debug text, from std's own chunking and escaping.
fn dbg(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in b.utf8_chunks() {
        let d = format!("{:?}", c.valid()); o.push_str(&d[1..d.len() - 1]);
        for x in c.invalid() { write!(o, "\\x{:02x}", x).unwrap() }
    }
    o.push('"'); o
}
fn state(m: &[u8], s: &CxxString) {
    st_eq("len", &m.len(), &s.len()); st_eq("is_empty", &m.is_empty(), &s.is_empty()); st_eq("as_bytes", &m, &s.as_bytes());
    st_ok("cxx_view", cs_same(s, m)); st_eq("size", &m.len(), &cs_size(s));
    st_eq("as_ptr", &cs_data(s), &s.as_ptr());
    st_eq("c_str", &m.split(|c| *c == 0).next().unwrap(), &s.as_c_str().to_bytes());
    st_eq("c_str.ptr", &(s.as_ptr() as usize), &(s.as_c_str().as_ptr() as usize));
    st_eq("to_str", &std::str::from_utf8(m), &s.to_str());
    let l = s.to_string_lossy(); st_eq("lossy", &String::from_utf8_lossy(m), &l);
    st_eq("lossy.borrowed", &std::str::from_utf8(m).is_ok(), &matches!(l, Cow::Borrowed(_)));
}
fn own(m: &[u8]) -> UniquePtr<CxxString> { cs_make(m) }
#[no_mangle] extern "C" fn t_seq() {
    const K: usize = 3;
    let mut m: Vec<Vec<u8>> = (0..K).map(|_| bytes()).collect();
    let_cxx_string!(a = &m[0]); let_cxx_string!(b = m[1].clone());
    let mut c = own(&m[2]);
    for _ in 0..16 {
        let i = below(3) as usize;
        let t = bytes();
        { let mut s: Pin<&mut CxxString> = match i { 0 => a.as_mut(), 1 => b.as_mut(), _ => c.pin_mut() };
        match below(11) {
            0 => { let x = rand_text(); s.as_mut().push_str(&x); m[i].extend_from_slice(x.as_bytes()) }
            1 => { s.as_mut().push_bytes(&t); m[i].extend_from_slice(&t) }
            2 => { s.as_mut().clear(); m[i].clear() }
            3 => { let n = below(100) as usize; s.as_mut().reserve(n); st_ok("reserve", cs_capacity(&s) >= m[i].len() + n);
                   // no reallocation while within the reserved room
                   let p = s.as_ptr(); s.as_mut().push_bytes(&vec![b'x'; n]); st_eq("reserve.stable", &p, &s.as_ptr()); m[i].extend(std::iter::repeat(b'x').take(n)) }
            4 => { let x = rand_text(); let r = write!(s, "{}-{:>4}", x, 7); st_ok("fmt_write", r.is_ok()); m[i].extend_from_slice(format!("{}-{:>4}", x, 7).as_bytes()) }
            // <std>
            5 => { use std::io::Write; let r = s.write(&t); st_eq("io_write", &Some(t.len()), &r.ok()); m[i].extend_from_slice(&t) }
            6 => { use std::io::Write; let r = s.write_all(&t); st_ok("io_write_all", r.is_ok() && s.flush().is_ok()); m[i].extend_from_slice(&t) }
            // </std>
            7 => { cs_append(s.as_mut(), &t); m[i].extend_from_slice(&t) }
            8 => { cs_assign(s.as_mut(), &t); m[i] = t }
            9 => { s.as_mut().push_bytes(&[]); s.as_mut().push_str("") }
            _ => { let x = String::from_utf8_lossy(&m[i]).into_owned(); s.as_mut().push_str(&x); m[i].extend_from_slice(x.as_bytes()) }
        }
        if m[i].len() > 4000 { s.as_mut().clear(); m[i].clear() }
        }
        state(&m[0], &a); state(&m[1], &b); state(&m[2], &c);
    }
    // overflow must panic and leave the string as it was
    if !m[0].is_empty() { let r = catch(|| a.as_mut().reserve(usize::MAX - below(m[0].len() as u64) as usize)); st_ok("reserve.overflow", r.is_err()); }
    state(&m[0], &a);
}
#[no_mangle] extern "C" fn t_fmt() {
    let b = bytes(); let_cxx_string!(s = &b);
    st_eq("display", &String::from_utf8_lossy(&b).into_owned(), &format!("{}", s));
    st_eq("display.ref", &String::from_utf8_lossy(&b).into_owned(), &s.to_string());
    st_eq("debug", &dbg(&b), &format!("{:?}", s));
    if let Ok(t) = std::str::from_utf8(&b) { st_eq("debug.valid", &format!("{:?}", t), &format!("{:?}", &*s)); st_ok("eq.str", *s == *t && *t == *s); st_ok("ne.str", *s != *(t.to_owned() + "x") && *(t.to_owned() + "x") != *s);
        if !t.is_empty() { let mut cut = t.to_owned(); cut.pop(); st_ok("ne.prefix", *s != *cut.as_str() && *cut.as_str() != *s) } }
    else { st_ok("ne.lossy", *s != *String::from_utf8_lossy(&b).as_ref()) }
    // a writer that fails part-way: the error comes back
    struct Lim(usize); impl std::fmt::Write for Lim { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { Err(std::fmt::Error) } else { self.0 -= s.len(); Ok(()) } } }
    let want = String::from_utf8_lossy(&b).len(); let lim = below(want as u64 + 3) as usize;
    st_eq("display.limited", &(lim >= want), &write!(Lim(lim), "{}", s).is_ok());
    let want = dbg(&b).len(); let lim = below(want as u64 + 3) as usize;
    st_eq("debug.limited", &(lim >= want), &write!(Lim(lim), "{:?}", s).is_ok());
}
#[no_mangle] extern "C" fn t_ord() {
    let x = bytes(); let mut y = match below(4) { 0 => x.clone(), 1 => { let mut y = x.clone(); y.push(rnd() as u8); y }, 2 => { let mut y = x.clone(); if !y.is_empty() { let i = below(y.len() as u64) as usize; y[i] ^= 1 << below(8) } y }, _ => bytes() };
    if coin(5) { y.truncate(x.len() / 2) }
    let_cxx_string!(a = &x); let_cxx_string!(b = &y); let (a, b): (&CxxString, &CxxString) = (&a, &b);
    let o = x.cmp(&y);
    st_eq("cmp", &o, &a.cmp(b)); st_eq("partial_cmp", &Some(o), &a.partial_cmp(b)); st_eq("cmp.rev", &o.reverse(), &b.cmp(a)); st_eq("cmp.cxx", &(o as i32), &cs_cmp(a, b));
    st_eq("eq", &(x == y), &(a == b)); st_eq("ne", &(x != y), &(a != b)); st_eq("lt", &(x < y), &(a < b)); st_eq("ge", &(x >= y), &(a >= b)); st_eq("le", &(x <= y), &(a <= b)); st_eq("gt", &(x > y), &(a > b));
    if x == y { st_eq("hash.equal", &h(a), &h(b)) } else { st_ok("hash.differs", h(a) != h(b)) }
    st_eq("hash.bytes", &h(&x[..]), &h(a));
    let u = own(&x); let v = own(&y); st_eq("uptr.cmp", &o, &u.cmp(&v)); st_eq("uptr.eq", &(x == y), &(u == v)); st_eq("uptr.hash", &(x == y), &(h(&u) == h(&v)));
}
// value expressions of every documented kind; nested and shadowed strings
#[no_mangle] extern "C" fn t_let() {
    let v = bytes(); let t = rand_text();
    let_cxx_string!(a = &v[..]); let_cxx_string!(b = t.as_str()); let_cxx_string!(c = t.clone()); let_cxx_string!(d = b"a\0b"); let_cxx_string!(e = "",); let_cxx_string!(f = format!("{}{}", t, t)); let_cxx_string!(g = [1u8, 2, 3]);
    let_cxx_string!(i = a.as_bytes()); let_cxx_string!(j = Box::<[u8]>::from(&v[..]).into_vec());
    state(&v, &a); state(t.as_bytes(), &b); state(t.as_bytes(), &c); state(b"a\0b", &d); state(b"", &e); state((t.clone() + &t).as_bytes(), &f); state(&[1, 2, 3], &g); state(&v, &i); state(&v, &j);
    { let_cxx_string!(a = "shadow"); state(b"shadow", &a); { let_cxx_string!(a = { let_cxx_string!(inner = "in"); inner.to_string() + "x" }); state(b"inx", &a); } state(b"shadow", &a); }
    state(&v, &a);
    let mut n = 0; for k in 0..3 { let_cxx_string!(s = "y".repeat(k * 20)); n += s.len(); if k == 1 { continue } state("y".repeat(k * 20).as_bytes(), &s); } st_eq("loop", &60usize, &n);
    // dropped when unwinding past it
    let r = catch(|| { let_cxx_string!(s = "z".repeat(100)); if s.len() == 100 { panic!("stop") } }); st_eq("unwind", &Err::<(), _>("stop".to_string()), &r);
}
// the value expression does not complete
struct Bomb; impl AsRef<[u8]> for Bomb { fn as_ref(&self) -> &[u8] { panic!("as_ref") } }
#[inline(never)] fn early(n: usize) -> Option<usize> { let_cxx_string!(s = (if n == 0 { None } else { Some("q".repeat(n)) })?); Some(s.len()) }
#[inline(never)] fn early2(n: usize) -> Result<usize, u8> { let_cxx_string!(s = { if n % 2 == 0 { return Err(3) } "q".repeat(n) }); Ok(s.len()) }
#[inline(never)] fn bomb() -> usize { let_cxx_string!(s = Bomb); s.len() }
#[inline(never)] fn bomb2(n: usize) -> usize { let_cxx_string!(s = { if n > 1 { panic!("value") } "" }); s.len() }
#[no_mangle] extern "C" fn t_stack() {
    dirty(); st_eq("early.none", &None::<usize>, &early(0)); dirty(); st_eq("early.some", &Some(33usize), &early(33));
    dirty(); st_eq("early2.err", &Err::<usize, u8>(3), &early2(4)); dirty(); st_eq("early2.ok", &Ok::<usize, u8>(41), &early2(41));
    dirty(); st_eq("as_ref.panics", &Err::<usize, _>("as_ref".to_string()), &catch(bomb));
    dirty(); st_eq("value.panics", &Err::<usize, _>("value".to_string()), &catch(|| bomb2(2)));
    let n = below(3) as usize; for _ in 0..n { dirty(); let mut k = 0; loop { dirty(); let_cxx_string!(s = { k += 1; if k > 3 { break } "w".repeat(k * 15) }); st_eq("loop.break", &(k * 15), &s.len()); } }
}
#[no_mangle] extern "C" fn t_edge() {
    // every short-string boundary, and content with every byte value
    for n in [0usize, 1, 14, 15, 16, 17, 22, 23, 24, 31, 32, 63, 64] { let v: Vec<u8> = (0..n).map(|_| rnd() as u8).collect(); let_cxx_string!(s = &v); state(&v, &s); let mut t = v.clone(); s.as_mut().push_bytes(&[0]); t.push(0); state(&t, &s); }
    let all: Vec<u8> = (0..=255).collect(); let_cxx_string!(s = &all); state(&all, &s); st_eq("debug.all", &dbg(&all), &format!("{:?}", s));
    let mut c = cs_make(b"abc"); let r = c.as_mut().unwrap(); r.push_str("def"); st_eq("uptr", &&b"abcdef"[..], &c.as_bytes());
}
