// Batch front end over the real C++ code generator (cxx-gen).
//
// stdin:  repeated  "GEN <optbytes> <srcbytes>\n" <opts> <src>
// stdout: repeated  "OK <hbytes> <cbytes>\n" <header> <impl>
//               or  "ERR <n>\n" <lines: l0 c0 l1 c1 message>
//               or  "LEXERR <n>\n" <msg>
//               or  "PANIC <n>\n" <msg>
// opts, one per line:
//   cfg <name>            name is set
//   cfgkv <name>=<value>  key/value is set
//   unk <name>            undetermined
//   cfgon                 use the map evaluator (else the default one)
//   ann <text>            cxx_impl_annotations
//   include q|b <path>    extra include
//   twice                 generate twice in fresh hashing contexts; answer is
//                         "NONDET" if they differ
use cxx_gen::{CfgEvaluator, CfgResult, IncludeKind, Opt};
use proc_macro2::TokenStream;
use std::collections::HashMap;
use std::io::{self, BufRead, Read, Write};
use std::panic;
use std::str::FromStr;
use std::sync::Mutex;

struct MapEval {
    names: HashMap<String, Vec<Option<String>>>,
    unk: Vec<String>,
}
impl CfgEvaluator for MapEval {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        if self.unk.iter().any(|u| u == name) {
            return CfgResult::Undetermined { msg: format!("unknown {}", name) };
        }
        let hit = self
            .names
            .get(name)
            .map_or(false, |v| v.iter().any(|x| x.as_deref() == value));
        if hit {
            CfgResult::True
        } else {
            CfgResult::False
        }
    }
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn options(text: &str) -> Opt {
    let mut opt = Opt::default();
    let mut map = MapEval { names: HashMap::new(), unk: Vec::new() };
    let mut on = false;
    for line in text.lines() {
        let (k, v) = line.split_once(' ').unwrap_or((line, ""));
        match k {
            "cfgon" => on = true,
            "cfg" => map.names.entry(v.to_owned()).or_default().push(None),
            "cfgkv" => {
                let (n, val) = v.split_once('=').unwrap();
                map.names.entry(n.to_owned()).or_default().push(Some(val.to_owned()));
            }
            "unk" => map.unk.push(v.to_owned()),
            "ann" => opt.cxx_impl_annotations = Some(v.to_owned()),
            "include" => {
                let (kind, path) = v.split_once(' ').unwrap();
                opt.include.push(cxx_gen::Include {
                    path: path.to_owned(),
                    kind: if kind == "b" { IncludeKind::Bracketed } else { IncludeKind::Quoted },
                });
            }
            "twice" | "" => {}
            _ => panic!("bad option {}", line),
        }
    }
    if on {
        opt.cfg_evaluator = Box::new(map);
    }
    opt
}

enum Out {
    Ok(Vec<u8>, Vec<u8>),
    Err(String),
    Lex(String),
    Panic(String),
}

fn run(opts: &str, src: &str) -> Out {
    let r = panic::catch_unwind(|| {
        let mut src = src;
        if src.starts_with("#!") && !src[2..].trim_start().starts_with('[') {
            src = &src[src.find('\n').unwrap_or(src.len())..];
        }
        let ts = match TokenStream::from_str(src) {
            Ok(ts) => ts,
            Err(e) => return Out::Lex(e.to_string()),
        };
        let opt = options(opts);
        match cxx_gen::generate_header_and_cc(ts, &opt) {
            Ok(g) => Out::Ok(g.header, g.implementation),
            Err(e) => {
                let mut s = String::new();
                let display = e.to_string();
                let debug = format!("{:?}", e);
                let _ = debug.len();
                let mut n = 0;
                for e in e {
                    n += 1;
                    match e.span() {
                        Some(sp) => {
                            let (a, b) = (sp.start(), sp.end());
                            s += &format!("{} {} {} {} ", a.line, a.column, b.line, b.column);
                        }
                        None => s += "- - - - ",
                    }
                    s += &e.to_string().replace('\n', "\\n");
                    s.push('\n');
                }
                if n == 0 {
                    s = format!("- - - - {}\n", display);
                }
                Out::Err(s)
            }
        }
    });
    match r {
        Ok(o) => o,
        Err(_) => Out::Panic(LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()),
    }
}

fn serve() {
    let stdin = io::stdin();
    let mut inp = stdin.lock();
    let mut out = io::BufWriter::new(io::stdout());
    let mut line = String::new();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 {
            break;
        }
        let f: Vec<&str> = line.split_whitespace().collect();
        assert_eq!(f[0], "GEN");
        let (no, ns): (usize, usize) = (f[1].parse().unwrap(), f[2].parse().unwrap());
        let mut o = vec![0; no];
        inp.read_exact(&mut o).unwrap();
        let mut s = vec![0; ns];
        inp.read_exact(&mut s).unwrap();
        let o = String::from_utf8(o).unwrap();
        let s = match String::from_utf8(s) {
            Ok(s) => s,
            Err(_) => {
                writeln!(out, "LEXERR 4\nutf8").unwrap();
                out.flush().unwrap();
                continue;
            }
        };
        let r = run(&o, &s);
        let nondet = if o.lines().any(|l| l == "twice") {
            // A fresh thread has fresh per-thread hashing keys.
            let (o2, s2) = (o.clone(), s.clone());
            let r2 = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || run(&o2, &s2))
                .unwrap()
                .join()
                .unwrap();
            match (&r, &r2) {
                (Out::Ok(a, b), Out::Ok(c, d)) => a != c || b != d,
                (Out::Err(a), Out::Err(b)) => a != b,
                (Out::Lex(a), Out::Lex(b)) => a != b,
                (Out::Panic(_), Out::Panic(_)) => false,
                _ => true,
            }
        } else {
            false
        };
        if nondet {
            writeln!(out, "NONDET 0").unwrap();
        } else {
            match r {
                Out::Ok(h, c) => {
                    writeln!(out, "OK {} {}", h.len(), c.len()).unwrap();
                    out.write_all(&h).unwrap();
                    out.write_all(&c).unwrap();
                }
                Out::Err(e) => write!(out, "ERR {}\n{}", e.len(), e).unwrap(),
                Out::Lex(e) => write!(out, "LEXERR {}\n{}", e.len(), e).unwrap(),
                Out::Panic(e) => write!(out, "PANIC {}\n{}", e.len(), e).unwrap(),
            }
        }
        out.flush().unwrap();
    }
}

fn main() {
    panic::set_hook(Box::new(|info| {
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = info.to_string();
    }));
    std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(serve)
        .unwrap()
        .join()
        .unwrap();
}
