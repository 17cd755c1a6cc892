// bdrv OPS...      everything a build script does with cxx-build, in order:
//   prefix=P  dir=D  hprefix=X  hlink=L  dox=0|1     change CFG (one way)
//   setdirs=D1:D2 sethprefixes=a,b sethlinks=a,b     change CFG (by assignment)
//   var-...                                          the same through `let cfg = &mut CFG`
//   show                                             print CFG
//   file=PATH                                        queue a bridge
//   build                                            cxx_build::bridges(queued)
//   compile=NAME                                     the same, then compile
//   thread                                           run what follows in another thread
use cxx_build::CFG;
use std::env;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

fn run(ops: &[OsString], queue: &mut Vec<PathBuf>) {
    for (i, op) in ops.iter().enumerate() {
        let b = op.as_bytes();
        let (k, v) = match b.iter().position(|c| *c == b'=') {
            Some(p) => (&b[..p], &b[p + 1..]),
            None => (b, &b[b.len()..]),
        };
        let k = std::str::from_utf8(k).unwrap();
        let vs = || leak(std::str::from_utf8(v).unwrap());
        let vp = || -> &'static Path { Box::leak(PathBuf::from(OsStr::from_bytes(v).to_owned()).into_boxed_path()) };
        let list = || vs().split(',').filter(|x| !x.is_empty()).collect::<Vec<&'static str>>();
        match k {
            "prefix" => CFG.include_prefix = vs(),
            "dir" => CFG.exported_header_dirs.push(vp()),
            "hprefix" => CFG.exported_header_prefixes.push(vs()),
            "hlink" => CFG.exported_header_links.push(vs()),
            "dox" => CFG.doxygen = v == b"1",
            "setdirs" => CFG.exported_header_dirs = vs().split(':').filter(|x| !x.is_empty()).map(Path::new).collect(),
            "sethprefixes" => CFG.exported_header_prefixes = list(),
            "sethlinks" => CFG.exported_header_links = list(),
            "var-prefix" => {
                let mut cfg = CFG;
                cfg.include_prefix = vs();
                cfg.doxygen = cfg.doxygen;
            }
            "var-dirs" => {
                let mut cfg = CFG;
                cfg.exported_header_dirs.extend(vs().split(':').filter(|x| !x.is_empty()).map(Path::new));
                let n = cfg.exported_header_dirs.len();
                assert_eq!(n, cfg.exported_header_dirs.iter().count());
            }
            "clear" => {
                CFG.exported_header_dirs.clear();
                CFG.exported_header_prefixes.clear();
                CFG.exported_header_links.clear();
            }
            "show" => {
                println!("SHOW prefix={:?} dirs={:?} prefixes={:?} links={:?} dox={}", CFG.include_prefix, CFG.exported_header_dirs, CFG.exported_header_prefixes, CFG.exported_header_links, CFG.doxygen);
                println!("DEBUG {:?}", CFG);
            }
            "file" => queue.push(PathBuf::from(OsString::from_vec(v.to_vec()))),
            "build" | "compile" => {
                let files = std::mem::take(queue);
                let mut build = if files.len() == 1 { cxx_build::bridge(&files[0]) } else { cxx_build::bridges(&files) };
                for f in build.get_files() {
                    println!("SOURCE {:?}", f);
                }
                if k == "compile" {
                    build.std("c++14").compile(vs());
                }
            }
            "thread" => {
                let rest = ops[i + 1..].to_vec();
                let mut q = std::mem::take(queue);
                std::thread::spawn(move || run(&rest, &mut q)).join().unwrap();
                return;
            }
            "warm" => {
                // evaluate the configuration before anything is generated
                assert_eq!(CFG.doxygen, CFG.doxygen);
            }
            _ => panic!("unknown op {:?}", op),
        }
    }
}

fn main() {
    let ops: Vec<OsString> = env::args_os().skip(1).collect();
    run(&ops, &mut Vec::new());
}
