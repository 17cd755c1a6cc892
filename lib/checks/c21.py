"""C21: the generator terminates with code or a located diagnostic for any text, deterministically, whatever the formatting."""
from common import *
import corpus, hashlib, re, threading

NPROC = JOBS


class Pool:
    """vgen processes with a watchdog."""
    def __init__(s): s.tl = threading.local(); s.all = []
    def gen(s, src, opts=""):
        if not hasattr(s.tl, "g"): s.tl.g = VGen(); s.all.append(s.tl.g)
        g = s.tl.g
        if g.p is None: g._start()
        p = g.p
        t = threading.Timer(60, p.kill); t.start()
        try: r = g.gen(src, opts)
        except InfraError: p.kill(); r = ("DIED", p.wait()); g.p = None
        finally: t.cancel()
        return r
    def close(s):
        for g in s.all:
            try: g.close()
            except Exception: pass


def short(s, n=3000): return s if len(s) < n else s[:n] + "..."


def spans_ok(src, text):
    """Every diagnostic lies in the input. -> list of problems, list of (line, msg)"""
    if src.startswith("\ufeff"): src = src[1:]
    lines = src.split("\n"); bad, out = [], []
    for l in text.splitlines():
        f = l.split(" ", 4)
        if f[0] == "-":
            if "no #[cxx::bridge] module found" not in l: bad.append("no location: " + l)
            continue
        a, b, c, d = map(int, f[:4]); msg = f[4] if len(f) > 4 else ""
        if not msg: bad.append("no message: " + l)
        if not (1 <= a <= len(lines) and a <= c <= len(lines) and b <= len(lines[a - 1]) and d <= len(lines[c - 1]) and (a, b) <= (c, d)): bad.append("outside of the input: " + l)
        out.append((a, b, c, d, msg))
    if not out and not any("no #[cxx" in l for l in text.splitlines()): bad.append("no diagnostic at all")
    return bad, out


def main(ck):
    ck.rule = ("an evaluation is one input given to the real generator whose outcome (code, located diagnostics, determinism across threads and processes, independence of formatting or of unrelated items, or command line display) was judged; "
               "distinct counts distinct outcomes: digests of generated code and diagnostic messages with identifiers and numbers abstracted")
    vgen_bin(); cli_bin()
    pool = Pool()
    base = corpus.seeds(random.Random("%d/%s/base" % (SEED, TIER)), 40 if THOROUGH else 6)
    toks = [(n, t, corpus.tokens(t)) for n, t in base]
    ck.notes["corpus"] = len(toks)
    ck.msgs = {}
    inputs = []
    for n, t, tk in toks:
        assert "".join(x for _, x in tk) == t
        inputs.append((n, t, "corpus"))
    N = 60000 if THOROUGH else 4500
    weights = [1 if "ui/" in n else 4 for n, _, _ in toks]
    def fresh(i):
        r = random.Random("%d/%s/mut/%d" % (SEED, TIER, i))
        n, t, tk = r.choices(toks, weights)[0]
        k = r.random()
        if k < .78:
            o = r.choice(toks)[2]
            # large files mostly as a piece, so that an edit is not lost among other diagnostics
            if len(tk) > 900 and r.random() < .7:
                its = pieces(r, tk)
                if its: tk = its
            return n, corpus.mutate(r, tk, o), "token"
        if k < .95: return n, corpus.damage(r, t if len(t) < 4000 else t[:4000]), "byte"
        return n, soup(r), "soup"
    inputs += [fresh(i) for i in range(N)]
    res = pmap(lambda x: judge(ck, pool, *x), inputs, NPROC)
    kinds = {}
    for (n, t, how), r in zip(inputs, res): kinds[(how, r[0])] = kinds.get((how, r[0]), 0) + 1
    for how in ("token", "byte", "soup"):
        for (n, t, h), r in list(zip(inputs, res))[::-1]:
            if h == how and r[0] == "ERR" and len(t) < 1500: ck.sample("%s: %s" % (how, t)); break
    ck.notes["outcomes"] = {"%s/%s" % k: v for k, v in sorted(kinds.items())}
    ck.notes["distinct_messages"] = len(ck.msgs)
    # another process, in another order: same answers
    pool2 = Pool()
    sub = [i for i in range(len(inputs)) if res[i][0] in ("OK", "ERR")]
    random.Random(SEED).shuffle(sub)
    def again(i):
        r = pool2.gen(inputs[i][1]); ck.count(1)
        if r != res[i]: ck.violation("nondeterministic/process", "two runs of the generator disagree on the same input\n%s\n%s" % (short(str(res[i])), short(str(r))), {"input.rs": inputs[i][1]})
    pmap(again, sub[:20000 if THOROUGH else 1500], NPROC)
    variants(ck, pool, toks, inputs, res)
    cli_display(ck, inputs, res)
    first_lines(ck)
    located(ck, pool)
    sizes(ck, pool)
    pool.close(); pool2.close()


def pieces(r, tk):
    """A few items of the file's bridge module in a module of their own."""
    g = [(a, b) for a, b in corpus.groups(tk) if tk[a][1] == "{" and b - a > 40]
    if not g: return None
    a, b = r.choice(g)
    depth, cuts = 0, [a + 1]
    for j in range(a + 1, b):
        t = tk[j][1]
        if t in "([{" and tk[j][0] == "op": depth += 1
        elif t in ")]}" and tk[j][0] == "op":
            depth -= 1
            if depth == 0 and t == "}": cuts.append(j + 1)
        elif t == ";" and depth == 0: cuts.append(j + 1)
    items = [tk[x:y] for x, y in zip(cuts, cuts[1:])]
    items = [x for x in items if x]
    if not items: return None
    k = r.sample(items, min(len(items), r.randrange(1, 7)))
    types = [x for x in items if any(t == "type" for _, t in x[:6]) or any(t in ("struct", "enum") for _, t in x)]
    body = [t for x in (k + r.sample(types, min(len(types), 4))) for t in x]
    is_block = tk[a - 1][1] == '"C++"' or (a > 1 and tk[a - 2][1] in ('"C++"', '"Rust"'))
    if is_block or any(t == "fn" for _, t in body) and not any(t == "extern" for _, t in body):
        body = [("x", 'unsafe extern "%s" {' % r.choice(["C++", "Rust"]))] + body + [("op", "}")]
    return [("x", "#[cxx::bridge]\n"), ("id", "mod"), ("ws", " "), ("id", "ffi"), ("op", "{")] + body + [("op", "}"), ("ws", "\n")]


def soup(r):
    return "#[cxx::bridge] mod ffi { " + " ".join(r.choice(corpus.ATOMS + corpus.PUNCT) for _ in range(r.randrange(1, 40))) + (" }" if r.random() < .8 else "")


def judge(ck, pool, name, text, how):
    if "\ud800" <= max(text, default="a") <= "\udfff": return ("SKIP",)
    r = pool.gen(text, "twice")
    ck.count(1)
    if r[0] == "OK": ck.saw(hashlib.sha1((r[1] + r[2]).encode()).hexdigest()[:12])
    elif r[0] == "ERR":
        bad, ms = spans_ok(text, r[1])
        for m in ms:
            a = re.sub(r"`[^`]*`|\d+", "_", m[4])
            ck.saw(a)
            with ck.lock: ck.msgs.setdefault(a, []).append((name, text)) if len(ck.msgs.get(a, ())) < 6 else None
        if bad: ck.violation("diagnostic/" + re.sub(r"[^a-z ]", "", bad[0].split(":")[0]), "%s\nall: %s" % (bad[0], short(r[1])), {"input.rs": text})
    elif r[0] == "LEXERR": ck.saw("lexerr")
    elif r[0] == "PANIC": ck.violation("panic/" + re.sub(r"[^A-Za-z.]+", "-", r[1])[:60], "the generator panicked: %s" % r[1], {"input.rs": text})
    elif r[0] == "NONDET": ck.violation("nondeterministic/thread", "two generations of one input in one process differ", {"input.rs": text})
    else: ck.violation("died", "the generator ended (%s) or did not answer in 60 s" % (r[1:],), {"input.rs": text})
    return r


def variants(ck, pool, toks, inputs, res):
    """Formatting, comments and unrelated items must not matter."""
    good = [(n, corpus.tokens(t), r) for (n, t, how), r in zip(inputs, res) if r[0] == "OK"]
    bad = [(n, corpus.tokens(t), r) for (n, t, how), r in zip(inputs, res) if r[0] == "ERR" and "expected" not in r[1] and how != "byte" and "no #[cxx" not in r[1]]
    rng = random.Random("%d/%s/var" % (SEED, TIER))
    pick = rng.sample(good, min(len(good), 6000 if THOROUGH else 500)) + rng.sample(bad, min(len(bad), 4000 if THOROUGH else 300))
    pick += [g for g in good[:40]]
    def strip(r):
        if r[0] == "ERR": return ("ERR", [l.split(" ", 4)[4] for l in r[1].splitlines()])
        return r
    def one(j):
        i, (n, tk, r) = j
        rr = random.Random("%d/%s/var/%d" % (SEED, TIER, i))
        src = "".join(x for _, x in tk)
        if src.startswith("#!") and not src[2:].lstrip().startswith("["): return   # a shebang line is not formatting
        forms = [("whitespace", corpus.reformat(rr, tk))]
        if "\r" not in src and not re.search(r'/\*\*|/\*!|\\\n|r#*"', src): forms.append(("crlf", src.replace("\n", "\r\n")))
        forms.append(("unrelated", unrelated(rr, src, False)))
        forms.append(("both", unrelated(rr, corpus.reformat(rr, tk), True)))
        for k, t in forms:
            q = pool.gen(t); ck.count(1, ("variant", k, r[0]))
            if k == "crlf" and q[0] == "LEXERR": continue
            if strip(q) != strip(r):
                ck.violation("depends-on/" + k, "output changes with %s that should not matter\n%s" % (k, diff(strip(r), strip(q))), {"input.rs": src, "variant.rs": t})
    pmap(one, list(enumerate(pick)), NPROC)
    ck.notes["variant_inputs"] = {"accepted": len([1 for p in pick if p[2][0] == "OK"]), "rejected": len([1 for p in pick if p[2][0] == "ERR"])}


def diff(a, b):
    import difflib
    f = lambda r: "\n".join("\n".join(x) if isinstance(x, list) else str(x) for x in r).splitlines()
    return "\n".join(list(difflib.unified_diff(f(a), f(b), lineterm="", n=1))[:40])


BEFORE = ["", "use std::fmt;\n", "#[derive(Clone)] pub struct Unrelated { x: u128 }\n", "fn helper<T: Copy>(x: T) -> T { x }\n", "macro_rules! m { ($($t:tt)*) => { $($t)* } }\n", "pub mod other { pub fn f() {} mod inner { fn g() {} } }\n",
          "// comment with #[cxx::bridge] mod fake { }\n", "/* #[cxx::bridge] mod fake { extern \"Rust\" { fn no(); } } */\n", "const S: &str = \"#[cxx::bridge] mod fake { }\";\n", "m! { #[cxx::bridge] mod fake { extern \"Rust\" { fn no(); } } }\n",
          "extern \"C\" { fn puts(x: *const i8) -> i32; }\n", "#[cfg(unknown_thing)] mod gone;\n", "impl X for Y { fn f(&self) -> [u8; 3] { [b'a', 0x1f, 1e3 as u8] } }\n", "static mut Q: Option<&'static str> = None;\n", "#[notcxx::bridge] mod fake { }\n", "#[cxx::other] mod fake { }\n", "async fn z() { loop { break } }\n", "union U { a: u8, b: i8 }\n", "trait T { type A; const B: usize; fn c(&self); }\n"]


def unrelated(r, src, more):
    pre, post = "", ""
    if re.search(r"//!|/\*!|#\s*!", src) or src.startswith("\ufeff"):
        pre = ""   # inner attributes have to stay first
    else:
        if r.random() < .3: pre += r.choice(["#!/usr/bin/env run\n", "#![allow(dead_code)]\n", "//! crate docs\n"])
        for _ in range(r.randrange(3)): pre += r.choice(BEFORE)
    for _ in range(r.randrange(3)): post += r.choice(BEFORE)
    return pre + src + "\n" + post


def cli_display(ck, inputs, res):
    """The command line tool shows each diagnostic where it is and exits with 1."""
    exe = cli_bin()
    d = os.path.join(ck.dir, "cli"); os.makedirs(d)
    rng = random.Random("%d/%s/cli" % (SEED, TIER))
    bad = [i for i, r in enumerate(res) if r[0] in ("ERR", "LEXERR")]
    odd = [i for i in bad if re.search("[^\x00-\x7f]|\r|\t", inputs[i][1])]
    pick = rng.sample(bad, min(len(bad), 8000 if THOROUGH else 500)) + rng.sample(odd, min(len(odd), 4000 if THOROUGH else 300))
    okk = [i for i, r in enumerate(res) if r[0] == "OK"]
    pick += rng.sample(okk, min(len(okk), 60))
    first = {}
    for a, l in ck.msgs.items():
        for n, t in l[:3]: first[t] = 1
    texts = [(inputs[i][1], res[i]) for i in pick]
    byt = {inputs[i][1]: res[i] for i in range(len(res))}
    texts += [(t, byt[t]) for t in first if t in byt]
    cnt = [0]
    def one(j):
        k, (t, r) = j
        stdin = k % 3 == 0
        p = os.path.join(d, "i%d.rs" % k)
        env = base_env(TERM="dumb")
        # the source as the generator sees it may be cfg-dependent; the command line tool evaluates, so only compare what is decided the same
        if stdin: q = run([exe, "-"] + (["--header"] if k % 2 else []), timeout=60, env=env, stdin=t.encode())
        else:
            open(p, "w", newline="").write(t)
            q = run([exe, p, "--header"], timeout=60, env=env)
        ck.count(1, ("cli", r[0], q.rc))
        if q.timeout: ck.violation("cli/hang", "no answer in 60 s", {"input.rs": t}); return
        cfgd = "cfg" in t
        if q.rc not in (0, 1): ck.violation("cli/crash", "the command line tool ended with %s on\n%s\n%s" % (q.rc, short(t, 800), q.err[-1500:]), {"input.rs": t, "stderr.txt": q.err}); return
        if not cfgd and (q.rc == 0) != (r[0] == "OK"): ck.violation("cli/verdict", "exit code %s where the generator says %s" % (q.rc, r[0]), {"input.rs": t, "stderr.txt": q.err}); return
        if q.rc == 1:
            if not q.err.strip(): ck.violation("cli/silent", "failed without a message", {"input.rs": t})
            if q.out: ck.violation("cli/output-on-error", "code was written although there were errors", {"input.rs": t, "stdout.txt": q.out})
            if r[0] == "ERR" and not cfgd and "no #[cxx" not in r[1]:
                want = sorted((int(l.split()[0]), int(l.split()[1]) + 1) for l in r[1].splitlines())
                got = sorted((int(m.group(1)), int(m.group(2))) for m in re.finditer(r"(?:\.rs|stdin|/dev/stdin):(\d+):(\d+)", re.sub("\x1b\\[[0-9;]*m", "", q.err)) )
                # lines inside the shown source may look like a location too
                if any(got.count(w) < want.count(w) for w in want): ck.violation("cli/location", "diagnostics at lines %s are shown at %s\n%s" % (want, got, short(q.err, 1500)), {"input.rs": t, "stderr.txt": q.err})
                else: cnt[0] += len(want)
        if not stdin: os.unlink(p)
    pmap(one, list(enumerate(texts)), NPROC)
    ck.notes["cli_located_diagnostics"] = cnt[0]


BOM = "\ufeff"
HEADS = ["", "#!/usr/bin/env x\n", "#!/usr/bin/env x\r\n", "#! /x [y] {\n", "#!x #![allow(dead_code)]\n", "#!\n", "#!\n\n", "#![allow(dead_code)]\n", "#![allow(dead_code)] ", "#! [allow(dead_code)]\n", "#!\t[allow(dead_code)] ", "#!\n[allow(dead_code)]\n", "#!\r\n\r\n [ allow ( dead_code ) ]",
         "#! \n\n[allow(dead_code)] #![allow(unused)] ", "#!/* c */[allow(dead_code)] ", "#!// c\n[allow(dead_code)]\n", "#!/* a /* b */ c */ [allow(dead_code)] ", "#! /* x\n */ [allow(dead_code)] ", "#!//// c\n// d\n/**//***/ [allow(dead_code)]\n", "#!/* é[ */\n/* */[allow(dead_code)]", "#!/** d */[allow(dead_code)]\n", "#!//! d\n",
         "#!/*! d */ [\n", "#!/* never closed\n", "#!/*/ x\n", "#!/*/ [\n*/ [allow(dead_code)]\n", "#!// [allow\n", "#!/// d\n", "#!\u00a0x\n", "#!\u2028 x\n", "//! crate\n", "/*! crate */ #![allow(dead_code)] ", "#!/bin/sh\n#![allow(dead_code)]\n", "#!/bin/sh\n#!/bin/sh\n", "#!", " #!/bin/sh\n", "\n#!/bin/sh\n"]


def first_lines(ck):
    """What may precede the items of a file for rustc (mark, shebang, inner attributes, comments between their tokens) may precede them for the generators,
    with no influence on the code, and a fault after it is located in the file as the user sees it."""
    exe = cli_bin(); d = os.path.join(ck.dir, "first"); os.makedirs(d); env = base_env(TERM="dumb")
    good, bad = "#[cxx::bridge] mod ffi { struct S { x: u8 } extern \"Rust\" { fn f(s: &S) -> u32; } }\n", "#[cxx::bridge] mod ffi { struct S { x: Missing } }\n"
    base = run([exe, "-"], env=env, stdin=good.encode())
    if base.rc: raise InfraError("the plain bridge is rejected: " + base.err[-500:])
    judged = [0, 0]
    def one(j):
        i, h = j; p = os.path.join(d, "f%d.rs" % i)
        open(p, "wb").write((h + "pub mod ffi { pub struct S { pub x: u8 } } pub fn g(_: &ffi::S) {}\n").encode())
        q = run(["rustc", "--edition", "2021", "--crate-name", "f", "--crate-type", "lib", "--emit=metadata", "-o", p + ".m", p], env=dict(env, RUSTUP_TOOLCHAIN="stable"))
        ck.count(1, ("first", q.rc))
        if q.rc: judged[1] += 1; return
        # is the item still there, or swallowed by a shebang line?
        open(p, "wb").write((h + "pub mod ffi { compile_error!(\"seen\"); }\n").encode())
        if "seen" not in run(["rustc", "--edition", "2021", "--crate-name", "f", "--crate-type", "lib", "--emit=metadata", "-o", p + ".m", p], env=dict(env, RUSTUP_TOOLCHAIN="stable")).err: judged[1] += 1; return
        judged[0] += 1
        open(p, "wb").write((h + good).encode())
        for how, q in (("file", run([exe, p], env=env)), ("stdin", run([exe, "-"], env=env, stdin=(h + good).encode()))):
            ck.count(1, ("first", how, i))
            if q.rc or q.out != base.out: ck.violation("first-line/" + how, "a file that starts with %r, which rustc compiles, gives %s\n%s" % (h, "other code" if not q.rc else "an error", (q.err or diff(("x", base.out), ("x", q.out)))[:1500]), {"input.rs": h + good})
        open(p, "wb").write((h + bad).encode())
        vis = (h[1:] if h.startswith(BOM) else h) + bad; k = vis.rindex("Missing"); want = (vis.count("\n", 0, k) + 1, k - (vis.rfind("\n", 0, k) + 1) + 1)
        for how, q in (("file", run([exe, p], env=env)), ("stdin", run([exe, "-"], env=env, stdin=(h + bad).encode()))):
            t = re.sub("\x1b\\[[0-9;]*m", "", q.err); m = re.search(r"(?:\.rs|stdin):(\d+):(\d+)", t); ck.count(1, ("first-bad", how, i))
            got = m and (int(m.group(1)), int(m.group(2)))
            ls = t.split("\n"); sh = [n for n, l in enumerate(ls) if "^" in l]
            if q.rc != 1 or got != want: ck.violation("first-line/location", "a fault at %s of a file that starts with %r is shown at %s\n%s" % (want, h, got, t[:1500]), {"input.rs": h + bad})
            elif ls[sh[0]].count("^") != 7 or ls[sh[0] - 1][ls[sh[0]].index("^"):][:7] != "Missing": ck.violation("first-line/underline", "the fault in a file that starts with %r is not the text underlined\n%s" % (h, t[:1500]), {"input.rs": h + bad})
    pmap(one, list(enumerate([b + h for b in ("", BOM) for h in HEADS])), NPROC)
    ck.notes["first_lines"] = {"judged": judged[0], "not Rust": judged[1]}
    if judged[0] < 30: raise InfraError("only %d first lines are Rust" % judged[0])


# a fault that belongs to exactly the line it is on, in the middle of other items
FAULTS = [
    ("R", "fn f(x: Missing);", "unsupported type"), ("R", "fn f(x: Vec<Missing>);", ""), ("C", "fn f() -> Missing;", ""), ("C", "fn f(x: &Missing);", ""), ("C", "fn f(x: C0);", ""), ("R", "fn f(x: R0);", ""), ("C", "fn f(x: &mut C0);", ""),
    ("C", "fn f(self: &Missing);", ""), ("C", "fn f(x: Box<C0>);", ""), ("C", "fn f(x: UniquePtr<R0>);", ""), ("C", "fn f(x: CxxVector<u8>);", ""), ("C", "fn f(x: CxxString);", ""), ("C", "fn f<T>(x: T);", ""),
    ("C", "fn f(x: (u8, u8));", ""), ("C", "fn f(x: Option<u8>);", ""), ("C", "fn f(x: *const u8);", ""), ("C", "fn f() -> Result<&mut C0>;", ""), ("C", "fn f(x: &[C0]);", ""), ("C", "fn f(x: u8, ...);", ""), ("C", "async fn f();", ""),
    ("C", "const fn f();", ""), ("C", "fn f(x: [u8; 0]);", ""), ("C", "fn f(x: UniquePtr<u8>);", ""), ("C", "#[nonexistent] fn f();", ""), ("C", "#[cxx_name = \"a b\"] fn f();", ""), ("C", "#[namespace = \"1x\"] fn f();", ""),
    ("C", "static X: u8;", ""), ("R", "fn f(x: &mut str);", ""), ("R", "fn f() -> Result<Result<u8>>;", ""), ("R", "fn f(x: Vec<Vec<u8>>);", ""),
    ("R", "fn S0();fn S0();", ""), ("M", "struct E0 {}", ""), ("M", "struct S {}", ""), ("M", "struct S { x: S }", ""), ("M", "struct S { x: C0 }", ""), ("M", "struct S(u8);", ""), ("M", "struct S<T> { x: T }", ""),
    ("M", "#[derive(Nope)] struct S { x: u8 }", ""), ("M", "enum E {}", ""), ("M", "enum E { A(u8) }", ""), ("M", "enum E { A = 256u8 }", ""), ("M", "enum E { A = x }", ""),
    ("M", "#[repr(C)] enum E { A }", ""), ("M", "enum E { A = 18446744073709551615, B }", ""), ("M", "enum E { A = 18446744073709551616 }", ""), ("M", "enum E { A = -1, B = 18446744073709551615 }", ""), ("M", "impl Vec<Missing> {}", ""), ("M", "impl UniquePtr<R0> {}", ""), ("M", "impl S0 {}", ""), ("M", "use a::b;", ""),
    ("M", "fn f() {}", ""), ("M", "const X: u8 = 1;", ""), ("M", "macro_rules! x { () => {} }", ""), ("M", "extern \"C\" { fn f(); }", ""), ("M", "unsafe extern \"Rust\" { fn f(x: Missing); }", ""), ("M", "type X = u8;", ""), ("M", "mod inner {}", ""),
    ("R", "type Q: Copy;", ""), ("R", "type Q<T>;", ""), ("C", "type C0;", ""), ("R", "fn f(self);", ""), ("C", "fn f(self: Box<C0>);", ""), ("C", "include!(1);", ""), ("C", "other!();", ""), ("M", "#[cfg(a = 1)] struct S { x: u8 }", ""),
]


def located(ck, pool):
    rng = random.Random("%d/%s/loc" % (SEED, TIER))
    for rep in range(40 if THOROUGH else 5):
        for where, fault, want in FAULTS:
            good = {"M": ["struct S0 { a: u8 }", "enum E0 { A, B }", "struct S1 { s: S0, v: Vec<S0> }", "#[derive(Clone, PartialEq)] struct S2 { x: i32 }"],
                    "R": ["type R0;", "fn r1(x: &R0) -> Box<R0>;", "fn r2(x: u8) -> Result<String>;", "fn r3(self: &mut R0);", "// é comment"],
                    "C": ["type C0;", "fn c1(x: &C0) -> UniquePtr<C0>;", "fn c2(self: Pin<&mut C0>, x: u8);", "include!(\"x.h\");", "/* 日本 */"]}
            lists = {k: list(v) for k, v in good.items()}
            for v in lists.values(): rng.shuffle(v)
            pos = rng.randrange(len(lists[where]) + 1)
            pad = rng.choice(["", "", "/*\u00e9\u65e5*/ ", "\t"])
            lists[where].insert(pos, pad + fault)
            secs = [("mod", lists["M"]), ("rust", lists["R"]), ("cxx", lists["C"])]; rng.shuffle(secs)
            out = ["// line", "#[cxx::bridge%s]" % rng.choice(["", "(namespace = \"n::m\")", "(namespace = a)"]), "mod ffi {"]; at = None
            for n, l in secs:
                if n == "rust": out.append("extern \"Rust\" {")
                if n == "cxx": out.append("unsafe extern \"C++\" {")
                for x in l:
                    out.append(x)
                    if x.endswith(fault) and l is lists[where]: at = len(out)
                if n != "mod": out.append("}")
            out.append("}")
            src = "\n".join(out) + "\n"
            r = pool.gen(src); ck.count(1, ("fault", fault))
            if r[0] != "ERR": ck.violation("located/not-reported/" + fault, "no diagnostic for `%s` (%s)" % (fault, r[0]), {"input.rs": src}); continue
            bad, ms = spans_ok(src, r[1])
            # a duplicate may be reported at either declaration
            dup = [k + 1 for k, l in enumerate(out) if "E0" in fault and re.match("enum E0", l) or "C0" in fault and re.match("type C0", l)]
            if bad or not any(m[0] == at or m[0] in dup and fault in ("struct E0 {}", "type C0;") for m in ms) or any(m[0] != at and m[0] not in dup for m in ms):
                ck.violation("located/" + fault, "`%s` is on line %d; diagnostics: %s" % (fault, at, short(r[1], 800)), {"input.rs": src})


def sizes(ck, pool):
    """Large and deeply nested inputs: bounded time, no crash."""
    n = 3000 if THOROUGH else 1000
    big = {
        "functions": "#[cxx::bridge] mod ffi { unsafe extern \"C++\" { %s } }" % " ".join("fn f%d(x: u8, y: &str) -> String;" % i for i in range(n)),
        "structs": "#[cxx::bridge] mod ffi { %s }" % " ".join("struct S%d { a: u8%s }" % (i, ", p: S%d" % (i - 1) if i else "") for i in range(n)),
        "structs-reversed": "#[cxx::bridge] mod ffi { %s }" % " ".join("struct S%d { a: u8%s }" % (i, ", p: S%d" % (i - 1) if i else "") for i in reversed(range(n))),
        "variants": "#[cxx::bridge] mod ffi { enum E { %s } }" % ", ".join("V%d" % i for i in range(n)),
        "fields": "#[cxx::bridge] mod ffi { struct S { %s } }" % ", ".join("f%d: Vec<u%d>" % (i, 8 << i % 4) for i in range(n)),
        "arguments": "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(%s); } }" % ", ".join("a%d: &str" % i for i in range(n)),
        "bridges": "\n".join("#[cxx::bridge] mod m%d { struct S%d { x: u8 } }" % (i, i) for i in range(n)),
        "namespaces": "#[cxx::bridge(namespace = \"%s\")] mod ffi { struct S { x: u8 } }" % "::".join("n%d" % i for i in range(n)),
        "identifier": "#[cxx::bridge] mod ffi { struct %s { x: u8 } }" % ("A" * 20000),
        "docs": "#[cxx::bridge] mod ffi { %s struct S { x: u8 } }" % ("/// line\n" * n),
        "errors": "#[cxx::bridge] mod ffi { extern \"Rust\" { %s } }" % "\n".join("fn f%d(x: Missing%d);" % (i, i) for i in range(n)),
        "duplicates": "#[cxx::bridge] mod ffi { extern \"Rust\" { %s } }" % "\n".join("fn f();" for i in range(n)),
        "cycle": "#[cxx::bridge] mod ffi { %s }" % " ".join("struct S%d { p: S%d }" % (i, (i + 1) % n) for i in range(min(n, 400))),
        "types-nested": "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: %su8%s); } }" % ("Vec<" * 150, ">" * 150),
        "arrays-nested": "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: %su8%s); } }" % ("[" * 150, "; 1]" * 150),
        "modules-nested": "mod a {" * 150 + "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(); } }" + "}" * 150,
        "cfg-nested": "#[cxx::bridge] mod ffi { extern \"Rust\" { #[cfg(%sall()%s)] fn f(); } }" % ("not(" * 300, ")" * 300),
        "minus-nested": "#[cxx::bridge] mod ffi { enum E { A = %s1 } }" % ("-" * 100),
    }
    d = os.path.join(ck.dir, "big"); os.makedirs(d)
    def one(k):
        t = big[k]; t0 = time.time()
        p = os.path.join(d, k + ".rs"); open(p, "w").write(t)
        q = run([cli_bin(), p, "--header"], timeout=300)
        if q.timeout: raise InfraError("size/%s: no answer in 300 s" % k)
        ck.count(1, ("size", k, q.rc))
        if q.rc not in (0, 1): ck.violation("size/" + k, "exit %s after %.0f s (timeout=%s)\n%s" % (q.rc, time.time() - t0, q.timeout, q.err[-500:]), {"input.rs": t})
        r = pool.gen(t, "twice"); ck.count(1)
        if r[0] in ("PANIC", "DIED", "NONDET"): ck.violation("size/" + k, "%s" % (r,), {"input.rs": t})
        elif (r[0] == "OK") != (q.rc == 0) and k != "cfg-nested": ck.violation("size/verdict/" + k, "generator %s, command line %s" % (r[0], q.rc), {"input.rs": t})
    pmap(one, sorted(big), NPROC)
    # nesting no stack survives
    deep = {"types": "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: %su8%s); } }" % ("Vec<" * 20000, ">" * 20000),
            "arrays": "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: %su8%s); } }" % ("[" * 20000, "; 1]" * 20000),
            "delimiters": "fn x() {" + "(" * 20000 + ")" * 20000 + "} #[cxx::bridge] mod ffi { extern \"Rust\" { fn f(); } }",
            "modules": "mod a {" * 20000 + "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(); } }" + "}" * 20000}
    for k, t in sorted(deep.items()):
        p = os.path.join(d, "deep.rs"); open(p, "w").write(t)
        q = run([cli_bin(), p, "--header"], timeout=120); ck.count(1)
        if q.rc not in (0, 1): ck.violation("deep-nesting/" + k, "20000 nested %s end the process with a stack overflow (%s)" % (k, q.rc), {"input.rs": t})
