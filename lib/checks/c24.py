"""C24: the command line tool against the library generator, with every file around it watched."""
from common import *
import corpus, units, os, random, re, resource, shutil, signal, stat

NAMES = ["alpha", "beta", "gamma_1", "windows", "Unix", "feature", "target_os"]
VALS = ["x", "my-feat", "y,z", "", "a\"b", "spam eggs", "héé", "x86_64"]
ANN = ["__attribute__((visibility(\"default\")))", "__declspec(dllexport)", "", "A B  C", "é", "-x", "$"]
INC = ["a.h", "dir/b.hh", "<vector>", "<sys/types.h>", "<", ">", "<>", "< spaced >", "<x", "x>", "a b.h", "é.h", "../up.h", "-dash.h", "x\\y.h"]
OUTN = ["o.cc", "o.h", "o.hh", "o.hpp", "o.cpp", "o", ".h", "x.h.cc", "x.H", "x.hxx", "x.cc.h", "é.h", "sp ace.hh", "h", "oh", "a.h.", "-", "-", "sub/o.h", "sub/o.cc", "x-h", "--dash.h", "-x.cc", b"\xff\xfe.h", b"\xff.cc", "link.h", "dangling.cc", "long.h", "long.cc", "hard.h", "sub/../o2.h"]


def rs(s): return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


class Inputs:
    def __init__(s, rng):
        s.good, s.bad = [], []
        g = units.vgen()
        for n, t in corpus.seeds(rng, 4):
            if "cfg" in t: continue
            r = g.gen(t)
            (s.good if r[0] == "OK" else s.bad if r[0] == "ERR" else []).append(t)
        s.bad += ["", "fn main() {}", "mod ffi { }", "#[cxx::bridge] mod ffi { extern \"Rust\" { fn f(x: Missing); } }", "#[cxx::bridge] mod ffi {", "#[cxx::bridge] mod ffi { struct S { x: u8 } } )", "\u00e9\u00e8 \"", "#[cxx::bridge] mod ffi { #[cfg(nope)] struct S { x: u8 } }",
                  "#[cxx::bridge] mod ffi { #[cfg(nope = \"x\")] struct S { x: u8 } }", "#[cxx::bridge] mod ffi { #[cfg(not(any(nope, nope_too)))] struct S { x: u8 } }", "/* unterminated", "#[cxx::bridge] mod ffi; "]


def atoms(rng, cfgs):
    """Predicates over known names only, with their truth."""
    def one(d):
        k = rng.randrange(5 if d else 2)
        bools = [(n, v) for n, v in cfgs if isinstance(v, bool)]; kvs = [(n, v) for n, v in cfgs if not isinstance(v, bool)]
        if k == 0 and bools: n, v = rng.choice(bools); return n, v
        if k <= 1:
            if kvs and rng.random() < .6: n, v = rng.choice(kvs); return "%s = %s" % (n, rs(v)), True
            if kvs and rng.random() < .8: n, v = rng.choice(kvs); w = "not " + v; return "%s = %s" % (n, rs(w)), (n, w) in cfgs
            return "feature = \"never-passed\"", False
        if k == 2: t, v = one(d - 1); return "not(%s)" % t, not v
        l = [one(d - 1) for _ in range(rng.randrange(4))]
        if k == 3: return "all(%s)" % ", ".join(t for t, _ in l), all(v for _, v in l)
        return "any(%s)" % ", ".join(t for t, _ in l), any(v for _, v in l)
    return one(3)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(os.fsencode(d)):
        for n in dirs + files:
            p = os.path.join(root, n); st = os.lstat(p); k = os.path.relpath(p, os.fsencode(d))
            if stat.S_ISLNK(st.st_mode): out[k] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode): out[k] = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode): out[k] = ("file", stat.S_IMODE(st.st_mode), open(p, "rb").read(), st.st_mtime_ns)
            else: out[k] = ("other",)
    return out


def fill(d):
    os.makedirs(d + "/sub"); os.makedirs(d + "/tmp"); os.makedirs(d + "/adir.h"); os.makedirs(d + "/away")
    open(d + "/away/target.txt", "w").write("old target\n"); os.symlink("away/target.txt", d + "/link.h")
    os.symlink("away/made.txt", d + "/dangling.cc"); os.symlink("nowhere/x", d + "/broken.cc")
    for n in ("long.h", "long.cc"): open(d + "/" + n, "w").write("// old contents\n" * 20000)
    open(d + "/hard0", "w").write("hard\n"); os.link(d + "/hard0", d + "/hard.h")
    open(d + "/plain", "w").write("bystander\n"); open(d + "/o.cc.bak", "w").write("b\n")


def case(ck, i, inp, cli, header):
    rng = random.Random("%d/%s/cli/%d" % (SEED, TIER, i))
    d = os.path.join(ck.dir, "c%d" % i); fill(d)
    fault = rng.choice([None] * 6 + ["input", "missing", "dir", "utf8", "usage", "cfgconflict", "parent", "isdir", "notdir", "full", "stdoutfull", "fsize", "perm", "toolong", "emptyname", "stdindir", "brokenlink"])
    args = []; opts = ["cfgon"]; cfgs = []
    # configuration
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        n = rng.choice(NAMES)
        if rng.random() < .5 and n not in ("feature", "target_os"):
            v = rng.random() < .5
            if (n, not v) in cfgs: continue
            form = rng.choice([n, n + "=true", n + " = true"]) if v else rng.choice([n + "=false", n + "= false"])
            cfgs.append((n, v))
            if v: opts.append("cfg " + n)
        else:
            v = rng.choice(VALS); form = n + rng.choice(["=", " = "]) + (rs(v) if rng.random() < .8 or '"' in v else "r#\"%s\"#" % v); cfgs.append((n, v)); opts.append("cfgkv %s=%s" % (n, v))
        args.append(["--cfg=" + form] if rng.random() < .5 else ["--cfg", form])
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        x = rng.choice(INC)
        opts.append("include b " + x[1:-1] if x[0] == "<" and x[-1] == ">" else "include q " + x)
        args.append(["--include=" + x] if x.startswith("-") or rng.random() < .3 else [rng.choice(["-i", "--include"]), x])
    # the order of several includes is the order given: keep it while shuffling
    if rng.random() < .3:
        x = rng.choice(ANN); opts.append("ann " + x)
        args.append(["--cxx-impl-annotations=" + x] if x.startswith("-") or rng.random() < .5 else ["--cxx-impl-annotations", x])
    hdr = rng.random() < .3
    src, none = None, False
    if fault in (None, "parent", "isdir", "notdir", "full", "stdoutfull", "fsize", "perm", "toolong", "brokenlink"):
        if rng.random() < .08: none, hdr = True, True
        else:
            src = rng.choice(inp.good)
            if rng.random() < .6:
                its = []
                for k in range(rng.randrange(1, 5)):
                    t, v = atoms(rng, cfgs)
                    its.append("#[cfg(%s)] struct Cfg%d%s { x: u8 }" % (t, k, "T" if v else "F"))
                src += "\n#[cxx::bridge] mod cfgs { %s }\n" % " ".join(its)
            if rng.random() < .1: src = "#!/usr/bin/env run-cargo-script\n" + src
            elif rng.random() < .1: src = "\ufeff" + src
            if rng.random() < .1: src = src.replace("\n", "\r\n")
    elif fault == "input": src = rng.choice(inp.bad)
    else: src = rng.choice(inp.good)
    # input
    stdin = b""; inname = rng.choice(["in.rs", "sub/in.rs", "in", "-in.rs", "i n.rs", "é.rs", b"\xfe.rs", "./in.rs", "sub/../in.rs", "in.h"])
    data = src.encode() if src is not None else b""
    if fault == "utf8": data = rng.choice([b"\xff\xfe", data[:50] + b"\xc3" , data + b"// \xed\xa0\x80\n"])
    use_stdin = not none and fault not in ("missing", "dir") and rng.random() < .2 or fault == "stdindir"
    if use_stdin: inname, stdin = "-", data
    elif not none:
        p = os.path.join(os.fsencode(d), os.fsencode(inname))
        if fault == "dir": os.makedirs(p)
        elif fault != "missing": open(p, "wb").write(data)
    # outputs
    outs = [rng.choice(OUTN) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 5]))]
    badout = None
    if fault in ("parent", "isdir", "notdir", "full", "toolong", "emptyname", "brokenlink"):
        badout = {"parent": "nodir/o.h", "isdir": "adir.h", "notdir": "plain/o.cc", "full": "/dev/full", "toolong": "n" * 300 + ".h", "emptyname": "", "brokenlink": "broken.cc"}[fault]
        outs.insert(rng.randrange(len(outs) + 1), badout)
    if fault == "stdoutfull" and outs and "-" not in outs: outs.append("-")
    if fault == "perm":
        os.makedirs(d + "/ro"); open(d + "/ro/o.h", "w").write("kept\n"); os.chmod(d + "/ro/o.h", 0o444); os.chmod(d + "/ro", 0o755); badout = rng.choice(["ro/o.h", "ro/new.cc"]); outs.append(badout)
    if fault == "fsize" and not [o for o in outs if o != "-"]: outs.append("o.h")
    for o in outs:
        if isinstance(o, str) and o.startswith("-") and o != "-": args.append([rng.choice(["--output=", "-o"]) + o] )
        else: args.append(rng.choice([[b"--output=" + os.fsencode(o)], ["-o", o], ["--output", o]] if o else [["-o", o]]))
    if hdr: args.append(["--header"])
    if fault == "usage":
        args.append(rng.choice([["--nonsense"], ["-z"], ["--cfg", "1x"], ["--cfg", "a=b"], ["--cfg", "a=1"], ["--cfg", "a=\"x\" y"], ["--cfg", ""], ["--cfg", "a=="], ["--cfg=a=\"x"], ["second.rs", "third.rs"], ["--header=1"], ["--cfg"], ["-o"], ["-i"], ["--cxx-impl-annotations"]]))
    if fault == "cfgconflict": args += [["--cfg", "clash=true"], ["--cfg", "clash=false"]] if rng.random() < .5 else [["--cfg=clash=false"], ["--cfg=clash"]]
    last = args.pop() if fault == "usage" and len(args[-1]) == 1 and args[-1][0] in ("--cfg", "-o", "-i", "--cxx-impl-annotations") else None
    # inputs anywhere; keep relative order of includes, configuration and outputs (they are appended in order)
    seq = list(args)
    if not none:
        pos = rng.randrange(len(seq) + 1)
        if isinstance(inname, str) and inname.startswith("-") and inname != "-":
            if last: inname = "./" + inname; seq.insert(pos, [inname])
            else: seq += [["--", inname]]
        else: seq.insert(pos, [inname])
    if last: seq.append(last)
    argv = [cli] + [a for x in seq for a in x]
    before = snapshot(d)
    pre = None
    if fault == "perm":
        for root, dirs, files in os.walk(os.fsencode(d)):
            if not root.startswith(os.fsencode(d) + b"/ro"):
                os.chmod(root, 0o777)
                for n in files:
                    if not os.path.islink(os.path.join(root, n)): os.chmod(os.path.join(root, n), 0o666)
        before = snapshot(d)
        def pre(): os.setgroups([]); os.setgid(65534); os.setuid(65534)
    if fault == "fsize":
        lim = rng.choice([0, 1, 100, 1000])
        def pre(): signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    env = base_env(TERM="dumb", HOME=d, TMPDIR=d + "/tmp")
    stdout = open("/dev/full", "wb") if fault == "stdoutfull" else subprocess.PIPE
    sin = subprocess.PIPE
    if fault == "stdindir": sin = os.open(d + "/sub", os.O_RDONLY)
    p = subprocess.Popen(argv, stdin=sin, stdout=stdout, stderr=subprocess.PIPE, cwd=d, env=env, preexec_fn=pre)
    if fault == "stdindir": os.close(sin)
    try: so, se = p.communicate(stdin if sin is subprocess.PIPE else None, timeout=120)
    except BrokenPipeError: so, se = p.communicate(timeout=120)
    except subprocess.TimeoutExpired: p.kill(); raise InfraError("cli timeout")
    so = so or b""; after = snapshot(d)
    text = b" ".join(os.fsencode(a) for a in argv).decode("utf-8", "backslashreplace")
    files = {"command.txt": text, "input.rs": data, "stderr.txt": se, "stdout.txt": so}
    what = "fault=%s rc=%s\n%s\nstderr: %s" % (fault, p.returncode, text[:1500], se.decode("utf-8", "replace")[:800])
    def bad(k, why): ck.violation(k, why + "\n" + what, files)
    ck.count(1, (fault, use_stdin, none, hdr, tuple(sorted(set(kind(o, none, hdr) for o in outs) | ({"stdout"} if not outs else set()))), len(cfgs) > 0, p.returncode))
    if len(args) and i < 12: ck.sample(text[len(cli) - 9:][:300])
    changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    fail_nothing = fault in ("input", "missing", "dir", "utf8", "usage", "cfgconflict", "emptyname", "stdindir")
    if p.returncode < 0: bad("crash/%s" % fault, "the tool died"); return
    if fault:
        if fault == "emptyname" and p.returncode == 0: bad("exit/" + fault, "exit status 0 although an output cannot be written"); return
        if p.returncode == 0:
            # a limit larger than what is written is no fault
            if fault != "fsize": bad("exit/" + fault, "exit status 0 although the invocation cannot be carried out"); return
        elif not se.strip(): bad("silent/" + fault, "no message on stderr")
        if fault in ("input", "missing", "dir", "utf8", "usage", "cfgconflict", "stdindir") and (changed or so):
            bad("wrote/" + fault, "something was written although there is no generated code: %s stdout %d bytes" % (sorted(changed), len(so)))
        if fail_nothing: return
    elif p.returncode: bad("exit/none", "nonzero exit for a valid invocation"); return
    # what each destination should hold
    if none: want_h = want_c = header
    else:
        r = units.vgen().gen(data[3:] if data.startswith(b"\xef\xbb\xbf") else data, "\n".join(opts))
        if r[0] != "OK": bad("library-disagrees", "the library gives %s" % (r,)); return
        want_h, want_c = r[1].encode(), r[2].encode()
        for m in re.finditer(r"struct Cfg(\d)([TF]) \{", src):
            here = ("Cfg%s%s" % m.groups()) in r[1]
            if here != (m.group(2) == "T"): bad("cfg", "%s: present=%s" % (m.group(0), here))
    targets = {}
    exp_out = b""
    for o in outs or ["-"]:
        k = kind(o, none, hdr); c = want_c if k in ("impl", "stdout-impl") else want_h
        if o == "-": exp_out += c
        else:
            q = os.path.realpath(os.path.join(os.fsencode(d), os.fsencode(o)))
            targets[os.path.relpath(q, os.fsencode(d))] = (c, o)
    ok = p.returncode == 0
    if ok and fault != "stdoutfull" and so != exp_out: bad("stdout", "standard output has %d bytes, expected %d" % (len(so), len(exp_out)))
    if not ok and not exp_out.startswith(so): bad("stdout", "standard output is not what was requested (%d bytes)" % len(so))
    inode_alias = {b"hard.h": b"hard0", b"hard0": b"hard.h"}
    for t, (c, o) in targets.items():
        if o == badout: continue
        a = after.get(t)
        ck.count(1, ("dest", kind(o, none, hdr), before.get(t, ("new",))[0]))
        if ok and (not a or a[0] != "file" or a[2] != c): bad("content/" + kind(o, none, hdr), "output %r is %s, expected %d bytes of %s" % (o, a and (a[0], len(a[2]) if a[0] == "file" else ""), len(c), kind(o, none, hdr)))
        if not ok and a != before.get(t) and not (a and a[0] == "file" and (a[2] == c or (fault == "fsize" and c.startswith(a[2])))): bad("content-after-error", "output %r is neither untouched nor complete" % (o,))
    for k in changed:
        if k in targets or inode_alias.get(k) in targets: continue
        bad("bystander", "%r was changed although it is not an output" % (k,))


def kind(o, none, hdr):
    o = os.fsencode(o)
    if none: return "cxx.h"
    if hdr: return "header"
    if o == b"-": return "stdout-impl"
    return "header" if o.endswith((b".h", b".hh", b".hpp")) else "impl"


def fixed(ck, cli, header):
    """--help and --version write nothing but their text; a bare invocation is an error."""
    d = os.path.join(ck.dir, "fixed"); fill(d); before = snapshot(d)
    for a, rc, mark in ((["--help"], 0, "cxxbridge"), (["--help", "-o", "x.h"], 0, "--cfg"), (["--version"], 0, "1."), ([], None, None), (["-o", "x.h"], None, None), (["--header"], 0, None), (["in.rs", "-h"], None, None)):
        r = run([cli, *a], cwd=d, env=base_env(TERM="dumb", HOME=d), text=False); ck.count(1, tuple(a))
        if rc == 0 and (r.rc or (mark or "").encode() not in r.out): ck.violation("fixed/" + " ".join(a), "exit %s\n%s" % (r.rc, r.out[:300]))
        if rc is None and (r.rc == 0 or not r.err): ck.violation("fixed/" + " ".join(a), "exit %s without input" % r.rc)
        if a == ["--header"] and r.out != header: ck.violation("fixed/--header", "--header alone does not give include/cxx.h")
        if snapshot(d) != before: ck.violation("fixed/wrote", "%s wrote files" % a)
    # a reader that goes away is not an error of the tool
    for how in ("closed", "partial"):
        p = subprocess.Popen([cli, "--header"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=base_env(TERM="dumb"), cwd=d)
        if how == "partial": p.stdout.read(10)
        p.stdout.close(); e = p.stderr.read(); p.wait(); ck.count(1, ("pipe", how, p.returncode))
        if p.returncode < 0 and p.returncode != -signal.SIGPIPE or b"panicked" in e: ck.violation("pipe/" + how, "exit %s\n%s" % (p.returncode, e))


def main(ck):
    ck.rule = ("an evaluation is one invocation of the tool, or one destination compared with the library's output; distinct counts distinct (fault, way of input, kinds of outputs, exit status) and (kind of output, what was there before)")
    cli = cli_bin(); vgen_bin()
    header = open(os.path.join(REPO, "include", "cxx.h"), "rb").read()
    inp = Inputs(random.Random("%d/%s" % (SEED, TIER)))
    fixed(ck, cli, header)
    n = 12000 if THOROUGH else 1600
    def one(i):
        case(ck, i, inp, cli, header)
        shutil.rmtree(os.path.join(ck.dir, "c%d" % i), ignore_errors=True)
    pmap(one, range(n), JOBS)
    ck.notes["inputs"] = {"valid": len(inp.good), "invalid": len(inp.bad)}
