"""C20: which declarations are rejected, against rules written down independently (typespace.py, c20rules.py)."""
from common import *
from compileprobe import Probe, compile_probes
import c20rules, random, re, typespace as ts, units

ENV = {"FILL": ["struct Wa { x: u8 }", "struct Wb { s: String, v: Vec<Wa> }", "enum Wc { P, Q }", "#[derive(Clone)] struct Wd { a: [u8; 3], b: f64 }"],
       "Rust": ["fn wr(x: u8) -> String;", "type Wr;", "fn wm(self: &Wr, s: &str);"], "C++": ["type Wt;", "fn wf(x: &Wt, y: &[u8]) -> Result<u32>;", "fn wg(s: UniquePtr<CxxString>);", "fn wh(self: Pin<&mut Wt>, k: u64);"]}
OUT = "fn wr(x: u8) -> String { loop {} } pub struct Wr; impl Wr { fn wm(&self, s: &str) {} }"


# ---- types ----------------------------------------------------------------
def neighbours(r, k):
    out = []
    while len(out) < k:
        x = ts.random_type(r, r.choice([0, 1, 1, 2])); pos = r.choice(sorted(ts.POSITIONS))
        if ts.verdict(x, pos)[0] is None and pos != "impl": out.append((x, pos))
    return out


def singles(ck, items, r):
    """One questionable declaration at a time, among sound ones."""
    g = units.vgen(); tally = {}
    for x, pos in items:
        lv, why = ts.verdict(x, pos); k = r.choice([0, 0, 1, 2, 4])
        near = neighbours(r, k); at0 = r.randint(0, k)
        batch = near[:at0] + [(x, pos)] + near[at0:]
        text, at = ts.bridge([(ts.POSITIONS[p][2], ts.decl(y, p, i)) for i, (y, p) in enumerate(batch)])
        res = g.gen(text); d = ts.decl(x, pos, at0); key = (pos, lv, x.ctors()[:2])
        ck.count(1, key); tally[lv] = tally.get(lv, 0) + 1
        if res[0] not in ("OK", "ERR"): ck.violation("generator/" + res[0], "%s\n%s" % (d, res), {"bridge.rs": text}); continue
        if lv is None and res[0] == "ERR": ck.violation("type/rejected/%s/%s" % (pos, x.c), "sound declaration rejected: %s\n%s" % (d, res[1]), {"bridge.rs": text})
        elif lv and res[0] == "OK": ck.violation("type/accepted/%s/%s" % (pos, x.c), "accepted although %s: %s" % (", ".join(why), d), {"bridge.rs": text})
        elif lv:
            lines = {int(l.split()[0]) for l in res[1].splitlines() if re.match(r"\d+ \d+ \d+ \d+ ", l)}
            if at[at0] not in lines: ck.violation("type/place/%s/%s" % (pos, x.c), "the error is not reported at the declaration: %s\n%s" % (d, res[1]), {"bridge.rs": text})
    with ck.lock:
        n = ck.notes.setdefault("types", {})
        for k, v in tally.items(): n[str(k)] = n.get(str(k), 0) + v


def batch(ck, i, level):
    """Many declarations in one bridge, through the macro and the generator: every bad one has an error, no sound one has."""
    r = random.Random("%d/%s/b/%d/%s" % (SEED, TIER, i, level)); items = []; seen = set()
    bad = r.random() < .9; n = 150
    while len(items) < n:
        x = ts.random_type(r, r.choice([0, 1, 1, 2, 2, 3])); pos = r.choice(sorted(ts.POSITIONS)); lv = ts.verdict(x, pos)[0]
        if lv == "parse" and level != "parse" or lv == "check" and level == "parse" and False: continue
        if lv is None and (not ts.compilable(x)): continue
        if lv and (not bad or r.random() < .6): continue
        if pos == "impl" and (x.text() in seen or seen.add(x.text())): continue
        items.append((x, pos))
    decls = [(ts.POSITIONS[p][2], ts.decl(x, p, k)) for k, (x, p) in enumerate(items)]
    text, at = ts.bridge(decls); inv = {v: k for k, v in at.items()}
    expect = {k for k, (x, p) in enumerate(items) if ts.verdict(x, p)[0] == level} if any(ts.verdict(x, p)[0] == level for x, p in items) else {k for k, (x, p) in enumerate(items) if ts.verdict(x, p)[0]}
    res = units.vgen().gen(text)
    got = set() if res[0] == "OK" else {inv[int(l.split()[0])] for l in res[1].splitlines() if re.match(r"\d+ \d+ \d+ \d+ ", l) and int(l.split()[0]) in inv}
    src = "#![allow(warnings)]\n" + text + "use {cxx::{CxxString, CxxVector, UniquePtr, SharedPtr, WeakPtr}, std::pin::Pin, std::os::raw::c_char, ffi::{Sh, Lt, En, T, Cx}}; pub struct R(u8); pub struct Ru<'a>(&'a u8);\n" + \
          (ts.implementation(decls) if not expect else "") + "\n"
    path = os.path.join(ck.dir, "b%s%d.rs" % (level, i)); open(path, "w").write(src)
    rr = rtdeps("none").rustc(path, path[:-3] + ".rmeta", "lib", ["--emit=metadata", "--crate-name", "b", "--error-format=json"], timeout=600)
    macro = set(); msgs = []
    for l in rr.err.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("level") != "error": continue
        msgs.append(m["message"])
        for s in m["spans"]:
            if s["file_name"] == path:
                for ln in range(s["line_start"], s["line_end"] + 1):
                    if ln - 1 in inv: macro.add(inv[ln - 1])
    for who, g in (("generator", got), ("macro", macro)):
        # with errors in the bridge, rustc reports unresolved names of the missing module elsewhere
        ck.count(n, (level, who, len(expect), i))
        told = set().union(*[ts.faults_at(*items[k]) for k in g]) if g else set()
        missing = [k for k in sorted(expect - g) if not ts.faults_at(*items[k]) & told]
        for k in missing[:3]: ck.violation("batch/%s/accepted/%s" % (who, items[k][1]), "no error for %s (%s)" % (decls[k][1], ", ".join(ts.verdict(*items[k])[1])), {"bridge.rs": text})
        for k in sorted(g - expect)[:3]: ck.violation("batch/%s/rejected/%s" % (who, items[k][1]), "error for a sound declaration: %s\n%s" % (decls[k][1], "\n".join(msgs[:5]) if who == "macro" else res[1][:500]), {"bridge.rs": text})
    if not expect and (rr.rc or res[0] != "OK"): ck.violation("batch/rejected", "a bridge of sound declarations is rejected: %s %s" % (msgs[:3], res[:2] if res[0] != "OK" else ""), {"bridge.rs": text})
    with ck.lock:
        t = ck.notes.setdefault("batches", {"bridges": 0, "declarations": 0, "unsound": 0}); t["bridges"] += 1; t["declarations"] += n; t["unsound"] += len(expect)


# ---- rules ----------------------------------------------------------------
def perturb(r, kind, t):
    """The same declaration with more around it that has no bearing on any rule."""
    kind = kind.rstrip("!")
    m = re.match(r"((?:#\[[^\]]*\] *)*(?:unsafe )?fn \w+(?:<[^>]*>)?\()", t)
    if kind in ("C++", "C++safe") and m and "..." not in t and r.random() < .6:
        depth, j = 1, m.end()
        while depth and j < len(t): depth += {"(": 1, ")": -1}.get(t[j], 0); j += 1
        if not depth:
            more = ["zq%d: %s" % (k, r.choice(["u8", "bool", "String", "usize", "f64", "i64"])) for k in range(r.choice([1, 1, 2, 3, 5, 7]))]
            args = re.sub(r"(?<=\bfn\()([^()]*)(?=\))", lambda x: ", ".join([x.group(1)] * bool(x.group(1)) + [r.choice(["u8", "String", "bool"]) for _ in range(r.choice([0, 1, 2, 3]))]), t[m.end():j - 1])
            t = t[:m.end()] + ", ".join([args] * bool(args.strip()) + more) + t[j - 1:]
    if kind == "top" and re.fullmatch(r"struct \w+ \{ (\w+: u8(, )?)+ \}", t) and r.random() < .4: t = "#[derive(%s)] " % r.choice(["Clone", "Debug", "Clone, Copy", "PartialEq, Eq", "Default", "Hash, PartialEq"]) + t
    if re.match(r"(pub )?(unsafe )?(fn|struct|enum|type) ", t) and r.random() < .3: t = r.choice(["#[doc = \"x\"] ", "#[cfg(all())] ", "#[cfg(not(any()))] #[doc = \"fn\"] "]) + t
    return t


def assemble(r, items, fill):
    """A bridge with the items in their blocks, split and ordered at random, among other declarations."""
    blocks = []
    def put(kind, t):
        same = [b for b in blocks if b[0] == kind]
        if kind.endswith("!") or not same or r.random() < .3: blocks.append((kind, [t]))
        else: r.choice(same)[1].append(t)
    order = [x for x in items if x[0] != "out"]
    shorthand = any("self: &Self" in t or "&self" in t or "&mut self" in t or "self: &mut Self" in t for _, t in order)
    for kind, t in order:
        if fill: t = perturb(r, kind, t)
        if kind in ("top", "impl"): blocks.append(("top", [t]))
        elif shorthand: blocks.append((kind.rstrip("!") + "!", [t]))
        else: put(kind, t)
    if fill:
        for t in r.sample(ENV["FILL"][:1] + ENV["FILL"][2:], r.randint(0, 3)): blocks.append(("top", [t]))
        if "struct Wa" in str(blocks): blocks.append(("top", [ENV["FILL"][1]]))
        if r.random() < .7: blocks.append(("Rust", list(ENV["Rust"])))
        if r.random() < .7: blocks.append(("C++", list(ENV["C++"])))
    r.shuffle(blocks)
    head = {"C++": 'unsafe extern "C++"', "C++safe": 'extern "C++"', "Rust": 'extern "Rust"'}; out = []
    for k, ts_ in blocks:
        k = k.rstrip("!")
        if k == "top": out += ts_
        else: out.append("%s { %s }" % (head[k], " ".join(ts_)))
    has_rust = any(k == "Rust" and "wr(" in str(t) for k, t in blocks)
    outer = " ".join(t for b, t in items if b == "out") + (" " + OUT if has_rust else "")
    return "#[cxx::bridge] pub mod ffi { %s }" % " ".join(out), outer


def rules(ck, i, chunk, contexts):
    r = random.Random("%d/%s/r/%d" % (SEED, TIER, i)); g = units.vgen(); ps = []
    for key, gen, bad, good in chunk:
        for c in range(contexts):
            for items, ok in ((bad, False), (good, True)):
                if not items: continue
                text, outer = assemble(r, items, c > 0)
                res = g.gen(text); ck.count(1, (key, ok, res[0]))
                if res[0] not in ("OK", "ERR"): ck.violation("generator/" + res[0], "%s: %s\n%s" % (key, res, text), {"bridge.rs": text}); continue
                if ok and res[0] == "ERR": ck.violation("rule/generator/rejected/" + key, "%s\n%s" % (text, res[1]), {"bridge.rs": text})
                if not ok and gen and res[0] == "OK": ck.violation("rule/generator/accepted/" + key, text, {"bridge.rs": text})
                if r.random() < .999: ps.append((Probe(key, outer + " " + text, ok), res[0]))
    compile_probes(ck, "rules%d" % i, [p for p, _ in ps], "#![allow(warnings)]")
    for p, res in ps:
        ck.count(1, (p.key, "macro", p.ok, bool(p.err)))
        if p.ok and p.err: ck.violation("rule/macro/rejected/" + p.key, "%s\n%s" % (p.err, p.text), {"bridge.rs": p.text})
        if not p.ok and not p.err: ck.violation("rule/macro/accepted/" + p.key, p.text, {"bridge.rs": p.text})
    with ck.lock:
        n = ck.notes.setdefault("rules", {"bad": 0, "good": 0}); n["bad"] += sum(not p.ok for p, _ in ps); n["good"] += sum(p.ok for p, _ in ps)


def main(ck):
    ck.rule = ("an evaluation is one declaration (type in a position, or rule broken or kept in a context) put to the generator or the macro and compared with the independent rules; "
               "distinct counts distinct (position or rule, expected level or verdict, type constructors)")
    rtdeps("none"); vgen_bin(); r = random.Random("%d/%s" % (SEED, TIER)); jobs = []
    every = [(x, p) for x in ts.types(1) for p in ts.POSITIONS]
    d2 = [x for x in ts.types(2) if x.depth() == 2]
    more = [(x, p) for x in d2 for p in ts.POSITIONS] if THOROUGH else [(r.choice(d2), r.choice(sorted(ts.POSITIONS))) for _ in range(9000)]
    more += [(ts.random_type(r, r.choice([3, 3, 4, 6])), r.choice(sorted(ts.POSITIONS))) for _ in range(100000 if THOROUGH else 12000)]
    allx = every + more; r.shuffle(allx); step = 1500
    for i in range(0, len(allx), step): jobs.append(lambda i=i: singles(ck, allx[i:i + step], random.Random("%d/%d" % (SEED, i))))
    for i in range(400 if THOROUGH else 64): jobs.append(lambda i=i: batch(ck, i, "check" if i % 3 else "parse"))
    rs = list(c20rules.R); r.shuffle(rs); per = 120
    for i in range(0, len(rs), per): jobs.append(lambda i=i: rules(ck, i, rs[i:i + per], 12 if THOROUGH else 4))
    r.shuffle(jobs); pmap(lambda j: j(), jobs)
