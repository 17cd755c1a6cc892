"""Many small programs in one crate, each on one line; which of them does the real compiler accept?"""
from common import *
import json, os


class Probe:
    """text: items placed in a module of their own.  ok: whether it has to compile."""
    __slots__ = ("key", "text", "ok", "why", "err", "code", "errs")
    def __init__(s, key, text, ok, why=""):
        s.key, s.text, s.ok, s.why, s.err, s.code, s.errs = key, " ".join(text.split("\n")), ok, why, None, None, []


def _lines(span, out):
    while span:
        if span["file_name"].endswith(".rs"): out.append((span["file_name"], span["line_start"], span["line_end"]))
        e = span.get("expansion"); span = e and e["span"]


def compile_probes(ck, name, probes, prelude="#![allow(warnings)]", san="none", extra=()):
    """Sets p.err for every probe that does not compile.  Probes with errors are
    taken out and the rest compiled again, so that every compiler phase is
    reached by those that remain."""
    left = list(probes); rounds = 0
    while left:
        rounds += 1
        if rounds > 12: raise InfraError("%s: no fixed point" % name)
        src = prelude + "\n" + "".join("mod p%d { %s }\n" % (i, p.text) for i, p in enumerate(left))
        base = prelude.count("\n") + 2
        path = os.path.join(ck.dir, name + ".rs"); open(path, "w").write(src)
        r = rtdeps(san).rustc(path, os.path.join(ck.dir, name + ".rmeta"), "lib", ["--emit=metadata", "--crate-name", "probes", "--error-format=json", *extra], timeout=600)
        if r.timeout: raise InfraError(name + ": rustc timeout")
        hit = set()
        for l in r.err.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get("level") != "error": continue
            ls = []
            for s in m["spans"]: _lines(s, ls)
            idx = {i - base for f, a, b in ls if f == path for i in range(a, b + 1)}
            idx = {i for i in idx if 0 <= i < len(left)}
            for i in idx:
                hit.add(i); p = left[i]
                if p.err is None: p.err, p.code = m["message"], (m.get("code") or {}).get("code")
                p.errs.append(m["message"])
        if not r.rc: break
        if not hit: raise InfraError("%s: rustc fails without pointing at a probe\n%s" % (name, "\n".join(x[:500] for x in r.err.splitlines()[:6])))
        if rounds > 8: ck.log(name, rounds, len(hit), [left[i].err for i in sorted(hit)][:9])
        left = [p for i, p in enumerate(left) if i not in hit]
    return rounds


def judge(ck, name, probes, kind="", prelude="#![allow(warnings)]", san="none"):
    rounds = compile_probes(ck, name, probes, prelude, san)
    for p in probes:
        ck.count(1, (p.key, p.ok, p.code))
        if p.ok and p.err: ck.violation("rejected/" + p.key, "does not compile, though %s\n%s\n%s" % (p.why or "it should", p.err, p.text[:3000]), {"probe.rs": p.text})
        if not p.ok and not p.err: ck.violation("accepted/" + p.key, "compiles, though %s\n%s" % (p.why or "it should not", p.text[:3000]), {"probe.rs": p.text})
    with ck.lock:
        n = ck.notes.setdefault("probes", {"accepted": 0, "refused": 0, "crates": 0})
        n["accepted"] += sum(not p.err for p in probes); n["refused"] += sum(bool(p.err) for p in probes); n["crates"] += rounds


def judge_all(ck, name, probes, prelude="#![allow(warnings)]", batch=150):
    chunks = [probes[i:i + batch] for i in range(0, len(probes), batch)]
    pmap(lambda x: judge(ck, "%s%d" % (name, x[0]), x[1], prelude=prelude), list(enumerate(chunks)), JOBS)


def cxx_lines(ck, name, lines, flags=(), cxx="clang++", std="c++17", inc=()):
    """lines: declarations, one per line; returns {index: first error} of those that do not compile."""
    path = os.path.join(ck.dir, name + ".cc"); open(path, "w").write("\n".join(lines) + "\n")
    r = run([cxx, "-std=" + std, "-fsyntax-only", "-w", "-ferror-limit=0" if cxx == "clang++" else "-fmax-errors=0", *flags, *[x for i in inc for x in ("-I", i)], "-I", cxx_include_dir(), path])
    bad = {}
    for m in re.finditer(r"%s:(\d+):\d+: (?:fatal )?error: (.*)" % re.escape(path), r.err): bad.setdefault(int(m.group(1)) - 1, m.group(2))
    # an error inside a header is attributed to the line that led to it
    if r.rc and not bad: raise InfraError(name + ": " + r.err[:2000])
    return bad
import re
