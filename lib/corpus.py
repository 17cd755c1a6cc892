"""Inputs for the generator: a corpus, a tokenizer and mutations."""
import glob, os, random, re
from common import REPO
import bridgegen

TOK = re.compile(r'''
  (?P<doc>///(?!/)[^\n]*|//![^\n]*)
 |(?P<com>//[^\n]*)
 |(?P<str>b?"(?:\\.|[^"\\])*"|r\#*"(?:.|\n)*?"\#*)
 |(?P<chr>'(?:\\[^u']|\\u\{[^}]*\}|[^\\'\n])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>r\#[A-Za-z_]\w*|[^\W\d]\w*)
 |(?P<num>\d[\w]*(?:\.\d\w*)?)
 |(?P<ws>\s+)
 |(?P<op>::|->|=>|\.\.\.|\.\.=|\.\.|==|!=|<=|>=|&&|\|\||[-+*/%^&|<>=!@.,;:\#$?~(){}\[\]\\'"`])
 |(?P<other>.)
''', re.X | re.S)


def tokens(text):
    """-> list of (kind, text); block comments are kept as one 'com' token."""
    out, i = [], 0
    while i < len(text):
        if text.startswith("/*", i):
            depth, j = 0, i
            while j < len(text):
                if text.startswith("/*", j): depth += 1; j += 2
                elif text.startswith("*/", j):
                    depth -= 1; j += 2
                    if not depth: break
                else: j += 1
            t = text[i:j]
            out.append(("doc" if re.match(r"/\*[*!]", t) and not re.match(r"/\*\*[*/]", t) else "com", t)); i = j; continue
        m = TOK.match(text, i)
        out.append((m.lastgroup, m.group())); i = m.end()
    return out


def seeds(rng=None, generated=8):
    """(name, text): the repository's own bridges and units of the bridge generator."""
    out = []
    for p in ("tests/ffi/lib.rs", "tests/ffi/module.rs", "tests/ffi/cast.rs", "demo/src/main.rs"):
        p = os.path.join(REPO, p)
        if os.path.exists(p): out.append((p, open(p).read()))
    for p in sorted(glob.glob(os.path.join(REPO, "tests/ui/*.rs"))): out.append((p, open(p).read()))
    if rng:
        for k in range(generated):
            u = bridgegen_texts(rng, k)
            out += [("gen%d.%d" % (k, i), t) for i, t in enumerate(u)]
    return out


def bridgegen_texts(rng, k):
    import progs
    u = progs.unit_random(rng.getrandbits(40), 20)
    return [t for n, t in u.emit().items() if re.fullmatch(r"ffi\d+\.rs", n)]


ATOMS = ("bool char u8 i8 u16 i16 u32 i32 u64 i64 usize isize f32 f64 u128 String str CxxString CxxVector Vec Box Option Result Pin UniquePtr SharedPtr WeakPtr Self self static const mut ref fn unsafe extern "
         "impl struct enum type use mod pub crate where dyn for async await move T R S C D 'a 'static '_ std core cxx namespace cxx_name rust_name include derive repr cfg all any not doc allow deny feature Clone Copy Debug Default Eq Ord "
         "PartialEq PartialOrd Hash ExternType true false 0 1 2 255 256 -1 1u8 0xff 18446744073709551616 1.5 r#type r#fn operator class template union").split()
PUNCT = ":: -> => , ; : # ! & && * + - = < > ? . .. ... @ $ | / % ^ ~ _ ( ) { } [ ] () {} [] <> <'a> [u8; 2] &[u8] &mut Pin<&mut \"C++\" \"Rust\" \"C\" \"\" \"a::b\" \"a b\" \"é\" \"\\0\" \"\\u{1F600}\" b\"x\" r#\"x\"# 'x' '\\n' #[cxx::bridge] #![cxx::bridge] #[doc = \"x\"] ///x\n //!x\n /**x*/ unsafe{ extern\"C++\"{ #[repr(u8)] #[derive(Clone)] #[cfg(a)] é 日本 \u00a0 \u200b 🦀".split(" ")


def groups(toks):
    """Balanced delimiter groups as (start, end) index pairs."""
    st, out = [], []
    pair = {")": "(", "]": "[", "}": "{"}
    for i, (k, t) in enumerate(toks):
        if t in ("(", "[", "{") and k == "op": st.append((t, i))
        elif t in pair and k == "op":
            if st and st[-1][0] == pair[t]: out.append((st.pop()[1], i))
    return out


def mutate(rng, toks, other):
    """One to several edits of a token list."""
    t = list(toks)
    n = rng.choice([1, 1, 1, 1, 1, 2, 2, 3, 5])
    for _ in range(n):
        keep = rng.random() < .92   # leave delimiters balanced
        sig = [i for i, (k, x) in enumerate(t) if k not in ("ws", "com") and not (keep and (x in "()[]{}" or k == "x"))]
        if not sig: break
        i = rng.choice(sig); k = rng.random()
        if k < .13: del t[i]
        elif k < .22: t.insert(i, t[i])
        elif k < .32:
            j = rng.choice(sig); t[i], t[j] = t[j], t[i]
        elif k < .40: t[i] = ("x", " " + rng.choice(ATOMS) + " ")
        elif k < .52:
            same = [x for x in other if x[0] == t[i][0]] or [t[i]]
            t[i] = rng.choice(same if t[i][0] in ("id", "str", "num", "life", "op") else other)
            if keep and t[i][1] in "()[]{}": t[i] = ("op", ",")
        elif k < .62: t.insert(i, ("x", " " + rng.choice([p for p in PUNCT if not keep or p[-1] not in "([{" and p[0] not in ")]}"]) + " "))
        elif k < .70: t[i] = rng.choice([x for x in other if x[0] not in ("ws", "com")])
        elif k < .76 and t[i][0] == "id": t[i:i + 1] = [("x", rng.choice(["Box<%s>", "Vec<%s>", "UniquePtr<%s>", "SharedPtr<%s>", "WeakPtr<%s>", "CxxVector<%s>", "&%s", "&mut %s", "Pin<&mut %s>", "[%s; 3]", "&[%s]", "&mut [%s]", "Result<%s>", "Option<%s>", "*const %s", "*mut %s", "fn(%s) -> %s", "(%s)", "&'a %s", "dyn %s", "impl %s", "%s<'a>", "%s<u8>", "self::%s", "crate::%s"]).replace("%s", t[i][1]))]
        else:
            g = groups(t)
            if not g: continue
            a, b = rng.choice(g)
            q = rng.random()
            if q < .25: del t[a:b + 1]
            elif q < .4: del t[a + 1:b]
            elif q < .6: t[b + 1:b + 1] = t[a:b + 1]
            elif q < .75:
                og = groups(other)
                if og:
                    c, d = rng.choice(og); t[a:b + 1] = other[c:d + 1]
            elif q < .85:
                # swap two children separated by the same punctuation
                inner = [j for j in range(a + 1, b) if t[j][1] in (",", ";")]
                if len(inner) >= 2:
                    x, y = sorted(rng.sample(inner, 2)); t[a + 1:b] = t[x + 1:y] + [t[x]] + t[a + 1:x] + t[y:b]
            else:
                op = rng.choice(["()", "[]", "{}"]); t[a] = ("op", op[0]); t[b] = ("op", op[1])
    return "".join(x for _, x in t)


def damage(rng, text):
    """Byte-level damage."""
    if not text: return text
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(text) + 1); k = rng.random()
        if k < .3: text = text[:i]
        elif k < .5: text = text[:i] + text[i + rng.randrange(1, 30):]
        elif k < .8: text = text[:i] + rng.choice(["\"", "'", "/*", "*/", "//", "\r\n", "\r", "\t", "\0", "\ufeff", "é", "\u2028", "🦀", "\x7f", "#", "}", "{", "(", ")", "r#\"", "\\", "b'", "c\"", "0x", "1e", "$", "`", "'a"]) + text[i:]
        else:
            j = rng.randrange(len(text) + 1); a, b = min(i, j), max(i, j)
            text = text[:b] + text[a:b][:400] + text[b:]
    return text


def reformat(rng, toks, crlf=False):
    """The same tokens with other whitespace and comments (documentation kept)."""
    out = []
    def gap(must):
        k = rng.random()
        if k < .25: return rng.choice([" ", "  ", "\t", "\n", "\n\n    ", " \t "])
        if k < .4: return rng.choice([" /* c */ ", "/**/ ", " // x \" ' { (\n", " /* a /* nested */ \" b */ ", "\n//// four\n", " /*** three */ ", " /* é 日本 */ "])
        return rng.choice([" ", "\n"]) if must else ""
    prev = None
    for n, (k, t) in enumerate(toks):
        if t in "![" and out and out[-1] in "#!" and k == "op": out.append(t); prev = "tok"; continue
        if k == "com": prev = "com"; continue
        if k == "ws": prev = "ws" if prev != "com" else prev; continue
        if out:
            joined = prev not in ("ws", "com")
            last = out[-1]
            if last.startswith("//"): out.append("\n" + gap(False))
            elif joined:
                # adjacent in the original: only split around delimiters and commas
                if t in "(){}[],;" or last in "(){}[],;": out.append(gap(False))
            else:
                need = not (t in "(){}[],;" or last in "(){}[],;")
                out.append(gap(need))
        out.append(t); prev = "tok"
    s = "".join(out)
    return s + rng.choice(["", "\n", " // end", "\n/* end */\n"])
