"""Every type expression up to a depth, in every position of a bridge, and whether the bridge may contain it there.

The verdict is computed here from the documented type rules, independently of
the code under test.  Lifetime slots are written @."""
import itertools, random, re

PRIM = ["bool", "c_char", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "f32", "f64"]
NAMED = {"Sh": "shared", "Lt<@>": "shared", "En": "shared", "T": "cxx", "Cx<@>": "cxx", "R": "rust", "Ru<@>": "rust", "Nope": "undeclared"}
BASES = ["u8", "usize", "f64", "bool", "c_char", "String", "CxxString", "str", "()", *NAMED]


class X:
    """A type expression: (constructor, argument)."""
    __slots__ = ("c", "a")
    def __init__(s, c, a=None): s.c, s.a = c, a
    def text(s):
        c, a = s.c, s.a
        if a is None: return c
        t = a.text()
        return {"&": "&@ %s", "&mut": "&@mut %s", "Pin&mut": "Pin<&@mut %s>", "Pin&": "Pin<&@ %s>", "*const": "*const %s", "*mut": "*mut %s", "&[]": "&@ [%s]", "&mut[]": "&@mut [%s]", "[;]": "[%s; 3]", "[]": "[%s]",
                "fn(x)": "fn(%s)", "fn->": "fn() -> %s", "unsafe fn(x)": "unsafe fn(%s)", "(,)": "(%s, u8)", "cxx::": "cxx::UniquePtr<%s>", "ufn->R": "fn() -> Result<%s>", "::": "::std::boxed::Box<%s>"}.get(c, c + "<%s>") % t
    def slots(s): return s.text().count("@")
    def depth(s): return 0 if s.a is None else 1 + s.a.depth()
    def ctors(s): return (s.c,) if s.a is None else (s.c,) + s.a.ctors()

CTORS = ["Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector", "&", "&mut", "Pin&mut", "Pin&", "*const", "*mut", "&[]", "&mut[]", "[;]", "fn(x)", "fn->", "unsafe fn(x)"]
ODD = ["[]", "(,)", "Option", "Result", "ufn->R", "Arc", "Pin", "cxx::", "::"]


def kind(x): return NAMED.get(x.c) if x.a is None else None
def leaf(x): return x.a is None
def opaque(x): return leaf(x) and (x.c == "CxxString" or kind(x) == "cxx")     # C++ types that Rust may not move


def parse_reasons(x):
    """What the parser itself does not understand."""
    if leaf(x): return []
    r = parse_reasons(x.a.a if x.c == "fn->" and x.a.c == "Result" and not leaf(x.a) else x.a)
    if x.c in ("[]", "(,)", "Option", "Arc", "Result", "cxx::", "::"): r = r + ["not a bridge type: " + x.c]
    if x.c == "Pin": r = r + ["Pin of something that is not a reference"]
    if x.c in ("&mut", "Pin&mut") and x.a.c == "str" and leaf(x.a): r = r + ["&mut str"]
    if x.c == "Pin&" and x.a.c == "str" and leaf(x.a): r = r + ["Pin of a str"]
    return r


def sized(x):
    """May be moved by value over the bridge."""
    if leaf(x): return not (opaque(x) or kind(x) == "rust" or x.c in ("str", "()"))
    if x.c == "[;]": return sized(x.a)
    return not (x.c == "CxxVector" or isfn(x))

def isfn(x): return x.c in ("fn(x)", "fn->", "unsafe fn(x)", "ufn->R")
def isptr(x): return x.c in ("*const", "*mut")
def isref(x): return x.c in ("&", "&mut", "Pin&", "Pin&mut") and not (leaf(x.a) and x.a.c == "str")


def reasons(x):
    """Why the type can occur nowhere."""
    r = []
    if leaf(x):
        if kind(x) == "undeclared": r.append("undeclared")
        if x.c == "str": r.append("bare str")
        return r
    a, c = x.a, x.c
    if c == "fn->" and a.c == "Result" and not leaf(a): return reasons(a.a) + ["fallible function pointer"]
    # &str is a type of its own
    if not (c == "&" and a.c == "str"): r += reasons(a) if not (a.c == "()" and leaf(a)) else []
    user = kind(a) in ("shared", "undeclared")
    if c == "Box" and not (user or kind(a) == "rust"): r.append("Box element")
    if c == "Vec" and not (user or kind(a) == "rust" or leaf(a) and (a.c in PRIM or a.c == "String") or a.c == "&" and a.a.c == "str"): r.append("Vec element")
    if c == "UniquePtr" and not (user or kind(a) == "cxx" or leaf(a) and a.c == "CxxString" or a.c == "CxxVector"): r.append("UniquePtr target")
    if c in ("SharedPtr", "WeakPtr") and not (user or kind(a) == "cxx" or leaf(a) and (a.c in PRIM and a.c != "c_char" or a.c == "CxxString")): r.append("shared_ptr target")
    if c == "CxxVector" and not (user or kind(a) == "cxx" or leaf(a) and (a.c in PRIM and a.c not in ("c_char", "bool") or a.c == "CxxString")): r.append("vector element")
    if c in ("&", "&mut", "Pin&", "Pin&mut", "*const", "*mut"):
        if isfn(a) or leaf(a) and a.c == "()" or isref(a): r.append("pointee")
        if c == "&mut" and (opaque(a) or a.c == "CxxVector"): r.append("unpinned")
    if c in ("Pin&", "Pin&mut") and (a.c == "Vec" or leaf(a) and a.c == "String"): r.append("pinned String or Vec")
    if c in ("&[]", "&mut[]") and not (sized(a) or kind(a) == "rust"): r.append("slice element")
    if c in ("[;]", "&[]", "&mut[]") and isref(a): r.append("C++ has no arrays of references")
    if c == "[;]" and not sized(a): r.append("array element")
    if c == "fn(x)" and isptr(a): r.append("safe function pointer with a pointer")
    if c in ("fn(x)", "unsafe fn(x)") and not sized(a): r.append("argument of a function pointer")
    if c == "fn->" and not sized(a) and not (leaf(a) and a.c == "()"): r.append("result of a function pointer")
    if c == "ufn->R": r.append("fallible function pointer")
    return r


def faults_at(x, pos):
    return faults(x) | ({pos + x.text()} if pos in ("fn-arg", "unsafe-fn-arg", "fn-ret") else set())

def faults(x):
    """The parts of the type that are wrong wherever they occur; an error in one of these is reported once for all its occurrences."""
    out = {x.text()} if reasons(x) else set()
    return out | (faults(x.a) if x.a else set())


def fill(t, lt): return re.sub("@ ?|@", lambda m: lt and (lt + (" " if m.group(0) == "@ " else "")) or "", t.replace("&@mut", "&@ mut"))


# position: (declaration with %(n)s and %(x)s, lifetime in the type, language)
POSITIONS = {
    "field": ("struct F%(n)s%(g)s { x: %(x)s, k: u8 }", "'a", "shared"),
    "rust-arg": ("fn f%(n)s(x: %(x)s);", "", "Rust"),
    "rust-unsafe-arg": ("unsafe fn f%(n)s(a: u8, x: %(x)s);", "", "Rust"),
    "rust-ret": ("fn f%(n)s(s: &mut u8) -> %(x)s;", "", "Rust"),
    "rust-result": ("fn f%(n)s(s: &mut u8) -> Result<%(x)s>;", "", "Rust"),
    "rust-method-arg": ("fn f%(n)s(self: &R, x: %(x)s);", "", "Rust"),
    "rust-method-ret": ("fn f%(n)s(self: &mut R) -> %(x)s;", "", "Rust"),
    "cxx-arg": ("fn f%(n)s(x: %(x)s);", "", "C++"),
    "cxx-unsafe-arg": ("unsafe fn f%(n)s(x: %(x)s, b: u8);", "", "C++"),
    "cxx-ret": ("fn f%(n)s(s: &mut u8) -> %(x)s;", "", "C++"),
    "cxx-result": ("fn f%(n)s(s: &mut u8) -> Result<%(x)s>;", "", "C++"),
    "cxx-method-arg": ("fn f%(n)s(self: &T, x: %(x)s);", "", "C++"),
    "cxx-method-ret": ("fn f%(n)s(self: Pin<&mut T>) -> %(x)s;", "", "C++"),
    "fn-arg": ("fn f%(n)s(cb: fn(u8, %(x)s));", "", "C++"),
    "unsafe-fn-arg": ("fn f%(n)s(cb: unsafe fn(%(x)s) -> u8);", "", "C++"),
    "fn-ret": ("fn f%(n)s(cb: fn(&mut u8) -> %(x)s);", "", "C++"),
    "impl": ("impl%(g)s %(x)s {}", "'a", "impl"),
}


def verdict(x, pos):
    """(level, reasons): level parse, check or None."""
    p = parse_reasons(x)
    if pos == "fn-ret": x = X("fn->", x); p = parse_reasons(x); return ("parse", p) if p else ("check", reasons(x)) if reasons(x) or not leaf(x.a) and x.a.c == "Result" else (None, [])
    if pos in ("rust-ret", "rust-method-ret", "cxx-ret", "cxx-method-ret") and x.c == "Result" and not leaf(x): p = parse_reasons(x.a); inner = x.a
    else: inner = x
    if p: return "parse", p
    x = inner; ret = pos.endswith(("-ret", "-result"))
    r = reasons(x) if not (ret and leaf(x) and x.c == "()") else []
    if pos == "impl":
        ok = x.c in ("Box", "Vec", "UniquePtr", "SharedPtr", "WeakPtr", "CxxVector") and kind(x.a)
        if not ok: r = r + ["not an explicit impl"]
        return ("check" if r else None), r
    if ret:
        if leaf(x) and x.c == "()": pass
        elif not sized(x): r = r + ["returned by value"]
    elif pos in ("cxx-arg", "cxx-unsafe-arg", "cxx-method-arg") and isfn(x): pass
    elif not sized(x): r = r + ["passed by value"]
    if isptr(x) and pos in ("rust-arg", "rust-method-arg", "cxx-arg", "cxx-method-arg", "fn-arg"): r = r + ["pointer in a safe function"]
    return ("check" if r else None), r


def decl(x, pos, n):
    t, lt, lang = POSITIONS[pos]; tx = x.text()
    return t % {"n": n, "x": fill(tx, lt), "g": "<'a>" if lt and "@" in tx else ""}


def types(depth, odd=True):
    cs = CTORS + (ODD if odd else [])
    level = [X(b) for b in BASES]; out = list(level)
    for _ in range(depth):
        level = [X(c, a) for a in level for c in cs if not same(c, a)]; out += level
    return out


def same(c, a):
    """Written like another type of this grammar."""
    return not leaf(a) and (c == "Pin" and a.c in ("&", "&mut") or c in ("&", "&mut") and a.c == "[]")


def random_type(r, depth):
    x = X(r.choice(BASES + PRIM))
    for _ in range(depth):
        c = r.choice(CTORS if r.random() < .95 else ODD)
        if not same(c, x): x = X(c, x)
    return x


ENV_RUST = "type R; type Ru<'a>;"
ENV_CXX = "type T; type Cx<'a>;"
ENV_TYPES = "struct Sh { x: u8 } struct Lt<'a> { s: &'a str } #[repr(u8)] enum En { A }"


def bridge(items):
    """items: list of (language, line).  Returns the text and the line of every item (from 1)."""
    lines = ["#[cxx::bridge]", "pub mod ffi {", ENV_TYPES]; at = {}
    by = {"shared": [], "Rust": [], "C++": [], "impl": []}
    for i, (l, t) in enumerate(items): by[l].append((i, t))
    def put(ls):
        for i, t in ls: lines.append(t); at[i] = len(lines)
    put(by["shared"])
    lines.append('extern "Rust" { ' + ENV_RUST); put(by["Rust"]); lines.append("}")
    lines.append('unsafe extern "C++" { ' + ENV_CXX); put(by["C++"]); lines.append("}")
    put(by["impl"]); lines.append("}")
    return "\n".join(lines) + "\n", at


IMPL_ENV = "impl UniquePtr<T> {} impl UniquePtr<Cx<'_>> {}"

def implementation(items):
    """Rust side of the extern "Rust" functions, one per line, as written in the declaration."""
    out = []
    for l, t in items:
        if l != "Rust": out.append(""); continue
        d = t.rstrip(";").replace("Result<", "std::result::Result<") if False else t.rstrip(";")
        d = re.sub(r"-> Result<(.*)>$", r"-> Result<\1, String>", d)
        m = re.search(r"self: (&(?:mut )?)(\w+)", d)
        out.append("impl %s { pub %s { loop {} } }" % (m.group(2), d) if m else "pub %s { loop {} }" % d)
    return "\n".join(out)


def compilable(x):
    """Rust itself has no way to write it: a function pointer without arguments that returns a borrowed value."""
    return leaf(x) or not (x.c == "fn->" and x.slots()) and compilable(x.a)


CXXPRIM = {"bool": "bool", "c_char": "char", "u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t", "u64": "std::uint64_t", "usize": "std::size_t", "i8": "std::int8_t", "i16": "std::int16_t",
           "i32": "std::int32_t", "i64": "std::int64_t", "isize": "rust::isize", "f32": "float", "f64": "double", "String": "rust::String", "CxxString": "std::string", "()": "void"}
GENERIC = {"Box": "rust::Box", "Vec": "rust::Vec", "UniquePtr": "std::unique_ptr", "SharedPtr": "std::shared_ptr", "WeakPtr": "std::weak_ptr", "CxxVector": "std::vector"}


def cx(x):
    """How C++ has to write the type."""
    if leaf(x): return CXXPRIM.get(x.c) or "::" + x.c.split("<")[0]
    c, a = x.c, x.a
    if c == "&" and leaf(a) and a.c == "str": return "rust::Str"
    t = cx(a)
    if c in GENERIC: return "%s<%s>" % (GENERIC[c], t)
    if c in ("&", "Pin&"): return t + " const &"
    if c in ("&mut", "Pin&mut"): return t + " &"
    if c == "*const": return t + " const *"
    if c == "*mut": return t + " *"
    if c == "&[]": return "rust::Slice<%s const>" % t
    if c == "&mut[]": return "rust::Slice<%s>" % t
    if c == "[;]": return "std::array<%s, 3>" % t
    if c in ("fn(x)", "unsafe fn(x)"): return "rust::Fn<void(%s)>" % t
    if c == "fn->": return "rust::Fn<%s()>" % t
    if c == "Result": return t


def cxx_decl(x, pos, n):
    """The C++ declaration that the item refers to: (class or None, text)."""
    if not pos.startswith(("cxx", "fn", "unsafe-fn")): return None, ""
    if pos == "cxx-arg": return None, "void f%s(%s);" % (n, cx(x))
    if pos == "cxx-unsafe-arg": return None, "void f%s(%s, std::uint8_t);" % (n, cx(x))
    if pos in ("cxx-ret", "cxx-result"): return None, "%s f%s(std::uint8_t &);" % (cx(x), n)
    if pos == "cxx-method-arg": return "T", "void f%s(%s) const;" % (n, cx(x))
    if pos == "cxx-method-ret": return "T", "%s f%s();" % (cx(x), n)
    if pos == "fn-arg": return None, "void f%s(rust::Fn<void(std::uint8_t, %s)>);" % (n, cx(x))
    if pos == "unsafe-fn-arg": return None, "void f%s(rust::Fn<std::uint8_t(%s)>);" % (n, cx(x))
    if pos == "fn-ret": return None, "void f%s(rust::Fn<%s(std::uint8_t &)>);" % (n, cx(x))


def user_header(batch):
    """Classes and functions that the C++ side of the items needs."""
    ds = [cxx_decl(x, p, k) for k, (x, p) in enumerate(batch)]
    return ("#pragma once\n#include \"rust/cxx.h\"\n#include <memory>\n#include <string>\n#include <vector>\n#include <array>\n"
            "struct Sh; struct Lt; enum class En : std::uint8_t; struct R; struct Ru; struct T; struct Cx { int i; };\n" +
            "struct T { int i;\n%s };\n" % "".join(t + "\n" if c else "\n" for c, t in ds) + "\n".join(t for c, t in ds if not c and t) + "\n")
