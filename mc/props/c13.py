"""C13 Definition parsing ignores comments, spacing and order of unrelated definitions; aliases resolve or fail properly."""
from __future__ import annotations

import builtins
import enum
import re
from io import BytesIO
from itertools import combinations, product

from dissect.cstruct import compiler, cstruct
from dissect.cstruct.exceptions import ResolveError

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.c14 import snap
from mc.ref import Cfg
from mc.space import ENV

PROP = "C13"
LIMIT = 300
RULE = ("every token boundary of every definition text (hand-written texts covering the grammar, every atom / special of the "
        "program space) x comment and whitespace fillers, added to or replacing the existing space; all pairs of boundaries "
        "on the short texts; all boundaries at once; all dependency-respecting orders of definition sets x all splits over "
        "consecutive load() calls; all alias graphs over 4 names (thorough: 5); all re-declarations of one name by two "
        "declarations out of 30; every built-in synonym; names, layout, members and parse results compared with the plain "
        "text, alias outcomes with a graph model")
TECHNIQUE = ("bounded explicit-state model checking: exhaustive enumeration of insertions, orders, load() histories and alias "
             "graphs, executed on the real parser; oracle: plain text / graph-reachability model / declared targets")
ASSUMPTIONS = ["inside array brackets and #define lines spacing is significant", "alias chains are shorter than 10 (pinned by the suite)",
               "the numbers in the internal names of anonymous structures are not part of the observable result"]

WORD = re.compile(r"[A-Za-z0-9_]")
TOKEN = re.compile(r"#define[^\n]*\n|#\[[^\]]*\]|\[[^;\n]*?\](?!\s*\[)|\[[^;\n\]]*\]|[A-Za-z_]\w*|\d\w*|<<|>>|'[^'\n]*'|\"[^\"\n]*\"|\$\w+|[^\s\w]")

FILLERS = [" ", "\t", "\n", "\r\n", "\f", "\v", " \n\n\t ", "/**/", "/*c*/", "/* ; */", "/* } */", "/* { */", "/* struct X { int q; }; */",
           "/* it's */", '/* a "q */', "/* // */", "/*\n*/", "/* x\n * y ***/", "/* /* */", "//x\n", "// it's; }\n", "//\n", "// /*\n",
           "// */\r\n", "/* #define A 7 */", "/*\n#define CN 9\n*/", "// #define CN 8\n", "/* enum E8 { A = 1 }; */", "/*a*//*b*/", "/*a*/\n//b\n",
           "/* \\*/", "//\\ \n", "/* [3] */", "/* , */", "/* : 3 */", "/* = */", "/* \u00e9 */", "/* $a = { } */", "/*/ */"]
SHORTFILL = ["\n", "/*c*/", "// it's\n"]
PROGFILL = [" ", "\n", "/*c*/", "//x\n", "/* ; */", "\t", "/* } */", "// it's; }\n", "\r\n", "/*\n*/", "/**/", "\f", "/* // */", "// /*\n"]

# texts which cover the grammar
TEXTS = {
    "struct": "struct S { uint8 a; uint16 b; char c[3]; };",
    "structs": "struct A { uint8 x; }; struct B { A a; A b[2]; struct A c; uint8 *p; A **q; };",
    "words": "struct S { unsigned int a; unsigned long long b; signed char c; long d; unsigned __int64 e[2]; unsigned short *f; long long int_; };",
    "typedef": "typedef unsigned int myint; typedef myint other; typedef myint *pmy; typedef other arr_t[4]; struct S { other a; pmy b; arr_t c; };",
    "typedefs": "typedef struct { uint8 a; } A, B, C; typedef struct D_ { uint8 a; C c; } D, E; struct S { A a; B b; D_ c; E d; };",
    "typedef1": "typedef struct _N { uint32 v; } N; typedef struct _N M; struct S { N n; struct _N m; M k; };",
    "typeptr": "typedef struct { uint8 a; } *pA; struct S { pA p; };",
    "typeun": "typedef union { uint8 a[4]; uint32 b; } U; typedef union V_ { U u; uint16 w; } V; struct S { U a; V b; };",
    "names": "struct A { uint8 x; } B, C; struct { uint16 y; } D; union U { uint8 a; uint16 b; } W; struct S { A a; B b; C c; D d; W w; };",
    "enum": "enum E { A, B = 5, C, D = ( B + 1 ) * 2 } ; enum F : uint8 { X = 0x10 , Y = -1 , Z } ; struct S { E e; F f[2]; };",
    "enum2": "enum E : unsigned short { A = 1 << 4, B = A | 3, C = ~ 0 & 0xff, D = sizeof ( uint32 ) , G = sizeof(unsigned int) + 1, };\nstruct S { E e; };",
    "flag": "flag F { A, B, C = 0x10, D } ; flag G : uint8 { P = 1, Q = P << 3, R }; struct S { F f; G g : 4; G h : 4; };",
    "enumanon": "enum { ONE = 1, TWO, TEN = 10 }; enum : uint8 { LOW = 3 }; flag { FA, FB }; struct S { uint8 a[TWO]; };",
    "enumlines": "enum E { A\n B = 4\n C\n D = 9, G\n };\nstruct S { E e; };",
    "bits": "struct S { uint8 a : 3; uint8 b : 5; uint16 c:4; uint16 d:12; uint32 e : 1; };",
    "anon": "struct S { uint8 a; struct { uint8 x; union { uint16 y; uint8 z[2]; }; }; union { uint32 k; struct { uint16 l; uint16 m; }; }; };",
    "inner": "struct S { struct In { uint8 x; } in; struct { uint16 y; } an; union { uint8 p; uint16 q; } un[2]; struct In2 { uint8 z; } *ptr; };",
    "arrays": "struct S { uint8 n; uint8 a[n]; uint16 b[2][3]; char c[]; uint8 d[n * 2 + 1] [2]; char *e[2]; wchar f[NULL_]; };",
    "define": "#define CN 3\n#define HEX 0x10\n#define STR \"a//b\"\n#define SUM (CN + HEX)\nstruct S { uint8 a[CN]; uint8 b[SUM]; };\n#define LAST 'q'\n",
    "selfptr": "struct L { uint8 v; struct L *next; L *prev; L **all; }; struct T { L l; struct T *t[2]; };",
    "config": "#[nocompile]\nstruct A { uint8 a; };\n#[compile, x]\nstruct B { uint16 a; };\nstruct C { A a; B b; };",
    "lookup": "#define KA 1\n#define KB 2\n$look = { 'KA' : 5, 'KB' : 6 }\nstruct S { uint8 a; };",
    "keyword": "struct structure { uint8 struct_; uint8 unionx; uint8 typedefs; uint8 enumx; uint8 flags; uint8 flag; uint8 define; }; "
               "typedef structure typedef_t; union union_u { uint8 enum_; uint16 _struct; }; struct structstruct { typedef_t a; union_u b; };",
    "keyword2": "typedef uint8 enum_t; typedef uint16 struct_t; enum enum_e : uint8 { struct_m, flag, enumm }; flag flag_f { union_m }; "
                "struct S { enum_t flag; struct_t enumx : 4; struct_t flagx : 12; enum_e flag_[2]; flag_f e; };",
    "dyn": "struct D { uint8 n; char s[n]; }; struct S { uint16 c; D d[c & 3]; uint8 z[sizeof(D_) - 1]; }; struct D_ { uint32 q; };",
    "empty": "struct E { }; union EU { }; struct S { E e; uint8 a; };",
    "deref": "typedef uint8 *bp; typedef bp *bpp; typedef uint8 mat[2][3]; struct S { bp a; bpp b; mat c; mat *d; bp e[2]; };",
    "digits": "struct S1 { uint8 _1; uint8 a1b2; uint8 _; uint16 __x__[0x2]; uint8 x9[010]; };",
    "leb": "struct S { uleb128 a; ileb128 b; int24 c; uint128 d; float16 e; double f; wchar g; void h; };",
    "oneline": "struct A{uint8 a;};struct B{A a;A*p;uint8 b[2];}; enum E{X,Y};flag F{P,Q};typedef A C;union U{uint8 a;};",
}
SHORT = ("struct", "typedef1", "typeptr", "bits", "enumanon", "config", "flag", "empty", "typeun", "oneline")

# what some of the texts declare: type -> (size, fields), so that the base text isn't misread in the same way
EXPECT = {
    "struct": {"S": (6, [("a", "uint8", 0), ("b", "uint16", 1), ("c", "char[3]", 3)])},
    "structs": {"B": (20, [("a", "A", 0), ("b", "A[2]", 1), ("c", "A", 3), ("p", "uint8*", 4), ("q", "A**", 12)])},
    "words": {"S": (49, [("a", "uint32", 0), ("b", "uint64", 4), ("c", "int8", 12), ("d", "int32", 13), ("e", "uint64[2]", 17),
                         ("f", "uint16*", 33), ("int_", "int64", 41)])},
    "typedef": {"S": (28, [("a", "uint32", 0), ("b", "uint32*", 4), ("c", "uint32[4]", 12)])},
    "typedefs": {"S": (6, [("a", "A", 0), ("b", "A", 1), ("c", "D_", 2), ("d", "D_", 4)])},
    "typedef1": {"S": (12, [("n", "_N", 0), ("m", "_N", 4), ("k", "_N", 8)])},
    "names": {"S": (7, [("a", "A", 0), ("b", "A", 1), ("c", "A", 2), ("d", "D", 3), ("w", "U", 5)])},
    "keyword": {"structure": (7, [(n, "uint8", i) for i, n in enumerate(("struct_", "unionx", "typedefs", "enumx", "flags", "flag", "define"))]),
                "structstruct": (9, [("a", "structure", 0), ("b", "union_u", 7)])},
    "bits": {"S": (7, [("a", "uint8", 0), ("b", "uint8", None), ("c", "uint16", 1), ("d", "uint16", None), ("e", "uint32", 3)])},
    "define": {"S": (22, [("a", "uint8[3]", 0), ("b", "uint8[19]", 3)])},
    "deref": {"S": (46, [("a", "uint8*", 0), ("b", "uint8**", 8), ("c", "uint8[3][2]", 16), ("d", "uint8[3][2]*", 22), ("e", "uint8*[2]", 30)])},
}
MEMBERS = {
    ("enum", "E"): {"A": 0, "B": 5, "C": 6, "D": 12}, ("enum", "F"): {"X": 16, "Y": -1, "Z": 0},
    ("enum2", "E"): {"A": 16, "B": 19, "C": 255, "D": 4, "G": 5},
    ("flag", "F"): {"A": 1, "B": 2, "C": 16, "D": 32}, ("flag", "G"): {"P": 1, "Q": 8, "R": 16},
    ("enumlines", "E"): {"A": 0, "B": 4, "C": 5, "D": 9, "G": 10},
    ("keyword2", "enum_e"): {"struct_m": 0, "flag": 1, "enumm": 2},
}
CONSTS = {"enumanon": {"ONE": 1, "TWO": 2, "TEN": 10, "LOW": 3, "FA": 1, "FB": 2},
          "define": {"CN": 3, "HEX": 16, "STR": "a//b", "SUM": 19, "LAST": "q"}}

# definition sets: name -> list of (definition, names it needs); every order that declares before use is explored
SETS = {
    "mixed": [("#define CN 3\n", "CN", ""), ("enum E : uint8 { A, B = 3 };", "E", ""), ("struct P { uint8 x; uint16 y; };", "P", ""),
              ("typedef uint32 tt;", "tt", ""), ("struct T { uint8 a[CN]; E e; P p; tt t; };", "T", "CN E P tt"), ("union U { uint8 a; tt b; };", "U", "tt")],
    "chain": [("typedef uint8 a1;", "a1", ""), ("typedef a1 a2;", "a2", "a1"), ("typedef a2 a3[2];", "a3", "a2"),
              ("struct T { a1 x; a2 y; a3 z; };", "T", "a1 a2 a3"), ("typedef T *pT;", "pT", "T"), ("struct V { pT p; uint8 q; };", "V", "pT")],
    "anon": [("struct A { struct { uint8 x; }; uint8 y; };", "A", ""), ("struct B { struct { uint16 x; } s; union { uint8 p; uint16 q; }; };", "B", ""),
             ("typedef struct { uint8 a; } C, D;", "C D", ""), ("struct { uint8 m; } E;", "E", ""), ("enum { K1 = 1, K2 };", "K1 K2", ""),
             ("struct F { A a; D d[2]; E e; };", "F", "A D E")],
    "flags": [("flag F1 { A, B };", "F1", ""), ("flag F2 : uint16 { A, B, C = 0x100 };", "F2", ""), ("enum E1 : int8 { A = -1, B };", "E1", ""),
              ("struct S1 { F1 a; F2 b : 4; F2 c : 12; };", "S1", "F1 F2"), ("struct S2 { E1 e[2]; uint8 n; E1 f[n]; };", "S2", "E1")],
    "config": [("#[nocompile]\nstruct A { uint8 a; };", "A", ""), ("struct B { uint16 b; };", "B", ""), ("#[compile]\nstruct C { uint8 c : 3; };", "C", ""),
               ("struct D { B b; uint8 n; uint8 x[n]; };", "D", "B"), ("#[nocompile]\nunion E { A a; B b; };", "E", "A B")],
    "same": [("struct T1 { uint8 n; uint8 a[n]; };", "T1", ""), ("struct T2 { uint8 n; uint16 a[n]; };", "T2", ""),
             ("struct T3 { struct T3 *n; uint8 a; };", "T3", ""), ("#define n_ 4\n", "n_", ""), ("struct T4 { T1 a; T2 b[2]; };", "T4", "T1 T2"),
             ("typedef struct T5 { uint8 n; } T6, T7;", "T5", "")],
    "consts": [("#define A 1\n", "A", ""), ("#define B (A + 1)\n", "B", "A"), ("#define C 0x10\n", "C", ""), ("#define D \"text\"\n", "D", ""),
               ("$lk = {'A': 3}\n", "lk", "A"), ("struct S { uint8 a[B]; uint8 b[A + C]; };", "S", "A B C"), ("enum E { X = A + 4, Y };", "E", "A")],
    "typewords": [("typedef unsigned int ui;", "ui", ""), ("typedef unsigned long long ull;", "ull", ""), ("struct S { unsigned char a; ui b; };", "S", "ui"),
                  ("struct R { ull a; long long b; };", "R", "ull"), ("union Q { signed char a[3]; };", "Q", ""), ("typedef signed short sarr[3];", "sarr", "")],
}

REDECL = ["typedef uint8 X;", "typedef BYTE X;", "typedef uint8_t X;", "typedef UINT8 X;", "typedef int8 X;", "typedef char X;", "typedef uint16 X;",
          "typedef uint8 *X;", "typedef uint8 X[2];", "typedef uint8 X[3];", "typedef char X[2];", "struct X { uint8 a; };", "struct X { uint16 a; };",
          "typedef struct { uint8 a; } X;", "typedef struct X { uint8 a; } Y;", "typedef struct Z { uint8 a; } X;", "typedef struct OS X;",
          "typedef OS X;", "typedef OS2 X;", "union X { uint8 a; };", "enum X : uint8 { A };", "enum X : uint8 { B };", "flag X : uint8 { A };",
          "typedef OE X;", "typedef OE2 X;", "struct { uint8 b; } X;", "struct Q { uint8 b; } X;", "typedef DWORD X;", "typedef unsigned int X;", "typedef uint32 X;"]
PRE = "struct OS { uint8 a; }; typedef OS OS_; struct OS2 { uint8 a; }; enum OE : uint8 { A }; enum OE2 : uint8 { A };"
TARGET = {0: "uint8", 1: "uint8", 2: "uint8", 3: "uint8", 4: "int8", 5: "char", 6: "uint16", 16: "OS", 17: "OS", 18: "OS2", 23: "OE", 24: "OE2",
          27: "uint32", 28: "uint32", 29: "uint32"}

SYNONYMS = {
    "int8": "signed char|INT8|__int8|int8_t", "uint8": "BYTE|UCHAR|UINT8|unsigned __int8|uint8_t|_BYTE|u1|__u8|uchar",
    "char": "unsigned char|CHAR", "wchar": "WCHAR|wchar_t",
    "int16": "short|signed short|SHORT|INT16|__int16|int16_t", "uint16": "unsigned short|WORD|USHORT|UINT16|unsigned __int16|uint16_t|_WORD|u2|__u16|ushort",
    "int32": "int|signed int|long|signed long|LONG|LONG32|INT|INT32|__int32|int32_t",
    "uint32": "unsigned int|unsigned long|DWORD|ULONG|UINT|UINT32|unsigned __int32|uint32_t|_DWORD|u4|__u32|uint|ulong",
    "int64": "long long|signed long long|LONG64|LONGLONG|INT64|__int64|int64_t",
    "uint64": "unsigned long long|QWORD|ULONG64|ULONGLONG|UINT64|unsigned __int64|uint64_t|_QWORD|u8|__u64",
    "int128": "INT128|__int128|int128_t", "uint128": "OWORD|UINT128|unsigned __int128|uint128_t|_OWORD|u16",
}


def cases(tier):
    for name in TEXTS:
        for turn in range(4 if tier == "thorough" else 1):
            for part in range(8):
                yield ["insert", ["text", name], turn, part, 8]
    for key in prog_keys(tier):
        yield ["insert", ["prog", key, 6 if tier == "quick" else 14], 0, 0, 1]
    for name in TEXTS:
        yield ["everywhere", name]
    for name in SETS:
        for part in range(4):
            yield ["order", name, part, 4]
    for name in SHORT if tier == "quick" else TEXTS:
        for part in range(8 if tier == "quick" else 24):
            yield ["pairs", name, part, 8 if tier == "quick" else 24]
    for k in range(1, 5 if tier == "quick" else 6):
        for part in range(1 if k < 4 else 8 if k < 5 else 64):
            yield ["graph", k, part, 1 if k < 4 else 8 if k < 5 else 64]
    for i in range(len(REDECL)):
        yield ["redeclare", i]
    yield ["synonyms"]
    yield ["unknown"]
    for n in range(1, 10):
        yield ["chain", n]


def prog_keys(tier):
    out = []
    for key in space.keys("quick"):
        if key[0] == "p":
            if len(key[1]) == 1 or (tier == "thorough" and len(key[1]) == 2 and set(key[1]) <= set(space.CORE)):
                out.append(key)
        elif tier == "thorough" or not any(c in key[1] for c in "=["):
            out.append(key)
    limit = 170 if tier == "quick" else 400
    return [k for k in out if len(source(("prog", k))) < limit]


def show(case):
    return case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


# ---------------------------------------------------------------- observation
def clean(name):
    return re.sub(r"__anonymous_\d+__", "__anonymous__", name)


def sig(t, seen=()):
    """Everything observable about a type."""
    name = clean(t.__name__)
    if t in seen:
        return ("rec", name)
    seen = (*seen, t)
    if hasattr(t, "__fields__"):
        return ("struct", [b.__name__ for b in t.__mro__[1:3]], name, t.size, t.alignment, t.dynamic,
                [(f.name and clean(f.name), sig(f.type, seen), f.bits, f.offset) for f in t.__fields__], list(map(clean, t.fields)),
                list(map(clean, t.lookup)))
    if hasattr(t, "num_entries"):
        return ("array", name, sig(t.type, seen), repr(t.num_entries), t.null_terminated, t.size, t.alignment)
    if hasattr(t, "dereference"):
        return ("pointer", name, sig(t.type, seen), t.size)
    if issubclass(t, enum.Enum):
        return ("enum", [b.__name__ for b in t.__mro__[1:3]], name, t.type.__name__, [(k, int(m.value)) for k, m in t.__members__.items()])
    return ("type", name, t.size, t.alignment)


BUILTIN = frozenset(cstruct().typedefs)
BUILTIN_N = len(BUILTIN)
BYTES = [bytes([2, 1, 3, 0, 1, 2, 0, 5, 6, 7, 0, 9, 10, 0, 0]) * 16, bytes((i * 37 + 129) & 0xFF for i in range(200)), bytes(200)]


def constsig(v):
    if isinstance(v, enum.Enum):
        return type(v).__name__, v.name, v.value, sig(type(v))
    return type(v).__name__, v


def world(cs, parse=True):
    """The observable result of loading."""
    out = {}
    aliases = {}
    for name in cs.typedefs:
        if name in BUILTIN:
            continue
        t = cs.resolve(name)
        out[clean(name)] = sig(t)
        aliases.setdefault(t, []).append(clean(name))
        if parse and hasattr(t, "__fields__"):
            res = []
            for data in BYTES[:1] if parse == "one" else BYTES:
                try:
                    s = BytesIO(data)
                    o = t(s)
                    res.append((snapc(o), s.tell(), o.dumps() if parse != "one" and not has_dynamic_union(t) else None))
                except Exception as e:  # noqa: BLE001
                    res.append(type(e).__name__)
            out[clean(name)] = out[clean(name)], res
    if len(cs.typedefs) - len([n for n in cs.typedefs if n not in BUILTIN]) != BUILTIN_N:
        raise Violation("a built-in type has disappeared")
    return out, sorted(map(sorted, aliases.values())), {k: constsig(v) for k, v in cs.consts.items()}, {
        k: dict(v) for k, v in cs.lookups.items()}


def snapc(o):
    def tidy(v):
        if isinstance(v, tuple):
            return tuple(map(tidy, v))
        return clean(v) if isinstance(v, str) and v.startswith("__anon") else v
    return tidy(snap(o))


_compile = builtins.compile
_memo = {}


def _compile_once(source, filename, mode, *args, **kw):
    """Compiling the same generated source again gives the same code."""
    if isinstance(source, str) and not args and not kw:
        key = source, str(filename), mode
        code = _memo.get(key)
        if code is None:
            if len(_memo) > 5000:
                _memo.clear()
            code = _memo[key] = _compile(source, filename, mode)
        return code
    return _compile(source, filename, mode, *args, **kw)


if getattr(compiler, "python_compile", None) is _compile:
    compiler.python_compile = _compile_once


def has_dynamic_union(t):
    if hasattr(t, "__fields__"):
        return ("Union" in [b.__name__ for b in t.__mro__] and t.dynamic) or any(has_dynamic_union(f.type) for f in t.__fields__)
    return hasattr(t, "num_entries") and has_dynamic_union(t.type)


def loaded(text, comp, align, parse=True):
    cs = cstruct(endian="<", pointer="uint64")
    cs.load(text, compiled=comp, align=align)
    return world(cs, parse)


def variant(text, base, comp, align, st_, what, parse=True):
    st_.trans()
    try:
        got = loaded(text, comp, align, parse)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__}: {e}\n{text[:1500]}") from e
    if got != base:
        diff = [(k, got[i].get(k), base[i].get(k)) for i in (0, 2, 3) for k in {*got[i], *base[i]} if got[i].get(k) != base[i].get(k)]
        raise Violation(f"{what}: result differs: {str(diff or (got[1], base[1]))[:700]}\n{text[:1500]}")


# ---------------------------------------------------------------- insertions
def tokens(text):
    """Tokens with the default space in front of each, and whether the boundary may be changed."""
    out = []
    pos = 0
    while True:
        while pos < len(text) and text[pos].isspace():
            pos += 1
        if pos >= len(text):
            return out
        m = TOKEN.match(text, pos)
        out.append(m.group())
        pos = m.end()


def gaps(toks, text):
    """Minimal separators: gap i is in front of token i, the last one is behind the last token."""
    out = [""]
    depth = None
    for i, (a, b) in enumerate(zip(toks, toks[1:])):
        sep = ""
        if WORD.match(a[-1]) and WORD.match(b[0]):
            sep = " "
        if a.startswith("#["):
            sep = "\n"
        if a.startswith("$"):
            depth = 0
        if depth is not None and "=" in (a, b):
            sep = " "
        if depth is not None and a == "}":
            sep, depth = "\n", None
        out.append(sep)
    return out + ["\n" if depth is not None else ""]


def source(key):
    if key[0] == "text":
        return TEXTS[key[1]]
    t = space.get(impl.tup(key[1]))
    return "\n".join(x for x, pin in ref.render(t, ENV))


def base_of(key):
    text = source(key)
    if key == ("text", "enumlines"):
        # here the newlines are tokens
        toks = []
        for i, line in enumerate(text.split("\n")):
            toks += tokens(line) + ["\n"]
        toks.pop()
        g = [""] + [" " if WORD.match(a[-1]) and WORD.match(b[0]) else "" for a, b in zip(toks, toks[1:])] + [""]
        return toks, g
    toks = tokens(text)
    return toks, gaps(toks, text)


def join(toks, g):
    return "".join(x + y for x, y in zip(g, toks)) + g[len(toks)]


MODES = [(False, False), (True, True), (True, False), (False, True)]


def run_insert(key, turn, part, parts, st_):
    toks, g = base_of(key)
    plain = source(key)
    base = {m: loaded(plain, *m, "one") for m in MODES}
    if key[0] == "text":
        expected(key[1], plain, bool(turn % 2))
    for m in MODES:
        variant(join(toks, g), base[m], *m, st_, "minimal spacing", "one")
    n = 0
    for i in range(len(g)):
        if i % parts != part:
            continue
        for f in FILLERS:
            if f == "\v" and key == ("text", "lookup"):
                continue  # the table is a Python literal
            news = {f + g[i], g[i] + f, f if g[i] == " " else f + g[i]}
            for new in sorted(news) if key[0] == "text" else [max(news)]:
                h = list(g)
                h[i] = new
                m = MODES[(n + turn + i) % 4]
                n += 1
                variant(join(toks, h), base[m], *m, st_, f"{f!r} in front of token {i} {toks[i:i + 1]}", "one")
                st_.state()
    st_.trace()


def expected(name, text, comp):
    cs = cstruct(endian="<", pointer="uint64")
    cs.load(text, compiled=comp)
    for tname, (size, fields) in EXPECT.get(name, {}).items():
        t = getattr(cs, tname)
        got = t.size, [(f.name, f.type.__name__, f.offset) for f in t.__fields__]
        if got != (size, fields):
            raise Violation(f"{tname} is {got}, declared {(size, fields)}: {text}")
    for (n, ename), members in MEMBERS.items():
        if n == name:
            got = {k: int(m.value) for k, m in getattr(cs, ename).__members__.items()}
            if got != members:
                raise Violation(f"{ename} is {got}, declared {members}: {text}")
    for k, v in CONSTS.get(name, {}).items():
        if cs.consts[k] != v:
            raise Violation(f"{k} is {cs.consts[k]!r}, declared {v!r}: {text}")


def run_everywhere(name, st_):
    """The same filler at all boundaries, and rotating fillers."""
    toks, g = base_of(("text", name))
    FILLERS = [f for f in globals()["FILLERS"] if f != "\v" or name != "lookup"]  # the table is a Python literal
    for comp in (False, True):
        base = loaded(source(("text", name)), comp, not comp)
        for k, f in enumerate(FILLERS):
            variant(join(toks, [f + x for x in g]), base, comp, not comp, st_, f"{f!r} everywhere")
            variant(join(toks, [x + f for x in g]), base, comp, not comp, st_, f"{f!r} everywhere, behind")
            for step in (1, 3, 7):
                h = [FILLERS[(k + step * i) % len(FILLERS)] + x for i, x in enumerate(g)]
                variant(join(toks, h), base, comp, not comp, st_, f"rotating fillers {k} {step}")
                st_.state()
    st_.trace()


def run_pairs(name, part, parts, st_):
    toks, g = base_of(("text", name))
    base = loaded(source(("text", name)), True, False, "one")
    for n, (i, j) in enumerate(combinations(range(len(g)), 2)):
        if n % parts != part:
            continue
        for a, b in product(SHORTFILL, repeat=2):
            h = list(g)
            h[i] = a + h[i]
            h[j] = h[j] + b
            variant(join(toks, h), base, True, False, st_, f"{a!r} at {i}, {b!r} at {j}", "one")
        st_.state()
    st_.trace()


# ---------------------------------------------------------------- orders and load() histories
def linear(defs):
    """All orders in which every definition follows the ones it needs."""
    provides = [set(d[1].split()) for d in defs]
    needs = [set(d[2].split()) for d in defs]

    def go(done, have):
        if len(done) == len(defs):
            yield tuple(done)
        for i in range(len(defs)):
            if i not in done and needs[i] <= have:
                yield from go(done + [i], have | provides[i])

    yield from go([], set())


def run_order(name, part, parts, st_):
    defs = SETS[name]
    text = [d[0] for d in defs]
    for comp, align in ((False, False), (True, True)):
        base = loaded("\n".join(text), comp, align)
        order0 = None
        for n, order in enumerate(linear(defs)):
            if n % parts != part:
                continue
            variant("\n".join(text[i] for i in order), base, comp, align, st_, f"order {order}")
            for cut in range(1 << (len(defs) - 1)):
                if comp and cut % 3 and order0 is not None:
                    continue
                cs = cstruct(endian="<", pointer="uint64")
                group = []
                for k, i in enumerate(order):
                    group.append(text[i])
                    if k == len(order) - 1 or cut >> k & 1:
                        cs.load("\n".join(group), compiled=comp, align=align)
                        group = []
                got = world(cs, cut < 2)
                st_.trans(1 + bin(cut).count("1"))
                if cut >= 2:
                    cmp = {k: (v[0] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], list) and isinstance(v[0], tuple) else v)
                           for k, v in base[0].items()}, *base[1:]
                else:
                    cmp = base
                if got != cmp:
                    raise Violation(f"order {order} loaded with cuts {cut:b}: result differs\n{chr(10).join(text)}\n{str(got)[:600]}\n{str(cmp)[:600]}")
                st_.state()
            order0 = order
    st_.trace()


# ---------------------------------------------------------------- aliases
def reach(graph, name):
    """The type an alias stands for, None when there is none."""
    for _ in range(12):
        if name in ("uint8", "uint32", "S"):
            return name
        if name not in graph:
            return None
        name = graph[name]
    return None


def outcome(f):
    try:
        return f()
    except ResolveError:
        return None


def run_graph(k, part, parts, st_):
    """All alias graphs over k names with targets among themselves, two built-ins, a structure and an undeclared name."""
    names = [f"a{i}" for i in range(k)]
    for n, targets in enumerate(product([*names, "uint8", "uint32", "S", "undeclared"], repeat=k)):
        if n % parts != part:
            continue
        graph = dict(zip(names, targets))
        cs = cstruct()
        S = cs._make_struct("S", []) if False else None
        cs.load("struct S { uint16 x; };", compiled=False)
        S = cs.S
        real = {"uint8": cs.uint8, "uint32": cs.uint32, "S": S}
        order = names if n % 2 else names[::-1]
        for a in order:
            cs.add_type(a, graph[a])
        st_.trans(k)
        for a in names:
            want = reach(graph, a)
            type_ = real.get(want)
            try:
                got = outcome(lambda: cs.resolve(a))
                via = outcome(lambda: getattr(cs, a))
                data = b"\1\2\3\4\5"
                parsed = outcome(lambda: cs.read(a, data))
                if got is not type_ or via is not type_:
                    raise Violation(f"{a} in {graph} resolves to {got} and {via}, expected {want}")
                if type_ is None:
                    if parsed is not None:
                        raise Violation(f"{a} in {graph} parses as {parsed!r}")
                elif parsed != type_(data):
                    raise Violation(f"{a} in {graph} parses as {parsed!r}")
                if n % 16 == 0 or k < 3:
                    uses(cs, a, type_, graph)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                raise Violation(f"reference to {a} in {graph} (stands for {want}): {type(e).__name__}: {e}") from e
            st_.state()
        # re-declaration
        if k < 4 or n % 8 == 0:
            for a in names:
                for again in (*names, "uint8", "UINT8", "uint32", "DWORD", "S", "int8", "undeclared"):
                    redeclare(cs, graph, a, again, real)
                    st_.trans()
    st_.trace()


def uses(cs, a, type_, graph):
    """Every kind of reference in a definition."""
    for i, text in enumerate((f"struct U%d {{ uint8 q; {a} f; }};", f"struct U%d {{ {a} f[2]; }};", f"struct U%d {{ {a} *f; }};",
                              f"typedef {a} U%d;", f"enum U%d : {a} {{ M = 1 }};", f"union U%d {{ {a} f; }};",
                              f"enum U%d {{ M = sizeof({a}) }};", f"struct U%d {{ uint8 f[sizeof({a})]; }};")):
        if i == 4 and type_ is cs.S:
            continue
        before = set(cs.typedefs)
        name = f"U{len(before)}"
        res = outcome(lambda: cs.load(text % len(before)) and cs.resolve(name))
        if type_ is None:
            if i == 7 and res is not None:  # only evaluated when reading
                if outcome(lambda: res(bytes(9))) is not None:
                    raise Violation(f"{text} with {graph} parses")
            elif res is not None:
                raise Violation(f"{text} with {graph} is accepted: {res}")
            # whatever was declared in advance is not usable under that name as something else
            for extra in set(cs.typedefs) - before:
                del cs.typedefs[extra]
            continue
        ok = {0: lambda: res.fields["f"].type is type_, 1: lambda: res.fields["f"].type.type is type_ and res.size == 2 * type_.size,
              2: lambda: res.fields["f"].type.type is type_, 3: lambda: res is type_, 4: lambda: res.type is type_,
              5: lambda: res.fields["f"].type is type_, 6: lambda: res.M.value == type_.size, 7: lambda: res.size == type_.size}[i]
        if not ok():
            raise Violation(f"{text} with {graph}: {sig(res)}")


def redeclare(cs, graph, a, again, real):
    targets = {"UINT8": "uint8", "DWORD": "uint32", "int8": "int8"}
    old = reach(graph, a)
    new = targets.get(again) or reach(graph, again)
    try:
        cs.add_type(a, again)
        accepted = True
    except ValueError:
        accepted = False
    except ResolveError:
        accepted = None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"re-declaring {a} as {again} in {graph}: {type(e).__name__}: {e}") from e
    if accepted and (old is None or new is None or old != new):
        raise Violation(f"re-declaring {a} (stands for {old}) as {again} (stands for {new}) in {graph} is accepted")
    if not accepted:
        if old is not None and old == new:
            raise Violation(f"re-declaring {a} (stands for {old}) as {again} in {graph} is refused")
        if old is not None and new is not None and accepted is None:
            raise Violation(f"re-declaring {a} as {again} in {graph} is a resolve error")
        if outcome(lambda: cs.resolve(a)) is not real.get(old):
            raise Violation(f"after the refused re-declaration of {a} as {again} in {graph} it is {outcome(lambda: cs.resolve(a))}")
    else:
        cs.typedefs[a] = graph[a]


def run_redeclare(i, st_):
    for j in range(len(REDECL)):
        for one in (True, False):
            cs = cstruct()
            cs.load(PRE)
            if not one:
                cs.load(REDECL[i])
                first = cs.X
                before = dict(cs.typedefs)
            try:
                if one:
                    cs.load(REDECL[i] + "\n" + REDECL[j])
                else:
                    cs.load(REDECL[j])
                accepted = True
            except ValueError:
                accepted = False
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{REDECL[i]} {REDECL[j]}: {type(e).__name__}: {e}") from e
            st_.trans()
            same = i in TARGET and TARGET.get(j) == TARGET[i]
            if same and not accepted:
                raise Violation(f"{REDECL[i]} {REDECL[j]} is refused")
            if not same and accepted:
                raise Violation(f"{REDECL[i]} {REDECL[j]} is accepted: X is {sig(cs.X)}")
            if not one:
                if cs.X is not first:
                    raise Violation(f"{REDECL[i]} {REDECL[j]}: X has changed to {sig(cs.X)}")
                for k, v in before.items():
                    if k not in cs.typedefs or cs.resolve(cs.typedefs[k]) is not cs.resolve(v):
                        raise Violation(f"{REDECL[i]} {REDECL[j]}: {k} has changed")
        st_.state()
    # built-in names can only be declared again as what they are
    for text, ok in (("typedef uint32 DWORD;", True), ("typedef unsigned int DWORD;", True), ("typedef int32 DWORD;", False),
                     ("typedef uint8 uint8;", True), ("typedef char uint8;", False), ("struct uint8 { uint8 a; };", False),
                     ("enum DWORD : uint8 { A };", False), ("typedef struct { uint8 a; } DWORD;", False), ("typedef ULONG DWORD;", True),
                     ("typedef wchar_t WCHAR;", True), ("typedef uint16 WCHAR;", False), ("typedef uint8 *BYTE;", False)):
        cs = cstruct()
        try:
            cs.load(text)
            accepted = True
        except ValueError:
            accepted = False
        if accepted != ok or cs.DWORD is not cs.uint32 or cs.uint8.__name__ != "uint8" or cs.BYTE is not cs.uint8:
            raise Violation(f"{text}: accepted={accepted}")
    st_.trace()


def run_synonyms(st_):
    cs = cstruct()
    listed = set()
    for target, names in SYNONYMS.items():
        T = getattr(cs, target)
        for name in (target, *names.split("|")):
            listed.add(name)
            if cs.resolve(name) is not T or cs.typedefs.get(name) is None or getattr(cs, name) is not T:
                raise Violation(f"{name} is {cs.resolve(name)}, expected {target}")
            for sep in (" ", "  ", "\n", "\t/**/", "/*a*/", "//b\n"):
                text = name.replace(" ", sep)
                k = len(cs.typedefs)
                cs.load(f"struct Y{k} {{ {text} a; {text}{sep}*b; {text}{sep}c[2]; }}; typedef {text} y{k}; enum z{k} {{ M = sizeof({name}) }};")
                Y = getattr(cs, f"Y{k}")
                f = Y.fields
                if (f["a"].type is not T or f["b"].type.type is not T or f["c"].type.type is not T or getattr(cs, f"y{k}") is not T
                        or getattr(cs, f"z{k}").M.value != T.size):
                    raise Violation(f"{text!r} in a definition isn't {target}")
                st_.trans()
        st_.state()
    for name in BUILTIN - listed:
        if isinstance(cs.typedefs[name], str):
            raise Violation(f"unlisted synonym {name}")
    st_.trace()


def run_unknown(st_):
    """References to unknown types, at every place of a definition."""
    good = "struct OK { uint8 a; };"
    for bad in ("nope", "uint9", "unsigned", "unsigned uint8", "Int", "struct_", "OK2", "long int", "unsigned double", "signed", "_", "U INT8",
                "long long long", "OK OK"):
        for text in (f"struct T {{ {bad} a; }};", f"struct T {{ uint8 x; {bad} a[3]; }};", f"struct T {{ {bad} *a; }};", f"typedef {bad} T;",
                     f"union T {{ {bad} a; }};", f"enum T : {bad} {{ A }};", f"flag T : {bad} {{ A }};", f"struct T {{ struct {{ {bad} a; }}; }};",
                     f"typedef struct {{ {bad} a; }} T;", f"enum T {{ A = sizeof({bad}) }};", f"typedef {bad} T[2];", f"typedef {bad} *T;",
                     f"struct T {{ {bad} a : 3; }};"):
            for one in (True, False):
                cs = cstruct()
                if not one:
                    cs.load(good)
                try:
                    cs.load((good if one else "") + text)
                except ResolveError:
                    pass
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"{text}: {type(e).__name__}: {e}") from e
                else:
                    raise Violation(f"{text} is accepted")
                st_.trans()
        cs = cstruct()
        for f in (lambda: cs.resolve(bad), lambda: cs.read(bad, b"\0")):
            try:
                f()
            except ResolveError:
                continue
            raise Violation(f"{bad} resolves")
    for text in ("struct T { struct nope a; };", "struct T { struct nope *a; };", "typedef struct nope T;", "struct T { union nope a[2]; };"):
        try:
            cstruct().load(text)
        except ResolveError:
            continue
        raise Violation(f"{text} is accepted")
    st_.state()
    st_.trace()


def run_chain(n, st_):
    """Alias chains of n names, declared in every rotation, through add_type and typedef."""
    for rot in range(n):
        cs = cstruct()
        order = [(i + rot) % n for i in range(n)]
        for i in order:
            cs.add_type(f"c{i}", f"c{i + 1}" if i < n - 1 else "uint16")
        for i in range(n):
            if cs.resolve(f"c{i}") is not cs.uint16 or getattr(cs, f"c{i}") is not cs.uint16:
                raise Violation(f"chain of {n}: c{i} is {cs.resolve(f'c{i}')}")
            st_.trans()
        cs.load("".join(f"typedef c{i} d{i};" for i in range(n)) + "struct T {" + "".join(f"c{i} x{i}; d{i} y{i};" for i in range(n)) + "};")
        if any(f.type is not cs.uint16 for f in cs.T.__fields__):
            raise Violation(f"fields of a chain of {n} are {[f.type for f in cs.T.__fields__]}")
        # closed into a cycle
        cs = cstruct()
        for i in order:
            cs.add_type(f"c{i}", f"c{(i + 1) % n}")
        for i in range(n):
            for f in (lambda: cs.resolve(f"c{i}"), lambda: getattr(cs, f"c{i}"), lambda: cs.read(f"c{i}", b"\0\0"),
                      lambda: cs.load(f"struct T {{ c{i} x; }};"), lambda: cs.load(f"typedef c{i} q;"), lambda: cs.load(f"enum E : c{i} {{ A }};")):
                try:
                    f()
                except ResolveError:
                    cs.typedefs.pop("T", None)
                    continue
                raise Violation(f"a cycle of {n} aliases is not reported")
            st_.trans()
    # typedef chains of any length bind to the type itself
    cs = cstruct()
    cs.load("typedef uint16 t0;" + "".join(f"typedef t{i} t{i + 1};" for i in range(40)) + "struct T { t40 a; };")
    if cs.t40 is not cs.uint16 or cs.T.fields["a"].type is not cs.uint16:
        raise Violation("a long chain of typedefs does not stand for its type")
    st_.state()
    st_.trace()
