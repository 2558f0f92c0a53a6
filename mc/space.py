"""The bounded program space: field atoms, structure programs, input contents."""
from __future__ import annotations

import struct
from itertools import product

from mc import ref
from mc.ref import SCALARS, Cfg, Env, Model, NotCanonical, RefEOF


def S(n):
    return ("s", n)


def A(t, c):
    return ("a", t, c)


def P(t):
    return ("p", t)


def st(name, *fields, mode="top"):
    return ("st", name, tuple(fields), mode)


def un(name, *fields, mode="top"):
    return ("un", name, tuple(fields), mode)


class Fld(tuple):
    pass


def F(name, t, bits=None):
    return Fld((name, t, bits))


ENV = Env(
    enums={
        "E8": ("enum", "uint8", (("E8A", 1), ("E8B", 2), ("E8Z", 255))),
        "E16": ("enum", "uint16", (("E16A", 1), ("E16B", None), ("E16D", 1))),
        "E24": ("enum", "uint24", (("E24A", 1), ("E24B", 5))),
        "E32S": ("enum", "int32", (("E32A", -1), ("E32B", None), ("E32C", 7))),
        "E64": ("enum", "uint64", (("E64A", 1), ("E64B", 1 << 63))),
        "F8": ("flag", "uint8", (("F8A", None), ("F8B", None), ("F8C", 0x80))),
        "F16": ("flag", "uint16", (("F16A", None), ("F16B", 0x100))),
        "F24": ("flag", "uint24", (("F24A", None), ("F24B", None))),
        "F32": ("flag", "uint32", (("F32A", None), ("F32B", 0x80000000))),
        "G8S": ("flag", "int8", (("G8A", None), ("G8B", None))),
        "EA": ("enum", "uint8", (("EAA", 0), ("EAB", 1))),
        "E48": ("enum", "int48", (("E48A", 1), ("E48B", -3))),
    },
    consts={"CN": 3},
)

PT = st("PT", F("x", S("uint8")), F("y", S("uint16")))  # small structure with inner padding
TAIL = st("TAIL", F("a", S("uint32")), F("b", S("uint8")))  # trailing padding
BITS = st("BITS", F("u", S("uint16"), 3), F("v", S("uint16"), 13), F("w", S("uint8")))
BITTAIL = st("BITTAIL", F("u", S("uint32"), 3), F("v", S("uint32"), 7))
DYN = st("DYN", F("n", S("uint8")), F("d", A(S("uint16"), ("x", "n"))))
BIG = st("BIG", F("q", S("uint64")), F("c", S("char")))
EMPTYISH = st("ONE", F("c", A(S("char"), 4)))
NEST = st("NEST", F("p", PT), F("t", S("uint8")))
UN = un("UN", F("w", S("uint32")), F("b", A(S("uint8"), 4)), F("h", PT))
UNT = un("UNT", F("a", S("uint64")), F("b", A(S("uint8"), 11)))


def in_(t):
    return t[:1] + ("",) + t[2:3] + ("in",)


def scalar_atoms():
    for n in SCALARS:
        if n == "void":
            continue
        yield n, (lambda i, n=n: [F(f"f{i}", S(n))])


def simple(label, t, bits=None):
    return label, (lambda i: [F(f"f{i}", t, bits)])


def atoms() -> dict:
    out = dict(scalar_atoms())

    def add(label, t, bits=None):
        out[label] = simple(label, t, bits)[1]

    for e in ENV.enums:
        if e != "EA":
            add(e, ("e", e))
    add("pu8", P(S("uint8")))
    add("pPT", P(PT))
    add("pchar", P(S("char")))
    add("pvoid", P(S("void")))
    add("ppu16", P(P(S("uint16"))))
    for n, c in (("uint8", 3), ("uint16", 3), ("int24", 3), ("uint32", 2), ("int48", 2), ("uint128", 2), ("char", 3),
                 ("char", 1), ("wchar", 3), ("double", 2), ("ileb128", 2), ("int8", 0), ("float16", 2)):
        add(f"{n}[{c}]", A(S(n), c))
    for e, c in (("E8", 3), ("E16", 2), ("E24", 2), ("F8", 2), ("F24", 2), ("E32S", 2), ("E48", 2)):
        add(f"{e}[{c}]", A(("e", e), c))
    add("p[2]", A(P(S("uint8")), 2))
    for n in ("char", "wchar", "uint8", "uint16", "int24", "uleb128", "int64", "double"):
        add(f"{n}[]", A(S(n), ("z",)))
    add("E16[]", A(("e", "E16"), ("z",)))
    add("F8[]", A(("e", "F8"), ("z",)))
    add("PT[]", A(PT, ("z",)))
    add("PT", PT)
    add("TAIL", TAIL)
    add("BITS", BITS)
    add("BITTAIL", BITTAIL)
    add("DYN", DYN)
    add("BIG", BIG)
    add("NEST", NEST)
    add("ONE", EMPTYISH)
    add("UN", UN)
    add("UNT", UNT)
    add("inPT", in_(PT))
    add("inUN", in_(UN))
    add("inDYN", in_(DYN))
    add("PT[2]", A(PT, 2))
    add("TAIL[2]", A(TAIL, 2))
    add("DYN[2]", A(DYN, 2))
    add("UN[2]", A(UN, 2))
    add("BITS[2]", A(BITS, 2))
    out["anon"] = lambda i: [F(None, ("st", "", (F(f"f{i}x", S("uint8")), F(f"f{i}y", S("uint32"))), "in"))]
    out["anonun"] = lambda i: [F(None, ("un", "", (F(f"f{i}x", S("uint16")), F(f"f{i}y", A(S("uint8"), 3))), "in"))]
    add("uint16[2][3]", A(A(S("uint16"), 3), 2))
    add("char[2][3]", A(A(S("char"), 3), 2))
    add("wchar[2][2]", A(A(S("wchar"), 2), 2))
    add("int24[2][2]", A(A(S("int24"), 2), 2))
    add("PT[2][2]", A(A(PT, 2), 2))
    add("uint8[2][CN]", A(A(S("uint8"), 3), 2))

    def dyn(label, t, expr="{n}", counter="uint8"):
        def mk(i):
            e = expr.format(n=f"n{i}")
            def sub(x):
                return A(sub(x[1]), sub_c(x[2])) if x[0] == "a" else x
            def sub_c(c):
                return ("x", e) if c == ("x", "?") else c
            return [F(f"n{i}", S(counter)), F(f"f{i}", sub(t))]
        out[label] = mk

    q = ("x", "?")
    dyn("uint16[n]", A(S("uint16"), q))
    dyn("char[n]", A(S("char"), q))
    dyn("wchar[n]", A(S("wchar"), q))
    dyn("int24[n]", A(S("int24"), q))
    dyn("E16[n]", A(("e", "E16"), q))
    dyn("E24[n]", A(("e", "E24"), q))
    dyn("PT[n]", A(PT, q))
    dyn("DYN[n]", A(DYN, q))
    dyn("p[n]", A(P(S("uint8")), q))
    dyn("ileb[n]", A(S("ileb128"), q))
    dyn("uint8[n][2]", A(A(S("uint8"), 2), q))
    dyn("uint8[2][n]", A(A(S("uint8"), q), 2))
    dyn("uint8[n-1]", A(S("uint8"), q), "{n} - 1", "int8")
    dyn("uint32[n&3]", A(S("uint32"), q), "{n} & 3", "uint16")
    dyn("uint8[n*CN]", A(S("uint8"), q), "({n} & 1) * CN + sizeof(uint16)", "uint32")
    for n, b in (("uint8", 3), ("uint8", 8), ("uint16", 4), ("uint16", 12), ("uint32", 1), ("uint32", 31), ("uint24", 5),
                 ("uint48", 20), ("uint64", 33), ("int8", 4), ("int16", 9), ("int32", 20)):
        add(f"{n}:{b}", S(n), b)
    for e, b in (("E8", 3), ("E16", 10), ("F8", 2), ("E24", 7)):
        add(f"{e}:{b}", ("e", e), b)
    return out


def eof_atoms() -> dict:
    out = {}

    def add(label, t):
        out[label] = simple(label, t)[1]

    e = ("eof",)
    for n in ("uint8", "uint16", "char", "wchar", "int24", "uint64", "uleb128", "float"):
        add(f"{n}[EOF]", A(S(n), e))
    add("E16[EOF]", A(("e", "E16"), e))
    add("E24[EOF]", A(("e", "E24"), e))
    add("PT[EOF]", A(PT, e))
    add("DYN[EOF]", A(DYN, e))
    add("uint8[2][EOF]", A(A(S("uint16"), 2), e))
    add("p[EOF]", A(P(S("uint8")), e))
    return out


ATOMS = atoms()
EOF_ATOMS = eof_atoms()
ALL = {**ATOMS, **EOF_ATOMS}

# representatives of every code path, for the deeper sequences
CORE = ["uint8", "uint16", "uint32", "int24", "uint64", "char[3]", "wchar", "E16", "ileb128", "char[]", "uint16[n]",
        "PT", "DYN", "UN", "uint8:3", "uint16:12", "uint24:5", "uint32:31", "pu8", "PT[2]", "E24[2]"]
MINI = ["uint8", "uint32", "uint64", "int24", "char[]", "uint8:3", "uint32:31", "PT", "DYN"]


def program(labels, name="T", wrap="st"):
    fields = []
    for i, lab in enumerate(labels):
        fields.extend(ALL[lab](i))
    return (wrap, name, tuple(fields), "top")


def valid(t, cfg=None) -> bool:
    """False for programs the property domain excludes (a bit-field straddling its unit)."""
    try:
        Model(ENV, cfg or Cfg()).layout(t)
    except ref.Straddle:
        return False
    return True


def programs(depth=2, triples=CORE, quads=()):
    """Every atom sequence: all singles, all pairs, then triples/quads over smaller alphabets; to-end-of-stream
    arrays only in last position."""
    yield ()
    for a in ATOMS:
        yield (a,)
    for a in EOF_ATOMS:
        yield (a,)
    if depth >= 2:
        yield from product(ATOMS, ATOMS)
        for a in CORE:
            for e in EOF_ATOMS:
                yield (a, e)
    if depth >= 3:
        yield from product(triples, repeat=3)
    if quads:
        yield from product(quads, repeat=4)


# --------------------------------------------------------------------------------------------------------------
# programs beyond sequences of atoms: scale, nesting, mixed alignment, unions

COUNTS = (0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4100)
WIDTHS = (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300)


def specials() -> dict:
    out: dict = {}

    def add(name, *fields, kind="st"):
        fs = []
        for i, f in enumerate(fields):
            fs.append(f if isinstance(f, Fld) else F(f"f{i}", f))
        out[name] = (kind, "T", tuple(fs), "top")

    elems = {"uint8": S("uint8"), "int16": S("int16"), "int24": S("int24"), "uint64": S("uint64"), "char": S("char"),
             "wchar": S("wchar"), "E8": ("e", "E8"), "E24": ("e", "E24"), "PT": PT, "ptr": P(S("uint8")),
             "ileb128": S("ileb128"), "float": S("float"), "UN": UN, "F16": ("e", "F16"), "uint16": S("uint16")}
    for lab, t in elems.items():
        for c in COUNTS:
            if c > 600 and lab in ("PT", "UN", "ileb128", "E24", "int24"):
                continue
            add(f"{lab}[{c}]", S("uint8"), A(t, c), S("uint16"))
        for c in (15, 16, 17, 40, 255, 256, 300):
            add(f"{lab}[n={c}]", F("k", S("uint16")), F("a", A(t, ("x", f"(k & 0) + {c}"))), S("uint8"))
    for w in WIDTHS:
        add(f"wide-u8-{w}", *[S("uint8")] * w)
        if w <= 129:
            add(f"wide-mix-{w}", *[[S("uint8"), S("uint32"), S("int24"), S("char"), S("uint16")][i % 5]
                                   for i in range(w)])
            add(f"wide-bits-{w}", *[F(f"b{i}", S("uint32"), 1 + i % 5) for i in range(w)] if
                valid(("st", "T", tuple(F(f"b{i}", S("uint32"), 1 + i % 5) for i in range(w)), "top")) else
                [F(f"b{i}", S("uint32"), 4) for i in range(w)])
            add(f"wide-bit1-{w}", *[F(f"b{i}", S("uint64"), 1) for i in range(w)], S("uint8"))
    for depth in range(1, 9):
        t = st(f"N{0}", F("x", S("uint8")), F("y", S("uint32")))
        for d in range(1, depth):
            t = st(f"N{d}", F("h", S("uint8")), F("i", t), F("z", S("uint16")))
        add(f"deep-{depth}", S("uint8"), t, S("uint8"))
        add(f"deeparr-{depth}", S("uint8"), A(t, 2), S("uint8"))
        t = st("", F("x", S("uint8")), F("y", S("uint32")), mode="in")
        for d in range(1, depth):
            t = st("", F("h", S("uint8")), F("i", t), F("z", S("uint16")), mode="in")
        add(f"deepin-{depth}", S("uint8"), t, S("uint8"))
        f = (F("x0", S("uint8")), F("y0", S("uint16")))
        for d in range(1, depth):
            f = (F(f"x{d}", S("uint8")), F(None, ("st", "", f, "in")), F(f"y{d}", S("uint32")))
        out[f"deepanon-{depth}"] = ("st", "T", f, "top")
    for a, b, c in ((2, 3, 4), (1, 1, 1), (3, 1, 2), (2, 2, 16)):
        for lab in ("uint8", "uint16", "int24", "char", "wchar", "E8", "PT"):
            add(f"3d-{lab}-{a}{b}{c}", S("uint8"), A(A(A(elems[lab], c), b), a), S("uint16"))
    q = ("x", "n")
    for lab in ("uint8", "uint16", "int24", "char", "wchar", "E8", "PT", "ileb128"):
        add(f"dyn3d-{lab}", F("n", S("uint8")), F("a", A(A(A(elems[lab], q), 2), q)), S("uint16"))
        add(f"dynz-{lab}", F("n", S("uint8")), F("a", A(A(elems[lab], ("z",)), 2) if lab != "PT" else A(PT, ("z",))),
            S("uint16"))
    # several length fields, arithmetic on them, lengths from nested/anonymous/bit/enum fields
    add("len2", F("n", S("uint8")), F("nm", S("uint8")), F("a", A(S("uint16"), ("x", "(n & 3) * (nm & 1) + CN"))),
        S("uint8"))
    add("lenlate", F("n", S("uint8")), S("uint32"), PT, F("a", A(S("uint8"), ("x", "n"))), F("b", A(S("uint16"), q)))
    add("lenbits", F("n", S("uint8"), 2), F("g", S("uint8"), 6), F("a", A(S("uint16"), ("x", "n"))), S("uint8"))
    add("lenanon", F(None, ("st", "", (F("n", S("uint8")), F("g", S("uint16"))), "in")), F("a", A(S("uint16"), q)))
    add("lenenum", F("nn", S("uint16")), F("a", A(S("char"), ("x", "nn & 7"))), F("b", A(S("wchar"), ("x", "nn & 3"))))
    # structures pinned to packed/aligned irrespective of the configuration
    pk = ("st", "PK", (F("x", S("uint8")), F("y", S("uint32")), F("z", S("uint16"))), "top_p")
    al = ("st", "AL", (F("x", S("uint8")), F("y", S("uint32")), F("z", S("uint16"))), "top_a")
    ald = ("st", "ALD", (F("n", S("uint8")), F("d", A(S("uint8"), q)), F("z", S("uint32"))), "top_a")
    for nm, in_t in (("pk", pk), ("al", al), ("ald", ald)):
        for outer in ("top_p", "top_a"):
            if nm == "pk" and outer == "top_a":
                continue  # a structure's own alignment mode decides where it may be placed
            out[f"mix-{nm}-{outer}"] = ("st", "T", (F("a", S("uint8")), F("s", in_t), F("b", S("uint8")),
                                                   F("t", A(in_t, 2)), F("c", S("uint16"))), outer)
    # unions as top-level types
    for nm, fs in {
        "u-scalars": [S("uint32"), S("uint8"), S("uint16"), S("char"), S("float16")],
        "u-arr": [A(S("uint8"), 5), S("uint32"), A(S("uint16"), 3)],
        "u-pt": [PT, S("uint64"), A(PT, 2)],
        "u-nest": [UN, BITS, S("uint8")],
        "u-bits": [F("b", S("uint16"), 3), F("c", S("uint32"), 20), S("uint8")],
        "u-enum": [("e", "E16"), ("e", "F8"), A(("e", "E8"), 3)],
        "u-ptr": [P(S("uint8")), S("uint32")],
        "u-i24": [S("int24"), S("uint48"), A(S("int24"), 2)],
        "u-anon": [F(None, ("st", "", (F("x", S("uint8")), F("y", S("uint16"))), "in")), S("uint32")],
        "u-wchar": [A(S("wchar"), 2), S("uint32")],
        "u-one": [S("uint8")],
        "u-tail": [A(S("uint8"), 7), S("uint32")],
    }.items():
        add(nm, *fs, kind="un")
        if nm != "u-one":
            t = (("un", "", out[nm][2], "in"))
            add(f"{nm}-in", S("uint8"), F("u", t), S("uint16"))
            add(f"{nm}-arr", S("uint8"), F("u", A(("un", "TU", out[nm][2], "top"), 2)), S("uint16"))
            if not any(f[0] is None for f in t[2]):
                add(f"{nm}-anon", F("h", S("uint8")), F(None, t), F("z", S("uint16")))
    # pointers to everything
    add("ptrs", P(S("char")), P(PT), P(P(UN)), P(("e", "E8")), P(S("void")), A(P(PT), 3), P(DYN))
    # runs of differently aligned fields, which the compiled reader reads at once, at an offset known and not known
    for labs in product(("uint8", "uint16", "uint32"), repeat=4):
        fs = [S(x) for x in labs]
        add("run-" + "-".join(labs), *fs, S("uint8"), S("uint16"))
        add("dynrun-" + "-".join(labs), A(S("char"), ("z",)), *fs, S("uint8"), S("uint16"))
    for labs in product(("uint8", "int24", "uint64", "PT", "char[3]"), repeat=3):
        fs = [{"PT": PT, "char[3]": A(S("char"), 3)}.get(x) or S(x) for x in labs]
        add("run-" + "-".join(labs), *fs, S("uint8"), S("uint32"))
        add("dynrun-" + "-".join(labs), A(S("char"), ("z",)), *fs, S("uint8"), S("uint32"))
    # every field kind around a dynamic one, then alignment again
    add("dynmid", S("uint8"), F("n", S("uint8")), F("a", A(S("uint8"), q)), S("uint32"), PT, S("uint8"), A(PT, 2),
        F("b", S("uint16"), 3), F("c", S("uint16"), 5), S("uint64"))
    add("two-dyn", DYN, S("uint8"), DYN, S("uint32"), A(S("char"), ("z",)), S("uint16"), S("ileb128"), S("uint64"))
    for s in ("uint8", "uint16", "uint24", "uint32", "uint48", "uint64", "int8", "int16", "int32", "int64"):
        bits = SCALARS[s][1] * 8
        for ws in ((bits,), (1, bits - 1), (bits - 1, 1), (bits, bits), (bits // 2, bits // 2, bits), (bits, 1),
                   (3, bits - 3, 3, 2)):
            fs = [F(f"b{i}", S(s), w) for i, w in enumerate(ws)]
            tag = "-".join(map(str, ws))
            add(f"bits-{s}-{tag}", *fs)
            add(f"bits-{s}-{tag}-x", S("uint8"), *fs, S("uint8"), *[F(f"c{i}", S(s), w) for i, w in enumerate(ws)],
                S("uint32"))
    return {k: v for k, v in out.items() if valid(v)}


_SPECIALS = None


def special(name):
    global _SPECIALS
    if _SPECIALS is None:
        _SPECIALS = specials()
    return _SPECIALS[name]


def special_names():
    if _SPECIALS is None:
        special("deep-1")
    return list(_SPECIALS)


def get(key):
    """The program of a case key: ["x", name] or ["p", [labels]]."""
    return special(key[1]) if key[0] == "x" else program(key[1])


def keys(tier, eof=True, specials_=True):
    """Case keys of the shared program space, simplest first."""
    core = set(CORE)
    eofs = set(EOF_ATOMS)

    def ok(labs):
        return valid(program(labs)) and (eof or not eofs.intersection(labs))

    yield "p", ()
    for a in ALL:
        if ok((a,)):
            yield "p", (a,)
    if specials_:
        for n in special_names():
            yield "x", n
    for labs in product(ATOMS, ATOMS):
        if (tier == "thorough" or core.intersection(labs)) and ok(labs):
            yield "p", labs
    for labs in product(CORE, EOF_ATOMS):
        if ok(labs):
            yield "p", labs
    if tier == "thorough":
        for labs in product(CORE, repeat=3):
            if ok(labs):
                yield "p", labs
    else:
        for labs in product(MINI, repeat=3):
            if ok(labs):
                yield "p", labs


def quad_keys():
    for labs in product(MINI, repeat=4):
        if valid(program(labs)):
            yield "p", labs


# --------------------------------------------------------------------------------------------------------------
# contents

PATTERNS = 6


def int_pattern(size, signed, k, i):
    bits = size * 8
    if k == 0:
        v = 0
    elif k == 1:
        v = (1 << bits) - 1
    elif k == 2:
        v = int.from_bytes(bytes((0x11 + 0x20 * i + 3 * j) & 0xFF for j in range(size)), "big")
    elif k == 3:
        v = 1 << (bits - 1)
    elif k == 4:
        v = (1 << (bits - 1)) - 1
    else:
        v = 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


FLOATS = {
    2: (0.0, -1.5, 0.333251953125, -0.0, 65504.0, 2.0**-24),
    4: (0.0, -1.5, 1.100000023841858, -0.0, float("inf"), 1.401298464324817e-45),
    8: (0.0, -1.5, 0.1, -0.0, float("-inf"), 5e-324),
}
WCHARS = ("\0", "\uffff", "A\u0102", "\ud7ff", "\ue000", "\x01")
LEBU = (0, 127, 128, 16384, (1 << 63) - 1, 1 << 70)
LEBS = (0, -1, 64, -65, 1 << 62, -(1 << 69))


class Filler:
    """Produces the k-th content pattern of a type as a model value."""

    def __init__(self, model: Model, k: int, small=None):
        self.m = model
        self.k = k
        self.i = 0

    def scalar(self, name, nz=False):
        kind, size, signed, _ = SCALARS[name]
        k = self.k
        self.i += 1
        i = self.i
        if kind == "i":
            v = int_pattern(size, signed, k, i)
            return v or (1 + i % 7 if nz else 0)
        if kind == "f":
            v = FLOATS[size][k]
            if nz and not v:
                v = 1.5
            return ("F", struct.pack(">d", v))
        if kind == "c":
            b = bytes([(0, 255, (0x41 + i) & 0xFF, 0x80, 0x7F, 1)[k]])
            return b if any(b) or not nz else b"z"
        if kind == "w":
            w = WCHARS[k]
            w = w[i % len(w)]
            return w if w != "\0" or not nz else "\u4e2d"
        if kind == "l":
            v = (LEBS if signed else LEBU)[k]
            return v or (300 if nz else 0)
        return ("V",)

    def fill(self, t, ctx=None, nz=False):
        k = t[0]
        if k == "s":
            return self.scalar(t[1], nz)
        if k == "e":
            return ("E", t[1], self.scalar(self.m.env.enums[t[1]][1], nz))
        if k == "p":
            return ("P", self.scalar(self.m.cfg.ptr, nz))
        if k == "a":
            return self.array(t, ctx)
        if k == "un":
            size = self.m.layout(t)["size"]
            raw = bytes((self.scalar("uint8", nz)) & 0xFF for _ in range(size))
            try:
                v, _ = self.m.decode(t, raw)
            except NotCanonical:
                raw = bytes(0x21 + (self.i + j) % 90 for j in range(size))
                v, _ = self.m.decode(t, raw)
            return v
        out = []
        ctx = {}
        used_n = t[2]
        for fname, ft, bits in used_n:
            if bits:
                size = SCALARS[self.m.storage(ft)][1]
                self.i += 1
                v = int_pattern(size, False, self.k, self.i)
                v = (v ^ (v >> (size * 4)) if self.k == 2 else v) & ((1 << bits) - 1)
                if self.k in (3, 4) and bits < size * 8:
                    v = (1 << (bits - 1)) if self.k == 3 else (1 << (bits - 1)) - 1
                if ft[0] == "e":
                    v = ("E", ft[1], v)
            elif fname and fname[0] == "n" and self.is_counter(fname, t):
                v = self.counter(fname, ft, t)
            else:
                v = self.fill(ft, ctx, nz)
            out.append((fname, v))
            ref.add_ctx(ctx, fname, v)
        return ("S", *out)

    def is_counter(self, fname, t):
        return any(fname in repr(ft) for f, ft, _ in t[2] if f != fname)

    def counter(self, fname, ft, t):
        # masked expressions take arbitrary counters, plain ones small counters
        txt = repr([x for f, x, _ in t[2] if f != fname])
        if f"{fname} & " in txt:
            return self.scalar(ft[1])
        self.i += 1
        v = (0, 1, 2, 3, 2, 1)[self.k]
        if f"{fname} - 1" in txt:
            v = (0, -1, 2, -128, 3, 1)[self.k]
        return v

    def array(self, t, ctx):
        elem, c = t[1], t[2]
        text = elem == ("s", "char") or elem == ("s", "wchar")
        if c == ("z",):
            n = (0, 1, 2, 3, 1, 2)[self.k]
            vals = [self.fill(elem, ctx, nz=True) for _ in range(n)]
            for j, v in enumerate(vals):
                assert not ref.is_zero(v), (t, v)
        elif c == ("eof",):
            n = (0, 1, 2, 3, 1, 2)[self.k]
            vals = [self.fill(elem, ctx) for _ in range(n)]
        else:
            n = self.m.count(t, ctx)
            vals = [self.fill(elem, ctx) for _ in range(n)]
        if text:
            if elem[1] == "char":
                return b"".join(vals)
            s = "".join(vals)
            if len(s) >= 2 and self.k == 3 and c != ("z",):
                s = "\U0001f600" + s[2:]
            return s
        return ("A", *vals)


# --------------------------------------------------------------------------------------------------------------
# value domains of single types

VALUE_TYPES = [n for n in SCALARS if n != "void"] + list(ENV.enums) + ["ptr"]


def value_type(name):
    return ("e", name) if name in ENV.enums else P(S("uint16")) if name == "ptr" else S(name)


def value_program(name):
    """A structure with a type on its own, in a fixed array and in a null-terminated array."""
    t = value_type(name)
    return st("T", F("a", S("uint8")), F("v", t), F("w", A(t, 2)), F("z", A(t, ("z",)) if name != "ptr" else A(t, 1)),
              F("b", S("uint8")))


def int_domain(size, signed, tier):
    bits = 8 * size
    if size == 1 or size == 2 and tier == "thorough":
        vals = set(range(1 << bits))
    else:
        vals = set()
        for bg in (0, (1 << bits) - 1) if tier == "quick" else (0, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1):
            for i in range(size):
                vals |= {(bg & ~(0xFF << 8 * i)) | x << 8 * i for x in range(256)}
        step = range(1, bits) if tier == "thorough" else (1, 7, 8, bits // 2)
        for i in range(bits):
            for j in step:
                v = (1 << i | 1 << (i + j)) & ((1 << bits) - 1)
                vals |= {v, (1 << bits) - 1 - v}
        for i in range(bits + 1):
            vals |= {((1 << i) + d) & ((1 << bits) - 1) for d in (-2, -1, 0, 1, 2)}
    return sorted(v - (1 << bits) if signed and v >> (bits - 1) else v for v in vals)


def float_domain(size, tier):
    man, exp = {2: (10, 5), 4: (23, 8), 8: (52, 11)}[size]
    top = (1 << exp) - 1
    exps = range(top + 1) if exp < 9 or tier == "thorough" else sorted(
        {*range(8), *range(top - 8, top + 1), *range(top // 2 - 70, top // 2 + 70), *range(0, top, 37)})
    mans = {0, 1, (1 << man) - 1, (1 << man) - 2, *(1 << i for i in range(man))}
    if tier == "quick" and man > 10:
        mans = {0, 1, (1 << man) - 1, 1 << (man - 1), int("10" * (man // 2), 2)}
    if size == 2:
        mans = range(1 << man) if tier == "thorough" else mans
    out = []
    for sign in (0, 1):
        for e in exps:
            for m in mans:
                if e == top and m:
                    continue  # NaN
                raw = (sign << (man + exp) | e << man | m).to_bytes(size, "big")
                out.append(("F", struct.pack(">d", struct.unpack({2: ">e", 4: ">f", 8: ">d"}[size], raw)[0])))
    return out


def domain(model: Model, name, tier):
    """The values of a type which are enumerated."""
    if name in ENV.enums:
        _, size, signed, _ = SCALARS[ENV.enums[name][1]]
        return [("E", name, v) for v in int_domain(size, signed, tier)]
    if name == "ptr":
        return [("P", v) for v in int_domain(SCALARS[model.cfg.ptr][1], False, tier)]
    kind, size, signed, _ = SCALARS[name]
    if kind == "i":
        return int_domain(size, signed, tier)
    if kind == "f":
        return float_domain(size, tier)
    if kind == "c":
        return [bytes([i]) for i in range(256)]
    if kind == "w":
        units = range(0x10000) if tier == "thorough" else int_domain(2, False, tier)
        return [chr(u) for u in units if not 0xD800 <= u < 0xE000]
    vals = set(range(-300 if signed else 0, 20000 if tier == "thorough" else 2500))
    if signed:
        vals |= {-v - 1 for v in vals}
    for i in range(141):
        vals |= {s * ((1 << i) + d) for d in (-2, -1, 0, 1, 2) for s in (1, -1)}
    return sorted(v for v in vals if signed or v >= 0)


def value_inputs(model: Model, name, tier):
    """(value, encoded) of value_program(name) over the domain of the type."""
    t = value_program(name)
    d = domain(model, name, tier)
    n = len(d)
    for i, v in enumerate(d):
        w = [d[n - 1 - i], d[(i + 1) % n]]
        z = [x for x in (v, w[0]) if not ref.is_zero(x)] if name != "ptr" else [v]
        if name == "char":
            w, z = b"".join(w), b"".join(x for x in z if any(x))
        elif name == "wchar":
            w, z = "".join(w), "".join(x for x in z if x != "\0")
        else:
            w, z = ("A", *w), ("A", *z)
        val = ("S", ("a", 0x5A), ("v", v), ("w", w), ("z", z), ("b", 0xA5))
        yield val, model.encode(t, val)


GARBAGE = (0xFF, 0x00, 0xA5, 0x5A, 0xFF, 0x81)


def has_eof(t) -> bool:
    if t[0] == "a":
        return t[2] == ("eof",) or has_eof(t[1])
    if t[0] in ("st", "un"):
        return any(has_eof(ft) for _, ft, _ in t[2])
    return False


def inputs(model: Model, t, ks=range(PATTERNS)):
    """(value, encoded, mask, dirty) per content pattern: encoded has zero padding, dirty has garbage padding."""
    for k in ks:
        v = Filler(model, k).fill(t)
        enc = model.encode(t, v)
        mask = bytearray(len(enc))
        v2, used = model.decode(t, enc, 0, mask)
        if has_eof(t) and (used, v2) != (len(enc), v):
            continue  # alignment padding after a to-end-of-stream array is indistinguishable from elements
        assert used == len(enc), (t, v, enc, used)
        assert v2 == v, (t, k, v, v2, enc)
        g = GARBAGE[k]
        dirty = bytes(b | (g & ~m & 0xFF) for b, m in zip(enc, mask))
        yield v, enc, bytes(mask), dirty
