"""C03 Compiled reader is observationally equivalent to the interpreted reader."""
from io import BytesIO

from mc import impl, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, configs, expect, show, small  # noqa: F401
from mc.ref import Cfg
from mc.space import A, F, P, S, st

PROP = "C03"
LIMIT = 120
RULE = ("every program of the bounded program space x {<,>} x {packed,aligned} x content patterns, and every program "
        "over pointers x pointer width: both readers on the full input, on every cut point of it, at start offset 0 "
        "and 16; values, recorded sizes, consumed bytes, layout, error/no error compared; on single-member programs "
        "every single-bit change of every input and every byte forced to ff; every value of the domain of every type in a "
        "structure and arrays")
ASSUMPTIONS = ["the kind of exception on short input is not compared, only that neither reader returns a value the "
               "other contradicts"]


def cases(tier):
    for i in range(len(TEXTS)):
        yield ["text", i]
    for key in space.keys(tier):
        yield ["m", key, int(small(key, tier)), tier]
    for name in space.VALUE_TYPES:
        for ptr in ("uint8", "uint32", "uint64") if name == "ptr" else ("uint64",):
            yield ["vals", name, ptr, tier]
    for ptr in ("uint8", "uint16", "uint24", "uint32", "uint48", "uint64", "uint128"):
        for i in range(len(PTRS)):
            yield ["ptr", ptr, i, tier]
    if tier == "thorough":
        for key in space.quad_keys():
            yield ["m", key, 0, tier]


def show(case):
    return case


PTRS = [
    st("T", F("a", S("uint8")), F("p", P(S("uint8"))), F("b", S("uint16"))),
    st("T", F("p", P(S("char"))), F("q", P(P(S("uint16")))), F("b", S("uint8"))),
    st("T", F("a", S("uint8"), 3), F("p", A(P(space.PT), 3)), F("b", S("uint8"))),
    st("T", F("n", S("uint8")), F("p", A(P(space.DYN), ("x", "n"))), F("b", S("uint32")), F("c", P(S("void")))),
    st("T", F("i", st("IN", F("x", S("uint16")), F("p", P(S("uint8"))))), F("p", P(S("uint64")))),
    st("T", *[F(f"p{i}", P(S("uint8"))) for i in range(9)]),
]

# definitions the source generator may not handle, or which need a fallback
TEXTS = [
    "struct T { uint8 a; float b : 3; uint8 c; };",
    "struct T { uint8 a; void b; uint8 c; };",
    "struct T { uint8 a; void b[3]; uint16 c; };",
    "struct T { uint8 a; uint8 b[0]; uint16 c; };",
    "struct T { };",
    "struct E { }; struct T { E a; uint8 b; E c[2]; uint16 d; };",
    "struct T { char a : 4; char b : 4; uint8 c; };",
    "struct T { wchar a : 4; uint8 c; };",
    "struct T { uint8 _; uint8 _; uint8 a; };",
    "struct T { uint8 r; uint8 s; uint16 o; uint8 stream; uint8 buf; uint8 data; uint32 cls; uint8 bit_reader; };",
    "struct T { uint8 a; uint8 b[a + 1][2]; uint32 c; uint8 d[c & 3]; };",
    "union T { uint8 a; uint32 b; };",
    "struct T { union { uint8 a; struct { uint16 b; uint8 c; } d; }; uint8 e; };",
    "typedef uint8 BYTES[4]; typedef BYTES *PB; struct T { BYTES a; PB b; BYTES c[2]; uint16 d; };",
    "typedef uint16 W; typedef W WW; struct T { WW a; W b[2]; WW c : 4; W d : 12; };",
    "struct N { uint8 x; struct N *next; }; struct T { N a; N *b; N c[2]; };",
    "struct T { uint8 class; uint8 def; uint8 None; uint8 import; };",
    "enum E : uint8 { A, B }; flag G : uint16 { X, Y }; struct T { E a[3]; G b; E c : 3; E d : 5; G e[2]; uint8 f; };",
    "struct T { int24 a; int24 b[2]; int48 c; uint48 d[1]; int128 e; uint8 f; uint128 g[2]; };",
    "struct T { uint8 n; char s[n]; wchar w[n]; char z[]; wchar y[]; uint16 e; };",
    "union D { char s[]; uint16 a; }; struct T { uint8 h[3]; D u; uint8 e; uint32 f; };",
    "union D { uint8 n; uleb128 l; struct { uint8 k; uint16 d[k & 3]; } v; }; struct T { D u[2]; uint16 e; D v; uint8 x; };",
    "struct T { uint32 h; union { struct { uint8 k; wchar s[k & 3]; }; uint64 d; } u; uint8 e : 3; uint8 f : 5; };",
]


def observe(p, data, start=0, prefix=b""):
    fh = BytesIO(prefix + data)
    fh.seek(start)
    try:
        obj = p.T(fh)
    except Exception as e:  # noqa: BLE001
        return ("error", type(e) is EOFError or isinstance(e, EOFError))
    sizes = {}
    for f in p.T.__fields__:
        s = obj._sizes.get(f._name) if hasattr(obj, "_sizes") else None
        if s:
            sizes[f._name] = s
    return ("ok", p.norm(obj) if p.t else plain(obj), fh.tell() - start, sizes, obj.dumps() if p.dumpable else None)


def plain(v):
    """Structural value without the reference model."""
    cls = v.__class__
    if hasattr(cls, "__fields__"):
        return (cls.__name__, *[(n, plain(getattr(v, n))) for n in cls.fields])
    if isinstance(v, list):
        return [plain(x) for x in v]
    if hasattr(type(v), "dereference"):
        return ("ptr", int(v))
    if hasattr(type(v), "_value_repr_") or hasattr(type(v), "__members__"):
        return (type(v).__name__, int(v.value))
    return int(v) if isinstance(v, int) else v if isinstance(v, (bytes, str, float)) else type(v).__name__


def compare(a, b, data, st_, start=0, prefix=b"", full=False):
    st_.state()
    st_.trans(2)
    x, y = observe(a, data, start, prefix), observe(b, data, start, prefix)
    if x != y:
        if x[0] == y[0] == "error":
            return
        raise Violation(f"compiled and interpreted reader differ: {b.what(data=data, interpreted=x, compiled=y)}")
    if full:
        expect(x[0] == "ok", "reader failed on a complete input", b, data=data)
    st_.outcome(repr(x[1:3]))


def layout(T):
    return (T.size, T.alignment, T.dynamic, [(f._name, f.offset, f.bits, f.type.size) for f in T.__fields__])


def run(case, st_):
    case = tup(case)
    if case[0] == "text":
        return run_text(case[1], st_)
    if case[0] == "vals":
        return run_vals(*case[1:], st_)
    if case[0] == "ptr":
        t, ptr, walk, tier = PTRS[case[2]], case[1], 1, case[3]
    else:
        t, ptr, walk, tier = space.get(case[1]), "uint64", case[2], case[3]
    many = case[0] == "m" and case[1][0] == "p" and len(case[1][1]) >= 2
    ks = range(space.PATTERNS) if not many or tier == "thorough" else (1, 2, 3)
    for cfg in configs(comps=(False,), ptr=ptr):
        a, b = Prog(t, cfg), Prog(t, Cfg(cfg.endian, cfg.align, cfg.ptr, True))
        a.dumpable = b.dumpable = True
        if layout(a.T) != layout(b.T):
            raise Violation(f"layout differs between readers: {a.what(interpreted=layout(a.T), compiled=layout(b.T))}")
        for j, (v, enc, mask, dirty) in enumerate(space.inputs(a.model, t, ks)):
            st_.trace()
            compare(a, b, dirty, st_, full=True)
            compare(a, b, dirty + b"\x00\x00", st_, 16, bytes(range(16)))
            n = len(dirty)
            if many and tier == "quick" and j != (1 if cfg.endian == "<" else 2):
                continue
            compare(a, b, dirty + b"\xaa\xbb\xcc\xdd" * 4, st_)
            cuts = range(n) if n <= 40 else sorted({*range(8), *range(n - 8, n), *range(0, n, max(1, n // 16))})
            for c in cuts:
                compare(a, b, dirty[:c], st_)
            if walk:
                for i in range(min(n, 48)):
                    for m in (1, 2, 4, 8, 16, 32, 64, 128, 256):
                        d = bytearray(dirty)
                        d[i] = 0xFF if m == 256 else d[i] ^ m
                        compare(a, b, bytes(d), st_)


def run_vals(name, ptr, tier, st_):
    t = space.value_program(name)
    for cfg in configs(comps=(False,), ptr=ptr):
        a, b = Prog(t, cfg), Prog(t, Cfg(cfg.endian, cfg.align, cfg.ptr, True))
        a.dumpable = b.dumpable = False
        for v, enc in space.value_inputs(a.model, name, tier):
            st_.trace()
            compare(a, b, enc, st_, full=True)


class Text:
    t = None

    def __init__(self, text, cfg):
        from dissect.cstruct import cstruct

        self.text = text
        self.cfg = cfg
        self.cs = cstruct(endian=cfg.endian)
        self.error = None
        try:
            self.cs.load(text, compiled=cfg.compiled, align=cfg.align)
            self.T = self.cs.T
        except Exception as e:  # noqa: BLE001
            self.error = e
        self.dumpable = False

    def what(self, **kw):
        return f"{self.text} [{self.cfg}] " + " ".join(f"{k}={v!r}" for k, v in kw.items())


def run_text(i, st_):
    text = TEXTS[i]
    for cfg in configs(comps=(False,)):
        a, b = Text(text, cfg), Text(text, Cfg(cfg.endian, cfg.align, cfg.ptr, True))
        if bool(a.error) != bool(b.error):
            raise Violation(f"only one of the readers can be built: {a.what(interpreted=a.error, compiled=b.error)}")
        if a.error:
            continue
        if layout(a.T) != layout(b.T):
            raise Violation(f"layout differs between readers: {a.what(interpreted=layout(a.T), compiled=layout(b.T))}")
        for k in range(6):
            base = bytes((0x01, 0x00, 0x02, 0xFF, 0x41, (i * 7 + k) & 0xFF)[(j * (k + 1)) % 6] for j in range(70))
            st_.trace()
            for cut in range(len(base), -1, -1):
                compare(a, b, base[:cut], st_)
