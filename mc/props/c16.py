"""C16 Pointers: width from configuration, dereference reads the target in place."""
import io
from io import BytesIO
from itertools import product

from dissect.cstruct import cstruct
from dissect.cstruct.exceptions import NullPointerDereference

from mc import impl, ref
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import cfgname, configs
from mc.ref import SCALARS, Cfg, Model, NotCanonical, RefEOF
from mc.space import (BIG, BITS, DYN, EMPTYISH, ENV, NEST, PT, TAIL, UN, UNT, A, F, P, S, in_, st, un)

PROP = "C16"
LIMIT = 120
RULE = ("pointer types {8,16,24,32,48,64 bit} (given to the constructor or set before load) x {<,>} x {packed,aligned} x "
        "{compiled,interpreted} x target types (every scalar, enums, structures, unions, arrays by typedef, pointers up to "
        "depth 4) x holders (field, array, union, nested, anonymous, pointer typedef) x all addresses 0..len+3 and the "
        "largest ones x memory contents x start offsets x input kinds; all heap graphs over 3 list nodes; all operation "
        "histories (dereference / seek / re-read / arithmetic / dump / assignment) up to a depth; judged by the reference "
        "model and by parsing the target type from the same bytes at that offset")
ASSUMPTIONS = ["`int + pointer` and comparisons are plain integer operations",
               "an address that cannot be parsed may fail with any exception, but must not move the stream"]

PTRS = ("uint8", "uint16", "uint24", "uint32", "uint48", "uint64")
Q = ("x", "n")
PNODE = st("PNODE", F("v", S("uint8")), F("q", P(S("uint16"))), F("w", S("uint8")))
UPTR = un("UPTR", F("p", P(S("uint8"))), F("v", S("uint8")))
TARGETS = {
    **{n: S(n) for n in SCALARS},
    **{e: ("e", e) for e in ENV.enums if e != "EA"},
    "PT": PT, "TAIL": TAIL, "BITS": BITS, "DYN": DYN, "BIG": BIG, "NEST": NEST, "ONE": EMPTYISH, "UN": UN, "UNT": UNT,
    "p_u8": P(S("uint8")), "p_char": P(S("char")), "p_void": P(S("void")), "p_PT": P(PT), "pp_u16": P(P(S("uint16"))),
    "ppp_PT": P(P(P(PT))), "PNODE": PNODE, "UPTR": UPTR,
    "DYZ": st("DYZ", F("s", A(S("char"), ("z",))), F("t", S("uint16"))),
    "WZ": st("WZ", F("s", A(S("wchar"), ("z",))), F("t", S("uint8"))),
    "LZ": st("LZ", F("s", A(S("uleb128"), ("z",))), F("t", S("uint8"))),
    "EOFS": st("EOFS", F("s", S("uint8")), F("t", A(S("uint16"), ("eof",)))),
    "PARR": st("PARR", F("s", A(P(S("uint8")), 3)), F("t", S("uint8"))),
}
HOLDERS = ("plain", "first", "array", "union", "nested", "anon", "bits", "dyn", "two", "eof", "unest")


def holder(kind, t):
    p = F("p", P(t))
    if kind == "plain":
        fs = [F("a", S("uint8")), p, F("b", S("uint16"))]
    elif kind == "first":
        fs = [p]
    elif kind == "array":
        fs = [F("a", S("uint16")), F("p", A(P(t), 3)), F("b", S("uint8"))]
    elif kind == "union":
        return un("T", p, F("a", S("uint8")), F("b", A(S("uint8"), 3)))
    elif kind == "nested":
        fs = [F("a", S("uint8")), F("s", st("", F("x", S("uint8")), p, mode="in")), F("b", S("uint8"))]
    elif kind == "anon":
        fs = [F("a", S("uint8")), F(None, st("", F("x", S("uint8")), p, mode="in")), F("b", S("uint8"))]
    elif kind == "bits":
        fs = [F("a", S("uint8"), 3), p, F("b", S("uint16"), 5), F("c", S("uint16"), 5)]
    elif kind == "dyn":
        fs = [F("n", S("uint8")), F("a", A(S("uint8"), Q)), p, F("b", S("uint16"))]
    elif kind == "two":
        fs = [p, F("b", P(S("uint8"))), F("q", P(t)), F("c", S("uint8"))]
    elif kind == "eof":
        fs = [F("a", S("uint8")), F("p", A(P(t), ("eof",)))]
    elif kind == "unest":
        fs = [F("a", S("uint8")), F("u", un("", F("x", S("uint16")), F("s", st("", F("y", S("uint8")), p, mode="in")),
                                             mode="in")), F("b", S("uint8"))]
    return st("T", *fs)


PATH = {"nested": ("s", "p"), "unest": ("u", "s", "p")}


def pointers(kind, obj):
    if kind in ("array", "eof"):
        return list(obj.p)
    if kind == "two":
        return [obj.p, obj.q]
    for name in PATH.get(kind, ("p",)):
        obj = getattr(obj, name)
    return [obj]


def memory(k, n=56):
    if k == 0:
        return bytes((0x41 + 7 * i) % 0x7F + (i % 3 == 1) * 0x80 for i in range(n))
    if k == 1:
        return bytes((i * 5 + 1) % 40 if i % 4 else 0 for i in range(n))
    if k == 2:
        return bytes(0 if i % 7 == 6 else (3 * i + 2) % 32 for i in range(n))
    return bytes((0xFF, 0x80, 0x00, 0x01)[(i * 3 + i // 4) % 4] for i in range(n))


def cases(tier):
    quick = tier == "quick"
    for i, t in enumerate(TARGETS):
        for j, ptr in enumerate(PTRS):
            for h, hold in enumerate(HOLDERS):
                for k in range(4):
                    if quick and (k != (h + i + j) % 4 or h and (i + h) % 6 != j):
                        continue
                    yield ["m", t, ptr, hold, k, 3 if quick and h else 1]
    for t in ("uint8", "uint32", "char", "PT", "DYN", "p_u8", "UN", "E16", "void", "wchar", "uleb128", "PNODE"):
        for ptr in PTRS:
            yield ["arith", t, ptr]
    for ptr in PTRS:
        yield ["null", ptr]
        yield ["typedef", ptr]
        yield ["kinds", ptr]
        yield ["width", ptr]
        yield ["heap", ptr]
        yield ["far", ptr]
        yield ["ctx", ptr]
    depth = 4 if quick else 5
    for ptr in PTRS:
        for t in ("PT", "char", "uint16", "p_u8", "DYN"):
            for comp in (False, True):
                for first in range(len(OPS)):
                    yield ["hist", ptr, t, comp, first, depth]


def show(case):
    if case[0] == "m":
        return [ref.text(holder(case[3], TARGETS[case[1]]), ENV), case]
    return case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def cfgs(ptr):
    return configs(ptr=ptr)


def maximum(ptr):
    return (1 << (8 * SCALARS[ptr][1])) - 1


def expected(model, t, data, addr):
    """Model verdict of dereferencing a pointer to t: (kind, value)."""
    if addr == 0:
        return "null", None
    if t == ("s", "void"):
        return "value", None
    try:
        return "value", model.decode(A(t, ("z",)) if t == ("s", "char") else t, data, addr)[0]
    except NotCanonical:
        return "any", None
    except RefEOF:
        return "error", None


def deref(p):
    try:
        return "value", p.dereference()
    except NullPointerDereference:
        return "null", None
    except Exception as e:  # noqa: BLE001
        return "error", e


def same(a, b):
    return a == b or (a != a and b != b) or repr(a) == repr(b)


def judge(p, t, model, data, stream, what, typ=None, depth=0, st_=None):
    """One pointer: value of the target, position, stability."""
    addr = int(p)
    exp, val = expected(model, t, data, addr)
    pos = stream.tell() if stream is not None else None
    got, v = deref(p)
    if stream is not None and stream.tell() != pos:
        raise Violation(f"dereference of {p!r} moved the stream from {pos} to {stream.tell()}: {what()}")
    if exp == "any":
        # not canonical (e.g. NaN): compare with parsing the type at that offset
        s2 = BytesIO(data)
        s2.seek(addr)
        if typ is None:
            return
        try:
            gotw, w = "value", typ.read(s2)
        except Exception as e:  # noqa: BLE001
            gotw, w = "error", e
        if got != gotw or not same(v, w):
            raise Violation(f"dereference of {addr:#x} is {got} {v!r}, expected {w!r}: {what()}")
        return
    if got != exp:
        raise Violation(f"dereference of {addr:#x} is {got} ({v!r}), expected {exp} {val!r}: {what()}")
    if got == "error" and isinstance(v, (AttributeError, NameError, RecursionError)):
        raise Violation(f"dereference of {addr:#x} fails with {v!r}: {what()}")
    if got != "value":
        return
    if t == ("s", "void"):
        if v is not None:
            raise Violation(f"dereference of a void pointer is {v!r}: {what()}")
        return
    n = impl.norm(A(t, ("z",)) if t == ("s", "char") else t, v, ENV)
    if n != val:
        raise Violation(f"dereference of {addr:#x} is {n!r}, expected {val!r}: {what()}")
    got2, v2 = deref(p)
    if got2 != "value" or not same(v2, v) or impl.norm(A(t, ("z",)) if t == ("s", "char") else t, v2, ENV) != val:
        raise Violation(f"second dereference of {addr:#x} is {v2!r}, the first was {v!r}: {what()}")
    if t[0] != "p" and str(p) != str(v):
        raise Violation(f"str() of a pointer is {str(p)!r}, expected {str(v)!r}: {what()}")
    if t[0] in ("st", "un"):
        for fname, ft, bits in t[2]:
            if fname and fname not in ("real", "imag", "type") and not same(getattr(p, fname), getattr(v, fname)):
                raise Violation(f"attribute {fname} of the pointer differs from that of its target: {what()}")
    if t[0] == "p" and depth < 4:
        judge(v, t[1], model, data, stream, what, None, depth + 1, st_)
    if t[0] == "st" and depth < 3:
        for fname, ft, bits in t[2]:
            if ft[0] == "p":
                judge(getattr(v, fname), ft[1], model, data, stream, what, None, depth + 1, st_)
    if stream is not None and stream.tell() != pos:
        raise Violation(f"dereferencing moved the stream: {what()}")


def addresses(ptr, n):
    m = maximum(ptr)
    return [*range(min(n + 3, m) + 1), m, m - 1, (m >> 1) + 1, m >> 1]


def put(model, t, kind, addr, other):
    """Encoded holder with every pointer set."""
    def fill(ft, name):
        if ft[0] == "p":
            return ("P", addr if name in ("p", "y") else other)
        if ft[0] == "a":
            if ft[1] == ("s", "uint8"):
                return ("A", *[7] * (ft[2] if isinstance(ft[2], int) else 1))
            k = ft[2] if isinstance(ft[2], int) else 2
            return ("A", *[("P", (addr + i * other) & maximum(model.cfg.ptr) if i else addr) for i in range(k)])
        if ft[0] == "st":
            return ("S", *[(f, fill(x, f)) for f, x, _ in ft[2]])
        if ft[0] == "un":
            raw = bytearray(model.layout(ft)["size"])
            for f, x, _ in ft[2]:
                if f == "p" or (f == "s"):
                    e = model.encode(x, fill(x, f))
                    raw[: len(e)] = e
            return model.decode(ft, bytes(raw))[0]
        return {"n": 1}.get(name, 3)
    return model.encode(t, fill(t, None))


def run_m(tname, ptr, kind, k, step, st_):
    target = TARGETS[tname]
    t = holder(kind, target)
    base = memory(k)
    for cfg in cfgs(ptr):
        model = Model(ENV, cfg)
        cs = impl.build(t, ENV, cfg)
        T = cs.T
        typ = pointers_type(kind, T)
        if typ.type is not cs.resolve(typ.type):
            raise Violation(f"pointer target type {typ.type!r}")
        size = model.layout(t)["size"]
        if size is not None and T.size != size:
            raise Violation(f"{ref.text(t, ENV)} [{cfgname(cfg)}]: size {T.size} != {size}")
        al = model.alignment(t) or 1
        for start in (0, al * 3, (8 + al - 1) // al * al):
            for addr in addresses(ptr, len(base)):
                if (addr % step or start and addr % 5) and addr <= len(base):
                    continue  # the address is absolute, so a subset suffices at other starts
                other = (addr * 3 + 1) & maximum(ptr) if addr < 60 else 0
                enc = put(model, t, kind, addr, other)
                data = (base[:start] + enc) if kind == "eof" else base[:start] + enc + base[start + len(enc):]
                st_.trans()
                what = lambda: (f"{ref.text(t, ENV)} [{cfgname(cfg)}] at {start} of {data.hex()}")  # noqa: E731
                stream = BytesIO(data)
                stream.seek(start)
                obj = T(stream)
                end = stream.tell()
                if end != start + len(enc):
                    raise Violation(f"parse consumed {end - start} bytes, expected {len(enc)}: {what()}")
                want, _ = model.decode(t, data, start)
                if impl.norm(t, obj, ENV) != want:
                    raise Violation(f"parsed {impl.norm(t, obj, ENV)!r}, expected {want!r}: {what()}")
                # addresses are dumped back unchanged, before and after dereferencing
                clean = model.encode(t, want)
                if obj.dumps() != clean:
                    raise Violation(f"dumped {obj.dumps().hex()}, expected {clean.hex()}: {what()}")
                for p in pointers(kind, obj):
                    judge(p, target, model, data, stream, what, typ.type, 0, st_)
                    st_.trace()
                if stream.tell() != end:
                    raise Violation(f"stream moved to {stream.tell()}: {what()}")
                if obj.dumps() != clean:
                    raise Violation(f"dumped {obj.dumps().hex()} after dereferencing, expected {clean.hex()}: {what()}")
    st_.state()


def pointers_type(kind, T):
    f = T.fields
    for name in PATH.get(kind, ("p",))[:-1]:
        f = f[name].type.fields
    t = f["p"].type
    return t.type if kind in ("array", "eof") else t


ARITH = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "//": lambda a, b: a // b,
    "%": lambda a, b: a % b, "**": lambda a, b: a ** b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b,
    "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
}


def run_arith(tname, ptr, st_):
    target = TARGETS[tname]
    t = holder("plain", target)
    data0 = memory(2, 64)
    for cfg in cfgs(ptr):
        model = Model(ENV, cfg)
        cs = impl.build(t, ENV, cfg)
        for addr in (0, 1, 5, 8, 21, 40, min(250, maximum(ptr))):
            enc = put(model, t, "plain", addr, 0)
            data = enc + data0[len(enc):]
            stream = BytesIO(data)
            obj = cs.T(stream)
            end = stream.tell()
            for first in (False, True):
                p = obj.p
                if first and addr:
                    deref(p)  # a cached value must not follow the new address
                for op, f in ARITH.items():
                    for n in (0, 1, 2, 3, 4, 7, 16):
                        if op in ("//", "%") and n == 0 or op in ("**", "<<") and n > 4:
                            continue
                        q = f(p, n)
                        want = f(int(p), n)
                        st_.trans()
                        what = lambda: f"p {op} {n} with p={addr:#x}, {tname}* [{cfgname(cfg)}] {data.hex()}"  # noqa: E731
                        if int(q) != want or type(q) is not type(p):
                            raise Violation(f"result is {q!r} of {type(q).__name__}, expected {want:#x}: {what()}")
                        if want < 0:
                            continue
                        judge(q, target, model, data, stream, what, type(p).type)
                        st_.trace()
                        # chained arithmetic and in-place assignment keep type and stream
                        r = q + 1
                        if type(r) is not type(p) or int(r) != want + 1:
                            raise Violation(f"chained arithmetic gives {r!r}: {what()}")
                        judge(r, target, model, data, stream, what, type(p).type)
                        if want <= maximum(ptr):
                            obj2 = cs.T(data)
                            obj2.p = q
                            v = model.decode(t, data)[0]
                            v = ("S", *[(a, ("P", want) if a == "p" else b) for a, b in v[1:]])
                            if obj2.dumps() != model.encode(t, v):
                                raise Violation(f"dump after assignment is {obj2.dumps().hex()}: {what()}")
                if stream.tell() != end:
                    raise Violation("stream moved")
    st_.state()


def run_null(ptr, st_):
    for tname, target in TARGETS.items():
        t = holder("plain", target)
        for cfg in cfgs(ptr):
            model = Model(ENV, cfg)
            cs = impl.build(t, ENV, cfg)
            PT_ = cs.T.fields["p"].type
            zero = model.encode(t, model.zero(t))

            def null(p, why, value=0):
                if int(p) != value:
                    raise Violation(f"{why}: pointer is {p!r}, expected {value:#x}")
                for how in ("dereference()", "attribute", "str()"):
                    try:
                        if how == "attribute":
                            p.nothing_like_this
                        elif how == "str()":
                            str(p)
                        else:
                            p.dereference()
                    except NullPointerDereference:
                        continue
                    except Exception as e:  # noqa: BLE001
                        raise Violation(f"{why}: {how} of {tname}* raised {e!r} [{cfgname(cfg)}]") from e
                    raise Violation(f"{why}: {how} of {tname}* did not fail [{cfgname(cfg)}]")
                st_.trace()

            null(cs.T().p, "default construction")
            null(cs.T(a=1).p, "keyword construction")
            null(cs.T(zero).p, "null address")
            null(PT_(0, BytesIO(bytes(80))), "null pointer with a stream")
            null(PT_(5, None), "pointer without a stream", 5)
            null(PT_(5, None) + 1, "pointer without a stream", 6)
            null(PT_(5, BytesIO(bytes(80))) - 5, "pointer moved to null")
            if len(PT_) != SCALARS[ptr][1] or PT_.size != SCALARS[ptr][1]:
                raise Violation(f"pointer size {PT_.size} [{cfgname(cfg)}]")
            null(PT_.__default__(), "default value")
            if PT_.dumps(PT_(5, None)) != model.encode(P(target), ("P", 5)):
                raise Violation("dump of a pointer")
            p = PT_(model.encode(P(target), ("P", 17)))
            if int(p) != 17:
                raise Violation(f"parse of a pointer type: {p!r}")
            st_.trans()
    st_.state()


def run_typedef(ptr, st_):
    """Pointers made through typedefs, arrays as targets, pointer types used on their own."""
    base = memory(1, 48)
    text = """
    typedef uint8 arr_t[3];
    typedef char str_t[4];
    typedef uint16 *pw;
    typedef pw *ppw;
    typedef struct S { uint8 a; uint16 b; } S_t, S_u;
    typedef S_u *pS;
    typedef struct S *pS2;
    struct T { uint8 a; arr_t *pa; pw b; ppw c; pS d; pS2 e; S_t *f; str_t *g; pS h[2]; uint8 z; };
    """
    s = st("S", F("a", S("uint8")), F("b", S("uint16")))
    fields = [F("a", S("uint8")), F("pa", P(A(S("uint8"), 3))), F("b", P(S("uint16"))), F("c", P(P(S("uint16")))),
              F("d", P(s)), F("e", P(s)), F("f", P(s)), F("g", P(A(S("char"), 4))), F("h", A(P(s), 2)),
              F("z", S("uint8"))]
    t = st("T", *fields)
    for cfg in cfgs(ptr):
        model = Model(ENV, cfg)
        cs = cstruct(endian=cfg.endian, pointer=cfg.ptr)
        cs.load(text, compiled=cfg.compiled, align=cfg.align)
        for addr in range(0, len(base) + 2):
            names = [f[0] for f in fields]
            v = ("S", *[(n, 1 if n in "az" else ("A", ("P", addr), ("P", addr // 2)) if n == "h"
                         else ("P", max(addr - i, 0))) for i, n in enumerate(names)])
            enc = model.encode(t, v)
            data = base + enc
            stream = BytesIO(data)
            stream.seek(len(base))
            obj = cs.T(stream)
            what = lambda: f"{text} [{cfgname(cfg)}] at {len(base)} of {data.hex()}"  # noqa: E731
            if impl.norm(t, obj, ENV) != v or obj.dumps() != enc:
                raise Violation(f"parsed {impl.norm(t, obj, ENV)!r}, expected {v!r}: {what()}")
            for n, ft, _ in fields:
                for p, x in ([(getattr(obj, n), ft)] if ft[0] == "p" else
                             [(e, ft[1]) for e in getattr(obj, n)] if ft[0] == "a" else []):
                    judge(p, x[1], model, data, stream, what)
                    st_.trace()
            for alias, x in (("pw", S("uint16")), ("ppw", P(S("uint16"))), ("pS", s), ("pS2", s)):
                typ = getattr(cs, alias)
                enc1 = model.encode(P(x), ("P", addr))
                s2 = BytesIO(base + enc1)
                s2.seek(len(base))
                p = typ(s2)
                if int(p) != addr or s2.tell() != len(base) + len(enc1):
                    raise Violation(f"{alias}: {p!r} at {s2.tell()}")
                judge(p, x, model, base + enc1, s2, what)
                if typ.dumps(p) != enc1:
                    raise Violation(f"{alias} dumps as {typ.dumps(p).hex()}")
            st_.trans()
    st_.state()


def run_ctx(ptr, st_):
    """Targets whose length refers to the fields read next to the pointer, also after arithmetic."""
    text = ("typedef uint8 A_t[n]; typedef uint16 B_t[n + m]; typedef char C_t[n * 2]; typedef A_t D_t[m]; typedef uint16 E_t[(t & 2) + n]; "
            "struct T { uint8 n; uint8 m; A_t *p; B_t *q; C_t *r; A_t *v[2]; A_t **w; D_t *x; E_t *y; uint8 t; };")
    base = memory(1, 40)
    off = 40
    for cfg in cfgs(ptr):
        model = Model(ENV, cfg)
        cs = cstruct(endian=cfg.endian, pointer=cfg.ptr)
        cs.load(text, compiled=cfg.compiled, align=cfg.align)
        for n, m in product(range(4), range(3)):
            a_t = A(S("uint8"), n)
            targets = {"p": a_t, "q": A(S("uint16"), n + m), "r": A(S("char"), n * 2), "w": P(a_t), "x": A(a_t, m),
                       "y": A(S("uint16"), (n * 5 + m & 2) + n)}
            t = st("T", F("n", S("uint8")), F("m", S("uint8")), F("p", P(a_t)), F("q", P(targets["q"])),
                   F("r", P(targets["r"])), F("v", A(P(a_t), 2)), F("w", P(P(a_t))), F("x", P(targets["x"])),
                   F("y", P(targets["y"])), F("t", S("uint8")))
            for addr in (1, 5, 9, 21, 38, 100):
                v = ("S", ("n", n), ("m", m), ("p", ("P", addr)), ("q", ("P", addr + 1)), ("r", ("P", addr + 2)),
                     ("v", ("A", ("P", addr), ("P", addr + 3))), ("w", ("P", addr)), ("x", ("P", addr + 1)),
                     ("y", ("P", addr)), ("t", n * 5 + m))
                enc = model.encode(t, v)
                data = base + enc
                what = lambda: f"{text} n={n} m={m} [{cfgname(cfg)}] at {off} of {data.hex()}"  # noqa: E731, B023
                for op in (None, *ARITH):
                    stream = BytesIO(data)
                    stream.seek(off)
                    obj = cs.T(stream)
                    if impl.norm(t, obj, ENV) != v or stream.tell() != len(data):
                        raise Violation(f"parsed {impl.norm(t, obj, ENV)!r}, expected {v!r}: {what()}")
                    todo = [(getattr(obj, f), x) for f, x in targets.items()] + [(e, a_t) for e in obj.v]
                    for p, x in todo:
                        for k in (0,) if op is None else (1, 3, 0x0F):
                            want = int(p) if op is None else ARITH[op](int(p), k)
                            if not 0 <= want <= maximum(ptr):
                                continue
                            st_.trans()
                            judge(p if op is None else ARITH[op](p, k), x, model, data, stream,
                                  lambda: f"p {op} {k}: {what()}")  # noqa: B023
                    if obj.dumps() != enc:
                        raise Violation(f"dumped {obj.dumps().hex()}: {what()}")
                st_.trace()
    st_.state()


class Wrapped(io.RawIOBase):
    """A seekable stream which isn't a BytesIO."""

    def __init__(self, data):
        self.inner = BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        return self.inner.read(n)

    def seek(self, *a):
        return self.inner.seek(*a)

    def tell(self):
        return self.inner.tell()


def run_kinds(ptr, st_):
    for kind in HOLDERS:
        if kind == "eof":
            continue
        for tname in ("PT", "char", "uint16", "DYN", "p_u8", "UN"):
            target = TARGETS[tname]
            t = holder(kind, target)
            for cfg in cfgs(ptr):
                model = Model(ENV, cfg)
                cs = impl.build(t, ENV, cfg)
                for addr in (1, 3, 30, 47, 60):
                    enc = put(model, t, kind, addr, 1)
                    data = enc + memory(2, 64)[len(enc):]
                    what = lambda: f"{ref.text(t, ENV)} [{cfgname(cfg)}] {data.hex()}"  # noqa: E731
                    w = Wrapped(data)
                    forms = [cs.T(data), cs.T(bytearray(data)), cs.T(memoryview(data)), cs.T.reads(data),
                             cs.T.read(data), cs.T.read(BytesIO(data)), cs.T(io.BufferedReader(BytesIO(data))), cs.T(w)]
                    for i, obj in enumerate(forms):
                        stream = w if obj is forms[-1] else None
                        for p in pointers(kind, obj):
                            judge(p, target, model, data, stream, lambda: f"form {i} " + what())
                            st_.trace()
                    # the objects read from one stream are independent of the position left by the others
                    arr = enc + enc + memory(2, 64)
                    stream = BytesIO(arr)
                    if len(enc) % (model.alignment(t) or 1) == 0:
                        a, b = cs.T(stream), cs.T(stream)
                        for obj in (b, a):
                            for p in pointers(kind, obj):
                                judge(p, target, model, arr, stream, what)
                    st_.trans()
    st_.state()


class Sparse:
    """A huge seekable memory: every byte is a function of its address."""

    def __init__(self, end, low):
        self.end, self.low, self.pos = end, low, 0

    def at(self, a, n):
        """n bytes from address a."""
        return bytes(self.low[i] if i < len(self.low) else 0 if i % 5 == 3 else (i * 7 + (i >> 8) * 3 + (i >> 29)) % 0x7E + 1
                     for i in range(a, min(a + n, self.end)))

    def read(self, n=-1):
        out = self.at(self.pos, self.end - self.pos if n is None or n < 0 else n)
        self.pos += len(out)
        return out

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.end + off
        return self.pos

    def tell(self):
        return self.pos


FAR = ("uint8", "int32", "uint24", "int128", "double", "wchar", "uleb128", "E16", "F8", "PT", "BITS", "DYN", "UN", "p_u8", "pp_u16",
       "PNODE", "char", "DYZ", "PARR")


def run_far(ptr, st_):
    """Targets around every power of two in the range of the pointer, with holders anywhere else in it."""
    size = SCALARS[ptr][1]
    addrs = sorted({a for k in range(8 * size + 1) for d in (-40, -3, -1, 0, 1, 2, 5) for a in ((1 << k) + d,)
                    if 0 < a <= maximum(ptr)})
    for tname in FAR:
        target = TARGETS[tname]
        for kind in ("plain", "array", "union", "nested") if tname in ("PT", "char", "p_u8") else ("plain",):
            t = holder(kind, target)
            for cfg in cfgs(ptr):
                if tname != "PT" and (cfg.align is not (cfg.endian == ">")):
                    continue
                model = Model(ENV, cfg)
                cs = impl.build(t, ENV, cfg)
                as_read = A(target, ("z",)) if target == ("s", "char") else target
                for addr in addrs:
                    enc = put(model, t, kind, addr, 1)
                    al = max(1, model.alignment(t) or 1)
                    for start in (0, 64, (maximum(ptr) >> 1) // al * al):
                        mem = Sparse(maximum(ptr) + 200, b"" if start else enc)
                        what = f"{ref.text(t, ENV)} [{cfgname(cfg)}] address {addr:#x}, structure at {start:#x}"
                        stream = Over(mem, start, enc) if start else mem
                        obj = cs.T(stream)
                        if stream.tell() != start + len(enc):
                            raise Violation(f"stream at {stream.tell():#x}: {what}")
                        for i, p in enumerate(pointers(kind, obj)):
                            if int(p) != addr and i == 0:
                                raise Violation(f"pointer value {int(p):#x}: {what}")
                            try:
                                want, _ = model.decode(as_read, stream.at(int(p), 120))
                            except (NotCanonical, RefEOF):
                                continue
                            if not p:
                                continue
                            st_.state()
                            for _ in range(2):
                                st_.trans()
                                got, v = deref(p)
                                if got != "value" or impl.norm(as_read, v, ENV) != want:
                                    raise Violation(f"dereference gives {got} {v!r}, expected {want!r}: {what}")
                                if stream.tell() != start + len(enc):
                                    raise Violation(f"dereference moved the stream to {stream.tell():#x}: {what}")
                            st_.trace()


class Over(Sparse):
    """The same memory with some bytes placed at one address, positioned there."""

    def __init__(self, mem, start, data):
        super().__init__(mem.end, mem.low)
        self.start, self.data, self.pos = start, data, start

    def at(self, a, n):
        out = bytearray(super().at(a, n))
        for i, b in enumerate(self.data):
            if 0 <= self.start + i - a < len(out):
                out[self.start + i - a] = b
        return bytes(out)


def run_width(ptr, st_):
    """All configured widths: the value is the unsigned integer stored there, whatever way the type is configured."""
    size = SCALARS[ptr][1]
    values = {0, 1, maximum(ptr), maximum(ptr) >> 1, (maximum(ptr) >> 1) + 1, maximum(ptr) - 1}
    values |= {1 << i for i in range(8 * size)} | {maximum(ptr) ^ (1 << i) for i in range(8 * size)}
    values |= {int.from_bytes(bytes(range(0x11, 0x11 + size)), "big")}
    alias = {"uint8": ["BYTE", "uint8_t"], "uint16": ["WORD", "u2", "unsigned short"],
             "uint24": [], "uint32": ["DWORD", "unsigned int", "uint32_t"], "uint48": [],
             "uint64": ["QWORD", "unsigned long long", "ULONGLONG"]}[ptr]
    for cfg in cfgs(ptr):
        made = [cstruct(endian=cfg.endian, pointer=ptr)]
        for a in alias:
            try:
                made.append(cstruct(endian=cfg.endian, pointer=a))
            except Exception as e:  # noqa: BLE001
                raise Violation(f"pointer={a!r} is rejected: {e!r}") from e
        late = cstruct(endian=cfg.endian)
        late.pointer = getattr(late, ptr)
        made.append(late)
        for cs in made:
            cs.load("struct T { uint8 a; void *p; uint8 b; uint32 *q[2]; char **r; uint16 c; };", compiled=cfg.compiled,
                    align=cfg.align)
            t = st("T", F("a", S("uint8")), F("p", P(S("void"))), F("b", S("uint8")), F("q", A(P(S("uint32")), 2)),
                   F("r", P(P(S("char")))), F("c", S("uint16")))
            model = Model(ENV, cfg)
            if len(cs.T) != model.layout(t)["size"]:
                raise Violation(f"size {len(cs.T)} with {ptr} [{cfgname(cfg)}]")
            offs = [f.offset for f in cs.T.__fields__]
            if offs != list(model.layout(t)["offsets"]):
                raise Violation(f"offsets {offs} [{cfgname(cfg)}]")
            for v in sorted(values):
                val = ("S", ("a", 1), ("p", ("P", v)), ("b", 2), ("q", ("A", ("P", v), ("P", v ^ 1))), ("r", ("P", v)),
                       ("c", 3))
                enc = model.encode(t, val)
                obj = cs.T(enc)
                if impl.norm(t, obj, ENV) != val:
                    raise Violation(f"{v:#x} parsed as {impl.norm(t, obj, ENV)!r} [{cfgname(cfg)}]")
                if obj.dumps() != enc:
                    raise Violation(f"{v:#x} dumped as {obj.dumps().hex()} [{cfgname(cfg)}]")
                made_ = cs.T(a=1, p=v, b=2, q=[v, v ^ 1], r=v, c=3)
                if made_.dumps() != enc:
                    raise Violation(f"{v:#x} constructed and dumped as {made_.dumps().hex()} [{cfgname(cfg)}]")
                st_.trans()
                st_.trace()
    st_.state()


def run_heap(ptr, st_):
    """All linked structures over three nodes: next and other pointers among {null, node 0..2, out of bounds}."""
    text = "struct node { uint8 v; struct node *next; struct node *other; uint16 w; };"
    for cfg in cfgs(ptr):
        model = Model(ENV, cfg)
        t = st("node", F("v", S("uint8")), F("next", P(S("void"))), F("other", P(S("void"))), F("w", S("uint16")))
        cs = cstruct(endian=cfg.endian, pointer=ptr)
        cs.load(text, compiled=cfg.compiled, align=cfg.align)
        size = model.layout(t)["size"]
        if cs.node.size != size:
            raise Violation(f"{text} [{cfgname(cfg)}]: size {cs.node.size} != {size}")
        at = [8 + size * i for i in range(3)]
        end = 8 + size * 3
        links = [0, *at, end]
        steps = ("next", "other")
        for nxt in product(links, repeat=3):
            for oth in (nxt[::-1], (at[0], 0, at[1])):
                data = bytes(range(8)) + b"".join(
                    model.encode(t, ("S", ("v", 10 + i), ("next", ("P", nxt[i])), ("other", ("P", oth[i])),
                                     ("w", 300 + i))) for i in range(3))
                stream = BytesIO(data)
                stream.seek(8)
                root = cs.node(stream)
                pos = stream.tell()
                for path in product(steps, repeat=3):
                    cur, idx = root, 0
                    for step in path:
                        p = getattr(cur, step)
                        to = (nxt if step == "next" else oth)[idx]
                        if int(p) != to:
                            raise Violation(f"{path}: pointer {p!r}, expected {to:#x} [{cfgname(cfg)}] {data.hex()}")
                        st_.trans()
                        if to in (0, end):
                            try:
                                p.v
                                raise Violation(f"{path}: {p!r} was dereferenced [{cfgname(cfg)}] {data.hex()}")
                            except NullPointerDereference:
                                if to:
                                    raise
                            except EOFError:
                                if not to:
                                    raise
                            break
                        idx = at.index(to)
                        if (p.v, p.w) != (10 + idx, 300 + idx):
                            raise Violation(f"{path}: node {p.v, p.w}, expected {idx} [{cfgname(cfg)}] {data.hex()}")
                        if p.dereference() != cs.node(data[to:to + size]) or type(p.dereference()) is not cs.node:
                            raise Violation(f"{path}: {p.dereference()!r} [{cfgname(cfg)}] {data.hex()}")
                        cur = p
                    if stream.tell() != pos:
                        raise Violation(f"{path}: stream moved to {stream.tell()} [{cfgname(cfg)}] {data.hex()}")
                if root.dumps() != data[8:8 + size]:
                    raise Violation(f"dump {root.dumps().hex()} [{cfgname(cfg)}] {data.hex()}")
                st_.trace()
    st_.state()


# ------------------------------------------------------------------------------------------------- histories

OPS = ("deref0", "deref1", "seek0", "seekmid", "seekend", "read", "inc0", "set1", "dump", "poke", "fail")


def run_hist(ptr, tname, comp, first, depth, st_):
    """All operation histories up to the depth, starting with one operation, against a model of stream and objects."""
    target = TARGETS[tname]
    t = st("T", F("a", S("uint8")), F("p", P(target)), F("b", S("uint8")), F("q", P(target)))
    for end in "<>":
        cfg = Cfg(end, False, ptr, comp)
        model = Model(ENV, cfg)
        cs = impl.build(t, ENV, cfg)
        size = model.layout(t)["size"]
        n = 3
        mem0 = bytes(0 if i % 5 == 4 or i == 5 else (i * 7) % 30 + 1 for i in range(40))
        heads = b"".join(model.encode(t, ("S", ("a", i), ("p", ("P", size * n + 4 + i)), ("b", 9),
                                          ("q", ("P", size * n + 15 - i)))) for i in range(n))
        data0 = heads + mem0

        def replay(ops):
            stream = BytesIO(data0)
            data = bytearray(data0)
            obj = cs.T(stream)
            pos = size
            vals = dict(model.decode(t, data0)[0][1:])
            slot = {"p": [], "q": []}  # the pointer objects: fields may hold the same one, it remembers its target
            log = lambda: f"{ops} [{cfgname(cfg)}] {tname}* {data0.hex()}"  # noqa: E731
            for op in ops:
                st_.trans()
                if op in ("deref0", "deref1"):
                    f = "pq"[op == "deref1"]
                    p = getattr(obj, f)
                    if slot[f]:
                        kind, want = slot[f][0]
                    else:
                        kind, want = expected(model, target, bytes(data), vals[f][1])
                        if kind == "value":
                            slot[f].append((kind, want))
                    got, v = deref(p)
                    if got != kind:
                        raise Violation(f"{op} is {got} ({v!r}), expected {kind} {want!r}: {log()}")
                    if got == "value":
                        m = impl.norm(A(target, ("z",)) if tname == "char" else target, v, ENV)
                        if m != want:
                            raise Violation(f"{op} is {m!r}, expected {want!r}: {log()}")
                elif op.startswith("seek"):
                    pos = {"seek0": 0, "seekmid": size * 2, "seekend": len(data0)}[op]
                    stream.seek(pos)
                elif op == "read":
                    try:
                        want, new = model.decode(t, bytes(data), pos)
                    except RefEOF:
                        try:
                            cs.T(stream)
                        except EOFError:
                            stream.seek(pos)
                            continue
                        raise Violation(f"read at {pos} did not fail: {log()}")
                    obj = cs.T(stream)
                    pos = new
                    vals = dict(want[1:])
                    slot = {"p": [], "q": []}
                    if impl.norm(t, obj, ENV) != want:
                        raise Violation(f"read {obj!r}, expected {want!r}: {log()}")
                elif op == "inc0":
                    new = vals["p"][1] + 3
                    if new > maximum(ptr):
                        continue
                    obj.p = obj.p + 3
                    vals["p"] = ("P", new)
                    slot["p"] = []
                elif op == "set1":
                    obj.q = obj.p
                    vals["q"] = vals["p"]
                    slot["q"] = slot["p"]  # the two fields hold the same pointer object from here on
                elif op == "poke":
                    # the target changes in the stream: a pointer dereferenced before keeps its value
                    i = vals["p"][1]
                    if i < len(data):
                        cur = stream.tell()
                        data[i] ^= 0x3
                        stream.seek(i)
                        stream.write(bytes([data[i]]))
                        stream.seek(cur)
                elif op == "fail":
                    # a failing dereference leaves everything as it was
                    bad = obj.p * 0 + (len(data0) + 5)
                    if int(bad) <= maximum(ptr) and deref(bad)[0] != "error":
                        raise Violation(f"dereference beyond the end succeeded: {log()}")
                elif op == "dump":
                    want = model.encode(t, ("S", *vals.items()))
                    if obj.dumps() != want:
                        raise Violation(f"dump is {obj.dumps().hex()}, expected {want.hex()}: {log()}")
                if stream.tell() != pos:
                    raise Violation(f"stream is at {stream.tell()}, expected {pos} after {op}: {log()}")
            st_.trace()

        for d in range(depth):
            for rest in product(OPS, repeat=d):
                if d == depth - 1 or d == 0:
                    replay((OPS[first], *rest))
        st_.state()
