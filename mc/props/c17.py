"""C17 Structure values: field-wise equality, consistent hash/bool, local assignment."""
from itertools import combinations, permutations, product

from dissect.cstruct import cstruct

from mc import impl, ref, space
from mc.cexpr import CExprError
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, cfgname, configs, show as _show
from mc.ref import SCALARS, Cfg, Model, NotCanonical
from mc.space import DYN, ENV, NEST, PT, UN, A, F, Filler, P, S, in_, st, un

PROP = "C17"
LIMIT = 120
RULE = ("field counts 0..70 and around 128/256/300 x name sets (ordinary, template-like, keyword, parameter and built-in "
        "names) x {struct, union} with interleaved classes of equal counts: every single-field difference, every prefix of "
        "positional values, every subset (or single/prefix for wide ones) of keywords; every program of one or two atoms: "
        "all pairs of content patterns for ==, hash, bool; every assignment of every field (nested, anonymous, array "
        "element, union member) x content patterns x {<,>} x {packed,aligned}: the dump equals the model's, i.e. differs in "
        "that field's bits only; histories of assignments up to depth 3 on mixed structures")
ASSUMPTIONS = ["truthiness of a field is that of its Python value, recursively for nested structures",
               "a single positional bytes-like argument is parsed, as documented",
               "NaN values are not compared"]

WIDTHS = (*range(0, 71), 127, 128, 129, 200, 254, 255, 256, 257, 300)
ODD = ("self", "cls", "other", "_0", "_1", "_2", "any", "hash", "None", "class", "def", "args", "kwargs", "type", "object",
       "_default", "value", "name", "stream", "result", "obj", "context", "data", "lambda", "return", "True", "_self",
       "True_", "getattr", "len", "bytes", "buf", "r", "_buf_", "_struct", "lookup", "fields", "size", "alignment",
       "dynamic", "cs", "offset", "_", "_name", "_0_", "i", "x", "a", "real", "imag", "__x", "__a__", "endian", "import",
       "is", "in", "if", "not", "and", "or", "sizes", "values", "bit_buffer", "bit_reader", "data_", "s", "o", "_o")
NAMESETS = {
    "plain": lambda n: [f"f{i}" for i in range(n)],
    "rev": lambda n: [f"f{n - i}" for i in range(n)],
    "tmpl": lambda n: [f"_{(i + 1) % n}" for i in range(n)],
    "tmplrev": lambda n: [f"_{n - 1 - i}" for i in range(n)],
    "odd": lambda n: [*ODD[:n], *[f"o{i}" for i in range(n - len(ODD))]],
    "lengthy": lambda n: [f"{'x' * (i % 40)}y{i}" for i in range(n)],
}


def cases(tier):
    quick = tier == "quick"
    for n in WIDTHS:
        yield ["width", n, "st"]
        if n:
            yield ["width", n, "un"]
    for name in ODD:
        yield ["name", name]
    for i in range(len(ODD)):
        yield ["names", i]
    for name in ODD:
        for kind in ("struct", "union"):
            yield ["anonname", name, kind]
    yield ["types"]
    for a in EQKINDS:
        yield ["equiv", a]
    for a in KINDS3:
        yield ["hist", a, 2 if quick else 3]
    for key in space.keys("quick"):
        if key[0] == "p" and len(key[1]) > 2:
            continue
        yield ["m", key, quick]
    if not quick:
        for key in space.keys("thorough"):
            if key[0] == "p" and len(key[1]) == 2 and not set(key[1]) & set(space.CORE):
                yield ["m", key, quick]
        for labs in product(space.MINI, repeat=3):
            if space.valid(space.program(labs)):
                yield ["m", ("p", labs), True]


def show(case):
    return _show([case[1]]) if case[0] == "m" else case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


# ------------------------------------------------------------------------------------ generated methods by count


def check_eq(a, b, equal, what):
    """==, != and hash between two instances, both ways."""
    for x, y in ((a, b), (b, a)):
        if bool(x == y) is not equal or bool(x != y) is equal:
            raise Violation(f"{x!r} == {y!r} is {x == y!r}, != is {x != y!r}, expected equal={equal}: {what()}")
    if equal:
        hs = []
        for x in (a, b):
            try:
                hs.append(hash(x))
            except TypeError as e:
                if "unhashable" not in str(e):
                    raise Violation(f"hash() failed with {e!r}: {what()}") from e
                hs.append(None)
        if hs[0] != hs[1]:
            raise Violation(f"equal instances hash to {hs}: {what()}")


def run_width(n, kind, st_):
    sets = [k for k in NAMESETS if n <= 70 or k in ("plain", "rev", "tmpl")]
    cs = cstruct()
    word = "struct" if kind == "st" else "union"
    names = {}
    for k in sets:
        names[k] = NAMESETS[k](n)
        body = " ".join(f"uint8 {f};" for f in names[k])
        cs.load(f"{word} {k} {{ {body} }};", compiled=k != "rev")
    classes = {k: getattr(cs, k) for k in sets}
    if kind == "un":
        return union_width(n, classes, names, st_)
    if n and kind == "st":
        mixed = " ".join((f"uint8 f{i};", f"uint32 f{i};", f"uint8 f{i}[2];", f"char f{i};")[i % 4] for i in range(n))
        cs.load(f"struct mixed {{ {mixed} }};")
    # interleave: construct from every class before using any
    zero = {k: classes[k]() for k in sets}
    for rnd in range(2):
        for k in sets:
            T, fs = classes[k], names[k]
            what = lambda: f"{word} with {n} fields {fs[:12]}..."  # noqa: E731
            full = list(range(1, n + 1))
            vals = [v % 251 + 1 for v in full]
            z = zero[k]
            if len(T) != n or [f.name for f in T.__fields__] != fs:
                raise Violation(f"fields {T.__fields__}: {what()}")
            if z.dumps() != bytes(n) or bool(z) is not False or any(getattr(z, f) != 0 for f in fs):
                raise Violation(f"default instance {z!r}, bool {bool(z)}: {what()}")
            one = T(**dict(zip(fs, vals)))
            pos = T(*vals)
            if one.dumps() != bytes(vals) or pos.dumps() != bytes(vals) or [getattr(pos, f) for f in fs] != vals:
                raise Violation(f"constructed {one!r} / {pos!r}: {what()}")
            parsed = T(bytes(vals))
            check_eq(one, pos, True, what)
            check_eq(one, parsed, True, what)
            if n:
                check_eq(one, z, False, what)
                if bool(one) is not True:
                    raise Violation(f"bool of {one!r}: {what()}")
            for i, f in enumerate(fs):
                if n > 130 and 20 < i < n - 20 and not 250 < i < 260 and not 120 < i < 132:
                    continue
                st_.trans()
                d = bytearray(vals)
                d[i] ^= 0x80
                o = T(bytes(d))
                check_eq(one, o, False, what)
                setattr(o, f, vals[i])
                check_eq(one, o, True, what)
                s = T(**{f: 7})
                e = bytes(7 if j == i else 0 for j in range(n))
                if s.dumps() != e or bool(s) is not True or hash(s) != hash(T(e)):
                    raise Violation(f"{f}=7 gives {s!r} dumping {s.dumps().hex()}, bool {bool(s)}: {what()}")
                check_eq(s, T(e), True, what)
                setattr(s, f, 0)
                if bool(s) is not False:
                    raise Violation(f"bool with all zero after {f}: {what()}")
                check_eq(s, z, True, what)
                y = T()
                setattr(y, f, 9)
                if y.dumps() != bytes(9 if j == i else 0 for j in range(n)) or T().dumps() != bytes(n):
                    raise Violation(f"{f} = 9 dumps {y.dumps().hex()}: {what()}")
                if n < 80:
                    p = T(*vals[: i + 1])
                    if p.dumps() != bytes(vals[: i + 1]) + bytes(n - i - 1):
                        raise Violation(f"{i + 1} positional values give {p!r}: {what()}")
                    if i:
                        m = T(*vals[:i], **{f: 77})
                        if m.dumps() != bytes(vals[:i]) + b"M" + bytes(n - i - 1):
                            raise Violation(f"positional and keyword {f} give {m!r}: {what()}")
            if n <= 7:
                for r in range(n + 1):
                    for sub in combinations(range(n), r):
                        o = T(**{fs[i]: vals[i] for i in reversed(sub)})
                        if o.dumps() != bytes(vals[i] if i in sub else 0 for i in range(n)):
                            raise Violation(f"keywords {sub} give {o!r}: {what()}")
                        if bool(o) is not bool(sub):
                            raise Violation(f"bool of {o!r}: {what()}")
            st_.trace()
    for a, b in permutations(sets, 2):
        check_eq(classes[a](bytes(range(n))) if n < 256 else classes[a](), classes[b](bytes(range(n)))
                 if n < 256 else classes[b](), False, lambda: f"instances of different structures {a} and {b}")
    st_.state()


def union_width(n, classes, names, st_):
    for rnd in range(2):
        for k, T in classes.items():
            fs = names[k]
            what = lambda: f"union with {n} fields {fs[:12]}..."  # noqa: E731
            z = T()
            if len(T) != 1 or z.dumps() != b"\0" or bool(z) or any(getattr(z, f) for f in fs):
                raise Violation(f"default {z!r}: {what()}")
            check_eq(z, T(b"\0"), True, what)
            for i, f in enumerate(fs):
                if n > 24 and rnd + 8 < i < n - 3:
                    continue
                st_.trans()
                for o in (T(**{f: i % 200 + 1}), T(bytes([i % 200 + 1]))):
                    if o.dumps() != bytes([i % 200 + 1]) or not bool(o) or any(getattr(o, g) != i % 200 + 1 for g in fs):
                        raise Violation(f"{f} gives {o!r}: {what()}")
                    check_eq(o, T(bytes([i % 200 + 1])), True, what)
                    check_eq(o, z, False, what)
                    setattr(o, f, 0)
                    check_eq(o, z, True, what)
            o = T(3)
            if o.dumps() != b"\3":
                raise Violation(f"positional {o!r}: {what()}")
            st_.trace()
    st_.state()


NAME_SHAPES = {
    "only": ["{0}"], "first": ["{0}", "zz"], "last": ["zz", "{0}"], "mid": ["zz", "{0}", "yy"],
}


def run_name(name, st_):
    for shape, fs in NAME_SHAPES.items():
        names = [f.format(name) for f in fs]
        for typ, size, val in (("uint8", 1, 0x81), ("uint16", 2, 0x8182), ("char", 1, b"q"), ("uint24", 3, 0x818283)):
            for comp in (False, True):
                for al in (False, True)[: 1 if typ == "uint24" else 2]:
                    one_name(names, typ, size, val, comp, al, st_)
    st_.state()


def run_anonname(name, kind, st_):
    """The name as a field of an anonymous structure or union."""
    for comp in (False, True):
        for depth in (1, 2):
            cs = cstruct()
            inner = f"uint16 {name}; uint8 zy;"
            for _ in range(depth):
                inner = f"{kind} {{ {inner} }};"
            text = f"struct T {{ uint8 zx; {inner} uint8 zz; }};"
            cs.load(text, compiled=comp)
            n = 3 if kind == "struct" else 2
            data = bytes(range(1, n + 3))
            o = cs.T(data)
            what = f"{text} {'compiled' if comp else 'interpreted'}"
            if getattr(o, name) != 0x0302 or o[name] != 0x0302:
                raise Violation(f"field {name} of an anonymous {kind} is {getattr(o, name)!r}: {what}")
            setattr(o, name, 0xABCD)
            want = bytes([1, 0xCD, 0xAB]) + data[3:]
            if o.dumps() != want or getattr(o, name) != 0xABCD:
                raise Violation(f"{name} assigned, dumps {o.dumps().hex()}, expected {want.hex()}: {what}")
            check_eq(o, cs.T(want), True, lambda: what)
            check_eq(o, cs.T(data), False, lambda: what)
            z = cs.T()
            setattr(z, name, 0)
            if bool(z) or z.dumps() != bytes(n + 2):
                raise Violation(f"{z!r}, bool {bool(z)}: {what}")
            setattr(z, name, 5)
            if not bool(z):
                raise Violation(f"bool of {z!r}: {what}")
            if len(cs.T) != n + 2:
                raise Violation(f"size {len(cs.T)}: {what}")
            st_.trans()
    st_.state()


def run_names(i, st_):
    for b in ODD:
        if b != ODD[i]:
            one_name([ODD[i], b], "uint16", 2, 0x8182, False, False, st_)
            one_name([ODD[i], b], "uint16", 2, 0x8182, True, True, st_)
    st_.state()


def one_name(names, typ, size, val, comp, al, st_):
    cs = cstruct()
    text = f"struct T {{ {' '.join(f'{typ} {f};' for f in names)} }};"
    if typ == "uint16":
        text += f" struct O {{ uint16 zq; T t; uint8 zr; }}; union U {{ uint32 zq; T t; {typ} {names[0]}; }};"
    what = lambda: f"{text} {'compiled' if comp else 'interpreted'}{' aligned' if al else ''}"  # noqa: E731
    cs.load(text, compiled=comp, align=al)
    st_.trans()
    T = cs.T
    n = len(names)
    zero = b"\0" if typ == "char" else 0
    enc = {v: (v if typ == "char" else v.to_bytes(size, "little")) for v in (zero, val)}
    step = size  # no padding with equal members
    for sub in product((0, 1), repeat=n):
        vals = [val if x else zero for x in sub]
        data = b"".join(enc[v] for v in vals)
        p = T(data)
        k = T(**dict(zip(names, vals)))
        kr = T(**dict(zip(names[::-1], vals[::-1])))
        a = T()
        for f, v in zip(names, vals):
            setattr(a, f, v)
        some = T(**{f: v for f, v, x in zip(names, vals, sub) if x})
        objs = [p, k, kr, a, some]
        if n > 1 or typ != "char":
            objs.append(T(*vals))
        for o in objs:
            if [getattr(o, f) for f in names] != vals or [o[f] for f in names] != vals or o.dumps() != data:
                raise Violation(f"{o!r} dumps {o.dumps().hex()}, expected {vals!r}: {what()}")
            if bool(o) is not any(bool(v) for v in vals):
                raise Violation(f"bool of {o!r} is {bool(o)}: {what()}")
            check_eq(o, p, True, what)
        for other in product((0, 1), repeat=n):
            if other != sub:
                check_eq(p, T(b"".join(enc[val if x else zero] for x in other)), False, what)
        for i, f in enumerate(names):
            o = T(data)
            setattr(o, f, val)
            e = data[: i * step] + enc[val] + data[i * step + step:]
            if o.dumps() != e:
                raise Violation(f"{f} assigned, dumps {o.dumps().hex()}, expected {e.hex()}: {what()}")
        st_.trace()
    if typ == "uint16":
        data = bytes(range(1, 1 + len(cs.O)))
        o = cs.O(data)
        inner = [getattr(o.t, f) for f in names]
        if inner != [0x0403 + 0x0202 * i for i in range(n)]:
            raise Violation(f"nested {o!r}: {what()}")
        for i, f in enumerate(names):
            o = cs.O(data)
            clean = o.dumps()
            setattr(o.t, f, 0xABCD)
            if o.dumps() != clean[:2 + 2 * i] + b"\xcd\xab" + clean[4 + 2 * i:]:
                raise Violation(f"nested {f} assigned, dumps {o.dumps().hex()}: {what()}")
        if len(cs.U.__fields__) == 3 and names[0] not in ("zq", "t"):
            u = cs.U(**{names[0]: 0xABCD})
            if u.dumps()[:2] != b"\xcd\xab" or u.zq != 0xABCD or getattr(u.t, names[0]) != 0xABCD:
                raise Violation(f"union {u!r}: {what()}")
            setattr(u, names[0], 0x1122)
            if u.zq != 0x1122 or getattr(u, names[0]) != 0x1122:
                raise Violation(f"union {u!r} after assignment: {what()}")
            for i, f in enumerate(names):
                u = cs.U(zq=0)
                setattr(u.t, f, 0xABCD)
                if getattr(u.t, f) != 0xABCD or u.dumps()[2 * i:2 * i + 2] != b"\xcd\xab":
                    raise Violation(f"union {u!r} after assigning t.{f}: {what()}")


def run_types(st_):
    """Equality needs the same structure type, however similar the other object is."""
    body = "uint8 a; uint16 b;"
    cs1, cs2 = cstruct(), cstruct()
    for cs in (cs1, cs2):
        cs.load(f"struct A {{ {body} }}; struct B {{ {body} }}; union C {{ {body} }}; typedef A A2; struct E {{}}; struct E2 {{}};"
                f"struct N {{ A x; uint8 y; }}; struct M {{ B x; uint8 y; }};"
                "struct D { uint8 a[2]; }; struct D2 { char a[2]; };")
    data = b"\1\2\3"
    objs = [T(data) for cs in (cs1, cs2) for T in (cs.A, cs.B, cs.C)]
    objs += [cs1.E(), cs1.E2(), cs2.E(), cs1.D(data), cs1.D2(data), cs1.N(data + b"\4"), cs1.M(data + b"\4")]
    others = [None, 0, 1, "", b"\1\2\3", (1, 0x302), [1, 0x302], {"a": 1, "b": 0x302}, object(), cs1.A, cs1]
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            check_eq(a, b, i == j, lambda: f"types {type(a).__name__}, {type(b).__name__}")
            st_.trans()
        for b in others:
            check_eq(a, b, False, lambda: f"{type(a).__name__} and {b!r}")
    check_eq(cs1.A(data), cs1.A2(data), True, lambda: "typedef of the same type")
    check_eq(cs1.N(data + b"\4").x, cs1.A(data), True, lambda: "nested and direct")

    # unions of dynamic size
    for text in ("uint8 n; char s[];", "uint8 n; uint8 d[n];", "uint16 w; wchar s[];"):
        cs = cstruct()
        cs.load(f"union V {{ {text} }}; union W {{ {text} }}; struct X {{ uint8 a; V v; }};", compiled=False)
        datas = [b"\1a\0\0\0\0", b"\1b\0\0\0\0", b"\0\0\0\0\0\0", b"\2ab\0\0\0"]
        for T in (cs.V, cs.X):
            for x, y in product(datas, datas):
                what = lambda: f"{T.__name__}: {text} {x!r} {y!r}"  # noqa: E731
                a, b = (T(d if T is cs.V else b"\7" + d) for d in (x, y))
                fs = [getattr(a if T is cs.V else a.v, f.name) == getattr(b if T is cs.V else b.v, f.name)
                      for f in cs.V.__fields__]
                check_eq(a, b, all(fs), what)
                if bool(a) is not struct_truthy(a):
                    raise Violation(f"bool of {a!r} is {bool(a)}: {what()}")
        check_eq(cs.V(datas[0]), cs.W(datas[0]), False, lambda: "different unions of dynamic size")

    class Same:
        a, b = 1, 0x302

        def __eq__(self, other):
            return NotImplemented
        __hash__ = None

    check_eq_only(cs1.A(data), Same())
    st_.state()


def check_eq_only(a, b):
    if a == b or not a != b:
        raise Violation(f"{a!r} equals {b!r}")


# --------------------------------------------------------------------- equal values of different representations

EQKINDS = {
    "uint8": (S("uint8"), [5, 0]), "int16": (S("int16"), [-3, 0]), "int24": (S("int24"), [-3, 0]),
    "uint64": (S("uint64"), [1 << 63, 0]), "char": (S("char"), [b"a", b"\0"]), "wchar": (S("wchar"), ["\u0105", "\0"]),
    "char[3]": (A(S("char"), 3), [b"abc", b"\0\0\0"]), "wchar[2]": (A(S("wchar"), 2), ["ab", "\0\0"]),
    "uint8[3]": (A(S("uint8"), 3), [[1, 2, 3], [0, 0, 0]]), "float": (S("float"), [1.5, 0.0]),
    "double": (S("double"), [2.0, 0.0]), "float16": (S("float16"), [0.5, 0.0]), "E8": (("e", "E8"), [2, 0]),
    "F8": (("e", "F8"), [3, 0]), "E8[2]": (A(("e", "E8"), 2), [[1, 2], [0, 0]]), "ptr": (P(S("uint8")), [9, 0]),
    "leb": (S("ileb128"), [-70, 0]), "u128": (S("uint128"), [1 << 100, 0]), "bits": (S("uint8"), [3, 0]),
}


def run_equiv(kind, st_):
    """An instance parsed, constructed from plain values and from typed values: equal, same hash, same bool."""
    t1, values = EQKINDS[kind]
    bits = 3 if kind == "bits" else None
    for pre, post in (((), ()), ((F("a", S("uint8")),), ()), ((), (F("z", S("uint8")),)),
                      ((F("a", S("uint8")),), (F("z", S("uint16")),))):
        t = st("T", *pre, F("f", t1, bits), *post)
        for cfg in configs():
            cs = impl.build(t, ENV, cfg)
            T = cs.T
            typ = T.fields["f"].type
            for v in values:
                base = {f[0]: 0 for f in (*pre, *post)}
                raw = v
                if t1[0] == "e":
                    v = typ(v)  # a member (or value) of the enum is needed to dump it
                elif t1[0] == "a" and t1[1][0] == "e":
                    v = [typ.type(x) for x in v]
                plain = T(f=v, **base)
                data = plain.dumps()
                parsed = T(data)
                variants = [plain, parsed]
                mk = [lambda: getattr(parsed, "f"), lambda: typ.reads(typ.dumps(v))]
                if t1[0] == "e" or t1[0] == "s" and SCALARS[t1[1]][0] in "il":
                    mk.append(lambda: typ(v))
                for m in mk if not bits else mk[:1]:
                    o = T(**base)
                    o.f = m()
                    variants.append(o)
                    variants.append(T(f=m(), **base))
                if raw == values[1]:
                    variants.append(T())
                    variants.append(T(**base))
                what = lambda: f"{ref.text(t, ENV)} [{cfgname(cfg)}] f={v!r}"  # noqa: E731
                for a, b in product(variants, variants):
                    check_eq(a, b, True, what)
                    if bool(a) is not bool(b) and not (raw == values[1] and t1[0] == "a"):
                        raise Violation(f"bool of {a!r} is {bool(a)}, of {b!r} {bool(b)}: {what()}")
                    st_.trans()
                w = values[0] if raw is values[1] else values[1]
                for a in variants:
                    check_eq(a, T(f=w, **base), False, what)
                    if a.dumps() != data:
                        raise Violation(f"{a!r} dumps {a.dumps().hex()}, expected {data.hex()}: {what()}")
                st_.trace()
    st_.state()


# ------------------------------------------------------------------------------------------- programs of the space


def poszero(v):
    """Negative zeroes compare equal to positive ones."""
    if isinstance(v, tuple):
        return ("F", bytes(8)) if v == ("F", b"\x80" + bytes(7)) else tuple(poszero(x) for x in v)
    return v


def truthy(v):
    if not isinstance(v, int) and hasattr(v, "__fields__") and hasattr(type(v), "lookup"):
        return any(truthy(getattr(v, f._name)) for f in type(v).__fields__)
    return bool(v)


def struct_truthy(obj):
    return any(truthy(getattr(obj, f._name)) for f in type(obj).__fields__)


def places(model, t, v, prefix=()):
    """(path, type, bits, setter path) of every assignable place in a value."""
    for (fname, ft, bits), (_, fv) in zip(t[2], v[1:]):
        if fname is not None:
            yield prefix + (fname,), ft, bits
        if bits:
            continue
        yield from inner_places(model, ft, fv, prefix + ((fname,) if fname is not None else (None,)))


def inner_places(model, ft, fv, path):
    if ft[0] == "st":
        yield from places(model, ft, fv, path)
    elif ft[0] == "a" and ft[1] not in (("s", "char"), ("s", "wchar")):
        for i, e in enumerate(fv[1:]):
            if i in (0, 1, len(fv) - 2):
                yield path + (i,), ft[1], None
                yield from inner_places(model, ft[1], e, path + (i,))


def replace(t, v, path, new):
    if not path:
        return new
    c = path[0]
    if isinstance(c, int):
        out = list(v)
        out[c + 1] = replace(t[1], v[c + 1], path[1:], new)
        return tuple(out)
    out = [v[0]]
    for (fname, ft, bits), (n, fv) in zip(t[2], v[1:]):
        out.append((n, replace(ft, fv, path[1:], new) if fname == c else fv))
    return tuple(out)


def counters(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] in ("st", "un"):
        txt = repr([x for _, x, _ in t[2]])
        for f, ft, _ in t[2]:
            if f and f"'x', '" in txt and any(f in e for e in exprs(t)):
                acc.add(f)
            counters(ft, acc)
    elif t[0] == "a":
        counters(t[1], acc)
    return acc


def exprs(t):
    if t[0] == "a":
        if isinstance(t[2], tuple) and t[2][0] == "x":
            yield t[2][1]
        yield from exprs(t[1])
    elif t[0] in ("st", "un"):
        for _, ft, _ in t[2]:
            yield from exprs(ft)


def run_m(key, quick, st_):
    t = space.get(key)
    if key[0] == "x" and any(x in key[1] for x in ("wide", "[4100]", "[1024]", "=", "3d-")):
        return
    big = key[0] == "x"
    for cfg in configs():
        if (big or len(key[1]) > 1) and cfg.compiled != (cfg.endian == "<"):
            continue
        p = Prog(t, cfg)
        model, T = p.model, p.T
        objs = []
        for v, enc, mask, dirty in space.inputs(model, t):
            if len(enc) > 700:
                continue
            objs.append((v, enc, dirty, T(dirty), T(enc)))
        what = lambda: p.what()  # noqa: E731
        for v, enc, dirty, a, a2 in objs:
            if bool(a) is not struct_truthy(a):
                raise Violation(f"bool is {bool(a)} for {a!r}: {p.what(data=dirty)}")
            st_.trace()
            for w, _, _, b, b2 in objs:
                st_.trans()
                check_eq(a, b2, poszero(v) == poszero(w), what)
        if not objs:
            continue
        if t[0] == "st" and not impl.has_union(t):
            default(p, st_)
        if t[0] == "st" and not p.eof:
            assign(p, objs, st_)
    st_.state()


def zero_value(model, t):
    """Zero value of a type; sized arrays of zeroes, empty dynamic ones."""
    return model.zero(t)


def default(p, st_):
    model, T, t = p.model, p.T, p.t
    if p.eof:
        return
    z = T()
    want = zero_value(model, t)
    got = p.norm(z)
    if got != want:
        raise Violation(f"default instance is {got!r}, expected {want!r}: {p.what()}")
    # keywords against assignments on a default instance
    fields = [f._name for f in T.__fields__]
    vals = [(v, d) for v, _, _, d in space.inputs(model, t, (2, 3))]
    for v, d in vals:
        if len(d) > 300:
            continue
        src = T(d)
        for k in range(len(fields) + 1):
            sub = fields[:k]
            for use in {tuple(sub), tuple(fields[k:]), tuple(fields[k:k + 1])}:
                kw = {f: getattr(src, f) for f in use}
                a = T(**kw)
                b = T()
                for f in use:
                    setattr(b, f, getattr(T(d), f))
                check_eq(a, b, True, lambda: p.what(fields=use, data=d))
                if p.norm(a) != p.norm(b):
                    raise Violation(f"constructed {a!r}, assigned {b!r}: {p.what(fields=use)}")
                exp = tuple((n, x if name in use else y) for name, (n, x), (_, y) in zip(fields, v[1:], want[1:]))
                if p.norm(a) != ("S", *exp):
                    raise Violation(f"constructed {p.norm(a)!r}, expected {exp!r}: {p.what(fields=use)}")
                st_.trans()
            if k and not (k == 1 and isinstance(getattr(src, fields[0]), bytes)):
                a = T(*[getattr(src, f) for f in sub])
                exp = tuple((n, x if name in sub else y) for name, (n, x), (_, y) in zip(fields, v[1:], want[1:]))
                if p.norm(a) != ("S", *exp):
                    raise Violation(f"positional {p.norm(a)!r}, expected {exp!r}: {p.what(fields=sub)}")


def walk_to(obj, path):
    for c in path:
        if c is None:
            continue
        obj = obj[c] if isinstance(c, int) else getattr(obj, c)
    return obj


def assign(p, objs, st_):
    """Every place x every value: the dump is the model's encoding of the value with just that place replaced."""
    model, T, t = p.model, p.T, p.t
    skip = counters(t)
    for k, (v, enc, dirty, _, _) in enumerate(objs):
        if k not in (0, 2, 3) or len(enc) > 300:
            continue
        clean = T(dirty).dumps()
        if clean != model.encode(t, v):
            raise Violation(f"dump {clean.hex()}: {p.what(data=dirty)}")
        for path, ft, bits in places(model, t, v):
            if path[-1] in skip:
                continue
            held = {x for x in path if isinstance(x, str)} & skip
            if held:
                continue
            ctx = {}
            for kk in (1, 2, 4):
                new = fill(model, ft, bits, kk, v, path, t)
                if new is None:
                    continue
                want_v = replace(t, v, path, new)
                try:
                    want = model.encode(t, want_v)
                except Exception:  # noqa: BLE001
                    continue
                val = native(p, ft, bits, new, path)
                if val is None:
                    continue
                o = T(dirty)
                tgt = walk_to(o, path[:-1])
                if isinstance(path[-1], int):
                    tgt[path[-1]] = val
                else:
                    setattr(tgt, path[-1], val)
                st_.trans()
                got = o.dumps()
                if got != want:
                    raise Violation(f"{path} = {val!r}: dumps {got.hex()}, expected {want.hex()} (before {clean.hex()}): "
                                    f"{p.what(data=dirty)}")
                if "('p'," not in repr(ft) and p.norm(o) != want_v:
                    raise Violation(f"{path} = {val!r}: value {p.norm(o)!r}, expected {want_v!r}: {p.what(data=dirty)}")
                if (want != clean or want_v != v) and (o == T(dirty)) is not (poszero(want_v) == poszero(v)):
                    raise Violation(f"{path} = {val!r}: equality with the original is {o == T(dirty)}: {p.what()}")
                if bool(o) is not struct_truthy(o):
                    raise Violation(f"bool is {bool(o)} for {o!r}: {p.what()}")


def fill(model, ft, bits, k, v, path, t):
    if bits:
        x = (0, (1 << bits) - 1, 0x55555555555555555555555555555555 & ((1 << bits) - 1), 0, 1)[k]
        return ("E", ft[1], x) if ft[0] == "e" else x
    if ft[0] == "a" and isinstance(ft[2], tuple):
        # a dynamic array keeps its length
        cur = v
        tt = t
        for c in path:
            if isinstance(c, int):
                cur, tt = cur[c + 1], tt[1]
            else:
                for (fname, x, _), (_, y) in zip(tt[2], cur[1:]):
                    if fname == c:
                        cur, tt = y, x
                        break
        if ft[1][0] == "a" and isinstance(ft[1][2], tuple) or ft[1][0] in ("st", "un"):
            return None
        n = len(cur) - (1 if isinstance(cur, tuple) else 0)
        f = Filler(model, k)
        nz = ft[2] == ("z",)
        vals = [f.fill(ft[1], None, nz) for _ in range(n)]
        if ft[1] == ("s", "char"):
            return b"".join(vals)
        if ft[1] == ("s", "wchar"):
            return "".join(vals)
        return ("A", *vals)
    try:
        return Filler(model, k).fill(ft)
    except (NotCanonical, CExprError):  # the latter: an array whose length is given by a field outside of it
        return None


def native(p, ft, bits, new, path):
    """An implementation value for the model value."""
    typ = p.T
    for c in path:
        if isinstance(c, int):
            typ = typ.type
        elif c is None:
            typ = next(f.type for f in typ.__fields__ if f.name is None)
        else:
            typ = typ.fields[c].type
    if bits and ft[0] == "s":
        return new
    if impl.has_union(ft):
        try:
            return typ(p.model.encode(ft, new))
        except NotImplementedError:
            return None
    if ft == ("s", "void"):
        return None
    return impl.denorm(ft, new, p.cs, typ)


# ------------------------------------------------------------------------------------------- assignment histories

KINDS3 = {
    "bits": [F("a", S("uint16"), 3), F("b", S("uint16"), 13), F("c", S("uint8"), 4), F("d", S("uint8"), 4), F("e", S("uint8"))],
    "bits32": [F("a", S("uint32"), 1), F("b", S("uint32"), 30), F("c", S("uint32"), 1), F("d", S("uint16"), 9)],
    "nest": [F("a", S("uint8")), F("s", NEST), F("d", PT), F("b", S("uint32"))],
    "anon": [F("a", S("uint8")), F(None, st("", F("x", S("uint8")), F(None, st("", F("y", S("uint16")), F("w", S("char")), mode="in")),
                                           F("z", S("uint32")), mode="in")), F("b", S("uint8"))],
    "arr": [F("a", A(S("uint16"), 2)), F("b", A(PT, 2)), F("c", A(A(S("uint8"), 2), 2)), F("d", A(S("char"), 2))],
    "union": [F("a", S("uint8")), F("u", UN), F("b", S("uint16"))],
    "enum": [F("a", ("e", "E8")), F("b", ("e", "F16")), F("c", ("e", "E24")), F("d", ("e", "E16"), 5), F("e", ("e", "E16"), 11)],
    "mix": [F("a", S("uint8")), F("f", S("float")), F("w", S("wchar")), F("p", P(S("uint8"))), F("l", S("int24"))],
}


def run_hist(kind, depth, st_):
    """All histories of assignments up to the depth over every place x 2 values."""
    t = st("T", *KINDS3[kind])
    for cfg in configs(comps=(False,)):
        cfg = Cfg(cfg.endian, cfg.align, cfg.ptr, cfg.align)
        p = Prog(t, cfg)
        model, T = p.model, p.T
        (v0, enc0, _, dirty0), = space.inputs(model, t, (2,))
        ops = []
        for path, ft, bits in places(model, t, v0):
            for kk in (1, 4):
                new = fill(model, ft, bits, kk, v0, path, t)
                val = native(p, ft, bits, new, path) if new is not None else None
                if val is not None:
                    ops.append((path, ft, bits, new))
        for hist in product(range(len(ops)), repeat=depth):
            o = T(dirty0)
            z = T()
            v = v0
            for i in hist:
                path, ft, bits, new = ops[i]
                for x in (o, z):
                    tgt = walk_to(x, path[:-1])
                    val = native(p, ft, bits, new, path)
                    if isinstance(path[-1], int):
                        tgt[path[-1]] = val
                    else:
                        setattr(tgt, path[-1], val)
                v = replace(t, v, path, new)
                st_.trans()
            want = model.encode(t, v)
            if o.dumps() != want or kind != "mix" and p.norm(o) != v:
                raise Violation(f"after {[(ops[i][0], ops[i][3]) for i in hist]}: dumps {o.dumps().hex()}, expected "
                                f"{want.hex()}: {p.what(data=dirty0)}")
            vz = model.zero(t)
            for i in hist:
                vz = replace(t, vz, ops[i][0], ops[i][3])
            if z.dumps() != model.encode(t, vz):
                raise Violation(f"default instance after {[(ops[i][0], ops[i][3]) for i in hist]}: dumps {z.dumps().hex()}, "
                                f"expected {model.encode(t, vz).hex()}: {p.what()}")
            check_eq(o, T(want), True, p.what)
            st_.trace()
    st_.state()
