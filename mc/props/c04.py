"""C04 Structure layout follows C rules."""
import ctypes
from io import BytesIO
from itertools import product

from mc import impl, ref, space
from mc.impl import tup
from mc.props.common import Prog, configs, expect, show as _show  # noqa: F401
from mc.ref import SCALARS, Cfg
from mc.space import A, F, P, S, st, un

PROP = "C04"
LIMIT = 120
RULE = ("every fixed-size program of the bounded program space, plus every sequence over a C-expressible alphabet up to "
        "the stated length compared with ctypes (the platform C ABI), x {packed,aligned} x {compiled,interpreted} x "
        "pointer width: offset of every field, alignment, len(T), sizeof(T) inside an expression, T.size, bytes "
        "consumed, bytes dumped, distance of array elements")
ASSUMPTIONS = ["ctypes reflects the C ABI for scalars, arrays, pointers and nested structures (x86-64)",
               "alignment of types without a C counterpart (24/48/128 bit) as listed in the library's type table: "
               "4/8/16"]

CT = {"int8": ctypes.c_int8, "uint8": ctypes.c_uint8, "int16": ctypes.c_int16, "uint16": ctypes.c_uint16,
      "int32": ctypes.c_int32, "uint32": ctypes.c_uint32, "int64": ctypes.c_int64, "uint64": ctypes.c_uint64,
      "float": ctypes.c_float, "double": ctypes.c_double, "char": ctypes.c_char}
CPT = st("CPT", F("x", S("uint8")), F("y", S("uint16")))
CT8 = st("CT8", F("a", S("uint64")), F("b", S("char")))
CT4 = st("CT4", F("a", S("uint8")), F("b", A(S("uint32"), 2)), F("c", S("uint8")))
CUN = un("CUN", F("w", S("uint32")), F("b", A(S("uint8"), 7)))
CNE = st("CNE", F("a", CPT), F("b", CT8), F("c", S("uint8")))
CATOMS = {**{n: S(n) for n in CT}, "u8[3]": A(S("uint8"), 3), "u16[3]": A(S("uint16"), 3), "u64[2]": A(S("uint64"), 2),
          "c[5]": A(S("char"), 5), "u32[2][2]": A(A(S("uint32"), 2), 2), "ptr": P(S("uint8")), "ptr[2]": A(P(CPT), 2),
          "PT": CPT, "T8": CT8, "T4": CT4, "UN": CUN, "NE": CNE, "PT[3]": A(CPT, 3), "T4[2]": A(CT4, 2),
          "in": ("st", "", (("x", S("uint8"), None), ("y", S("uint64"), None)), "in")}
CSMALL = ["uint8", "uint16", "uint32", "uint64", "char", "ptr", "u8[3]", "u16[3]", "PT", "T8", "UN"]


def ctype(t, packed, cache):
    if t in cache:
        return cache[t]
    k = t[0]
    if k == "s":
        r = CT[t[1]]
    elif k == "p":
        r = ctypes.c_uint64
    elif k == "a":
        r = ctype(t[1], packed, cache) * t[2]
    else:
        fs = [(n, ctype(ft, packed, cache)) for n, ft, _ in t[2]]
        ns = {"_fields_": fs}
        if packed:
            ns = {"_pack_": 1, "_fields_": fs}
        r = type("C", (ctypes.Structure if k == "st" else ctypes.Union,), ns)
    cache[t] = r
    return r


def cases(tier):
    for key in space.keys(tier, eof=False):
        yield ["m", key]
    for n in (1, 2, 3):
        for labs in product(CATOMS if n < 3 or tier == "thorough" else CSMALL, repeat=n):
            yield ["c", labs]
    if tier == "thorough":
        for labs in product(CSMALL, repeat=4):
            yield ["c", labs]
    for ptr in ("uint8", "uint16", "uint24", "uint32", "uint48", "uint64", "uint128"):
        for i in range(6):
            yield ["ptr", [ptr, i]]
    for name in SCALARS:
        yield ["scalar", name]
    yield ["aliases", 0]


def show(case):
    return case if case[0] != "m" else _show([case[1]])


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](case[1], st_)


def sizeof(p, text):
    """sizeof() inside an expression, evaluated by the library: a constant defined with it."""
    p.cs.load(f"#define MC_SIZEOF sizeof({text})\n")
    return p.cs.consts["MC_SIZEOF"]


def check_layout(p, T, t, lay, st_, where=""):
    st_.state()
    expect(T.size == lay["size"], f"size{where}", p, got=T.size, expected=lay["size"])
    expect((T.alignment or 1) == (lay["align"] or 1), f"alignment{where}", p, got=T.alignment, expected=lay["align"])
    for (fname, ft, bits), off, fld in zip(t[2], lay["offsets"], T.__fields__):
        if bits and off is None:
            continue  # continues the storage unit of the previous bit-field
        expect(fld.offset == off or (t[0] == "un" and fld.offset is None), f"offset of {fname}{where}", p,
               got=fld.offset, expected=off)
        check_type(p, fld.type, ft, st_, f" of the type of {fname}{where}")


def check_type(p, IT, ft, st_, where):
    size, al = p.model.size(ft), p.model.alignment(ft)
    expect(IT.size == size, f"size{where}", p, got=IT.size, expected=size)
    if size is not None:
        expect(len(IT) == size, f"len(){where}", p, got=len(IT), expected=size)
    expect((IT.alignment or 1) == (al or 1), f"alignment{where}", p, got=IT.alignment, expected=al)
    if ft[0] in ("st", "un"):
        check_layout(p, IT, ft, p.model.layout(ft), st_, where)
    elif ft[0] == "a":
        check_type(p, IT.type, ft[1], st_, where + " element")


def dynamic(p):
    try:
        len(p.T)
    except TypeError:
        return True
    return False


def run_m(key, st_):
    t = space.get(key)
    for cfg in configs(ends="<"):
        p = Prog(t, cfg)
        lay = p.model.layout(t)
        check_layout(p, p.T, t, lay, st_)
        expect(dynamic(p) == (lay["size"] is None) == p.T.dynamic, "fixed/dynamic", p)
        if lay["size"] is None:
            continue
        consistent(p, t, lay, st_)


def consistent(p, t, lay, st_):
    size = lay["size"]
    expect(len(p.T) == size, "len(T)", p, got=len(p.T), expected=size)
    expect(sizeof(p, t[1]) == size, "sizeof(T) in an expression", p, got=sizeof(p, t[1]), expected=size)
    for v, enc, mask, dirty in space.inputs(p.model, t, (2, 5)):
        st_.trace()
        st_.trans()
        fh = BytesIO(dirty + b"\x55" * 40)
        obj = p.T(fh)
        expect(fh.tell() == size, "bytes consumed", p, got=fh.tell(), expected=size)
        expect(len(obj.dumps()) == size, "bytes dumped", p, got=len(obj.dumps()), expected=size)
        expect(len(obj) == size, "len(instance)", p, got=len(obj), expected=size)
        # each field is at its offset: parse it on its own from there
        for (fname, ft, bits), off, fld, (_, fv) in zip(t[2], lay["offsets"], p.T.__fields__, v[1:]):
            if bits or fname is None or ft == ("s", "void"):
                continue
            got = impl.norm(ft, fld.type(dirty[off:]), p.env)
            expect(got == fv, f"field {fname} is not at its offset", p, got=got, expected=fv)
            s = fld.type.size
            expect(len(fld.type.dumps(getattr(obj, fname))) == s, f"dump of field {fname} has a different size", p)
    expect(len(p.T().dumps()) == size, "bytes dumped of a default instance", p, got=len(p.T().dumps()), expected=size)
    arr = p.T[3]
    if size:
        expect(arr.size == 3 * size and len(arr) == 3 * size, "size of an array of 3", p, got=arr.size)
        fh = BytesIO(bytes(3 * size + 16))
        arr(fh)
        expect(fh.tell() == 3 * size, "bytes consumed by an array of 3", p, got=fh.tell())


def run_c(labs, st_):
    t = ("st", "T", tuple(F(f"f{i}", CATOMS[x]) for i, x in enumerate(labs)), "top")
    for cfg in configs(ends="<"):
        p = Prog(t, cfg)
        C = ctype(t, not cfg.align, {})
        st_.state()
        expect(len(p.T) == ctypes.sizeof(C), "size differs from the C ABI", p, got=len(p.T), expected=ctypes.sizeof(C))
        if cfg.align:
            expect(p.T.alignment == ctypes.alignment(C), "alignment differs from the C ABI", p, got=p.T.alignment,
                   expected=ctypes.alignment(C))
        for (fname, ft, _), fld in zip(t[2], p.T.__fields__):
            d = getattr(C, fname)
            expect(fld.offset == d.offset, f"offset of {fname} differs from the C ABI", p, got=fld.offset,
                   expected=d.offset)
            expect(len(fld.type) == d.size, f"size of {fname} differs from the C ABI", p, got=len(fld.type),
                   expected=d.size)
            st_.trans()
        lay = p.model.layout(t)
        expect((lay["size"], lay["offsets"]) == (ctypes.sizeof(C), [getattr(C, f[0]).offset for f in t[2]]),
               "harness: reference layout differs from the C ABI", p)
        st_.trace()
        if cfg.compiled or len(labs) < 3:
            size = len(p.T)
            data = bytes((i * 37 + 11) & 0x7F or 1 for i in range(size))
            fh = BytesIO(data + bytes(20))
            obj = p.T(fh)
            expect(fh.tell() == size and len(obj.dumps()) == size, "bytes consumed/dumped", p, got=fh.tell())
            mem = C.from_buffer_copy(data)
            for (fname, ft, _) in t[2]:
                if ft[0] == "s" and ft[1] not in ("char", "float", "double"):
                    expect(getattr(obj, fname) == getattr(mem, fname), f"value of {fname} differs from C", p,
                           got=getattr(obj, fname), expected=getattr(mem, fname))


def run_ptr(arg, st_):
    ptr, i = arg
    t = [
        st("T", F("a", S("uint8")), F("p", P(S("uint8"))), F("b", S("uint8"))),
        st("T", F("a", S("uint8")), F("p", A(P(S("uint8")), 3)), F("b", S("uint32"))),
        st("T", F("p", P(P(space.PT))), F("b", S("uint8"))),
        st("T", F("a", S("uint16")), F("s", st("IN", F("x", S("uint8")), F("p", P(S("char"))))), F("b", S("uint8"))),
        un("T", F("p", P(S("uint8"))), F("b", A(S("uint8"), 5))),
        st("T", F("s", A(st("IN", F("p", P(S("char"))), F("x", S("uint8"))), 2)), F("b", S("uint8"))),
    ][i]
    for cfg in configs(ptr=ptr):
        p = Prog(t, cfg)
        lay = p.model.layout(t)
        check_layout(p, p.T, t, lay, st_)
        consistent(p, t, lay, st_)


def run_scalar(name, st_):
    kind, size, signed, al = SCALARS[name]
    for cfg in configs(comps=(True,)):
        p = Prog(st("T", F("a", S("uint8")), F("x", S(name)), F("b", S("uint8"))) if size is not None else
                 st("T", F("a", S("uint8"))), cfg)
        IT = getattr(p.cs, name)
        st_.state()
        expect(IT.size == size and (IT.alignment or 1) == al, f"size/alignment of {name}", p, got=(IT.size, IT.alignment))
        if size is not None:
            expect(len(IT) == size and sizeof(p, name) == size, f"sizeof({name})", p)


def run_aliases(_, st_):
    """sizeof and len of every built-in name agree."""
    from dissect.cstruct import cstruct

    cs = cstruct()
    p = Prog(st("T", F("a", S("uint8"))), Cfg())
    for name in list(cs.typedefs):
        IT = cs.resolve(name)
        st_.state()
        if IT.size is None:
            continue
        expect(sizeof(p, name) == len(IT) == IT.size, f"sizeof({name})", None, got=sizeof(p, name), len=len(IT))
        T2 = cstruct().load(f"struct T {{ uint8 a; {name} b; uint8 c; }};").T
        expect(len(T2) == len(IT) + 2, f"size of a structure with {name}", None, got=len(T2))
        T3 = cstruct().load(f"struct T {{ uint8 a; {name} b; uint8 c; }};", align=True).T
        al = IT.alignment or 1
        expect(T3.__fields__[1].offset == al and len(T3) == ref.up(al + len(IT) + 1, al),
               f"aligned size of a structure with {name}", None, got=len(T3))
