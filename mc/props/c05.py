"""C05 Scalar codecs implement the standard encodings under the current endianness."""
from fractions import Fraction
from io import BytesIO
from itertools import product

from mc import impl  # noqa: F401
from mc.impl import tup
from mc.props.common import expect

from dissect.cstruct import cstruct

PROP = "C05"
LIMIT = 300
RULE = ("every built-in type name and alias x byte order {<,>,!,=,@} x {scalar, array, null-terminated array, field of a "
        "compiled / interpreted structure, aligned structure}: all 2^8 / 2^16 values for 1- and 2-byte types (thorough: "
        "all 2^24 for 3-byte ones), every byte value at every position over 4 backgrounds and all 1- and 2-bit patterns "
        "for wider ones, all float16 values and every sign x exponent x mantissa corner for float/double, all UTF-16 "
        "units and surrogate pair corners, all LEB128 byte strings up to 2 bytes, corner strings up to 20 bytes and all "
        "values around every 7-bit boundary up to 2^140; every endianness switch history up to 4 (quick) / 6 (thorough) "
        "settings over one instance, with loads in between, all types read and written after each switch")
ASSUMPTIONS = ["NaN payloads, lone surrogates are outside the domain of the write direction",
               "the type table is the one in docs (signedness/width per name)"]

W = {"8": 1, "16": 2, "24": 3, "32": 4, "48": 6, "64": 8, "128": 16}
NAMES = {}
for _w, _n in W.items():
    for _s in (True, False):
        NAMES[("" if _s else "u") + "int" + _w] = ("i", _n, _s)
for _n, _d in {
    "signed char": "int8", "short": "int16", "signed short": "int16", "unsigned short": "uint16", "int": "int32",
    "signed int": "int32", "unsigned int": "uint32", "long": "int32", "signed long": "int32", "unsigned long": "uint32",
    "long long": "int64", "signed long long": "int64", "unsigned long long": "uint64", "BYTE": "uint8", "SHORT": "int16",
    "WORD": "uint16", "DWORD": "uint32", "LONG": "int32", "LONG32": "int32", "LONG64": "int64", "LONGLONG": "int64",
    "QWORD": "uint64", "OWORD": "uint128", "UCHAR": "uint8", "USHORT": "uint16", "ULONG": "uint32", "ULONG64": "uint64",
    "ULONGLONG": "uint64", "INT": "int32", "UINT": "uint32", "u1": "uint8", "u2": "uint16", "u4": "uint32",
    "u8": "uint64", "u16": "uint128", "uchar": "uint8", "ushort": "uint16", "uint": "uint32", "ulong": "uint32",
    "_BYTE": "uint8", "_WORD": "uint16", "_DWORD": "uint32", "_QWORD": "uint64", "_OWORD": "uint128",
}.items():
    NAMES[_n] = NAMES[_d]
for _w in ("8", "16", "32", "64", "128"):
    NAMES["INT" + _w] = NAMES["__int" + _w] = NAMES[f"int{_w}_t"] = NAMES["int" + _w]
    NAMES["UINT" + _w] = NAMES["unsigned __int" + _w] = NAMES[f"uint{_w}_t"] = NAMES["uint" + _w]
for _w in ("8", "16", "32", "64"):
    NAMES["__u" + _w] = NAMES["uint" + _w]
for _n, _b in (("float16", 2), ("float", 4), ("double", 8)):
    NAMES[_n] = ("f", _b, True)
for _n in ("char", "CHAR", "unsigned char"):
    NAMES[_n] = ("c", 1, False)
for _n in ("wchar", "WCHAR", "wchar_t"):
    NAMES[_n] = ("w", 2, False)
NAMES["uleb128"] = ("l", None, False)
NAMES["ileb128"] = ("l", None, True)
PRIMARY = [n for n in NAMES if n in ("float16", "float", "double", "char", "wchar") or
           n.lstrip("u").startswith("int") and n.lstrip("uint").isdigit() and n not in ("uint", "u8", "u16")]
ENDS = {"<": 0, ">": 1, "!": 1, "=": 0, "@": 0}  # big? (the sandbox and any supported host is little endian)
import sys  # noqa: E402

if sys.byteorder == "big":
    ENDS["="] = ENDS["@"] = 1


# ---------------------------------------------------------------- independent codecs
def unsigned(b, big):
    r = 0
    for x in (b if big else b[::-1]):
        r = r * 256 + x
    return r


def dec_int(b, big, signed):
    r = unsigned(b, big)
    return r - (1 << 8 * len(b)) if signed and r >> (8 * len(b) - 1) else r


def dec_float(b, big):
    """Exact IEEE-754 value as Fraction, or 'nan', 'inf', '-inf', '-0'."""
    n = len(b)
    ebits, mbits = {2: (5, 10), 4: (8, 23), 8: (11, 52)}[n]
    r = unsigned(b, big)
    s, e, m = r >> (8 * n - 1), (r >> mbits) & ((1 << ebits) - 1), r & ((1 << mbits) - 1)
    bias = (1 << (ebits - 1)) - 1
    if e == (1 << ebits) - 1:
        return "nan" if m else ("-inf" if s else "inf")
    if e == 0:
        if m == 0:
            return "-0" if s else Fraction(0)
        v = Fraction(m) * Fraction(2) ** (1 - bias - mbits)
    else:
        v = Fraction((1 << mbits) | m) * Fraction(2) ** (e - bias - mbits)
    return -v if s else v


def as_frac(f):
    if f != f:
        return "nan"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    if f == 0 and str(f).startswith("-"):
        return "-0"
    return Fraction(f)


def dec_leb(b, signed):
    r = 0
    for i, x in enumerate(b):
        r += (x & 0x7F) * 128 ** i
        if x < 128:
            if signed and x & 0x40:
                r -= 128 ** (i + 1)
            return r, i + 1
    return None


def enc_leb(v, signed):
    """Shortest encoding: the least number of 7-bit groups whose range holds v."""
    n = 1
    while not (-(1 << (7 * n - 1)) <= v < 1 << (7 * n - 1) if signed else v < 1 << (7 * n)):
        n += 1
    v &= (1 << 7 * n) - 1
    return bytes(((v >> 7 * i) & 0x7F) | (0x80 if i < n - 1 else 0) for i in range(n))


# ---------------------------------------------------------------- inputs
def byte_strings(w, tier):
    """The explored contents of a w-byte scalar."""
    if w == 1:
        return [bytes([i]) for i in range(256)]
    if w == 2:
        return [bytes(p) for p in product(range(256), repeat=2)]
    out = {}
    for bg in (0x00, 0xFF, 0x80, 0x7F):
        for i in range(w):
            for v in range(256):
                out[bytes([bg] * i + [v] + [bg] * (w - 1 - i))] = 1
    for i in range(8 * w):
        for j in range(i, 8 * w):
            v = (1 << i) | (1 << j)
            for x in (v, (1 << 8 * w) - 1 - v):
                out[x.to_bytes(w, "big")] = 1
    out[bytes(range(1, w + 1))] = out[bytes(range(0xF0 - w, 0xF0))] = 1
    return list(out)


def cases(tier):
    yield ["leb", False]
    yield ["leb", True]
    yield ["utf16", 0]
    for n in PRIMARY:
        for end in "<>":
            for form in ("scalar", "array", "null", "compiled", "interp"):
                yield ["codec", [n, end, form]]
    for n in NAMES:
        if n not in PRIMARY:
            yield ["alias", n]
    for n in PRIMARY:
        for end in "!=@":
            yield ["short", [n, end]]
    depth = 4 if tier == "quick" else 6
    for h in product("<>!", repeat=depth):
        yield ["switch", h]
    for h in product("<>!=@", repeat=3):
        yield ["switch", h]
    for end in "<>":
        for n in ("float", "double"):
            yield ["floats", [n, end]]
    if tier == "thorough":
        for n in ("int24", "uint24"):
            for end in "<>":
                for hi in range(0, 256, 8):
                    yield ["all24", [n, end, hi]]


def run(case, st):
    globals()["run_" + case[0]](tup(case[1]), st)


def decode(kind, b, big, signed):
    if kind == "i":
        return dec_int(b, big, signed)
    if kind == "f":
        return dec_float(b, big)
    if kind == "c":
        return b
    u = unsigned(b, big)
    return None if 0xD800 <= u < 0xE000 else chr(u)


def same(kind, got, want):
    if kind == "f":
        return isinstance(got, float) and as_frac(got) == want
    if kind == "i":
        return isinstance(got, int) and not isinstance(got, bool) and got == want
    return isinstance(got, bytes if kind == "c" else str) and got == want


def plain(kind, want):
    if kind == "f":
        return {"inf": float("inf"), "-inf": float("-inf"), "-0": -0.0}.get(want) if isinstance(want, str) else float(want)
    return want


def table(n, end, tier="quick"):
    kind, w, signed = NAMES[n]
    return [(b, v) for b in byte_strings(w, tier) if (v := decode(kind, b, ENDS[end], signed)) is not None]


def run_codec(arg, st):
    n, end, form = arg
    kind, w, signed = NAMES[n]
    tab = table(n, end)
    st.state(len(tab))
    st.trace(len(tab))
    globals()["form_" + form](cstruct(endian=end), n, kind, w, signed, tab, st, end)


def writable(tab):
    return [(b, v) for b, v in tab if v != "nan"]


def form_scalar(cs, n, kind, w, signed, tab, st, end):
    T = cs.resolve(n)
    expect(T.size == w and len(T) == w, "width", None, type=n, got=T.size)
    for b, v in tab:
        got = T(b)
        if not same(kind, got, v):
            expect(False, "decoded value", None, type=n, endian=end, data=b, got=got, expected=str(v))
        if v == "nan":
            continue
        for x in (plain(kind, v), got):
            out = T.dumps(x)
            if out != b:
                expect(False, "encoded bytes", None, type=n, endian=end, value=str(v), got=out, expected=b)
        out = got.dumps()
        if out != b:
            expect(False, "encoded bytes of the parsed value", None, type=n, endian=end, value=str(v), got=out)
    st.trans(4 * len(tab))
    if kind == "i":
        lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if signed else (0, (1 << 8 * w) - 1)
        for v in (lo - 1, hi + 1, lo - 255, hi + 256, lo << 1, (hi << 1) + 1, -(1 << 200), 1 << 200):
            if lo <= v <= hi:
                continue
            try:
                out = T.dumps(v)
            except Exception:  # noqa: BLE001
                st.trans()
                continue
            expect(False, "out of range value accepted", None, type=n, value=v, got=out)


def form_array(cs, n, kind, w, signed, tab, st, end):
    T = cs.resolve(n)
    for k in (1, 2, 7, 300, len(tab)):
        for i in range(0, len(tab), k):
            part = tab[i : i + k]
            if k < 300 and i > 600 * k:
                break
            AT = T[len(part)]
            got = AT(b"".join(b for b, _ in part))
            st.trans()
            check_list(kind, got, [v for _, v in part], n, end)
            if any(v == "nan" for _, v in part):
                continue
            data = b"".join(b for b, _ in part)
            expect(AT.dumps(got) == data, "encoded array", None, type=n, endian=end, first=i)
            plainv = [plain(kind, v) for _, v in part]
            if kind in "cw":
                plainv = (b"" if kind == "c" else "").join(plainv)
            expect(AT.dumps(plainv) == data, "encoded array of plain values", None, type=n, endian=end, first=i)
            st.trans(2)


def check_list(kind, got, want, n, end):
    if kind == "c":
        ok = bytes(got) == b"".join(want)
    elif kind == "w":
        ok = str(got) == "".join(want)
    else:
        ok = len(got) == len(want) and all(same(kind, g, v) for g, v in zip(got, want))
    if not ok:
        bad = [(i, repr(g), str(v)) for i, (g, v) in enumerate(zip(got, want)) if not same(kind, g, v)][:3]
        expect(False, "decoded array", None, type=n, endian=end, bad=bad, n=len(got), expected_n=len(want))


def form_null(cs, n, kind, w, signed, tab, st, end):
    T = cs.resolve(n)
    zero = [v for _, v in tab if v in (0, b"\0", "\0", "-0")]
    nz = [(b, v) for b, v in tab if v not in (0, b"\0", "\0", "-0", "nan")]
    expect(zero, "harness: no zero in the table")
    AT = T[None]
    for k in (1, 50, len(nz)):
        for i in range(0, len(nz), k):
            if k == 1 and i > 2000:
                break
            part = nz[i : i + k]
            data = b"".join(b for b, _ in part) + bytes(w)
            fh = BytesIO(data + b"\x33" * w)
            got = AT(fh)
            expect(fh.tell() == len(data), "position after a null-terminated array", None, type=n, got=fh.tell())
            check_list(kind, got, [v for _, v in part], n, end)
            expect(AT.dumps(got) == data, "encoded null-terminated array", None, type=n, endian=end)
            st.trans(2)


def struct_form(compiled):
    def form(cs, n, kind, w, signed, tab, st, end):
        for align in (False, True):
            U = f"U{int(align)}"
            cs.load(f"struct {U} {{ uint8 p; {n} x; uint16 q; {n} y[2]; }};", compiled=compiled, align=align)
            T = getattr(cs, U)
            ox, oq, oy = (T.fields[f].offset for f in "xqy")
            size = len(T)
            rev = tab[len(tab) // 2 :] + tab[: len(tab) // 2]
            for (b, v), (c, u) in zip(tab if not align or w > 2 else tab[:: 7], rev):
                data = bytearray(size)
                data[0] = 7
                data[ox : ox + w] = b
                data[oq : oq + 2] = b"\x01\x02"
                data[oy : oy + 2 * w] = c + b
                obj = T(bytes(data))
                q = 0x102 if ENDS[end] else 0x201
                ok = same(kind, obj.x, v) and obj.q == q and same(kind, obj.y[0] if kind != "c" else obj.y[:1], u) and \
                    same(kind, obj.y[1] if kind != "c" else obj.y[1:], v)
                if not ok:
                    expect(False, "structure field", None, type=n, endian=end, compiled=compiled, align=align,
                           data=bytes(data), got=obj, expected=(str(v), str(u)))
                if v != "nan" and u != "nan" and obj.dumps() != data:
                    expect(False, "dumped structure", None, type=n, endian=end, data=bytes(data), got=obj.dumps())
                st.trans(2)
    return form


form_compiled = struct_form(True)
form_interp = struct_form(False)


def run_alias(n, st):
    kind, w, signed = NAMES[n]
    for end in "<>":
        cs = cstruct(endian=end)
        if kind == "l":
            continue
        T = cs.resolve(n)
        tab = table(n, end)
        tab = tab[:: max(1, len(tab) // 600)] + tab[-3:]
        st.state(len(tab))
        form_scalar(cs, n, kind, w, signed, tab, st, end)
        cs.load(f"struct S {{ {n} x; {n} y[2]; }};")
        for b, v in tab:
            obj = cs.S(b * 3)
            expect(same(kind, obj.x, v), "decoded alias field", None, type=n, endian=end, data=b, got=obj)
            st.trans()
        expect(len(T) == w, "width", None, type=n, got=T.size)
        st.trace()


def run_short(arg, st):
    n, end = arg
    kind, w, signed = NAMES[n]
    tab = table(n, end)
    tab = tab[:: max(1, len(tab) // 1500)] + tab[-3:] + tab[:3]
    for form in (form_scalar, form_array, form_null, form_compiled, form_interp):
        t = tab if form is not form_null else [(bytes(w), decode(kind, bytes(w), 0, signed)), *tab]
        form(cstruct(endian=end), n, kind, w, signed, t, st, end)
        st.state(len(t))
    st.trace()


def run_floats(arg, st):
    n, end = arg
    w = NAMES[n][1]
    ebits, mbits = {4: (8, 23), 8: (11, 52)}[w]
    mants = sorted({0, 1, 2, 3, (1 << mbits) - 1, (1 << mbits) - 2, 1 << (mbits - 1), (1 << (mbits - 1)) - 1,
                    (1 << (mbits - 1)) + 1, 0x5555555555555 & ((1 << mbits) - 1), *[1 << i for i in range(mbits)]})
    step = 1 if w == 4 else 9
    tab = []
    for s in (0, 1):
        for e in [*range(0, 1 << ebits, step), (1 << ebits) - 1, (1 << ebits) - 2, 1, 2, (1 << ebits - 1) - 1]:
            for m in mants:
                b = ((s << (8 * w - 1)) | (e << mbits) | m).to_bytes(w, "big" if ENDS[end] else "little")
                tab.append((b, dec_float(b, ENDS[end])))
    st.state(len(tab))
    cs = cstruct(endian=end)
    form_scalar(cs, n, "f", w, True, tab, st, end)
    st.trace(len(tab))
    # values that need rounding are rounded to nearest, ties to even
    if w == 4:
        for k in range(0, 4000):
            base = 0x3F800000 + k * 7919 % 0x800000
            for frac, up in ((Fraction(1, 4), 0), (Fraction(3, 4), 1), (Fraction(1, 2), base & 1)):
                f = dec_float(base.to_bytes(4, "big"), 1)
                g = dec_float((base + 1).to_bytes(4, "big"), 1)
                v = float(f + (g - f) * frac)
                want = (base + up).to_bytes(4, "big" if ENDS[end] else "little")
                expect(cs.float.dumps(v) == want, "rounding", None, value=v, got=cs.float.dumps(v), expected=want)
                st.trans()


def run_all24(arg, st):
    n, end, hi = arg
    _, w, signed = NAMES[n]
    cs = cstruct(endian=end)
    T = cs.resolve(n)
    for h in range(hi, hi + 8):
        for mid in range(256):
            blobs = [bytes((h, mid, lo)) for lo in range(256)]
            data = b"".join(blobs)
            AT = T[256]
            got = AT(data)
            want = [dec_int(b, ENDS[end], signed) for b in blobs]
            expect(list(got) == want, "decoded array", None, type=n, endian=end, first=blobs[0])
            expect(AT.dumps(want) == data, "encoded array", None, type=n, endian=end, first=blobs[0])
            st.state(256)
            st.trans(2)
    st.trace()


def run_leb(signed, st):
    n = "ileb128" if signed else "uleb128"
    for end in "<>":
        cs = cstruct(endian=end)
        T = cs.resolve(n)
        strings = [bytes([a]) for a in range(128)] + [bytes([a | 128, b]) for a in range(128) for b in range(128)]
        corner = (0x80, 0x81, 0xBF, 0xC0, 0xFF, 0xAA)
        last = (0x00, 0x01, 0x3F, 0x40, 0x41, 0x7F, 0x55)
        for k in range(2, 6):
            strings += [bytes(p) + bytes([e]) for p in product(corner, repeat=k) for e in last]
        for k in range(6, 21):
            strings += [bytes([c]) * k + bytes([e]) for c in corner for e in last]
        for s in strings:
            want, used = dec_leb(s, signed)
            fh = BytesIO(s + b"\x91\x02")
            got = T(fh)
            st.state()
            st.trans()
            if not (isinstance(got, int) and got == want and fh.tell() == used == len(s)):
                expect(False, "decoded LEB128", None, type=n, data=s, got=got, expected=want, used=fh.tell())
        vals = set(range(-20000 if signed else 0, 20000))
        for k in range(0, 141):
            for d in range(-3, 4):
                vals |= {(1 << k) + d, -(1 << k) + d, (1 << k) * 3 + d}
        for v in sorted(vals):
            if v < 0 and not signed:
                try:
                    T.dumps(v)
                except ValueError:
                    continue
                expect(False, "negative value written as uleb128", None, value=v)
            want = enc_leb(v, signed)
            got = T.dumps(v)
            st.state()
            st.trans(2)
            if got != want or T(want) != v:
                expect(False, "LEB128 value", None, type=n, value=v, got=got, expected=want, parsed=T(want))
        for comp in (True, False):
            c = cstruct(endian=end).load(f"struct S {{ uint8 a; {n} x; {n} y[2]; {n} z[]; uint8 e; }};", compiled=comp)
            for v in (0, 1, 63, 64, 127, 128, 8191, 8192, 16383, 16384, 1 << 70, *((-1, -64, -65, -8192, -8193) if signed else ())):
                x = enc_leb(v, signed)
                nz = enc_leb(v or 5, signed)
                data = b"\x09" + x * 3 + nz * 2 + b"\0" + b"\x42"
                o = c.S(data)
                expect((o.a, o.x, list(o.y), list(o.z), o.e) == (9, v, [v, v], [v or 5] * 2, 0x42), "LEB128 fields",
                       None, data=data, got=o)
                expect(o.dumps() == data, "dumped LEB128 fields", None, data=data, got=o.dumps())
                st.trans(2)
    st.trace()


def run_utf16(_, st):
    for end in "<>!=@":
        cs = cstruct(endian=end)
        big = ENDS[end]

        def unit(u):
            return bytes((u >> 8, u & 255)) if big else bytes((u & 255, u >> 8))

        lows = (0xDC00, 0xDC01, 0xDCFF, 0xDD00, 0xDFFE, 0xDFFF)
        highs = (0xD800, 0xD801, 0xD8FF, 0xD900, 0xDBFE, 0xDBFF)
        for a in ("", "A", "\u00e9", "\uffff", "\ufeff", "\ufffe", "\u0100"):
            for h, lo in product(highs, lows):
                ch = chr(0x10000 + ((h - 0xD800) << 10) + (lo - 0xDC00))
                data = b"".join(unit(ord(x)) for x in a) + unit(h) + unit(lo)
                nunits = len(a) + 2
                got = cs.wchar[nunits](data)
                st.state()
                st.trans(4)
                expect(got == a + ch, "decoded UTF-16", None, data=data, endian=end, got=got)
                # the written text may be shorter than its number of units
                expect(cs.wchar[nunits].dumps(got) == data, "encoded UTF-16", None, endian=end, data=data)
                fh = BytesIO(data + b"\0\0zz")
                got = cs.wchar[None](fh)
                expect(got == a + ch and fh.tell() == len(data) + 2, "decoded null-terminated UTF-16", None, got=got)
                expect(cs.wchar[None].dumps(got) == data + b"\0\0", "encoded null-terminated UTF-16", None, got=got)
        # a zero byte inside the units is not a terminator
        for text in ("\u0100", "\u0100\u0001", "A\u0100B", "\u4100\u0041", "\u0001\u0100"):
            data = b"".join(unit(ord(c)) for c in text)
            fh = BytesIO(data + b"\0\0\0\0")
            got = cs.wchar[None](fh)
            expect(got == text and fh.tell() == len(data) + 2, "null-terminated UTF-16 alignment", None, got=got,
                   endian=end)
            st.trans()
    st.trace()


# ---------------------------------------------------------------- endianness switch histories
DEF = """
enum E : uint16 {{ A = 1, B = 0x102 }};
flag F : uint32 {{ X = 1, Y = 0x100 }};
struct I {{ uint16 x; uint8 y; }};
struct T {{ uint8 a; uint16 b; int32 c; uint24 d; int48 e; uint128 f; float g; double h; float16 i; wchar w; wchar s[2];
  uint16 arr[2]; E en; E ea[2]; F fl; I in; I ia[2]; uint16 bf1 : 4; uint16 bf2 : 12; uint16 *p; uint16 *pa[2]; wchar z[];
  uint32 t[]; uint16 n; uint16 dyn[n]; int64 last; }};
union U {{ uint32 w; uint16 h[2]; uint8 b[4]; struct {{ uint16 lo; uint16 hi; }}; }};
struct V {{ U u; uint64 q; E e[2]; }};
"""


def sw_encode(end):
    """Reference bytes and values of T under one byte order."""
    big = ENDS[end]
    o = "big" if big else "little"

    def i(v, n, s=False):
        return v.to_bytes(n, o, signed=s)

    parts = [(b"\x07", "a", 7), (i(0x102, 2), "b", 0x102), (i(-3, 4, True), "c", -3), (i(0x10203, 3), "d", 0x10203),
             (i(-0x10203, 6, True), "e", -0x10203), (i(0x0102 << 100, 16), "f", 0x102 << 100)]
    fl = (b"\x3f\xc0\x00\x00", b"\x40\x04\x00\x00\x00\x00\x00\x00", b"\x3e\x00")
    for raw, name, v in zip(fl, "ghi", (1.5, 2.5, 1.5)):
        parts.append((raw if big else raw[::-1], name, v))
    parts += [(i(0x141, 2), "w", "\u0141"), (i(0x263A, 2) + i(0x41, 2), "s", "\u263aA"), (i(1, 2) + i(0x203, 2), "arr", [1, 0x203]),
              (i(0x102, 2), "en", ("e", 0x102)), (i(1, 2) + i(0x304, 2), "ea", [("e", 1), ("e", 0x304)]),
              (i(0x101, 4), "fl", ("e", 0x101)), (i(0x506, 2) + b"\x09", "in", ("s", 0x506, 9)),
              ((i(0x506, 2) + b"\x09") * 2, "ia", [("s", 0x506, 9)] * 2)]
    bf = (5 << 12 | 0x678) if big else (0x678 << 4 | 5)
    parts += [(i(bf, 2), "bf1", 5), (b"", "bf2", 0x678), (i(1, 8), "p", 1), (i(1, 8) + i(0x203, 8), "pa", [1, 0x203]),
              (i(0x4e2d, 2) + i(0x100, 2) + b"\0\0", "z", "\u4e2d\u0100"), (i(7, 4) + i(1 << 24, 4) + bytes(4), "t", [7, 1 << 24]),
              (i(3, 2), "n", 3), (i(1, 2) + i(2, 2) + i(0x300, 2), "dyn", [1, 2, 0x300]), (i(-2, 8, True), "last", -2)]
    return parts


def sw_norm(v):
    if isinstance(v, list):
        return [sw_norm(x) for x in v]
    if hasattr(type(v), "dereference"):
        return int(v)
    if hasattr(v, "value") and hasattr(v, "name"):
        return ("e", int(v.value))
    if hasattr(v, "x") and hasattr(v, "y"):
        return ("s", int(v.x), int(v.y))
    return v


def sw_check(cs, T, V, end, arrays, st, old, ptrs):
    big = ENDS[end]
    o = "big" if big else "little"
    parts = sw_encode(end)
    data = b"".join(p[0] for p in parts)
    fh = BytesIO(data)
    obj = T(fh)
    st.trans()
    for _, name, want in parts:
        got = sw_norm(getattr(obj, name))
        expect(got == want, f"field {name} after switching the byte order", None, endian=end, got=got, expected=want)
    expect(obj.dumps() == data, "dump after switching the byte order", None, endian=end, got=obj.dumps(), expected=data)
    if old is not None:
        expect(old.dumps() == data, "dump of an older value after switching the byte order", None, endian=end)
    want = unsigned(data[1:3], big)
    expect(obj.p.dereference() == want, "dereference", None, endian=end, got=obj.p.dereference(), expected=want)
    for p, pdata in ptrs:
        want = unsigned(pdata[1:3], big)
        expect(p.dereference() == want, "dereference after switching the byte order", None, endian=end,
               got=p.dereference(), expected=want)
    raw = bytes(range(1, 17))
    v = V(raw)
    got = (v.u.w, list(v.u.h), v.u.lo, v.u.hi, v.q, [e.value for e in v.e])
    want = (unsigned(raw[:4], big), [unsigned(raw[:2], big), unsigned(raw[2:4], big)], unsigned(raw[:2], big),
            unsigned(raw[2:4], big), unsigned(raw[4:12], big), [unsigned(raw[12:14], big), unsigned(raw[14:16], big)])
    expect(got == want, "union after switching the byte order", None, endian=end, got=got, expected=want)
    expect(v.dumps() == raw, "union dump after switching the byte order", None, endian=end, got=v.dumps())
    u = cs.U()
    u.w = 0x01020304
    expect(u.dumps() == (0x01020304).to_bytes(4, o) and u.h[0] == unsigned((0x01020304).to_bytes(4, o)[:2], big),
           "union assignment after switching the byte order", None, endian=end, got=u)
    for n, AT in arrays.items():
        w = len(AT) // 2
        raw = bytes(range(0x11, 0x11 + 2 * w))
        got = AT(raw)
        want = [unsigned(raw[:w], big), unsigned(raw[w:], big)]
        expect(list(got) == want and AT.dumps(got) == raw, "array type after switching the byte order", None, type=n,
               endian=end, got=got)
        one = cs.resolve(n)
        expect(one(raw) == want[0] and one.dumps(want[1]) == raw[w:], "scalar after switching the byte order", None,
               type=n, endian=end)
        st.trans(2)
    # a pointer obtained now, dereferenced only after a later switch
    return obj, (T(BytesIO(data)).p, data)


def run_switch(hist, st):
    for comp in (True, False):
        for load_at in range(2):
            cs = cstruct(endian=hist[0])
            T = V = None
            arrays = {n: cs.resolve(n)[2] for n in ("uint16", "uint24", "uint32", "uint48", "uint64", "uint128")}
            old, ptrs = None, []
            for i, end in enumerate(hist):
                cs.endian = end
                if i == load_at:
                    cs.load(DEF.format(), compiled=comp)
                    T, V = cs.T, cs.V
                if T is None:
                    continue
                cs.load(f"struct X{i} {{ uint16 a; uint32 b[2]; }};", compiled=comp)
                for j in range(i + 1):
                    X = cs.typedefs.get(f"X{j}")
                    if X is None:
                        continue
                    raw = bytes(range(0x21, 0x2B))
                    x = X(raw)
                    big = ENDS[end]
                    expect((x.a, list(x.b)) == (unsigned(raw[:2], big), [unsigned(raw[2:6], big), unsigned(raw[6:], big)])
                           and x.dumps() == raw, "structure loaded earlier", None, endian=end, got=x)
                    st.trans()
                fresh = ptrs[-1:]
                old, p = sw_check(cs, T, V, end, arrays, st, old, fresh)
                ptrs.append(p)
                st.state()
            st.trace()
