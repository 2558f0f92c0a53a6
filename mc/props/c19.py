"""C19 Utilities: hexdump is lossless, colour cosmetic, pack/unpack/swap are inverses."""
import contextlib
import io
import re
import struct
from itertools import product

from dissect.cstruct import dumpstruct, hexdump, utils
from dissect.cstruct import p8, p16, p32, p64, pack, swap, swap16, swap32, swap64, u8, u16, u32, u64, unpack

from mc import space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, configs, show as _show

PROP = "C19"
LIMIT = 120
RULE = ("hexdump: every length 0..80 (thorough 0..300) x contents x 14 offsets x 4 prefixes x 3 output forms, every byte "
        "value at every column, every palette of up to 4 entries over the run lengths {0,1,2,7,8,9,15,16,17,33}; "
        "dumpstruct: every program of the bounded program space (colour on/off, print/string, offset) with the hex part "
        "compared with the bytes and every field line with the parsed value; pack/unpack/pN/uN/swap: every 8 and 16 bit "
        "value, walking bits and boundaries for 24..136 bits, every endian name, wrong sizes and out of range values")
ASSUMPTIONS = ["dumpstruct on parsed structures (default-constructed ones have no recorded sizes)",
               "the textual form of a field's value is accepted in any notation Python evaluates back to the value, or repr/str"]

ANSI = re.compile("\x1b\\[[0-9;]*m")
RUNS = (0, 1, 2, 7, 8, 9, 15, 16, 17, 33)
COLORS = (utils.COLOR_RED, utils.COLOR_BG_GREEN, utils.COLOR_BLUE, "\x1b[0;35m")
OFFSETS = (0, 1, 8, 15, 16, 17, 0x7FF, 0xFFF0, 0xFFFF, 0x7FFFFFF0, 0xFFFFFFF0, 0xFFFFFFFF, 0x100000000, 0x123456789A)
PREFIXES = ("", "> ", "0x", "abc: ")


def expect(cond, msg, **kw):
    if not cond:
        raise Violation(msg + "".join(f"\n  {k}: {v!r}" for k, v in kw.items()))


def content(n, k):
    if k == 0:
        return bytes((7 * i + 3) & 0xFF for i in range(n))
    if k == 1:
        return bytes(0xFF - (i & 0xFF) for i in range(n))
    if k == 2:
        return bytes(n)
    if k == 3:
        return bytes(0x20 + i % 0x5F for i in range(n))
    return bytes((0x1B, 0x5B, 0x6D, 0x0A, 0x0D, 0x20, 0x7F, 0x80)[i % 8] for i in range(n))


def parse_dump(text, offset, prefix, what):
    """The bytes a plain hex dump lists; checks the line structure."""
    out = bytearray()
    lines = text.split("\n") if text else []
    for i, line in enumerate(lines):
        expect(line.startswith(prefix), "line without the prefix", line=line, **what)
        rest = line[len(prefix):]
        m = re.match(r"([0-9a-f]+) ( .*)$", rest, re.DOTALL)
        expect(m, "line without an offset", line=line, **what)
        expect(int(m[1], 16) == offset + 16 * i and len(m[1]) >= 8, "wrong running offset", line=line, want=offset + 16 * i, **what)
        cols = m[2][1:50]
        row = cols.split()
        expect(all(re.fullmatch("[0-9a-f]{2}", c) for c in row), "malformed hex column", line=line, **what)
        expect(row and len(row) <= 16 and (len(row) == 16 or i == len(lines) - 1), "not sixteen bytes in the line", line=line, **what)
        # columns are in place: byte j sits at 3*j (one more after the eighth)
        for j, c in enumerate(row):
            at = 3 * j + (j >= 8)
            expect(cols[at:at + 2] == c, "hex column is not in place", line=line, **what)
        out += bytes(int(c, 16) for c in row)
        chars = rest[len(m[1]) + 2 + 49:].lstrip(" ") if False else rest[len(m[1]) + 2 + 49:]
        data = bytes(int(c, 16) for c in row)
        shown = chars[2:] if chars.startswith("  ") else chars
        expect(len(shown) == len(row), "character column has a different number of characters", line=line, **what)
        for b, ch in zip(data, shown):
            expect(ch == "." or ord(ch) == b, "character column shows something else", line=line, **what)
    return bytes(out)


def captured(fn, *args, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = fn(*args, **kw)
    expect(r is None, "print output returns a value", value=r)
    return buf.getvalue()


def check_hex(data, offset, prefix, st):
    what = dict(data=data, offset=offset, prefix=prefix)
    text = hexdump(data, offset=offset, prefix=prefix, output="string")
    st.trans()
    got = parse_dump(text, offset, prefix, what)
    expect(got == data, "hex dump lists other bytes", listed=got, **what)
    return text


def check_palette(data, palette, offset, plain, st):
    pal = list(palette)
    text = hexdump(data, pal, offset=offset, output="string")
    st.trans()
    what = dict(data=data, palette=palette, offset=offset)
    expect(pal == list(palette), "the palette was modified", now=pal, **what)
    expect(ANSI.sub("", text) == plain, "a palette changes more than colour codes", plain=plain, text=text, **what)
    st.outcome(text)


def cases(tier):
    top = 80 if tier == "quick" else 300
    for n in range(top + 1):
        yield ["hex", n]
    yield ["bytes"]
    for n in (0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 48, 50) + ((64, 65, 100) if tier == "thorough" else ()):
        for a in range(len(RUNS)):
            for b in range(len(RUNS)):
                yield ["pal", n, a, b]
    for bits in (8, 16):
        for part in range(8):
            yield ["all", bits, part]
    for bits in range(8, 144, 8):
        yield ["wide", bits]
    for bits in range(1, 73):
        yield ["odd", bits]
    yield ["free"]
    yield ["swap"]
    for key in space.keys(tier):
        if key[0] == "x" and any(s in key[1] for s in ("4100", "1024", "[n=300")):
            continue
        yield ["dump", key]


show = lambda case: _show(case[1]) if case[0] == "dump" else repr(case)  # noqa: E731


def run(case, st):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st)


def run_hex(n, st):
    for k in range(5):
        data = content(n, k)
        for off in OFFSETS:
            st.state()
            plain = check_hex(data, off, "", st)
        for pre in PREFIXES:
            check_hex(data, 0x10, pre, st)
            st.state()
        plain = check_hex(data, 0, "", st)
        expect("\n".join(hexdump(data, output="generator")) == plain, "generator output differs", data=data)
        expect(captured(hexdump, data, output="print") == plain + "\n", "printed output differs", data=data)
        expect(captured(hexdump, data) == plain + "\n", "printed output differs", data=data)
        expect(hexdump(bytearray(data), output="string") == plain and hexdump(memoryview(data), output="string") == plain,
               "hex dump depends on the input kind", data=data)
        for pal in ([], [(n, COLORS[0])], [(1, COLORS[0])] * n, [(n + 20, COLORS[1])], [(0, COLORS[0])],
                    [(0, COLORS[0]), (0, COLORS[1])], [(16, COLORS[1])] * (n // 16 + 1), [(3, c) for c in COLORS]):
            check_palette(data, pal, 0, plain, st)
            st.state()
            pre = hexdump(data, list(pal), prefix="| ", output="string")
            expect(ANSI.sub("", pre) == hexdump(data, prefix="| ", output="string"), "palette with prefix", data=data, palette=pal)
    for bad in ("x", "", "PRINT"):
        try:
            hexdump(b"abc", output=bad)
        except ValueError:
            continue
        raise Violation(f"output={bad!r} accepted")
    st.trace()


def run_bytes(st):
    for b in range(256):
        for col in range(17):
            data = bytes(col) + bytes([b])
            check_hex(data, 0, "", st)
            data = b"\xa5" * col + bytes([b]) * 2 + b"A" * (16 - col)
            plain = check_hex(data, 0, "", st)
            check_palette(data, [(col, COLORS[0]), (1, COLORS[1])], 0, plain, st)
            st.state(2)
    st.trace()


def run_pal(n, a, b, st):
    data = content(n, 0)
    plain = check_hex(data, 0, "", st)
    for c, d in product((None, *RUNS), repeat=2):
        runs = [RUNS[a], RUNS[b]] + ([RUNS[0] if c == 0 else c] if c is not None else []) + ([d] if d is not None else [])
        check_palette(data, [(r, COLORS[i]) for i, r in enumerate(runs)], 0, plain, st)
        st.state()
    check_palette(data, [(RUNS[a], COLORS[0])], 0x20, check_hex(data, 0x20, "", st), st)
    st.trace()


# ---------------------------------------------------------------------------------------------------------------

ENDS = {"little": 0, "<": 0, "big": 1, ">": 1, "!": 1, "network": 1}
FIXED = {8: (p8, u8), 16: (p16, u16), 32: (p32, u32), 64: (p64, u64)}


def twos(v, nbytes, big):
    out = bytes((v >> (8 * i)) & 0xFF for i in range(nbytes))
    return out[::-1] if big else out


def fits(v, bits):
    return -(1 << (bits - 1)) <= v < (1 << bits)


def raises(fn, *exc):
    try:
        r = fn()
    except exc:
        return
    raise Violation(f"expected {exc}, got {r!r}")


def check_int(v, bits, st, ends=ENDS):
    nb = bits // 8
    for end in ends:
        big = ENDS[end]
        want = twos(v, nb, big)
        got = pack(v, bits, end)
        st.trans(2)
        expect(got == want, "pack", value=v, bits=bits, endian=end, got=got, want=want)
        back = unpack(got, bits, end, v < 0)
        expect(back == v and type(back) is int, "unpack(pack(v)) != v", value=v, bits=bits, endian=end, got=back)
        expect(unpack(got, None, end, v < 0) == v, "unpack without a size", value=v, bits=bits, endian=end)
        m = v & ((1 << bits) - 1)
        expect(unpack(want, bits, end) == m, "unsigned unpack", value=v, bits=bits, endian=end)
        s = m - (1 << bits) if m >> (bits - 1) else m
        expect(unpack(want, bits, end, True) == s, "signed unpack", value=v, bits=bits, endian=end)
        expect(pack(s, bits, end) == want and pack(m, bits, end) == want, "pack(unpack(b)) != b", data=want, endian=end)
        if bits in FIXED:
            p, u = FIXED[bits]
            expect(p(v, end) == want, "fixed-width pack", value=v, bits=bits, endian=end, got=p(v, end))
            expect(u(want, end) == m and u(want, end, True) == s and u(want, endian=end, sign=False) == m,
                   "fixed-width unpack", data=want, bits=bits, endian=end)
    want = twos(v, nb, 0)
    expect(pack(v, bits) == want and unpack(want, bits) == v & ((1 << bits) - 1), "default byte order", value=v, bits=bits)
    if bits in FIXED:
        expect(FIXED[bits][0](v) == want and FIXED[bits][1](want) == v & ((1 << bits) - 1), "default byte order", value=v)
    if v >= 0:
        sw = swap(v, bits)
        expect(sw == int.from_bytes(want, "big"), "swap", value=v, bits=bits, got=sw)
        expect(swap(sw, bits) == v, "swapping twice", value=v, bits=bits)
        if bits in (16, 32, 64):
            fn = {16: swap16, 32: swap32, 64: swap64}[bits]
            expect(fn(v) == sw and fn(fn(v)) == v, "fixed-width swap", value=v, bits=bits)
    # without a size: the fewest bytes that hold the value
    if v:
        k = 1
        while not (v >= 0 and v >> (8 * k) == 0 or v < 0 and v >> (8 * k - 1) == -1):
            k += 1
        for end in ("little", ">"):
            expect(pack(v, None, end) == twos(v, k, ENDS[end]), "pack without a size", value=v, got=pack(v, None, end))
            expect(unpack(pack(v, None, end), None, end, v < 0) == v, "unpack(pack(v)) without a size", value=v)
    st.state()


def run_all(bits, part, st):
    lo, hi = -(1 << (bits - 1)), 1 << bits
    n = (hi - lo + 7) // 8
    for v in range(lo + part * n, min(hi, lo + (part + 1) * n)):
        check_int(v, bits, st, ENDS if bits == 8 or v % 7 == 0 else ("little", ">"))
    for v in (lo - 1, hi, -hi, hi * 2, -(1 << 70)):
        for end in ENDS:
            raises(lambda: pack(v, bits, end), OverflowError, ValueError, struct.error)
    st.trace()


def boundary(bits):
    out = set()
    for k in range(bits):
        out |= {1 << k, (1 << k) - 1, ((1 << bits) - 1) ^ (1 << k)}
        if k < bits:
            out |= {-(1 << k), -(1 << k) - 1, -(1 << k) + 1}
    out |= {0x0102030405060708090A0B0C0D0E0F101112 & ((1 << bits) - 1), (1 << bits) - 1, 0}
    return sorted(v for v in out if fits(v, bits))


def run_wide(bits, st):
    for v in boundary(bits):
        check_int(v, bits, st)
    for v in ((1 << bits), -(1 << (bits - 1)) - 1, (1 << bits + 3), -(1 << bits)):
        for end in ENDS:
            raises(lambda: pack(v, bits, end), OverflowError, ValueError)
            if bits in FIXED:
                raises(lambda: FIXED[bits][0](v, end), OverflowError, ValueError)
    for n in {0, 1, bits // 8 - 1, bits // 8 + 1, 2 * (bits // 8)} - {bits // 8}:
        for end in ENDS:
            raises(lambda: unpack(bytes(n), bits, end), ValueError)
            if bits in FIXED:
                raises(lambda: FIXED[bits][1](bytes(n), end), ValueError)
    st.trace()


def run_odd(bits, st):
    """Sizes that are not whole bytes take the bytes they need."""
    nb = (bits + 7) // 8
    for v in boundary(bits):
        for end, big in ENDS.items():
            b = pack(v, bits, end)
            st.trans(2)
            expect(b == twos(v, nb, big), "pack to a partial byte size", value=v, bits=bits, endian=end, got=b)
            expect(unpack(b, bits, end, v < 0) == v, "unpack(pack(v)) != v", value=v, bits=bits, endian=end)
        st.state()
    st.trace()


def run_free(st):
    for n in range(0, 3):
        for raw in product(range(0, 256, 1 if n < 2 else 5), repeat=n):
            data = bytes(raw)
            for end, big in ENDS.items():
                le = data[::-1] if big else data
                want = sum(b << (8 * i) for i, b in enumerate(le))
                expect(unpack(data, endian=end) == want, "unpack", data=data, endian=end)
                sg = want - (1 << (8 * n)) if n and le[-1] & 0x80 else want
                expect(unpack(data, endian=end, sign=True) == sg, "signed unpack", data=data, endian=end)
                if n:
                    expect(pack(want, 8 * n, end) == data, "pack(unpack(b)) != b", data=data, endian=end)
            st.state()
            st.trans(3)
    expect(unpack(pack(0)) == 0, "zero without a size")
    for v in range(-70000, 70000, 1):
        b = pack(v)
        expect(unpack(b, None, "little", v < 0) == v, "unpack(pack(v)) without a size", value=v, data=b)
    for n in range(0, 40):
        data = bytes((37 * i + 200) & 0xFF for i in range(n))
        expect(unpack(data) == int.from_bytes(data, "little") and unpack(data, 8 * n, ">") == int.from_bytes(data, "big"),
               "long unpack", data=data)
    st.trace()


def run_swap(st):
    for v in range(0, 1 << 16):
        s = ((v & 0xFF) << 8) | (v >> 8)
        expect(swap16(v) == s and swap(v, 16) == s, "swap16", value=v)
        st.state()
    for v in boundary(32):
        if v >= 0:
            expect(swap32(v) == struct.unpack("<I", struct.pack(">I", v))[0], "swap32", value=v)
    for v in boundary(64):
        if v >= 0:
            expect(swap64(v) == struct.unpack("<Q", struct.pack(">Q", v))[0], "swap64", value=v)
    st.trace()


# ---------------------------------------------------------------------------------------------------------------

def squash(s):
    return re.sub(r"\s+", "", s)


def shown_as(text, value):
    """Does the text after the field name show this value?"""
    if isinstance(value, float):
        return float(text) == value
    alts = {squash(repr(value))}
    if not isinstance(value, (list, dict)):
        alts.add(squash(str(value))) if not hasattr(value, "dereference") else None
    t = squash(text)
    if t in alts:
        return True
    if isinstance(value, int) and not hasattr(value, "dereference"):
        try:
            return int(t, 0) == int(value)
        except ValueError:
            return False
    return False


def run_dump(key, st):
    t = space.get(key)
    ks = (2,) if key[0] == "x" else (1, 2, 3)
    for cfg in configs():
        p = Prog(t, cfg)
        for v, enc, mask, dirty in space.inputs(p.model, t, ks):
            st.state()
            obj = p.T(enc)
            what = dict(program=p.what(), data=enc.hex())
            bare = dumpstruct(obj, color=False, output="string")
            plain = ANSI.sub("", bare)
            st.trans()
            head, sep, body = plain.partition("\n\nstruct ") if enc else ("", True, plain.partition("struct ")[2])
            if enc:
                expect(sep and head.startswith("\n"), "dump form", text=plain, **what)
                got = parse_dump(head[1:], 0, "", what)
                expect(got == enc, "hex part is not the bytes of the structure", listed=got.hex(), **what)
            name, _, rest = body.partition(":\n") if ":\n" in body else (body[:-1], "", "")
            expect(name == "T", "structure name", name=name, **what)
            # one entry per field, in order
            fields = [f for f in p.T.__fields__ if not getattr(f.type, "anonymous", False)]
            pos = 0
            starts = []
            text = "\n" + rest if rest else ""
            for f in fields:
                lead = f"\n- {f._name}: "
                at = text.find(lead, pos)
                expect(at == (0 if not starts else at) and at >= 0, "field is not listed", field=f._name, text=plain, **what)
                starts.append((at, at + len(lead)))
                pos = at + len(lead)
            ends = [s for s, _ in starts[1:]] + [len(text)]
            for f, (_, s), e in zip(fields, starts, ends):
                val = getattr(obj, f._name)
                expect(shown_as(text[s:e], val), "field is shown with another value", field=f._name, shown=text[s:e],
                       value=repr(val), **what)
            color = dumpstruct(obj, output="string")
            expect("\x1b[" in color or not fields, "no colour", **what)
            expect(ANSI.sub("", color) == plain, "colour changes the dump", color=color, plain=plain, **what)
            off = dumpstruct(obj, offset=0xFFFF5, color=True, output="string")
            if enc:
                expect(parse_dump(ANSI.sub("", off).partition("\n\nstruct ")[0][1:], 0xFFFF5, "", what) == enc, "offset", **what)
            expect(captured(dumpstruct, obj, color=False) == bare + "\n", "printed dump differs", **what)
            expect(captured(dumpstruct, obj) == color + "\n", "printed dump differs", **what)
            expect(dumpstruct(p.T, enc, color=False, output="string") == bare, "dump of type and data differs", **what)
            expect(dumpstruct(p.T, enc, output="string") == color, "dump of type and data differs", **what)
            st.trace()
