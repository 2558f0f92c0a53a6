"""C09 Stream discipline."""
import io
import os
from io import BytesIO

from dissect.cstruct import cstruct

from mc import impl, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.c03 import plain
from mc.props.c08 import Stream
from mc.props.common import Prog, configs, expect, show as _show  # noqa: F401
from mc.props.c07 import values_of
from mc.ref import SCALARS, NotCanonical, RefEOF
from mc.space import ENV, A, F, P, S, st, un

PROP = "C09"
LIMIT = 120
RULE = ("every program of the bounded program space x {<,>} x {packed,aligned} x {compiled,interpreted} x content "
        "patterns x start offsets (multiples of the alignment for aligned structures) x prefix bytes x suffix bytes; "
        "definitions with dynamic unions and other oddities at 26 start offsets; all input kinds x call forms; histories of consecutive reads of different types on one stream; value and "
        "final position compared with the parse of the bytes on their own and with the reference model")
ASSUMPTIONS = ["aligned structures are parsed from multiples of their alignment, as the property states"]

OFFS = (1, 2, 3, 7, 13, 16, 64, 1000)


def cases(tier):
    for name in SCALARS:
        if name != "void":
            yield ["scalar", name]
    for e in ENV.enums:
        yield ["scalar", e]
    for name in (*(n for n in SCALARS if n != "void"), "E8", "E16", "E24", "PT", "DYN", "BITS", "UN"):
        yield ["long", name, tier]
    for i in range(len(SEQ)):
        for j in range(len(SEQ)):
            yield ["seq", i, j, 4 if tier == "thorough" else 3]
    for i in range(len(TEXTS)):
        yield ["text", i, tier]
    for key in space.keys(tier):
        yield ["m", key, 2 if tier == "thorough" or key[0] == "p" and len(key[1]) < 2 else int(key[0] == "x")]


def show(case):
    return _show([case[1]]) if case[0] == "m" else case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def run_m(key, full, st_):
    t = space.get(key)
    for cfg in configs():
        p = Prog(t, cfg)
        al = p.model.alignment(t) or 1
        big = False
        for j, (v, enc, mask, dirty) in enumerate(
                space.inputs(p.model, t, ((2 if cfg.big else 3,), (2, 3), range(space.PATTERNS))[full])):
            n = len(enc)
            big = n > 300
            st_.trace()
            offs = OFFS if not cfg.align else [al * k for k in (1, 2, 3, 5, 16, 100)]
            if full < 2 or big:
                offs = (offs[0], offs[2 + j % 3])
            for off in offs:
                for pre, suf in ((b"\xff", b"\x00"), (b"\x00", b"\xff"), (b"\x01\x02", b"\x81\x01")):
                    place(p, t, dirty, off, pre, suf, v, n, st_)
                    if big:
                        break
            if j < 2 and full == 2:
                forms(p.cs, p.T, t, dirty, v, n, st_, p)
            elif j == 0:
                forms(p.cs, p.T, t, dirty, v, n, st_, p, kinds=tuple(KINDS) if full else ("bytearray", "minimal"))
            if n and not p.eof and (full or j == 0):
                chain(p, dirty, v, n, al, st_)


# definitions outside of the reference model's domain: the parse of the bytes on their own is the oracle
TEXTS = [
    "union T { char s[]; uint8 a; };",
    "union T { uint8 a; char s[]; };",
    "union T { uint8 n; struct { uint8 k; uint16 d[k & 3]; } v; uint32 w; };",
    "union D { char s[]; uint16 a; }; struct T { uint8 h[3]; D u; uint8 e; };",
    "union D { uint8 n; uleb128 l; }; struct T { D u[2]; uint16 e; D v; };",
    "struct T { uint8 n; union { struct { uint8 n; wchar s[n & 3]; } v; uint32 x; }; uint8 e; };",
    "struct T { uint8 n; union { struct { uint8 k; char s[k & 3]; }; uint16 d[]; } u[2]; uint8 e; };",
    "union D { struct { uint8 a : 3; uint8 b : 5; char s[]; } x; uint64 y; }; struct T { uint16 h; D d; uint8 e; };",
    "struct T { uint8 _; uint8 _; uint8 a; };",
    "struct T { uint8 a; void b[3]; uint16 c; };",
    "struct T { char a : 4; char b : 4; uint8 c; };",
    "struct N { uint8 x; struct N *next; }; struct T { N a; N *b; N c[2]; };",
    "struct E { }; struct T { E a; uint8 b; E c[2]; uint16 d; };",
]


def run_text(i, tier, st_):
    for cfg in configs(aligns=(False,)):
        cs = cstruct(endian=cfg.endian)
        cs.load(TEXTS[i], compiled=cfg.compiled)
        for k in range(24 if tier == "thorough" else 8):
            base = bytes((0x01, 0x02, 0x41, 0x00, 0x83, 0x42, 0x00)[(j * (k % 6 + 1) + k) % 7] for j in range(40)) + bytes(8)
            fh = BytesIO(base)
            obj = cs.T(fh)
            n = fh.tell()
            want = (plain(obj), n)
            st_.trace()
            for off in (*range(0, 24), 64, 1000):
                for pre, suf in ((b"\xff", b"\x00"), (b"\x00", b"\xff"), (b"\x01\x02", b"")):
                    for cut in (len(base), n):
                        fh = BytesIO((pre * (off // len(pre) + 1))[:off] + base[:cut] + suf * 9)
                        fh.seek(off)
                        try:
                            obj = cs.T(fh)
                            got = (plain(obj), fh.tell() - off)
                        except EOFError as e:
                            got = e
                        st_.state()
                        st_.trans()
                        if got != want:
                            raise Violation(f"parsing from offset {off} differs from parsing the bytes on their own: "
                                            f"{TEXTS[i]} [{cfg}] data={base!r} prefix={pre!r} suffix={suf!r} cut={cut} "
                                            f"got={got!r} expected={want!r}")
            for name, kind in KINDS.items():
                for how, f in (("T()", lambda x: cs.T(x)), ("read", lambda x: cs.T.read(x)),
                               ("cs.read", lambda x: cs.read("T", x))) + (
                        (("reads", lambda x: cs.T.reads(x)),) if not hasattr(kind(b""), "read") else ()):
                    got = plain(f(kind(base)))
                    st_.state()
                    if got != want[0]:
                        raise Violation(f"{how} of {name} gives {got!r} instead of {want[0]!r}: {TEXTS[i]} [{cfg}] data={base!r}")


def place(p, t, dirty, off, pre, suf, v, n, st_):
    prefix = (pre * (off // len(pre) + 1))[:off]
    data = prefix + dirty + (b"" if p.eof else suf * 17)
    fh = BytesIO(data)
    fh.seek(off)
    obj = p.T(fh)
    st_.state()
    st_.trans()
    got = p.norm(obj)
    expect(got == v, f"value parsed from offset {off} differs from parsing the bytes on their own", p, data=data,
           got=got, expected=v)
    expect(fh.tell() == off + n, f"stream position after parsing from offset {off}", p, data=data, got=fh.tell(),
           expected=off + n)


class Duck:
    """Nothing but what is needed to read from anywhere."""

    def __init__(self, data):
        inner = BytesIO(data)
        self.read, self.seek, self.tell = inner.read, inner.seek, inner.tell


KINDS = {
    "bytes": lambda d: d,
    "bytearray": bytearray,
    "memoryview": memoryview,
    "memoryview slice": lambda d: memoryview(b"\xff\x00\xff" + d + b"\xff\xff")[3 : 3 + len(d)],
    "memoryview of bytearray": lambda d: memoryview(bytearray(d)),
    "memoryview readonly": lambda d: memoryview(bytearray(d)).toreadonly(),
    "strided memoryview": lambda d: memoryview(bytes(x for b in d for x in (b, 0xEE)))[::2],
    "stream": BytesIO,
    "minimal": Stream,
    "duck": lambda d: Duck(d),
    "buffered": lambda d: io.BufferedReader(BytesIO(d)),
    "tiny buffer": lambda d: io.BufferedReader(BytesIO(d), 2),
    "file": lambda d: memfile(d, -1),
    "raw file": lambda d: memfile(d, 0),
}


def memfile(d, buffering):
    fd = os.memfd_create("mc")
    os.write(fd, d)
    os.lseek(fd, 0, 0)
    return os.fdopen(fd, "rb" if buffering == 0 else "r+b", buffering=buffering)


def forms(cs, T, t, data, v, n, st_, p, kinds=tuple(KINDS), name=None):
    first = None
    for kind in kinds:
        for form in ("call", "read", "reads", "cs.read"):
            src = KINDS[kind](data)
            stream = hasattr(src, "read")
            if stream and form == "reads":
                continue
            try:
                if form == "call":
                    obj = T(src)
                elif form == "read":
                    obj = T.read(src)
                elif form == "reads":
                    obj = T.reads(src)
                else:
                    obj = cs.read(name or t[1], src)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{form} of {kind} failed with {e!r}: " + p.what(data=data))
            st_.state()
            st_.trans()
            got = impl.norm(t, obj, ENV)
            expect(got == v, f"{form} of {kind} gives a different value", p, data=data, got=got, expected=v)
            if stream:
                expect(src.tell() == n, f"{form} of {kind} leaves the stream elsewhere", p, data=data, got=src.tell())
            if first is None:
                first = obj
            else:
                expect(obj == first, f"{form} of {kind} is not equal to the parse of bytes", p, data=data)
                expect(type(obj) is type(first), f"{form} of {kind} has another type", p, data=data)
            if isinstance(src, (bytearray,)):
                expect(bytes(src) == data, f"{form} modified its input", p, data=data)
                for i in range(len(src)):
                    src[i] ^= 0xFF
                expect(impl.norm(t, obj, ENV) == v, "value refers to the caller's mutable buffer", p, data=data)
            if stream and hasattr(src, "close"):
                src.close()
    for bad in (None, 1.5, object()):
        for f in (T.read, lambda x: cs.read(name or t[1], x)):
            try:
                f(bad)
            except TypeError:
                continue
            raise Violation(f"reading from {bad!r} returned a value")


def chain(p, dirty, v, n, al, st_):
    """Values back to back: each is parsed where the previous one ended."""
    data = dirty * 3 + b"\x55" * 20
    fh = BytesIO(data)
    objs = []
    for i in range(3):
        objs.append(p.T(fh))
        st_.trans()
        expect(fh.tell() == (i + 1) * n, f"position after value {i + 1} of a sequence", p, data=data, got=fh.tell())
    for i, obj in enumerate(objs):
        expect(p.norm(obj) == v, f"value {i + 1} of a sequence differs", p, data=data, got=p.norm(obj))
    fh.seek(0)
    arr = p.T[3](fh)
    st_.state()
    expect(fh.tell() == 3 * n and [p.norm(x) for x in arr] == [v] * 3, "array of three values", p, data=data,
           got=fh.tell())
    # re-reading the same place
    fh.seek(n)
    expect(p.norm(p.T(fh)) == v and fh.tell() == 2 * n, "re-reading after a seek", p, data=data)


def run_scalar(name, st_):
    base = ("e", name) if name in ENV.enums else ("s", name)
    for cfg in configs(comps=(True,), aligns=(False,)):
        p = Prog(st("T", F("x", base)), cfg)
        IT0 = getattr(p.cs, name)
        todo = [(base, IT0), (("a", base, ("z",)), IT0[None]), *[(("a", base, n), IT0[n]) for n in (1, 2, 3, 17)],
                (("a", ("a", base, 2), 3), IT0[2][3])]
        for t, IT in todo:
            for k in range(space.PATTERNS):
                v = space.Filler(p.model, k).fill(t)
                enc = p.model.encode(t, v)
                st_.trace()
                for off in (0, *OFFS):
                    for pre, suf in ((b"\xff", b"\0"), (b"\0", b"\xff")):
                        fh = BytesIO(pre * off + enc + suf * 9)
                        fh.seek(off)
                        got = impl.norm(t, IT(fh), ENV)
                        st_.state()
                        st_.trans()
                        expect(got == v and fh.tell() == off + len(enc), f"{t} at offset {off} [{cfg}]", None,
                               data=enc.hex(), got=got, expected=v, tell=fh.tell())
                if t is base:
                    forms(p.cs, IT, t, enc, v, len(enc), st_, p, name=name)
                else:
                    arr_forms(IT, t, enc, v, st_, p)


LONG = (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025)


def run_long(name, tier, st_):
    """Long arrays and strings on their own, in structures and in unions; what follows has the look of more data."""
    base = {"PT": space.PT, "DYN": space.DYN, "BITS": space.BITS, "UN": space.UN}.get(name) or (
        ("e", name) if name in ENV.enums else S(name))
    structy = base[0] in ("st", "un")
    for cfg in configs(aligns=(False,), ends="<>" if tier == "thorough" or not structy else "<"):
        p0 = Prog(st("T", F("x", base)), cfg)
        seq = values_of(base, p0.model, 1025)
        for n in (LONG if tier == "thorough" else (64, 257, 1025)) if structy else LONG:
            for dim in (n, ("z",)):
                arr = A(base, dim)
                progs = [st("T", F("h", S("uint8")), F("x", arr), F("t", S("uint16")))]
                if n in (33, 64, 257, 1025):
                    progs.append(st("T", F("h", S("uint8")), F("u", un("", F("a", arr), F("b", S("uint16")), mode="in"))
                                    if dim == n and name != "DYN" else F("x", A(arr, 2)), F("t", S("uint16"))))
                for k, t in enumerate(progs):
                    p = Prog(t, cfg)
                    body = b"".join(seq[:n])
                    if dim != n:
                        zero = p.model.encode(base, space.Filler(p.model, 0).fill(base)) if not structy else bytes(
                            p.model.size(base) or 8)
                        if any(zero):
                            continue
                        body += zero
                    if k and dim != n:
                        body *= 2
                    elif k and name == "DYN":
                        body = b"".join(seq[:n]) * 2
                    data = b"\x5a" + body + b"\x11\x22"
                    try:
                        v, used = p.model.decode(t, data)
                    except (NotCanonical, RefEOF):
                        continue
                    data = data[:used]
                    st_.trace()
                    for off, pre, suf in ((0, b"", b""), (1, b"\xff", b"\0"), (64, b"\0", b"\xff"), (1000, b"\1\2", b"\x81\1")):
                        place(p, t, data, off, pre or b"\0", suf * 200, v, used, st_)
                    if n in (33, 64, 257):
                        forms(p.cs, p.T, t, data, v, used, st_, p)
                    chain(p, data, v, used, 1, st_)


def arr_forms(IT, t, enc, v, st_, p):
    for kind in KINDS:
        for form in ("call", "read", "reads"):
            src = KINDS[kind](enc)
            if hasattr(src, "read") and form == "reads":
                continue
            obj = IT(src) if form == "call" else getattr(IT, form)(src)
            st_.state()
            got = impl.norm(t, obj, ENV)
            expect(got == v, f"{t}: {form} of {kind} gives a different value", p, data=enc, got=got, expected=v)
            if hasattr(src, "close"):
                src.close()


# sequences of reads of different types on one stream

SEQ = [
    st("A0", F("a", S("uint8"))),
    st("A1", F("n", S("uint8")), F("d", A(S("uint16"), ("x", "n")))),
    un("A2", F("a", S("uint16")), F("b", A(S("uint8"), 3))),
    st("A3", F("b", S("uint16"), 3), F("c", S("uint16"), 9)),
    st("A4", F("s", A(S("char"), ("z",))), F("l", S("uleb128"))),
    st("A5", F("x", S("uint8")), F("y", S("uint32")), F("p", P(S("uint8")))),
    st("A6", F("p", P(space.PT)), F("u", un("", F("q", S("uint32")), F("r", space.PT), mode="in"))),
    st("A7", F("w", A(S("wchar"), 2)), F("i", A(S("int24"), 2)), F("e", ("e", "E8"))),
]


def run_seq(i, j, depth, st_):
    """All sequences of reads (starting with types i, j) on one stream, from an odd start offset."""
    from itertools import product

    env_t = st("ALL", *[F(f"x{k}", s) for k, s in enumerate(SEQ)])
    for cfg in configs(aligns=(False,)):
        p = Prog(env_t, cfg)
        blocks = []
        for s in SEQ:
            v, enc, mask, dirty = next(iter(space.inputs(p.model, s, (2,))))
            blocks.append((getattr(p.cs, s[1]), s, v, dirty, len(enc)))
        for rest in product(range(len(SEQ)), repeat=depth - 2):
            order = (i, j, *rest)
            data = b"\xfe\xfd\xfc" + b"".join(blocks[k][3] for k in order)
            fh = BytesIO(data)
            fh.seek(3)
            pos = 3
            objs = []
            st_.state()
            for k in order:
                T, s, v, d, n = blocks[k]
                obj = T(fh)
                pos += n
                st_.trans()
                expect(fh.tell() == pos, f"position after reading {[SEQ[x][1] for x in order]}", p, data=data,
                       got=fh.tell(), expected=pos)
                if s[1] in ("A5", "A6"):
                    try:
                        obj.p.dereference()
                    except Exception:  # noqa: BLE001
                        pass
                    expect(fh.tell() == pos, "dereference moved the stream", p, data=data)
                objs.append((obj, s, v))
            for obj, s, v in objs:
                expect(impl.norm(s, obj, ENV) == v, f"value in a sequence of reads {order}", p, data=data)
            st_.trace()
