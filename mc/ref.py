"""Independent reference model of cstruct definitions: layout, decoding, encoding, data mask, rendering.

Types are plain nested tuples (JSON friendly):

  ("s", name)                       built-in scalar
  ("e", ename)                      enum or flag declared in Env.enums
  ("p", type)                       pointer
  ("a", elem, count)                array; count = int | ("x", expr) | ("z",) null-terminated | ("eof",)
  ("st"|"un", name, fields, mode)   structure / union; fields = tuple of (fname|None, type, bits|None)
                                    mode: "top" declared on its own, "in" written inline; a trailing "p"/"a"
                                    ("topp", "topa") pins packed/aligned irrespective of the configuration

The model was written from the property statements, C layout rules and Python's primitive codecs only.
"""
from __future__ import annotations

import struct
from dataclasses import dataclass, field
from typing import Any

from mc import cexpr

# name: (kind, size, signed, alignment)
SCALARS: dict[str, tuple[str, int | None, bool, int]] = {
    "int8": ("i", 1, True, 1),
    "uint8": ("i", 1, False, 1),
    "int16": ("i", 2, True, 2),
    "uint16": ("i", 2, False, 2),
    "int24": ("i", 3, True, 4),
    "uint24": ("i", 3, False, 4),
    "int32": ("i", 4, True, 4),
    "uint32": ("i", 4, False, 4),
    "int48": ("i", 6, True, 8),
    "uint48": ("i", 6, False, 8),
    "int64": ("i", 8, True, 8),
    "uint64": ("i", 8, False, 8),
    "int128": ("i", 16, True, 16),
    "uint128": ("i", 16, False, 16),
    "float16": ("f", 2, True, 2),
    "float": ("f", 4, True, 4),
    "double": ("f", 8, True, 8),
    "char": ("c", 1, False, 1),
    "wchar": ("w", 2, False, 2),
    "uleb128": ("l", None, False, 1),
    "ileb128": ("l", None, True, 1),
    "void": ("v", 0, False, 1),
}
FLOATCH = {2: "e", 4: "f", 8: "d"}


class RefEOF(Exception):
    pass


class NotCanonical(Exception):
    """Input outside the claimed domain (invalid UTF-16, NaN, non-minimal LEB128)."""


@dataclass(frozen=True)
class Cfg:
    endian: str = "<"
    align: bool = False
    ptr: str = "uint64"
    compiled: bool = True

    @property
    def big(self) -> bool:
        return self.endian in (">", "!")

    @property
    def order(self) -> str:
        return "big" if self.big else "little"


@dataclass
class Env:
    """Declarations shared by a program: enums and constants."""

    enums: dict[str, tuple[str, str, tuple]] = field(default_factory=dict)  # name -> (enum|flag, base, ((m, v), ..))
    consts: dict[str, int] = field(default_factory=dict)


def is_struct(t) -> bool:
    return t[0] in ("st", "un")


def pinned_align(t, cfg: Cfg) -> bool:
    m = t[3]
    if m.endswith("_p"):
        return False
    if m.endswith("_a"):
        return True
    return cfg.align


# --------------------------------------------------------------------------------------------------------------
# layout


class Model:
    def __init__(self, env: Env, cfg: Cfg):
        self.env = env
        self.cfg = cfg
        self._lay: dict[Any, Any] = {}
        self.named: dict[str, Any] = {}  # type name -> type node, for sizeof

    # -- static properties

    def alignment(self, t) -> int:
        k = t[0]
        if k == "s":
            return SCALARS[t[1]][3]
        if k == "e":
            return SCALARS[self.env.enums[t[1]][1]][3]
        if k == "p":
            return SCALARS[self.cfg.ptr][3]
        if k == "a":
            return self.alignment(t[1])
        return self.layout(t)["align"]

    def size(self, t) -> int | None:
        k = t[0]
        if k == "s":
            return SCALARS[t[1]][1]
        if k == "e":
            return SCALARS[self.env.enums[t[1]][1]][1]
        if k == "p":
            return SCALARS[self.cfg.ptr][1]
        if k == "a":
            es = self.size(t[1])
            c = self.static_count(t)
            if c is None or es is None:
                return None
            return c * es
        return self.layout(t)["size"]

    def sizeof(self, name: str) -> int:
        s = self.size(self.named.get(name) or ("s", name))
        if s is None:
            raise cexpr.CExprError("dynamic")
        return s

    def static_count(self, t) -> int | None:
        c = t[2]
        if isinstance(c, int):
            return c
        return None

    def storage(self, t):
        """Underlying storage type name of a bit-field."""
        return t[1] if t[0] == "s" else self.env.enums[t[1]][1]

    def layout(self, t):
        """{"size","align","offsets":[per field],"units":[per field: (unit_index, shift) or None]}"""
        key = t
        if key in self._lay:
            return self._lay[key]
        align_mode = pinned_align(t, self.cfg)
        fields = t[2]
        maxal = 0
        offsets: list[int | None] = []
        if t[0] == "un":
            size: int | None = 0
            for _, ft, bits in fields:
                maxal = max(maxal, self.alignment(ft))
                s = self.size(ft)
                if bits and bits > s * 8:
                    raise Straddle
                size = None if (s is None or size is None) else max(size, s)
                offsets.append(0)
            if align_mode and size is not None and maxal:
                size = up(size, maxal)
            res = {"size": size, "align": maxal, "offsets": offsets}
            self._lay[key] = res
            return res
        off: int | None = 0
        unit = None  # (storage, bits left)
        for _, ft, bits in fields:
            al = self.alignment(ft)
            maxal = max(maxal, al)
            if bits:
                st = self.storage(ft)
                if unit is not None and unit[0] == st and unit[1] > 0:
                    if bits > unit[1]:
                        raise Straddle
                    unit = (st, unit[1] - bits)
                    offsets.append(None)
                    continue
                ss = SCALARS[st][1]
                if bits > ss * 8:
                    raise Straddle
                if off is not None:
                    if align_mode:
                        off = up(off, al)
                    offsets.append(off)
                    off += ss
                else:
                    offsets.append(None)
                unit = (st, ss * 8 - bits)
                continue
            unit = None
            if off is not None and align_mode:
                off = up(off, al)
            offsets.append(off)
            if off is not None:
                s = self.size(ft)
                off = None if s is None else off + s
        if off is not None and align_mode and maxal:
            off = up(off, maxal)
        res = {"size": off, "align": maxal, "offsets": offsets}
        self._lay[key] = res
        return res

    # -- decoding: returns (value, newpos); fills mask (set of bit positions) through self.mark

    def decode(self, t, data: bytes, pos: int = 0, mask: bytearray | None = None, ctx=None):
        k = t[0]
        if k == "s":
            return self._dec_scalar(t[1], data, pos, mask)
        if k == "e":
            v, p = self._dec_scalar(self.env.enums[t[1]][1], data, pos, mask)
            return ("E", t[1], v), p
        if k == "p":
            v, p = self._dec_scalar(self.cfg.ptr, data, pos, mask)
            return ("P", v), p
        if k == "a":
            return self._dec_array(t, data, pos, mask, ctx)
        if k == "un":
            return self._dec_union(t, data, pos, mask)
        return self._dec_struct(t, data, pos, mask)

    def _take(self, data, pos, n, mask):
        if pos + n > len(data):
            if n == 0:
                return b""
            raise RefEOF
        if mask is not None:
            _mark(mask, pos, n)
        return data[pos : pos + n]

    def _dec_scalar(self, name, data, pos, mask):
        kind, size, signed, _ = SCALARS[name]
        if kind == "v":
            return ("V",), pos
        if kind == "l":
            return dec_leb(data, pos, signed, mask)
        raw = self._take(data, pos, size, mask)
        if kind == "i":
            return int.from_bytes(raw, self.cfg.order, signed=signed), pos + size
        if kind == "f":
            v = struct.unpack((">" if self.cfg.big else "<") + FLOATCH[size], raw)[0]
            if v != v:
                raise NotCanonical("nan")
            return ("F", struct.pack(">d", v)), pos + size
        if kind == "c":
            return raw, pos + 1
        return self._utf16(raw), pos + 2

    def _utf16(self, raw):
        try:
            return raw.decode("utf-16-be" if self.cfg.big else "utf-16-le")
        except UnicodeDecodeError:
            raise NotCanonical("utf16") from None

    def count(self, t, ctx):
        c = t[2]
        if isinstance(c, int):
            return c
        assert c[0] == "x"
        return max(0, cexpr.evaluate(c[1], ctx, self.env.consts, self.sizeof))

    def _dec_array(self, t, data, pos, mask, ctx):
        elem, c = t[1], t[2]
        text = elem == ("s", "char") or elem == ("s", "wchar")
        es = self.size(elem)
        if c == ("z",):
            out = []
            while True:
                if text:
                    raw = self._take(data, pos, es, mask)
                    pos += es
                    if not any(raw):
                        break
                    out.append(raw)
                    continue
                v, pos = self.decode(elem, data, pos, mask, ctx)
                if is_zero(v):
                    break
                out.append(v)
        elif c == ("eof",):
            out = []
            while pos < len(data):
                try:
                    m2 = bytearray(len(mask)) if mask is not None else None
                    if text:
                        v = self._take(data, pos, es, m2)
                        p2 = pos + es
                    else:
                        v, p2 = self.decode(elem, data, pos, m2, ctx)
                except RefEOF:
                    break
                if p2 == pos:
                    raise NotCanonical("zero-size element to EOF")
                if mask is not None:
                    for i, b in enumerate(m2):
                        mask[i] |= b
                out.append(v)
                pos = p2
        else:
            n = self.count(t, ctx)
            if text:
                raw = self._take(data, pos, n * es, mask)
                pos += n * es
                out = [raw]
            else:
                out = []
                for _ in range(n):
                    v, pos = self.decode(elem, data, pos, mask, ctx)
                    out.append(v)
        if text:
            raw = b"".join(out)
            return (raw if elem[1] == "char" else self._utf16(raw)), pos
        return ("A", *out), pos

    def _dec_union(self, t, data, pos, mask):
        lay = self.layout(t)
        size = lay["size"]
        if size is None:
            raise NotCanonical("dynamic union")
        if pos > len(data):
            window = b""
        else:
            window = data[pos : pos + size]
        out = []
        for fname, ft, bits in t[2]:
            m2 = bytearray(size) if mask is not None else None
            if bits:
                v = self.decode(one_bits(ft, bits), window, 0, m2)[0][1][1]
            else:
                v, _ = self.decode(ft, window, 0, m2, dict(out))
            out.append((fname, v))
            if mask is not None:
                for i, b in enumerate(m2[: max(0, len(mask) - pos)]):
                    mask[pos + i] |= b
        return ("U", *out), pos + size

    def _dec_struct(self, t, data, pos, mask):
        align_mode = pinned_align(t, self.cfg)
        lay = self.layout(t)
        start = pos
        out = []
        ctx: dict[str, Any] = {}
        unit = None
        for (fname, ft, bits), off in zip(t[2], lay["offsets"]):
            if bits:
                st = self.storage(ft)
                ss = SCALARS[st][1]
                if unit is None or unit[0] != st or unit[1] == 0:
                    pos = self._field_pos(start, pos, off, align_mode, ft)
                    raw = self._take(data, pos, ss, None)
                    unit = [st, ss * 8, int.from_bytes(raw, self.cfg.order), pos]
                    pos += ss
                total = ss * 8
                used = total - unit[1]
                shift = (total - used - bits) if self.cfg.big else used
                v = (unit[2] >> shift) & ((1 << bits) - 1)
                if mask is not None:
                    _mark_bits(mask, unit[3], ss, shift, bits, self.cfg.big)
                unit[1] -= bits
                if ft[0] == "e":
                    v = ("E", ft[1], v)
            else:
                unit = None
                pos = self._field_pos(start, pos, off, align_mode, ft)
                v, pos = self.decode(ft, data, pos, mask, ctx)
            out.append((fname, v))
            add_ctx(ctx, fname, v)
        if align_mode and lay["align"]:
            pos = start + up(pos - start, lay["align"])
        return ("S", *out), pos

    def _field_pos(self, start, pos, off, align_mode, ft):
        if off is not None:
            return start + off
        if align_mode:
            return start + up(pos - start, self.alignment(ft))
        return pos

    # -- encoding

    def encode(self, t, v, out: bytearray | None = None) -> bytes:
        top = out is None
        if top:
            out = bytearray()
        self._enc(t, v, out)
        return bytes(out) if top else b""

    def _enc(self, t, v, out):
        k = t[0]
        if k == "s":
            out += self._enc_scalar(t[1], v)
        elif k == "e":
            out += self._enc_scalar(self.env.enums[t[1]][1], v[2])
        elif k == "p":
            out += self._enc_scalar(self.cfg.ptr, v[1])
        elif k == "a":
            elem, c = t[1], t[2]
            if elem == ("s", "char"):
                out += v
                if c == ("z",):
                    out += b"\0"
            elif elem == ("s", "wchar"):
                out += (v + ("\0" if c == ("z",) else "")).encode("utf-16-be" if self.cfg.big else "utf-16-le")
            else:
                for e in v[1:]:
                    self._enc(elem, e, out)
                if c == ("z",):
                    self._enc(elem, self.zero(elem), out)
        elif k == "un":
            size = self.layout(t)["size"]
            acc = bytearray(size)
            for (_, ft, bits), (_, fv) in zip(t[2], v[1:]):
                raw = self.encode(one_bits(ft, bits), ("S", ("b", fv))) if bits else self.encode(ft, fv)
                for i, b in enumerate(raw):
                    acc[i] |= b
            out += acc
        else:
            self._enc_struct(t, v, out)

    def _enc_scalar(self, name, v) -> bytes:
        kind, size, signed, _ = SCALARS[name]
        if kind == "v":
            return b""
        if kind == "i":
            return v.to_bytes(size, self.cfg.order, signed=signed)
        if kind == "f":
            return struct.pack((">" if self.cfg.big else "<") + FLOATCH[size], struct.unpack(">d", v[1])[0])
        if kind == "c":
            return v
        if kind == "w":
            return v.encode("utf-16-be" if self.cfg.big else "utf-16-le")
        return enc_leb(v, signed)

    def _enc_struct(self, t, v, out):
        align_mode = pinned_align(t, self.cfg)
        lay = self.layout(t)
        start = len(out)
        unit = None  # [storage, left, acc, pos, size]

        def flush():
            nonlocal unit
            if unit is not None:
                out[unit[3] : unit[3] + unit[4]] = unit[2].to_bytes(unit[4], self.cfg.order)
            unit = None

        for (fname, ft, bits), off, (_, fv) in zip(t[2], lay["offsets"], v[1:]):
            if bits:
                st = self.storage(ft)
                ss = SCALARS[st][1]
                if unit is None or unit[0] != st or unit[1] == 0:
                    flush()
                    self._pad(out, start, off, align_mode, ft)
                    unit = [st, ss * 8, 0, len(out), ss]
                    out += bytes(ss)
                used = ss * 8 - unit[1]
                shift = (ss * 8 - used - bits) if self.cfg.big else used
                iv = fv[2] if isinstance(fv, tuple) else fv
                unit[2] |= iv << shift
                unit[1] -= bits
                continue
            flush()
            self._pad(out, start, off, align_mode, ft)
            self._enc(ft, fv, out)
        flush()
        if align_mode and lay["align"]:
            out += bytes(-(len(out) - start) % lay["align"])

    def _pad(self, out, start, off, align_mode, ft):
        want = self._field_pos(start, len(out), off, align_mode, ft)
        assert want >= len(out)
        out += bytes(want - len(out))

    # -- zero values

    def zero(self, t):
        k = t[0]
        if k == "s":
            kind = SCALARS[t[1]][0]
            return {"i": 0, "l": 0, "f": ("F", bytes(8)), "c": b"\0", "w": "\0", "v": ("V",)}[kind]
        if k == "e":
            return ("E", t[1], 0)
        if k == "p":
            return ("P", 0)
        if k == "a":
            n = self.static_count(t) or 0
            if t[1] == ("s", "char"):
                return bytes(n)
            if t[1] == ("s", "wchar"):
                return "\0" * n
            return ("A", *[self.zero(t[1]) for _ in range(n)])
        if k == "un":
            return ("U", *[(f, self.zero(ft)) for f, ft, _ in t[2]])
        return ("S", *[(f, self.zero(ft)) for f, ft, _ in t[2]])


class Straddle(Exception):
    pass


def one_bits(ft, bits):
    return ("st", "", (("b", ft, bits),), "top_p")


def add_ctx(ctx, fname, v):
    if fname is None:
        for n, x in v[1:]:
            add_ctx(ctx, n, x)
        return
    if isinstance(v, int):
        ctx[fname] = v
    elif isinstance(v, tuple) and v[0] in ("E", "P"):
        ctx[fname] = v[-1]


def up(n: int, a: int) -> int:
    return (n + a - 1) // a * a


def _mark(mask, pos, n):
    for i in range(pos, pos + n):
        mask[i] = 0xFF


def _mark_bits(mask, pos, size, shift, bits, big):
    m = (((1 << bits) - 1) << shift).to_bytes(size, "big" if big else "little")
    for i, b in enumerate(m):
        mask[pos + i] |= b


def dec_leb(data, pos, signed, mask):
    start = pos
    groups = []
    while True:
        if pos >= len(data):
            raise RefEOF
        b = data[pos]
        pos += 1
        groups.append(b & 0x7F)
        if b < 0x80:
            break
    v = 0
    for g in reversed(groups):
        v = v * 128 + g
    if signed and groups[-1] >= 64:
        v -= 128 ** len(groups)
    if enc_leb(v, signed) != data[start:pos]:
        raise NotCanonical("leb")
    if mask is not None:
        _mark(mask, start, pos - start)
    return v, pos


def enc_leb(v: int, signed: bool) -> bytes:
    n = 1
    if signed:
        while not -(1 << (7 * n - 1)) <= v < (1 << (7 * n - 1)):
            n += 1
        v &= (1 << (7 * n)) - 1
    else:
        while v >= 1 << (7 * n):
            n += 1
    out = [(v >> (7 * i)) & 0x7F | 0x80 for i in range(n)]
    out[-1] &= 0x7F
    return bytes(out)


def is_zero(v) -> bool:
    """The falsiness of a model value, as the null terminator test of x[] uses it."""
    if isinstance(v, (int, bytes, str)):
        return not v
    k = v[0]
    if k in ("E", "P"):
        return v[-1] == 0
    if k == "F":
        return struct.unpack(">d", v[1])[0] == 0
    if k == "V":
        return True
    if k == "A":
        return len(v) == 1
    return all(is_zero(x) for _, x in v[1:])


# --------------------------------------------------------------------------------------------------------------
# rendering definitions


def decl(t, name: str, env: Env, bits=None) -> tuple[str, str]:
    """(base type text, declarator text) of a field declaration."""
    dims = ""
    while t[0] == "a":
        c = t[2]
        if isinstance(c, int):
            d = str(c)
        elif c[0] == "x":
            d = c[1]
        elif c[0] == "z":
            d = ""
        else:
            d = "EOF"
        dims += f"[{d}]"
        t = t[1]
    stars = ""
    while t[0] == "p":
        stars += "*"
        t = t[1]
        if t[0] == "a":
            raise ValueError("pointer to array cannot be rendered")
    if t[0] == "s":
        base = t[1]
    elif t[0] == "e":
        base = t[1]
    elif t[3].startswith("top"):
        base = t[1]
    elif t[3] == "self":
        base = f"struct {t[1]}"
    else:
        base = inline(t, env)
    b = f" : {bits}" if bits else ""
    return base, f"{stars}{name}{b}{dims}"


def inline(t, env: Env) -> str:
    kw = "struct" if t[0] == "st" else "union"
    nm = f" {t[1]}" if t[1] else ""
    return f"{kw}{nm} {{ {body(t, env)} }}"


def body(t, env: Env) -> str:
    parts = []
    for fname, ft, bits in t[2]:
        if fname is None:
            parts.append(inline(ft, env) + ";")
            continue
        base, d = decl(ft, fname, env, bits)
        parts.append(f"{base} {d};")
    return " ".join(parts)


def enum_text(name: str, e) -> str:
    kind, base, members = e
    ms = ", ".join(m if v is None else f"{m} = {v}" for m, v in members)
    return f"{kind} {name} : {base} {{ {ms} }};"


def collect(t, seen_e: list, seen_t: list):
    """Post-order list of enums and top-level structures a type needs."""
    k = t[0]
    if k == "e":
        if t[1] not in seen_e:
            seen_e.append(t[1])
    elif k in ("p", "a"):
        collect(t[1], seen_e, seen_t)
    elif k in ("st", "un") and t[3] != "self":
        for _, ft, _ in t[2]:
            collect(ft, seen_e, seen_t)
        if t[3].startswith("top") and t not in seen_t:
            seen_t.append(t)


def render(t, env: Env) -> list[tuple[str, str | None]]:
    """Definition text of top-level structure ``t`` and everything it needs: [(text, pinned alignment)]."""
    es: list[str] = []
    ts: list = []
    collect(t, es, ts)
    if t not in ts:
        ts.append(t)
    out: list[tuple[str, Any]] = []
    for n, v in env.consts.items():
        out.append((f"#define {n} {v}\n", None))
    for e in es:
        out.append((enum_text(e, env.enums[e]), None))
    for s in ts:
        pin = None
        if s[3].endswith("_p"):
            pin = False
        elif s[3].endswith("_a"):
            pin = True
        kw = "struct" if s[0] == "st" else "union"
        out.append((f"{kw} {s[1]} {{ {body(s, env)} }};", pin))
    return out


def text(t, env: Env) -> str:
    return "\n".join(x for x, _ in render(t, env))
