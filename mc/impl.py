"""Adapter between the reference model's normal form and dissect.cstruct objects (public API only)."""
from __future__ import annotations

import re
import struct

from dissect.cstruct import cstruct

from mc import ref
from mc.engine import Violation
from mc.ref import SCALARS, Cfg, Env


class _Scanner(re.Scanner):
    """re.Scanner with its compiled pattern memoised; the library compiles the same lexicon on every load()."""

    _cache: dict = {}

    def __init__(self, lexicon, flags=0):
        try:
            key = (flags, tuple(phrase for phrase, _ in lexicon))
            cached = self._cache.get(key)
        except (TypeError, ValueError):
            super().__init__(lexicon, flags)
            return
        if cached is None:
            super().__init__(lexicon, flags)
            self._cache[key] = self.scanner
        else:
            self.lexicon = lexicon
            self.scanner = cached


re.Scanner = _Scanner


def tup(x):
    return tuple(tup(e) for e in x) if isinstance(x, (list, tuple)) else x


def build(t, env: Env, cfg: Cfg, pieces=None):
    """A fresh cstruct instance with the definition of ``t`` loaded."""
    cs = cstruct(endian=cfg.endian, pointer=cfg.ptr)
    group: list[str] = []
    mode = cfg.align
    for text, pin in pieces if pieces is not None else ref.render(t, env):
        want = cfg.align if pin is None else pin
        if want != mode and group:
            cs.load("\n".join(group), compiled=cfg.compiled, align=mode)
            group = []
        mode = want
        group.append(text)
    cs.load("\n".join(group), compiled=cfg.compiled, align=mode)
    return cs


def norm(t, v, env: Env):
    """Implementation value -> model normal form; raises Violation when the value has the wrong kind."""
    k = t[0]
    if k == "s":
        kind = SCALARS[t[1]][0]
        if kind in "il":
            if not isinstance(v, int):
                raise Violation(f"{t[1]} value is {v!r}")
            return int(v)
        if kind == "f":
            if not isinstance(v, float):
                raise Violation(f"{t[1]} value is {v!r}")
            return ("F", struct.pack(">d", v))
        if kind == "c":
            if not isinstance(v, bytes):
                raise Violation(f"char value is {v!r}")
            return bytes(v)
        if kind == "w":
            if not isinstance(v, str):
                raise Violation(f"wchar value is {v!r}")
            return str.__str__(v)
        return ("V",)
    if k == "e":
        if not isinstance(v, int) or v.__class__.__name__ != t[1]:
            raise Violation(f"enum {t[1]} value is {v!r}")
        return ("E", t[1], int(v.value))
    if k == "p":
        if not isinstance(v, int) or not hasattr(v, "dereference"):
            raise Violation(f"pointer value is {v!r}")
        return ("P", int(v))
    if k == "a":
        if t[1] == ("s", "char"):
            if not isinstance(v, bytes):
                raise Violation(f"char array is {v!r}")
            return bytes(v)
        if t[1] == ("s", "wchar"):
            if not isinstance(v, str):
                raise Violation(f"wchar array is {v!r}")
            return str.__str__(v)
        if not isinstance(v, list):
            raise Violation(f"array is {v!r}")
        return ("A", *[norm(t[1], e, env) for e in v])
    tag = "S" if k == "st" else "U"
    out = []
    for fname, ft, bits in t[2]:
        fv = v if fname is None else getattr(v, fname)
        if bits and ft[0] == "s":
            if not isinstance(fv, int):
                raise Violation(f"bit-field {fname} is {fv!r}")
            out.append((fname, int(fv)))
        else:
            out.append((fname, norm(ft, fv, env)))
    return (tag, *out)


def denorm(t, v, cs, T=None, mode="native"):
    """Model normal form -> a value acceptable to the implementation.

    mode "native" uses plain Python values for scalars; "typed" wraps them in the cstruct types.
    T is the implementation type of ``t`` (needed for inline structures).
    """
    k = t[0]
    if k == "s":
        kind = SCALARS[t[1]][0]
        if kind == "f":
            v = struct.unpack(">d", v[1])[0]
        elif kind == "v":
            return cs.void()
        if mode == "typed" and kind in "il":
            return type.__call__(getattr(cs, t[1]) if T is None else T, v)
        return v
    if k == "e":
        return (getattr(cs, t[1]) if T is None else T)(v[2])
    if k == "p":
        return v[1]
    if k == "a":
        if t[1] in (("s", "char"), ("s", "wchar")):
            return v
        ET = T.type if T is not None else None
        return [denorm(t[1], e, cs, ET, mode) for e in v[1:]]
    if T is None:
        T = getattr(cs, t[1])
    if k == "un":
        raise ValueError("unions are constructed through one member")
    kw = {}
    for (fname, ft, bits), (_, fv), fld in zip(t[2], v[1:], T.__fields__):
        key = fname if fname is not None else fld._name
        if bits and ft[0] == "s":
            kw[key] = fv
        else:
            kw[key] = denorm(ft, fv, cs, fld.type, mode)
    return T(**kw)


def has_union(t) -> bool:
    k = t[0]
    if k == "un":
        return True
    if k in ("a", "p"):
        return k == "a" and has_union(t[1])
    if k == "st":
        return any(has_union(ft) for _, ft, _ in t[2])
    return False
