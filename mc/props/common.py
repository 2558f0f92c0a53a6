"""Shared pieces of the property modules."""
from __future__ import annotations

import io
from functools import lru_cache

from mc import impl, ref, space
from mc.engine import Violation
from mc.ref import SCALARS, Cfg, Model, NotCanonical, RefEOF
from mc.space import ENV

CONFIGS = [(end, align, comp) for comp in (False, True) for align in (False, True) for end in "<>"]


def configs(ptr="uint64", ends="<>", aligns=(False, True), comps=(False, True)):
    for comp in comps:
        for align in aligns:
            for end in ends:
                yield Cfg(end, align, ptr, comp)


def cfgname(cfg):
    return (f"endian={cfg.endian} {'aligned' if cfg.align else 'packed'} "
            f"{'compiled' if cfg.compiled else 'interpreted'} ptr={cfg.ptr}")


class Prog:
    """One program under one configuration: reference model and implementation type."""

    def __init__(self, t, cfg, env=ENV):
        self.t = t
        self.cfg = cfg
        self.env = env
        self.model = Model(env, cfg)
        self.cs = impl.build(t, env, cfg)
        self.T = getattr(self.cs, t[1])
        self.eof = space.has_eof(t)

    def norm(self, obj):
        return impl.norm(self.t, obj, self.env)

    def what(self, **kw):
        more = "".join(f"\n  {k}: {v.hex() if isinstance(v, (bytes, bytearray)) else v!r}" for k, v in kw.items())
        return f"{ref.text(self.t, self.env)[:1500]}\n  [{cfgname(self.cfg)}]{more}"


def expect(cond, msg, prog=None, **kw):
    if not cond:
        raise Violation(msg + (": " + prog.what(**kw) if prog else "".join(f"\n  {k}: {v!r}" for k, v in kw.items())))


def walk_bytes(model, t, dirty, limit=48):
    """Every single-bit change of the input and every byte set to 0x00/0xff, with the model's verdict:
    (data, value, enc, used) or (data, None, None, None) when the data is too short."""
    n = min(len(dirty), limit)
    for i in range(n):
        for b in (1, 2, 4, 8, 16, 32, 64, 128, None, 0):
            d = bytearray(dirty)
            if b is None:
                d[i] = 0xFF
            elif b == 0:
                d[i] = 0
            else:
                d[i] ^= b
            if d == dirty:
                continue
            data = bytes(d)
            try:
                mask = bytearray(len(data) + 64)
                v, used = model.decode(t, data, 0, mask)
                if used > len(data) or ref_big(v):
                    continue
                enc = model.encode(t, v)
            except NotCanonical:
                continue
            except (RefEOF, IndexError):
                yield data, None, None, None
                continue
            if len(enc) != used:
                continue
            yield data, v, enc, used


def ref_big(v, limit=3000):
    return isinstance(v, (tuple, bytes, str)) and (len(v) > limit or (isinstance(v, tuple) and any(map(ref_big, v))))


def small(key, tier):
    """Programs on which the single-byte neighbourhood of every content is explored as well."""
    if key[0] == "p":
        return len(key[1]) <= 1 or (tier == "thorough" and len(key[1]) == 2 and set(key[1]) <= set(space.CORE))
    if tier == "quick":
        return False
    n = key[1]
    return not any(c in n for c in ("wide", "=")) and ("[" not in n or n.endswith(("[1]", "[2]"))) and "deep" not in n


def show(case):
    key = case[0] if isinstance(case[0], (list, tuple)) else case
    try:
        return ref.text(space.get(impl.tup(key)), ENV)[:400]
    except Exception:  # noqa: BLE001
        return repr(case)[:400]
