"""C01 Value round-trip and rejection of numbers that do not fit."""
from io import BytesIO

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, configs, expect, show  # noqa: F401
from mc.ref import SCALARS, Cfg
from mc.space import ENV, F, S, st

PROP = "C01"
LIMIT = 120
RULE = ("every program of the bounded program space x {<,>} x {packed,aligned} x {compiled,interpreted} x 6 content "
        "patterns: value obtained by parsing, by keyword construction from plain Python values, by construction from "
        "typed values and by assigning every field of a default instance, each dumped, parsed back and compared "
        "(library equality and independent normal form) with consumption checked; every value of the domain of every type "
        "(all 8-bit values, all 16-bit ones in thorough, every byte at every position and all values around powers of two "
        "for wider ones, every exponent x mantissa corners, all code points around byte edges, all LEB128 values around "
        "every bit width up to 140 and a contiguous range) in a structure, a fixed and a null-terminated array; plus every integer leaf of every "
        "single-member and special program x 8 out-of-range values x both construction and assignment must raise")
ASSUMPTIONS = ["values reachable from canonical encodings", "dynamic unions cannot be dumped (documented)"]


def cases(tier):
    for key in space.keys(tier):
        yield ["rt", key, tier == "thorough" or key[0] == "x" or len(key[1]) < 2]
    for key in space.keys("quick"):
        if key[0] == "x" or len(key[1]) <= (2 if tier == "thorough" else 1):
            yield ["oor", key, tier == "thorough"]
    for name in space.VALUE_TYPES:
        for ptr in ("uint8", "uint32", "uint64") if name == "ptr" else ("uint64",):
            yield ["vals", name, ptr, tier]
    for name in SCALARS:
        yield ["scalar", name]
    for e in ENV.enums:
        yield ["enum", e]
    for ptr in ("uint8", "uint16", "uint24", "uint32", "uint48", "uint64", "uint128"):
        yield ["ptr", ptr]


def roundtrip(p, obj, v, st_, how):
    raw = obj.dumps()
    fh = BytesIO(raw + (b"" if p.eof else b"\xee\xdd"))
    back = p.T(fh)
    st_.trans(2)
    expect(fh.tell() == len(raw), f"parsing the dump of a value ({how}) does not consume exactly the dump", p,
           dump=raw, consumed=fh.tell())
    expect(p.norm(back) == v, f"dump of a value ({how}) parses back to a different value", p, dump=raw,
           got=p.norm(back), expected=v)
    expect(back == obj and not back != obj, f"dump of a value ({how}) parses back to an unequal value", p, dump=raw)
    st_.outcome(raw)
    return raw


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def run_rt(key, full, st_):
    t = space.get(key)
    uni = impl.has_union(t)
    anon = any(f is None for f, _, _ in t[2])
    for cfg in configs():
        p = Prog(t, cfg)
        for v, enc, mask, dirty in space.inputs(p.model, t):
            st_.state()
            st_.trace()
            obj = p.T(dirty)
            roundtrip(p, obj, v, st_, "parsed")
            if t[0] == "un":
                union_members(p, v, st_)
                continue
            if not full and cfg.compiled:
                continue  # construction does not involve the reader
            if uni:
                # nested unions are taken from the parsed instance, everything else is constructed
                kw = {f._name: getattr(obj, f._name) for f in p.T.__fields__}
                roundtrip(p, p.T(**kw), v, st_, "constructed from parsed field values")
                continue
            for mode in ("native", "typed"):
                roundtrip(p, impl.denorm(t, v, p.cs, p.T, mode), v, st_, f"constructed ({mode})")
            if not anon:
                new = p.T()
                src = impl.denorm(t, v, p.cs, p.T)
                for f in p.T.__fields__:
                    setattr(new, f._name, getattr(src, f._name))
                roundtrip(p, new, v, st_, "assigned field by field")


def union_members(p, v, st_):
    for (fname, ft, bits), (_, fv), fld in zip(p.t[2], v[1:], p.T.__fields__):
        if impl.has_union(ft):
            continue
        val = fv if bits else impl.denorm(ft, fv, p.cs, fld.type)
        obj = p.T(**{fld._name: val})
        exp = p.norm(obj)
        got = exp[1 + p.t[2].index((fname, ft, bits))][1]
        expect(got == fv, f"union constructed from member {fname} holds a different value", p, member=fv, got=got)
        roundtrip(p, obj, exp, st_, f"union built from {fname}")
        st_.trace()


# ---- out of range ------------------------------------------------------------------------------------------------


def leaves(t, v, model, env, path=()):
    """(path, kind, lo, hi) of every integer leaf that has a fixed width."""
    k = t[0]
    if k == "s":
        kind, size, signed, _ = SCALARS[t[1]]
        if kind == "i":
            b = size * 8
            yield path, "int", (-(1 << (b - 1)) if signed else 0), ((1 << (b - 1)) - 1 if signed else (1 << b) - 1)
    elif k == "e":
        _, size, signed, _ = SCALARS[env.enums[t[1]][1]]
        b = size * 8
        yield path, t[1], (-(1 << (b - 1)) if signed else 0), ((1 << (b - 1)) - 1 if signed else (1 << b) - 1)
    elif k == "p":
        yield path, "ptr", 0, (1 << (SCALARS[model.cfg.ptr][1] * 8)) - 1
    elif k == "a":
        if t[1] not in (("s", "char"), ("s", "wchar")):
            for i, e in enumerate(v[1:]):
                if i in (0, 1, 2, len(v) - 2, 15, 16, 255):
                    yield from leaves(t[1], e, model, env, (*path, i))
    elif k == "st":
        for (f, ft, bits), (_, fv) in zip(t[2], v[1:]):
            if bits:
                yield (*path, f), ("bits" if ft[0] == "s" else ft[1]), 0, (1 << bits) - 1
            else:
                yield from leaves(ft, fv, model, env, (*path, f) if f is not None else path)


def walk_to(obj, path):
    for x in path:
        obj = obj[x] if isinstance(x, int) else getattr(obj, x)
    return obj


def put(obj, path, val):
    parent = walk_to(obj, path[:-1])
    if isinstance(path[-1], int):
        parent[path[-1]] = val
    else:
        setattr(parent, path[-1], val)


def bad_values(lo, hi):
    n = (hi - lo + 1).bit_length() - 1
    return [hi + 1, lo - 1, hi + 2, 1 << (n + 1), -(1 << n), (1 << n) + 1, 1 << 200, -(1 << 200)]


def run_oor(key, full, st_):
    t = space.get(key)
    if len(t[2]) > 60:
        return
    for cfg in configs(comps=(False, True) if full else (True,), aligns=(False, True) if full or key[0] == "p" else
                       (False,)):
        p = Prog(t, cfg)
        for k in (2, 3) if full else (2,):
            ins = list(space.inputs(p.model, t, (k,)))
            if not ins:
                continue
            v, enc, _, _ = ins[0]
            if t[0] == "un" or impl.has_union(t):
                oor_union(p, v, enc, st_)
                continue
            for path, kind, lo, hi in leaves(t, v, p.model, ENV):
                for bad in [b for b in bad_values(lo, hi) if not lo <= b <= hi]:
                    obj = p.T(enc)
                    val = bad
                    try:
                        if kind in ENV.enums:
                            val = getattr(p.cs, kind)(bad)
                            if int(val) != bad:
                                continue  # flags take a negative number as the inverse of its complement
                        put(obj, path, val)
                        out = obj.dumps()
                    except Exception:  # noqa: BLE001 -- any error is a rejection
                        st_.state()
                        continue
                    raise Violation("out-of-range number was written instead of rejected: "
                                    + p.what(path=path, value=bad, dump=out))
                for good in (lo, hi):
                    val = good if kind not in ENV.enums else getattr(p.cs, kind)(good)
                    obj = p.T(enc)
                    put(obj, path, val)
                    try:
                        out = obj.dumps()
                    except Exception as e:  # noqa: BLE001
                        raise Violation(f"number that fits was rejected ({e!r}): " + p.what(path=path, value=good))
                    if p.model.layout(t)["size"] is None:
                        continue  # changing one number can change the shape of a dynamic structure
                    back = walk_to(p.T(out), path)
                    expect(int(back) == good, "boundary value does not round-trip", p, path=path, value=good, dump=out)
                    st_.state()


def oor_union(p, v, enc, st_):
    """Union members: assignment of a number that does not fit raises and leaves the union as it was."""
    if p.t[0] != "un":
        return
    for (fname, ft, bits), (_, fv) in zip(p.t[2], v[1:]):
        if fname is None or (ft[0] not in "sep" and not bits):
            continue
        one = ("st", "", ((fname, ft, bits),), "top_p")
        for path, kind, lo, hi in leaves(one, ("S", (fname, fv)), p.model, ENV):
            for bad in bad_values(lo, hi):
                if lo <= bad <= hi:
                    continue
                obj = p.T(enc)
                before = obj.dumps()
                try:
                    val = getattr(p.cs, kind)(bad) if kind in ENV.enums else bad
                    if int(val) != bad:
                        continue
                    setattr(obj, fname, val)
                    out = obj.dumps()
                except Exception:  # noqa: BLE001
                    st_.state()
                    expect(obj.dumps() == before, "failed assignment changed the union", p, member=fname)
                    continue
                raise Violation("out-of-range number was written to a union member: "
                                + p.what(member=fname, value=bad, dump=out))


def run_vals(name, ptr, tier, st_):
    """Every value of the domain of a type, in a structure."""
    t = space.value_program(name)
    for cfg in configs(ptr=ptr):
        p = Prog(t, cfg)
        for v, enc in space.value_inputs(p.model, name, tier):
            st_.state()
            st_.trace()
            if cfg.compiled or tier == "thorough":
                roundtrip(p, p.T(enc), v, st_, "parsed")
            if not cfg.compiled or tier == "thorough":
                roundtrip(p, impl.denorm(t, v, p.cs, p.T, "native"), v, st_, "constructed")


def run_scalar(name, st_):
    """Types used on their own, without a structure around them."""
    kind, size, signed, _ = SCALARS[name]
    for cfg in configs(comps=(True,)):
        m = ref.Model(ENV, cfg)
        cs = impl.build(("st", "T", (("f", ("s", name), None),), "top"), ENV, cfg)
        T = getattr(cs, name)
        forms = [(("s", name), T), (("a", ("s", name), 3), T[3])]
        if kind != "v":
            forms.append((("a", ("s", name), ("z",)), T[None]))
        for t, IT in forms:
            for k in range(space.PATTERNS):
                v = space.Filler(m, k).fill(t)
                enc = m.encode(t, v)
                val = impl.denorm(t, v, cs, IT)
                raw = IT.dumps(val)
                st_.state()
                st_.trace()
                expect(raw == enc, f"{t} dumps {val!r} differently", None, dump=raw.hex(), expected=enc.hex())
                fh = BytesIO(raw + b"\xee")
                back = IT(fh)
                expect(fh.tell() == len(raw) and impl.norm(t, back, ENV) == v, f"{t} value {val!r} does not round-trip",
                       None, dump=raw.hex(), got=back)
                if kind != "v":
                    obj = back if hasattr(back, "dumps") else IT(back)
                    expect(obj.dumps() == raw, f"{t}: instance.dumps() differs", None, dump=raw.hex())
        if kind != "i":
            continue
        b = size * 8
        lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
        for bad in bad_values(lo, hi):
            if lo <= bad <= hi:
                continue
            for label, f in (("dumps", lambda: T.dumps(bad)), ("array", lambda: T[1].dumps([bad])),
                             ("array of 3", lambda: T[3].dumps([0, bad, 0])),
                             ("null-terminated", lambda: T[None].dumps([1, bad])),
                             ("instance", lambda: T(bad).dumps()),
                             ("2d", lambda: T[1][1].dumps([[bad]]))):
                try:
                    out = f()
                except Exception:  # noqa: BLE001
                    st_.state()
                    continue
                raise Violation(f"{name} wrote {bad} ({label}) as {out.hex()} [{cfg}]")


def run_enum(name, st_):
    _, base, _ = ENV.enums[name]
    _, size, signed, _ = SCALARS[base]
    b = size * 8
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if signed else (0, (1 << b) - 1)
    for cfg in configs(comps=(True,)):
        cs = impl.build(("st", "T", (("f", ("e", name), None),), "top"), ENV, cfg)
        E = getattr(cs, name)
        for val in sorted({lo, lo + 1, -1, 0, 1, 2, 3, 7, hi - 1, hi} & set(range(lo, lo + 3)) |
                          {x for x in (0, 1, 2, 3, 7, -1, hi, hi - 1) if lo <= x <= hi}):
            for lab, IT, v in (("scalar", E, E(val)), ("array", E[2], [E(val), E(0)]),
                               ("null", E[None], [E(val)] if val else [])):
                raw = IT.dumps(v)
                fh = BytesIO(raw + b"\xee")
                back = IT(fh)
                st_.state()
                st_.trace()
                expect(fh.tell() == len(raw) and back == v, f"{name} {lab} {val} does not round-trip", None,
                       dump=raw.hex(), got=back)
        for bad in bad_values(lo, hi):
            if lo <= bad <= hi:
                continue
            for lab, f in (("scalar", lambda: E.dumps(E(bad))), ("array", lambda: E[1].dumps([E(bad)])),
                           ("array int", lambda: E[2].dumps([0, bad])), ("null", lambda: E[None].dumps([E(bad)]))):
                try:
                    if lab != "array int" and int(E(bad)) != bad:
                        continue  # flags take a negative number as the inverse of its complement
                    out = f()
                except Exception:  # noqa: BLE001
                    st_.state()
                    continue
                raise Violation(f"enum {name} wrote {bad} ({lab}) as {out.hex()} [{cfg}]")


def run_ptr(ptr, st_):
    bits = SCALARS[ptr][1] * 8
    t = st("T", F("a", S("uint8")), F("p", space.P(S("uint16"))), F("q", space.A(space.P(space.PT), 2)))
    for cfg in configs(ptr=ptr):
        p = Prog(t, cfg)
        for val in (0, 1, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1):
            v = ("S", ("a", 7), ("p", ("P", val)), ("q", ("A", ("P", val), ("P", 1))))
            obj = p.T(a=7, p=val, q=[val, 1])
            roundtrip(p, obj, v, st_, "pointers")
            enc = p.model.encode(t, v)
            parsed = p.T(enc)
            roundtrip(p, parsed, v, st_, "parsed pointers")
            st_.state()
            st_.trace()
        parsed = p.T(p.model.encode(t, ("S", ("a", 7), ("p", ("P", (1 << bits) - 1)), ("q", ("A", ("P", 0), ("P", 1))))))
        PT_ = p.T.__fields__[1].type
        for lab, f in (("overflow by +", lambda: p.T(p=parsed.p + 1).dumps()),
                       ("underflow by -", lambda: p.T(p=parsed.q[0] - 1).dumps()),
                       ("assigned", lambda: p.T(p=1 << bits).dumps()),
                       ("negative", lambda: p.T(p=-1).dumps()),
                       ("array", lambda: p.T(q=[0, 1 << bits]).dumps()),
                       ("type", lambda: PT_.dumps(1 << bits)),
                       ("type -", lambda: PT_.dumps(-1))):
            try:
                out = f()
            except Exception:  # noqa: BLE001
                st_.state()
                continue
            raise Violation(f"pointer that does not fit was written ({lab}): " + p.what(dump=out))
