"""C06 Bit-fields partition their storage unit exactly, in endian-defined order."""
from io import BytesIO
from itertools import product

from mc import impl, ref, space
from mc.impl import tup
from mc.props.common import cfgname, expect
from mc.ref import SCALARS, Cfg, Env, Model, RefEOF, Straddle
from mc.space import A, F, S, st, un

from dissect.cstruct import cstruct

PROP = "C06"
LIMIT = 300
RULE = ("every composition of every 8-bit storage type (int/uint/char/enum/flag/alias) into widths (also leaving bits "
        "unused) x all 256 contents, 16-bit ones into <=3 (quick) / <=5 (thorough) widths x "
        "all per-field and (thorough) single-bit contents (<=2 widths: all 65536 contents in thorough), 24..128-bit ones into <=3 widths "
        "around byte/word/unit edges; each read, written from values, "
        "written after assigning the fields one by one in two orders, out-of-range values rejected; every sequence of "
        "<=3 items (quick; 4 over a smaller alphabet) / <=4 (thorough; 5 over a smaller alphabet) over bit-fields of 5 storage types mixed with plain, dynamic and nested "
        "fields: layout, straddle rejection, read, write; bit-fields in unions, arrays of structures, nested "
        "structures; each x {<,>,!} x {packed,aligned} x {compiled,interpreted}, all on the real code")
ASSUMPTIONS = ["zero-width bit-fields are outside the domain",
               "an enum bit-field shares the unit of its underlying integer type"]

ENV = Env(enums={
    "E8": ("enum", "uint8", (("A", 1), ("B", 2))),
    "F8": ("flag", "uint8", (("X", 1), ("Y", 2))),
    "G8": ("flag", "int8", (("X2", 1), ("Y2", 2))),
    "E8S": ("enum", "int8", (("A3", 1), ("B3", -1))),
    "E16": ("enum", "uint16", (("A4", 1), ("B4", 300))),
    "F16": ("flag", "uint16", (("X5", 1), ("Y5", 256))),
    "E24": ("enum", "uint24", (("A6", 1),)),
    "F32": ("flag", "uint32", (("X7", 1),)),
    "E64S": ("enum", "int64", (("A8", 1),)),
    "E48": ("enum", "uint48", (("A9", 1),)),
}, consts={})
STORAGE = {"uint8": S("uint8"), "int8": S("int8"), "char": S("char")}
STORAGE.update({n: S(n) for n in ("uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "int48", "uint64",
                                  "int64", "uint128", "int128")})
STORAGE.update({n: ("e", n) for n in ENV.enums})


def size_of(label):
    t = STORAGE[label]
    return SCALARS[t[1] if t[0] == "s" else ENV.enums[t[1]][1]][1]


def compositions(total, parts):
    """All width sequences of at most ``parts`` parts whose sum is at most ``total``."""
    out = []

    def rec(pre, left):
        if pre:
            out.append(tuple(pre))
        if len(pre) == parts:
            return
        for w in range(1, left + 1):
            rec([*pre, w], left - w)

    rec([], total)
    return out


def mini(bits):
    """Widths worth cutting a wide unit at: byte, word and unit edges."""
    e = {1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 48, 63, 64, 65, bits - 1, bits - 8, bits // 2, bits}
    return sorted(x for x in e if 0 < x <= bits)


def cases(tier):
    yield ["reject", 0]
    yield ["union", 0]
    yield ["nested", 0]
    for label in STORAGE:
        n = 8 * size_of(label)
        if n == 8:
            comps = compositions(8, 8)
        elif n == 16:
            comps = compositions(16, 3 if label in ("uint16", "E16") else 2) if tier == "quick" else compositions(16, 3)
            comps += [(1,) * 16, (2,) * 8, (1, 2, 3, 4, 5, 1), (5, 4, 3, 2, 1, 1), (3, 3, 3, 3, 3, 1)]
            if tier == "thorough" and label == "uint16":
                comps = compositions(16, 5)
        elif n <= 32:
            few = mini(n) if tier == "thorough" else (1, 7, 8, 9, n // 2, n - 8)
            comps = [(a, b) for a in range(1, n + 1) for b in few if a + b <= n] + [(a,) for a in range(1, n + 1)]
            if tier == "thorough":
                comps = compositions(n, 2)
            comps += [(a, b, c) for a, b, c in product(few, repeat=3) if a + b + c <= n]
            comps += [(1,) * n, (n - 1, 1), (3,) * (n // 3)]
        elif tier == "quick":
            m = mini(n)
            few = (1, 8, 13, n // 2, n - 9)
            comps = [(a,) for a in m] + [(a, b) for a in m for b in few if a + b <= n]
            comps += [(a, b, c) for a in few for b in few for c in (1, n // 2, n - a - b) if 0 < a + b + c <= n and c > 0]
        else:
            m = mini(n)
            comps = [(a,) for a in range(1, n + 1)] + [(a, b) for a in m for b in m if a + b <= n]
            comps += [(a, b, c) for a in m for b in (1, 8, 13, n // 2, n - 9) for c in m if a + b + c <= n]
            comps += [(1,) * n]
        for i in range(0, len(comps), 20):
            yield ["unit", [label, comps[i : i + 20], tier]]
    depth = 4 if tier == "quick" else 5
    for n in range(1, depth + 1):
        items = ITEMS if n < 4 or tier == "thorough" else FEW
        if n == 5:
            items = FEW
        for head in product(items, repeat=min(n, 2)):
            yield ["seq", [head, n, items]]


def run(case, st_):
    globals()["run_" + case[0]](tup(case[1]), st_)


def show(case):
    return [case[0], str(case[1])[:200]]


ENDS = ("<", ">", "!")


def contents(n, widths, label, tier):
    """Unit contents (as unsigned integers)."""
    if n == 8:
        return range(256)
    if n == 16 and label in ("uint16", "int16", "E16") and (
            len(widths) <= 2 if tier == "thorough" else widths in ((9,), (3, 11, 2))):
        return range(1 << 16)
    full = (1 << n) - 1
    out = {0, full, 0xAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA & full, 0x0123456789ABCDEFFEDCBA9876543210 & full,
           0xF0E1D2C3B4A5968778695A4B3C2D1E0F & full}
    for i in range(n) if tier == "thorough" and len(widths) < 3 or len(widths) < 2 and n < 64 else ():
        out |= {1 << i, full ^ (1 << i)}
    for order in (0, 1):
        pos = 0
        for w in widths:
            sh = pos if order == 0 else n - pos - w
            m = ((1 << w) - 1) << sh
            out |= {m, full ^ m, 1 << sh, 1 << (sh + w - 1), (m & (full // 3))}
            pos += w
    return sorted(out)


def slices(content, n, widths, big):
    pos, out = 0, []
    for w in widths:
        sh = n - pos - w if big else pos
        out.append((content >> sh) & ((1 << w) - 1))
        pos += w
    return out


def join(vals, n, widths, big):
    pos, r = 0, 0
    for v, w in zip(vals, widths):
        r += v << (n - pos - w if big else pos)
        pos += w
    return r


def plain(v):
    return int(v.value) if hasattr(v, "value") else v


def run_unit(arg, st_):
    label, comps, tier = arg
    t, size = STORAGE[label], size_of(label)
    n = 8 * size
    enum = t[0] == "e"
    for widths in comps:
        text = "".join(ref.enum_text(label, ENV.enums[label]) for _ in range(enum))
        names = [f"f{i}" for i in range(len(widths))]
        text += f" struct T {{ uint8 h; {' '.join(f'{label} {f} : {w};' for f, w in zip(names, widths))} uint8 t; }};"
        for comp in (True, False):
            for align in (False, True):
                cs = cstruct().load(text, compiled=comp, align=align)
                T = cs.T
                off = ref.up(1, SCALARS[t[1] if not enum else ENV.enums[label][1]][3]) if align else 1
                total = off + size + 1
                if align:
                    total = ref.up(total, SCALARS[t[1] if not enum else ENV.enums[label][1]][3])
                if len(T) != total:
                    expect(False, "size of a structure with one storage unit", None, text=text, got=len(T), expected=total)
                st_.state()
                for end in ENDS:
                    cs.endian = end
                    big = end != "<"
                    order = "big" if big else "little"
                    cont = contents(n, widths, label, tier)
                    if end == "!" or (align and not comp):
                        cont = list(cont)[:: max(1, len(cont) // 40)]
                    for c in cont:
                        raw = bytearray(total)
                        raw[0], raw[off + size] = 0xC3, 0x3C
                        raw[off : off + size] = c.to_bytes(size, order)
                        obj = T(bytes(raw))
                        want = slices(c, n, widths, big)
                        got = [plain(getattr(obj, f)) for f in names]
                        st_.trans()
                        if got != want or obj.h != 0xC3 or obj.t != 0x3C:
                            expect(False, "bit-field values", None, text=text, endian=end, compiled=comp, align=align,
                                   data=bytes(raw), got=(obj.h, got, obj.t), expected=want)
                        raw[off : off + size] = join(want, n, widths, big).to_bytes(size, order)
                        out = obj.dumps()
                        st_.trans()
                        if out != raw:
                            expect(False, "dumped bit-fields", None, text=text, endian=end, compiled=comp, align=align,
                                   values=want, got=out, expected=bytes(raw))
                    st_.trace(len(cont))
                    if comp:
                        continue
                    # from plain values and by assignment in both orders
                    for c in list(cont)[:: max(1, len(cont) // 12)]:
                        want = slices(c, n, widths, big)
                        raw = bytearray(total)
                        raw[0], raw[off + size] = 0xC3, 0x3C
                        raw[off : off + size] = join(want, n, widths, big).to_bytes(size, order)
                        vals = [getattr(cs, label)(v) for v in want] if enum else want
                        out = T(h=0xC3, t=0x3C, **dict(zip(names, vals))).dumps()
                        if out != raw:
                            expect(False, "dumped constructed bit-fields", None, text=text, endian=end, align=align,
                                   values=want, got=out, expected=bytes(raw))
                        for seq in (list(zip(names, vals)), list(zip(names, vals))[::-1]):
                            o = T()
                            o.h, o.t = 0xC3, 0x3C
                            for f, v in seq:
                                setattr(o, f, v)
                            if o.dumps() != raw:
                                expect(False, "dumped assigned bit-fields", None, text=text, endian=end, align=align,
                                       values=want, got=o.dumps(), expected=bytes(raw))
                        st_.trans(3)
                    for i, (f, w) in enumerate(zip(names, widths)):
                        if len(widths) > 8 and i % 5:
                            continue
                        for bad in (1 << w, -1, (1 << w) + 1, -(1 << w), (1 << n), 1 << (n + 5)):
                            o = T()
                            try:
                                setattr(o, f, bad if not enum else getattr(cs, label)(bad))
                                out = o.dumps()
                            except Exception:  # noqa: BLE001
                                st_.trans()
                                continue
                            if enum and plain(getattr(o, f)) != bad:
                                continue
                            expect(False, "bit-field value that does not fit was written", None, text=text, field=f,
                                   value=bad, endian=end, got=out)


# ---------------------------------------------------------------- sequences
DYN = st("DY", F("n", S("uint8")), F("d", A(S("uint8"), ("x", "n"))))
BT = st("BT", F("u", S("uint8"), 3), F("v", S("uint16"), 5))
ITEMS = ["a3", "a5", "a8", "b4", "b12", "c9", "d20", "e3", "k4", "i24:11", "B", "H", "dyn", "BT", "z"]
FEW = ["a3", "a5", "b4", "b12", "c9", "e3", "i24:11", "B", "dyn", "BT"]


def item(label, i):
    f = f"f{i}"
    return {
        "a3": lambda: [F(f, S("uint8"), 3)], "a5": lambda: [F(f, S("uint8"), 5)], "a8": lambda: [F(f, S("uint8"), 8)],
        "b4": lambda: [F(f, S("uint16"), 4)], "b12": lambda: [F(f, S("uint16"), 12)],
        "c9": lambda: [F(f, S("int16"), 9)], "d20": lambda: [F(f, S("uint32"), 20)],
        "e3": lambda: [F(f, ("e", "E8"), 3)], "k4": lambda: [F(f, S("char"), 4)],
        "i24:11": lambda: [F(f, S("int24"), 11)], "B": lambda: [F(f, S("uint8"))], "H": lambda: [F(f, S("uint16"))],
        "dyn": lambda: [F(f, DYN)], "BT": lambda: [F(f, BT)], "z": lambda: [F(f, A(S("uint8"), ("z",)))],
    }[label]()


def run_seq(arg, st_):
    head, n, items = arg
    for rest in product(items, repeat=n - len(head)):
        labs = head + rest
        if not any(":" in x or x[0] in "abcdek" and x[1:].isdigit() for x in labs):
            continue
        t = ("st", "T", tuple(f for i, x in enumerate(labs) for f in item(x, i)), "top")
        check_program(t, st_, light=n >= 4)


def check_program(t, st_, light=False, T_kw=None):
    for comp in (True, False):
        for align in (False, True):
            if light and align and not comp:
                continue
            check_one(t, comp, align, st_)


def check_one(t, comp, align, st_):
    straddle = False
    try:
        Model(ENV, Cfg("<", align, "uint64", comp)).layout(t)
    except Straddle:
        straddle = True
    st_.state()
    st_.trans()
    try:
        cs = impl.build(t, ENV, Cfg("<", align, "uint64", comp))
    except ValueError:
        if not straddle:
            expect(False, "a definition without straddling bit-fields was rejected", None, text=ref.text(t, ENV),
                   compiled=comp, align=align)
        st_.count("straddle_rejected")
        return
    if straddle:
        expect(False, "a straddling bit-field was accepted", None, text=ref.text(t, ENV), compiled=comp, align=align)
    T = cs.T
    for end in "<>":
        cfg = Cfg(end, align, "uint64", comp)
        model = Model(ENV, cfg)
        cs.endian = end
        if model.layout(t)["size"] is not None and len(T) != model.layout(t)["size"]:
            expect(False, "size", None, text=ref.text(t, ENV), cfg=cfgname(cfg), got=len(T),
                   expected=model.layout(t)["size"])
        for v, enc, mask, dirty in space.inputs(model, t, (1, 4)):
            st_.trace()
            fh = BytesIO(dirty + b"\xa5\xa5")
            obj = T(fh)
            got = impl.norm(t, obj, ENV)
            st_.trans(2)
            if got != v or fh.tell() != len(dirty):
                expect(False, "bit-field values", None, text=ref.text(t, ENV), cfg=cfgname(cfg), data=dirty, got=got,
                       expected=v, consumed=fh.tell())
            if obj.dumps() != enc:
                expect(False, "dumped bit-fields", None, text=ref.text(t, ENV), cfg=cfgname(cfg), value=v,
                       got=obj.dumps(), expected=enc)
            # one byte short of the last data-carrying byte: no value
            last = max((i for i, m in enumerate(mask) if m), default=-1)
            if last >= 0 and t[0] == "st":
                try:
                    obj = T(dirty[:last])
                except EOFError:
                    continue
                try:
                    model.decode(t, dirty[:last])
                except RefEOF:
                    expect(False, "truncated input gave a value", None, text=ref.text(t, ENV), cfg=cfgname(cfg),
                           data=dirty[:last], got=obj)


# ---------------------------------------------------------------- rejection, unions, nesting
def run_reject(_, st_):
    """Straddling is rejected at definition time through every definition route."""
    for label in STORAGE:
        n = 8 * size_of(label)
        en = ref.enum_text(label, ENV.enums[label]) if label in ENV.enums else ""
        for widths in [(n + 1,), (n, n + 1), (1, n), (n - 1, 2), (n // 2, n // 2 + 1), (n - 1, 1, n + 1), (3, n - 4, 2),
                       (2 * n,), (1, 1, n - 1)]:
            body = " ".join(f"{label} f{i} : {w};" for i, w in enumerate(widths))
            left, bad = 0, False
            for w in widths:
                if left == 0:
                    left = n
                if w > left:
                    bad = True
                    break
                left -= w
            for wrap in ("struct T {{ {} }};", "struct T {{ uint8 a; {} uint8 b; }};", "typedef struct {{ {} }} T;",
                         "struct O {{ uint8 x; struct {{ {} }} s; }};", "struct O {{ uint8 n; uint8 d[n]; {} }};",
                         "struct O {{ uint8 x; struct {{ {} }}; }};"):
                for comp in (True, False):
                    for align in (True, False):
                        st_.state()
                        st_.trans()
                        try:
                            cstruct().load(en + wrap.format(body), compiled=comp, align=align)
                            ok = True
                        except ValueError:
                            ok = False
                        if ok == bad:
                            expect(False, "straddling bit-field", None, text=wrap.format(body), compiled=comp,
                                   align=align, accepted=ok)
            # built field by field
            cs = cstruct().load(en)
            T = cs._make_struct("T", [])
            ok = True
            try:
                for i, w in enumerate(widths):
                    T.add_field(f"f{i}", cs.resolve(label), bits=w)
            except ValueError:
                ok = False
            if ok == bad:
                expect(False, "straddling bit-field through add_field", None, storage=label, widths=widths, accepted=ok)
            st_.trace()


def run_union(_, st_):
    """Bit-fields as union members: each starts a unit at the union's first byte."""
    for label in ("uint8", "int8", "uint16", "int16", "uint24", "uint32", "int64", "E8", "E16", "F32"):
        n = 8 * size_of(label)
        for w in sorted({1, 3, n // 2, n - 1, n}):
            for w2 in (1, 5, 16):
                t = un("T", F("a", STORAGE[label], w), F("b", S("uint16"), w2), F("c", A(S("uint8"), 3)))
                check_program(t, st_)
                t = st("T", F("h", S("uint8"), 3), F("u", ("un", "", (F("a", STORAGE[label], w), F("c", S("uint16"))), "in")),
                       F("t", S("uint8"), 2))
                check_program(t, st_)


def run_nested(_, st_):
    """Nested structures and arrays start new units and leave none open."""
    subs = {"a3": (F("u", S("uint8"), 3),), "a8": (F("u", S("uint8"), 8),), "b5": (F("u", S("uint16"), 5),),
            "Ba3": (F("x", S("uint8")), F("u", S("uint8"), 3)), "a3B": (F("u", S("uint8"), 3), F("x", S("uint8"))),
            "a3b4": (F("u", S("uint8"), 3), F("x", S("uint16"), 4)), "d7d9": (F("u", S("int32"), 7), F("x", S("int32"), 9))}
    for (nm, sub), outer, count in product(subs.items(), (S("uint8"), S("uint16"), S("int32")), (None, 1, 3, "an", "dyn")):
        inner = ("st", "IN", sub, "top")
        mid = {None: F("s", inner), "an": F(None, ("st", "", sub, "in"))}.get(count)
        pre = ()
        if count == "dyn":
            pre, mid = (F("n", S("uint8")),), F("s", A(inner, ("x", "n")))
        elif mid is None:
            mid = F("s", A(inner, count))
        t = ("st", "T", (*pre, F("p", outer, 3), mid, F("q", outer, 4), F("z", outer, 1)), "top")
        check_program(t, st_)
