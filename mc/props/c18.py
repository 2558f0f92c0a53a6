"""C18 Incrementally built or self-referential structures equal the one-shot definition."""
import re
from io import BytesIO
from itertools import product

from dissect.cstruct import cstruct

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.c17 import check_eq
from mc.props.common import cfgname, configs
from mc.ref import Model, NotCanonical
from mc.space import ENV, A, F, P, S, st

PROP = "C18"
LIMIT = 200
RULE = ("every sequence of 1-2 field atoms (quick: one of them from the core set; 3 of a small alphabet, thorough 3 of the "
        "core set, 4 of the small one) x every way to build it: any prefix defined by load(), the rest split at any "
        "positions into steps, each a single add_field(), a start_update() block (also one left by an exception) or fields "
        "followed by commit() x {packed,aligned} x {compiled,interpreted} x {<,>}; after every commit the type is compared with the model of the "
        "prefix, at the end also with the one-shot type: layout, reader, writer, instances, use inside other types; unions "
        "likewise; self-referential structures with the pointer at every position among the atoms")
TECHNIQUE = ("explicit-state exploration of all add_field/commit histories of a field sequence on the real classes, every "
             "intermediate state compared with a reference model and the final one with the one-shot definition")
ASSUMPTIONS = ["types that embed the structure by value are made after it is complete"]

STEP = ("add", "block", "batch")


def cases(tier):
    quick = tier == "quick"
    atoms = list(space.ATOMS)
    eofs = list(space.EOF_ATOMS)
    core = set(space.CORE)
    for a in (*atoms, *eofs):
        yield ["seq", [a], True]
    for a in ("uint8", "uint32", "char[]", "uint16:12", "PT", "anon", "UN"):
        for n in (0, 1, 5, 9, 17):
            yield ["wide", a, n]
    for i, a in enumerate(UMEMBERS):
        for j, b in enumerate(UMEMBERS):
            if not quick or i < 5 or j < 5:
                yield ["union", [a, b], not quick]
    for labs in product(UMEMBERS[:4 if quick else 8], repeat=3):
        yield ["union", list(labs), not quick]
    for a in SELF_ATOMS:
        for b in SELF_ATOMS:
            yield ["self", [a, b]]
    yield ["offsets"]
    yield ["failures"]
    for a in range(len(TURNS)):
        for b in range(len(TURNS)):
            if not quick or len(TURNS[a]) + len(TURNS[b]) <= 10:
                yield ["two", a, b, not quick]
    for labs in product(space.MINI, repeat=3):
        if space.valid(space.program(labs)):
            yield ["seq", list(labs), not quick]
    for a, b in product(atoms, (*atoms, *eofs)):
        if space.valid(space.program((a, b))) and (not quick or a in core and b in core
                                                   or a in space.MINI and hash_(b) or b in space.MINI and hash_(a)):
            yield ["seq", [a, b], not quick]
    if not quick:
        for labs in product(space.CORE, repeat=3):
            if space.valid(space.program(labs)):
                yield ["seq", list(labs), False]
        for labs in product(space.MINI, repeat=4):
            if space.valid(space.program(labs)):
                yield ["seq", list(labs), False]


def hash_(label):
    """Atoms that matter next to the small alphabet: everything but the scalars of equal kind."""
    return label not in ("int8", "int16", "int32", "uint24", "uint48", "int48", "float16", "float", "uleb128", "int128")


def show(case):
    return case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def compositions(n):
    """All ways to split n items into consecutive steps."""
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first, *rest)


def histories(n, full):
    """(prefix length, ((step kind, size), ...)) of every way to build n fields."""
    for k in range(n + 1):
        for comp in compositions(n - k):
            if full:
                for kinds in product(STEP, repeat=len(comp)):
                    if all(kind != "add" or size == 1 for kind, size in zip(kinds, comp)):
                        yield k, tuple(zip(kinds, comp))
            else:
                # steps of one field by add_field, larger ones alternate
                yield k, tuple(("add" if s == 1 else STEP[1 + (i + k) % 2], s) for i, s in enumerate(comp))


def aborted(n):
    """Histories with a start_update() block that is left by an exception after any number of fields."""
    for k in range(n + 1):
        for j in range(n - k + 1):
            rest = n - k - j
            yield k, (("abort", j), *[("add", 1)] * rest)
            if rest:
                yield k, (("abort", j), ("block", rest))
                yield k, (("abort", j), ("abort", rest))


def signature(T):
    """Everything observable about the layout of a structure type."""
    return {
        "size": T.size, "alignment": T.alignment, "dynamic": T.dynamic, "compiled": T.__compiled__,
        "fields": [(f.name, plain(f.type.__name__), f.type.size, f.type.alignment, f.bits, f.offset) for f in T.__fields__],
        "names": list(T.fields), "lookup": [plain(n) for n in T.lookup],
        "offsets": [(n, f.offset, f.bits) for n, f in T.fields.items()],
    }


def plain(name):
    """Anonymous structures are numbered throughout a cstruct object."""
    return re.sub(r"__anonymous_\d+__", "__anonymous__", name)


def make_prefix(cs, t, cfg, name):
    """Define a structure with the first fields by loading a definition."""
    text = ref.render(t, ENV)[-1][0]
    cs.load(text, compiled=cfg.compiled, align=cfg.align)
    return getattr(cs, name)


class Abort(Exception):
    """Leaves a start_update() block."""


def apply(X, kind, fields):
    if kind == "add":
        for f in fields:
            X.add_field(f.name, f.type, bits=f.bits)
    elif kind in ("block", "abort"):
        try:
            with X.start_update():
                for f in fields:
                    X.add_field(f.name, f.type, bits=f.bits)
                if kind == "abort":
                    raise Abort
        except Abort:
            pass  # what was added until then is committed
    else:
        from dissect.cstruct.types.structure import Field

        X.__fields__.extend([Field(f.name, f.type, bits=f.bits) for f in fields])
        X.commit()


def against_model(X, t, model, what, ks, st_):
    """The type in its current state is the one-shot definition of its fields, by the reference model."""
    lay = model.layout(t)
    if X.size != lay["size"] or (X.alignment or 1) != (model.alignment(t) or 1) or X.dynamic is not (lay["size"] is None):
        raise Violation(f"size {X.size} alignment {X.alignment} dynamic {X.dynamic}, expected {lay['size']}, "
                        f"{model.alignment(t)}: {what()}")
    eof = space.has_eof(t)
    for v, enc, mask, dirty in space.inputs(model, t, ks):
        st_.trans()
        stream = BytesIO(dirty + (b"" if eof else b"\xaa\xbb"))
        obj = X(stream)
        if stream.tell() != len(enc):
            raise Violation(f"parse consumed {stream.tell()} bytes, expected {len(enc)}: {what()} data {dirty.hex()}")
        got = impl.norm(t, obj, ENV)
        if got != v:
            raise Violation(f"parsed {got!r}, expected {v!r}: {what()} data {dirty.hex()}")
        if obj.dumps() != enc:
            raise Violation(f"dumped {obj.dumps().hex()}, expected {enc.hex()}: {what()}")
    if not eof and t[0] == "st" and not impl.has_union(t):
        z = X()
        if impl.norm(t, z, ENV) != model.zero(t):
            raise Violation(f"default {impl.norm(t, z, ENV)!r}: {what()}")


def against_type(X, T, t, model, what, ks, st_):
    """The built type behaves like the one-shot type in every respect."""
    a, b = signature(X), signature(T)
    for k in a:
        if a[k] != b[k]:
            raise Violation(f"{k} is {a[k]!r}, that of the one-shot definition {b[k]!r}: {what()}")
    names = [f._name for f in T.__fields__]
    eof = space.has_eof(t)
    objs = []
    for v, enc, mask, dirty in space.inputs(model, t, ks):
        x, o = X(dirty), T(dirty)
        objs.append((v, x, o, dirty))
        if plain(repr(x)).replace("<X ", "<T ") != plain(repr(o)):
            raise Violation(f"repr {x!r}, of the one-shot type {o!r}: {what()}")
        if x.dumps() != o.dumps() or bytes(x) != bytes(o) or len(x) != len(o) or bool(x) is not bool(o):
            raise Violation(f"dump {x.dumps().hex()}, of the one-shot type {o.dumps().hex()}: {what()}")
        for n in T.fields:
            if not isinstance(getattr(T, n, None), property) and plain(repr(getattr(x, n))) != plain(repr(getattr(o, n))):
                raise Violation(f"{n} is {getattr(x, n)!r}, of the one-shot type {getattr(o, n)!r}: {what()}")
        if not eof:
            for cut in {0, 1, len(enc) // 2, len(enc) - 1}:
                if 0 <= cut < len(enc):
                    if outcome(X, dirty[:cut]) != outcome(T, dirty[:cut]):
                        raise Violation(f"input of {cut} bytes gives {outcome(X, dirty[:cut])}, the one-shot type "
                                        f"{outcome(T, dirty[:cut])}: {what()}")
        if x == o or o == x:
            raise Violation(f"instances of different types are equal: {what()}")
        if T.dynamic and t[0] == "un":
            continue
        kwx = {f._name: getattr(x, f._name) for f in X.__fields__}
        kw = {n: getattr(o, n) for n in names}
        c, d = X(**kwx), T(**kw)
        if c.dumps() != d.dumps() or t[0] == "st" and c != x:
            raise Violation(f"constructed {c!r}, with the one-shot type {d!r}: {what()}")
        if t[0] == "st" and not (len(names) == 1 and isinstance(kw[names[0]], bytes)):
            c, d = X(*kwx.values()), T(*kw.values())
            if c.dumps() != d.dumps() or c != x:
                raise Violation(f"constructed {c!r}, with the one-shot type {d!r}: {what()}")
        for n in T.fields:
            c, d = X(), T()
            for e, src in ((c, x), (d, o)):
                setattr(e, n, getattr(src, n))
            if not eof and outcome_dump(c) != outcome_dump(d):
                raise Violation(f"{n} assigned, dumps {outcome_dump(c)}, with the one-shot type {outcome_dump(d)}: {what()}")
    for v, x, o, _ in objs:
        for w, y, q, data in objs:
            check_eq(x, X(data), x == y, what)
            if (x == y) is not (o == q):
                raise Violation(f"equality of {x!r} and {y!r} is {x == y}, of the one-shot type {o == q}: {what()}")
    st_.trace()


def outcome(T, data):
    try:
        return T(data).dumps()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def outcome_dump(o):
    try:
        return o.dumps().hex()
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def embed(cs, cfg, model, t, what, st_):
    """The finished type inside others."""
    if space.has_eof(t) or model.layout(t)["size"] == 0:
        return
    cs.load("struct OX { uint8 h; X x; uint8 m; X y[2]; uint16 z; }; struct OT { uint8 h; T x; uint8 m; T y[2]; uint16 z; };",
            compiled=cfg.compiled, align=cfg.align)
    a, b = cs.OX, cs.OT
    for k in ("size", "alignment", "dynamic"):
        if getattr(a, k) != getattr(b, k):
            raise Violation(f"{k} of a structure with the type is {getattr(a, k)}, expected {getattr(b, k)}: {what()}")
    outer = ("st", "OT", (F("h", S("uint8")), F("x", t), F("m", S("uint8")), F("y", A(t, 2)), F("z", S("uint16"))), "top")
    for v, enc, mask, dirty in space.inputs(model, outer, (2,)):
        x, o = a(dirty), b(dirty)
        if impl.norm(outer, x, ENV) != v or x.dumps() != enc or o.dumps() != enc:
            raise Violation(f"structure with the type parsed {impl.norm(outer, x, ENV)!r}, expected {v!r}: {what()}")
        st_.trans()


def run_seq(labels, full, st_):
    t = space.program(labels)
    n = len(t[2])
    hists = [*histories(n, full and n < 4), *(aborted(n) if n < 2 or n < 3 and set(labels) <= set(space.MINI) else ())]
    for cfg in configs():
        if not full and (cfg.endian == "<") is (cfg.align is not cfg.compiled) and len(labels) > 1:
            continue
        model = Model(ENV, cfg)
        for i, (k, steps) in enumerate(hists):
            cs = impl.build(t, ENV, cfg)
            T = cs.T
            what = lambda: (f"{ref.text(t, ENV)} [{cfgname(cfg)}] defined with {k} fields, then "  # noqa: E731
                            f"{' '.join(f'{a}({b})' for a, b in steps)}")
            X = make_prefix(cs, ("st", "X", t[2][:k], "top"), cfg, "X")
            done = k
            ks = (2, 3) if n > 2 or not full else range(6)
            for kind, size in ((None, 0), *steps):
                if kind:
                    apply(X, kind, T.__fields__[done:done + size])
                    done += size
                st_.state()
                cur = ("st", "X", t[2][:done], "top")
                if done < n or kind is None:
                    against_model(X, cur, model, what, (2,), st_)
            against_model(X, t, model, what, ks, st_)
            against_type(X, T, t, model, what, ks, st_)
            if i % 3 == 0:
                embed(cs, cfg, model, t, what, st_)


def run_wide(label, n, st_):
    """Many fields added one by one, and in blocks."""
    labels = [label] * n + ["uint16", "PT"]
    t = space.program(labels)
    for cfg in configs():
        model = Model(ENV, cfg)
        for size in (1, 2, 3, len(t[2])):
            if not space.valid(t):
                continue
            cs = impl.build(t, ENV, cfg)
            T = cs.T
            X = make_prefix(cs, ("st", "X", (), "top"), cfg, "X")
            what = lambda: f"{label} x {n} in steps of {size} [{cfgname(cfg)}]"  # noqa: E731
            for i in range(0, len(t[2]), size):
                fs = T.__fields__[i:i + size]
                apply(X, "add" if size == 1 else STEP[1 + (i // size) % 2], fs)
                st_.state()
                if X.size != model.layout(("st", "X", t[2][:i + size], "top"))["size"]:
                    raise Violation(f"size {X.size} after {i + size} fields: {what()}")
            against_model(X, t, model, what, (2, 3), st_)
            against_type(X, T, t, model, what, (2, 3), st_)


UMEMBERS = ["uint8", "uint32", "int24", "PT", "char[3]", "uint16:12", "uint64", "TAIL", "E16", "UN", "anon", "inPT",
            "uint16[2][3]", "wchar", "float", "pu8", "BITS", "F8", "uint8:3"]


def run_union(labels, full, st_):
    fields = []
    for i, lab in enumerate(labels):
        fields.extend(space.ALL[lab](i))
    t = ("un", "T", tuple(fields), "top")
    n = len(fields)
    for cfg in configs():
        if not full and (cfg.endian == "<") is (cfg.align is not cfg.compiled):
            continue
        model = Model(ENV, cfg)
        for k, steps in histories(n, full and n < 3):
            cs = impl.build(t, ENV, cfg)
            T = cs.T
            what = lambda: (f"{ref.text(t, ENV)} [{cfgname(cfg)}] defined with {k} members, then {steps}")  # noqa: E731
            X = make_prefix(cs, ("un", "X", t[2][:k], "top"), cfg, "X")
            done = k
            for kind, size in steps:
                apply(X, kind, T.__fields__[done:done + size])
                done += size
                st_.state()
                cur = ("un", "X", t[2][:done], "top")
                against_model(X, cur, model, what, (1, 2), st_)
            against_type(X, T, t, model, what, (1, 2), st_)
            for v, enc, mask, dirty in space.inputs(model, t, (1, 2)):
                x, o = X(dirty), T(dirty)
                for f in T.fields:
                    for val in (getattr(T(enc), f), getattr(T(bytes(len(enc))), f)):
                        setattr(x, f, val)
                        setattr(o, f, val)
                        if x.dumps() != o.dumps():
                            raise Violation(f"{f} assigned, dumps {x.dumps().hex()}, one-shot {o.dumps().hex()}: {what()}")
            embed(cs, cfg, model, t, what, st_)


# ------------------------------------------------------------------------------------------- self reference

SELF_ATOMS = ["uint8", "uint32", "int24", "char[]", "uint16:12", "PT", "DYN", "UN", "wchar", "E16", "uint16[n]", "anon",
              "uint8[2][n]", "ileb128", "PT[2]", "uint64"]
FORMS = ("struct N *p;", "struct N *p[2];", "struct N **p;", "N *p;")


def run_self(labels, st_):
    """struct N with a pointer to itself before, between and behind the atoms; the same with an opaque pointer; and built
    with add_field."""
    for pos in range(3):
        for j, form in enumerate(FORMS):
            atoms = [space.ALL[lab](i) for i, lab in enumerate(labels)]
            void = S("void")
            pt = {0: P(void), 1: A(P(void), 2), 2: P(P(void)), 3: P(void)}[j]
            fs = [*atoms]
            fs.insert(pos, [F("p", pt)])
            fields = tuple(f for group in fs for f in group)
            t = ("st", "T", fields, "top")
            if not space.valid(t):
                continue
            for cfg in configs(ptr="uint32"):
                if (cfg.endian == "<") is (cfg.compiled is cfg.align) and (pos + j) % 2:
                    continue
                model = Model(ENV, cfg)
                cs = impl.build(t, ENV, cfg)
                T = cs.T
                text = ref.render(t, ENV)[-1][0].replace("struct T", "struct N", 1)
                opaque = {0: "void *p;", 1: "void *p[2];", 2: "void **p;", 3: "void *p;"}[j]
                if text.count(opaque) != 1:
                    raise Violation(f"harness: {text}")
                text = text.replace(opaque, form)
                what = lambda: f"{text} [{cfgname(cfg)}]"  # noqa: E731
                cs.load(text, compiled=cfg.compiled, align=cfg.align)
                N = cs.N
                st_.state()
                if (N.size, N.alignment, N.dynamic, N.__compiled__) != (T.size, T.alignment, T.dynamic, T.__compiled__):
                    raise Violation(f"{N.size, N.alignment, N.dynamic, N.__compiled__} instead of "
                                    f"{T.size, T.alignment, T.dynamic, T.__compiled__}: {what()}")
                if [(f._name, f.offset, f.bits) for f in N.__fields__ if f.name] != \
                        [(f._name, f.offset, f.bits) for f in T.__fields__ if f.name]:
                    raise Violation(f"fields {N.__fields__}: {what()}")
                target = N.fields["p"].type
                while target is not N and hasattr(target, "type") and target.type is not target:
                    target = target.type
                if target is not N:
                    raise Violation(f"the pointer refers to {target!r}: {what()}")
                nt = ("st", "N", fields, "top")
                against_model(N, nt, model, what, (1, 2, 3), st_)
                # incrementally, with a pointer to itself
                if j in (0, 3) and T.fields["p"].type.__name__:
                    X = make_prefix(cs, ("st", "X", (), "top"), cfg, "X")
                    ptr = cs._make_pointer(X)
                    for f in N.__fields__:
                        X.add_field(f.name, ptr if f.name == "p" else f.type, bits=f.bits)
                    against_model(X, ("st", "X", fields, "top"), model, what, (1, 2), st_)
                # following the chain parses N
                if j == 0 and model.layout(t)["size"] is not None and pos == 0:
                    size = N.size
                    (v, enc, _, _), = space.inputs(model, nt, (2,))
                    # two nodes: the first points to the second, which points back
                    one = model.encode(nt, ("S", ("p", ("P", size + 4)), *v[2:]))
                    two = model.encode(nt, ("S", ("p", ("P", 4)), *v[2:]))
                    stream = BytesIO(b"\xff" * 4 + one + two)
                    stream.seek(4)
                    o = N(stream)
                    q = o.p.dereference()
                    if type(q) is not N or q.dumps() != two or o.p.p.dereference() != o or o.p.p.p.dereference() != q:
                        raise Violation(f"following the pointers gives {q!r}: {what()}")
                st_.trace()


def run_offsets(st_):
    """Explicit offsets given to add_field, interpreted: the field is at its offset, whatever the commits in between."""
    from dissect.cstruct.types.structure import Field

    kinds = {"uint8": S("uint8"), "uint32": S("uint32"), "PT": space.PT, "char[3]": A(S("char"), 3)}
    for names in product(kinds, repeat=3):
        for gaps in product((None, 0, 1, 4), repeat=3):
            for align in (False, True):
                for comp in (False, True):
                    cs = cstruct()
                    cs.load("struct PT { uint8 x; uint16 y; };", align=align)
                    types = [cs.PT if n == "PT" else cs.char[3] if n == "char[3]" else getattr(cs, n) for n in names]
                    offs, cur, mx = [], 0, 1
                    for typ, g in zip(types, gaps):
                        if g is not None:
                            cur += g
                            offs.append(cur)
                        else:
                            offs.append(None)
                            if align:
                                cur += -cur & ((typ.alignment or 1) - 1)
                        if align:
                            # explicit offsets are kept aligned here, so that both rules agree
                            if g is not None and cur % (typ.alignment or 1):
                                break
                        cur += typ.size
                    else:
                        oracle_offsets(cs, types, offs, align, comp, st_, names, gaps)
    st_.state()


def oracle_offsets(cs, types, offs, align, comp, st_, names, gaps):
    from dissect.cstruct.types.structure import Field

    if comp:
        return
    fields = lambda: [Field(f"f{i}", t, offset=o) for i, (t, o) in enumerate(zip(types, offs))]  # noqa: E731
    T = cs._make_struct("T", fields(), align=align)
    what = f"{names} offsets {offs} align={align}"
    sigs = []
    for hist in ("add", "block", "half"):
        X = cs._make_struct("X" + hist, [], align=align)
        if hist == "add":
            for i, (t, o) in enumerate(zip(types, offs)):
                X.add_field(f"f{i}", t, offset=o)
        elif hist == "block":
            with X.start_update():
                for i, (t, o) in enumerate(zip(types, offs)):
                    X.add_field(f"f{i}", t, offset=o)
        else:
            X.add_field("f0", types[0], offset=offs[0])
            with X.start_update():
                for i in (1, 2):
                    X.add_field(f"f{i}", types[i], offset=offs[i])
        sigs.append(X)
    pos, want, mx = 0, [], 1
    for t, o in zip(types, offs):
        if o is not None:
            pos = o
        elif align:
            pos += -pos & ((t.alignment or 1) - 1)
        want.append(pos)
        pos += t.size
        mx = max(mx, t.alignment or 1)
    if align:
        pos += -pos & (mx - 1)
    data = bytes((i * 37 + 11) & 0x7F for i in range(pos))
    for X in (T, *sigs):
        if [f.offset for f in X.__fields__] != want or X.size != pos:
            raise Violation(f"{X.__name__}: offsets {[f.offset for f in X.__fields__]} size {X.size}, expected {want} {pos}: {what}")
        o = X(data)
        for i, (t, off) in enumerate(zip(types, want)):
            if getattr(o, f"f{i}") != t(data[off:off + t.size]):
                raise Violation(f"{X.__name__}: f{i} is {getattr(o, f'f{i}')!r}: {what}")
        e = bytearray(pos)
        for t, off in zip(types, want):
            e[off:off + t.size] = t.dumps(t(data[off:off + t.size]))
        if o.dumps() != bytes(e):
            raise Violation(f"{X.__name__}: dumps {o.dumps().hex()}, expected {e.hex()}: {what}")
        st_.trans()
    st_.trace()


# ways to add two fields: 0/1 the field, ( and ) a start_update() block
TURNS = ("01", "(01)", "0(1)", "(0)1", "(0)(1)", "(0(1))", "((0)1)", "()01", "01()")


def merges(a, b):
    """All interleavings of two sequences."""
    if not a or not b:
        yield tuple((0, x) for x in a) + tuple((1, x) for x in b)
        return
    for rest in merges(a[1:], b):
        yield ((0, a[0]), *rest)
    for rest in merges(a, b[1:]):
        yield ((1, b[0]), *rest)


def run_two(i, j, full, st_):
    """Two structures of one or of two cstruct objects, extended in turns in every way."""
    pairs = [(("uint8", "uint32"), ("uint16", "char[]")), (("uint8:3", "uint8:3"), ("uint16:12", "PT"))]
    for k, ((la, lb), same) in enumerate(product(pairs, (True, False))):
        if not full and (not same and len(TURNS[i]) + len(TURNS[j]) > 6 or (i + j) % 2 != k // 2):
            continue
        for cfg in configs():
            if cfg.align is not (cfg.endian == "<") or not full and cfg.align is not cfg.compiled:
                continue
            model = Model(ENV, cfg)
            progs = [space.program(la), space.program(lb)]
            srcs = [impl.build(t, ENV, cfg) for t in progs]
            fields = [src.T.__fields__ for src in srcs]
            for merge in merges(TURNS[i], TURNS[j]):
                what = lambda: (f"{la} as {TURNS[i]} and {lb} as {TURNS[j]} [{cfgname(cfg)}] of "  # noqa: E731
                                f"{'one' if same else 'two'} objects, in turns: "  # noqa: B023
                                f"{' '.join('AB'[k] + x for k, x in merge)}")  # noqa: B023
                cs = impl.build(("st", "T", (), "top"), ENV, cfg)
                other = cs if same else impl.build(("st", "T", (), "top"), ENV, cfg)
                types = [make_prefix(cs, ("st", "X0", (), "top"), cfg, "X0"),
                         make_prefix(other, ("st", "X1", (), "top"), cfg, "X1")]
                open_, count = [[], []], [0, 0]
                for k, op in merge:
                    st_.trans()
                    if op == "(":
                        ctx = types[k].start_update()
                        ctx.__enter__()
                        open_[k].append(ctx)
                    elif op == ")":
                        open_[k].pop().__exit__(None, None, None)
                    else:
                        f = fields[k][int(op)]
                        ft = (cs, other)[k].resolve(f.type.__name__) if f.type.__name__ in cs.typedefs else f.type
                        types[k].add_field(f.name, ft, bits=f.bits)
                        count[k] += 1
                    for m in (0, 1):
                        want = model.layout(("st", "X", progs[m][2][:count[m]], "top"))["size"]
                        if not open_[m] and (types[m].size != want or len(types[m].fields) != count[m]):
                            raise Violation(f"size {types[m].size} with {list(types[m].fields)} after {count[m]} fields, "
                                            f"expected {want}: {what()}")
                st_.state()
                for m in (0, 1):
                    against_model(types[m], progs[m], model, what, (2,), st_)
                    a, b = signature(types[m]), signature(srcs[m].T)
                    if a != b:
                        raise Violation(f"{a} differs from the one-shot definition {b}: {what()}")
                st_.trace()


def run_failures(st_):
    """A structure is unchanged by what is done to others in between, and usable after other structures failed."""
    for comp in (False, True):
        cs = cstruct()
        cs.load("struct A { uint8 a; }; struct B { uint8 a; };", compiled=comp)
        T = cs.A
        with T.start_update():
            T.add_field("b", cs.uint16)
            cs.B.add_field("z", cs.uint64)
            with cs.B.start_update():
                cs.B.add_field("y", cs.uint8)
            T.add_field("c", cs.uint32)
        cs.load("struct OA { uint8 a; uint16 b; uint32 c; }; struct OB { uint8 a; uint64 z; uint8 y; };", compiled=comp)
        for x, o in ((cs.A, cs.OA), (cs.B, cs.OB)):
            if x.size != o.size or list(x.fields) != list(o.fields) or x.__compiled__ is not o.__compiled__:
                raise Violation(f"interleaved updates: {list(x.fields)} size {x.size}, expected {o.size}")
            data = bytes(range(o.size))
            if x(data).dumps() != data:
                raise Violation("interleaved updates")
        T.add_field("d", cs.uint8)
        if T.size != 8 or T(bytes(range(8))).d != 7:
            raise Violation("add_field after start_update isn't committed")
    st_.state()
