"""C12 Enums and flags preserve every underlying value and number members like C."""
from io import BytesIO
from itertools import product

from dissect.cstruct import cstruct

from mc import cexpr
from mc.engine import Violation
from mc.impl import tup
from mc.ref import SCALARS

PROP = "C12"
LIMIT = 120
RULE = ("numbering: every member list of up to 3 (thorough 4) members over 12 value forms (implicit, literals in several "
        "bases, negative, expressions over earlier members and constants, shadowed constants, sizeof) x {enum, flag} x "
        "{default, explicit base} x 6 layouts of the list x {token, legacy} parser; lists continuing every value within 2 of "
        "every power of two up to 2^126 and all values up to 300; compared with a reference numbering; "
        "values: every base type x every value of 8-bit bases (thorough also every value of 16-bit bases; wider bases "
        "boundaries, walking bits and the neighbourhood of every member) x {scalar, field, array, null-terminated array, "
        "to-end-of-stream array, union member, pointer target} x {<,>} x {compiled, interpreted}; every bit-field width x "
        "every value of 8-bit bases; equality, inequality and hashes of all pairs of parsed values and members of two "
        "enums and two flags of the same and different instances")
ASSUMPTIONS = ["a flag with a negative explicit value has no next higher power of two and is not continued implicitly",
               "members named like an attribute of the enum class (type, size, cs, mro, _sunder_ names) are refused at definition time"]

FORMS = ("", "5", "0x10", "0", "7", "{p} + 1", "{f} | 8", "({p} << 1) + CN", "K1 & {f}", "sizeof(uint32) * 2", "0b101", "1U")
NEG = ("-1", "-{p} - 2", "~{f}")
CONSTS = {"CN": 3, "K1": 5, "M0": 77}


def expect(cond, msg, **kw):
    if not cond:
        raise Violation(msg + "".join(f"\n  {k}: {v!r}" for k, v in kw.items()))


def number(kind, members):
    """The reference numbering."""
    out = {}
    nxt = 1 if kind == "flag" else 0
    for name, form in members:
        if form:
            v = cexpr.evaluate(form, dict(out), CONSTS, lambda n: SCALARS[n][1])
        else:
            v = nxt
        out[name] = v
        if kind == "flag":
            p = 1
            while p <= v:
                p *= 2
            nxt = p
        else:
            nxt = v + 1
    return out


LAYOUTS = ("inline", "lines", "trail", "comment", "bare", "tight")


def write_list(members, layout):
    items = [f"{n} = {f}" if f else n for n, f in members]
    if layout == "inline":
        return "{ " + ", ".join(items) + " }"
    if layout == "lines":
        return "{\n    " + ",\n    ".join(items) + "\n}"
    if layout == "trail":
        return "{\n\t" + " ,\n\n\t".join(items) + " ,\n}"
    if layout == "comment":
        return "{ // members\n    " + ", // the member\n    ".join(items) + " // last\n}"
    if layout == "bare":
        return "{\n" + "\n".join(items) + "\n}"
    return "{" + ",".join(i.replace(" = ", "=") for i in items) + "}"


DEFS = "".join(f"#define {k} {v}\n" for k, v in CONSTS.items())


def cases(tier):
    forms = FORMS + NEG
    n = 3
    for kind in ("enum", "flag"):
        for k in range(1, 3):
            for head in product(forms, repeat=k - 1):
                yield ["num", kind, head, "all"]
        for head in product(forms, repeat=n - 1):
            yield ["num", kind, head, "some"]
        if tier == "thorough":
            for head in product(forms, repeat=3):
                yield ["num", kind, head, "one"]
        yield ["numlong", kind]
        yield ["numbig", kind]
    yield ["anon"]
    for base in BASES:
        for kind in ("enum", "flag"):
            yield ["val", kind, base]
            yield ["bits", kind, base]
    if tier == "thorough":
        for base in ("uint16", "int16"):
            for kind in ("enum", "flag"):
                for part in range(16):
                    yield ["val16", kind, base, part]
    for part in range(16):
        yield ["eq", part]
    yield ["alias"]


show = repr


def run(case, st):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st)


def substitute(forms):
    out = []
    for i, f in enumerate(forms):
        out.append((f"M{i}" if i != 1 else "b_1", f.format(p=("M0", "b_1", "M2", "M3")[i - 1] if i else "CN", f="M0" if i else "K1")))
    return out


def check_numbering(kind, members, layout, base, legacy, st, type_text=None):
    want = number(kind, members)
    head = f"{kind} E{' : ' + (type_text or base) if base else ''} "
    text = DEFS + head + write_list(members, layout) + ";\n"
    cs = cstruct()
    cs.load(text, deftype=cstruct.DEF_LEGACY if legacy else cstruct.DEF_CSTYLE)
    st.trans()
    st.state()
    E = cs.E
    got = {n: int(m.value) for n, m in E.__members__.items()}
    expect(got == want and list(got) == list(want), "member values", definition=text, got=got, want=want)
    for n, v in want.items():
        m = getattr(E, n)
        expect(m.value == v and int(m) == v and m == v and v == m and E[n] == m and E(v) == m and m.name == n,
               "member", definition=text, member=n, want=v, got=repr(m))
    expect(E.type is cs.resolve(base or "uint32"), "underlying type", definition=text, got=E.type)
    expect(E.size == SCALARS[base or "uint32"][1], "size of the enum", definition=text)
    st.outcome(tuple(want.items()))


def run_num(kind, head, how, st):
    for last in FORMS + NEG:
        forms = (*head, last)
        if kind == "flag" and any(f in NEG for f in forms[:-1]) and "" in forms[1:]:
            continue
        members = substitute(forms)
        if kind == "flag" and any(v < 0 for v in list(number(kind, members).values())[:-1]) and "" in forms:
            continue
        for layout in LAYOUTS if how == "all" else LAYOUTS[:3] if how == "some" else LAYOUTS[:1]:
            for legacy in (False, True) if how != "one" else (False,):
                check_numbering(kind, members, layout, "int16" if layout == "lines" else None, legacy, st)
        st.trace()


def run_numlong(kind, st):
    for n in (1, 2, 8, 16, 31, 32, 33, 64, 65, 128, 200):
        for start in ("", "3", "0x80", "1000"):
            members = [(f"X{i}", start if i == 0 else "") for i in range(n)]
            for layout in LAYOUTS:
                for legacy in (False, True):
                    check_numbering(kind, members, layout, "uint8" if n < 8 else None, legacy, st)
    for base in BASES:
        if base in ("char", "ULEB"):
            continue
        for legacy in (False, True):
            check_numbering(kind, [("A", ""), ("B", "4"), ("C", ""), ("D", "C | 1")], "inline", base, legacy, st)
    # the type can be written in several words and with any spacing
    for text, base in (("unsigned int", "uint32"), ("unsigned  long\tlong", "uint64"), ("DWORD", "uint32"), ("uint8_t ", "uint8"),
                       ("\n uint16\n", "uint16"), ("unsigned short", "uint16"), ("INT64", "int64")):
        check_numbering(kind, [("A", ""), ("B", "")], "inline", base, False, st, type_text=text)
    # member names that shadow a constant resolve to the member from then on
    check_numbering(kind, [("CN", "9"), ("A", "CN + 1"), ("B", ""), ("K1", "K1 + 1"), ("C", "K1")], "lines", None, False, st)
    # member names that are also words of the language or attributes of enum members
    for names in (("name", "value"), ("None", "True"), ("struct", "union"), ("A", "a"), ("_x", "__y"), ("real", "imag")):
        check_numbering(kind, [(n, "") for n in names], "inline", None, False, st)
    for sep in ("=", " =", "= ", "\t=\t", "\n=\n", " = \n"):
        text = f"{kind} E {{ A{sep}4, B, C{sep}A + 1 }};"
        cs = cstruct().load(text)
        want = number(kind, [("A", "4"), ("B", ""), ("C", "A + 1")])
        expect({n: m.value for n, m in cs.E.__members__.items()} == want, "member values", definition=text, got=dict(cs.E.__members__))
        st.state()
    st.trace()


def run_numbig(kind, st):
    """Implicit members after every value around every power of two, and after all small values."""
    vals = sorted({(1 << k) + d for k in range(127) for d in (-2, -1, 0, 1, 2)} | set(range(-3, 300)))
    for v in vals:
        if kind == "flag" and v < 0:
            continue
        for form in (str(v), hex(v) if v >= 0 else f"-({hex(-v)})"):
            members = [("A", form), ("B", ""), ("C", ""), ("D", "A"), ("E", "")]
            for legacy in (False, True):
                check_numbering(kind, members, "inline", "uint128" if v >= 0 else "int128", legacy, st)
    st.trace()


def run_anon(st):
    for kind in ("enum", "flag"):
        for base in (None, "uint8", "int32"):
            members = [("P", ""), ("Q", "4"), ("R", ""), ("S", "Q + R")]
            for layout in LAYOUTS:
                text = f"{kind} {': ' + base if base else ''} {write_list(members, layout)};\n struct T {{ uint8 a[S]; }};"
                cs = cstruct().load(text)
                want = number(kind, members)
                for n, v in want.items():
                    m = cs.consts[n]
                    expect(int(m.value) == v and m == v and getattr(cs, n) == v, "constant of an anonymous enum", definition=text, name=n)
                expect(cs.T.size == want["S"], "length from an anonymous enum", definition=text)
                st.state()
    st.trace()


# ---------------------------------------------------------------------------------------------------------------

BASES = ("uint8", "int8", "uint16", "int16", "uint24", "int24", "uint32", "int32", "uint48", "int48", "uint64", "int64",
         "uint128", "int128", "uleb128", "ileb128")
MEMBERS = {"enum": "A, B = 5, C, D = 5, Z = 100", "flag": "A, B, C = 0x20, D = 5, Z"}


def values(base):
    kind, size, signed, _ = SCALARS[base]
    if kind == "l":
        out = {0, 1, 4, 5, 6, 7, 63, 64, 65, 100, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 1 << 31, 1 << 32, 1 << 63, (1 << 70) + 3}
        return sorted(out | {-v for v in out} if signed else out)
    bits = 8 * size
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if bits == 8:
        return list(range(lo, hi + 1))
    out = {lo, hi, lo + 1, hi - 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 31, 32, 33, 37, 63, 64, 99, 100, 101}
    for k in range(bits):
        for v in (1 << k, (1 << k) - 1, -(1 << k), ((1 << bits) - 1) ^ (1 << k), -(1 << k) - 1):
            out.add(v)
    return sorted(v for v in out if lo <= v <= hi)


def encode(base, v, end):
    kind, size, signed, _ = SCALARS[base]
    if kind == "l":
        out = bytearray()
        while True:
            b = v & 0x7F
            v >>= 7
            if (v == 0 and (not signed or not b & 0x40)) or (v == -1 and b & 0x40):
                out.append(b)
                return bytes(out)
            out.append(b | 0x80)
    return (v & ((1 << (8 * size)) - 1)).to_bytes(size, "big" if end == ">" else "little")


DEF = """
{kind} E : {base} {{ {members} }};
{kind} O : {base} {{ {members} }};
struct S {{ uint8 p; E e; uint16 q; }};
struct N {{ uint8 n; E a[n]; E f[2]; uint8 q; }};
struct Z {{ E z[]; uint8 q; }};
struct X {{ uint8 p; E r[EOF]; }};
"""
DEFU = "union U {{ E e; uint8 b; }};\nstruct PP {{ E *p; uint8 q; }};\n"


def check_value(E, m, v, st, named, what):
    expect(isinstance(m, int) and m.__class__ is E, "not an instance of the enum", got=repr(m), **what)
    expect(type(m.value) is not bool and m.value == v and int(m) == v, "integer value", got=repr(m), want=v, **what)
    expect(m == v and v == m and not m != v and not v != m, "not equal to its integer value", got=repr(m), **what)
    expect(not m == v + 1 and m != v - 1, "equal to another integer", got=repr(m), **what)
    e = E(v)
    expect(m == e and e == m and not m != e and hash(m) == hash(e), "two parses differ", got=repr(m), other=repr(e), **what)
    if v in named:
        k = getattr(E, named[v])
        expect(m == k and k == m and hash(m) == hash(k), "not equal to the member", got=repr(m), member=named[v], **what)
    for n, k in E.__members__.items():
        expect((m == k) == (k.value == v) and (m != k) == (k.value != v), "comparison with a member", got=repr(m), member=n, **what)
    st.outcome((E.__name__, v))


def run_values(kind, base, vals, st):
    size = SCALARS[base][1]
    for end, compiled, align in (("<", True, False), (">", True, True), ("<", False, True), (">", False, False)):
        cs = cstruct(endian=end)
        text = (DEF + (DEFU if size else "")).format(kind=kind, base=base, members=MEMBERS[kind])
        cs.load(text, compiled=compiled, align=align)
        E, O = cs.E, cs.O
        named = {m.value: n for n, m in reversed(E.__members__.items())}
        members = dict(E.__members__)
        prev = 0
        for v in vals:
            what = dict(definition=text, endian=end, compiled=compiled, value=v)
            enc = encode(base, v, end)
            m = E(enc)
            st.state()
            st.trans(8)
            check_value(E, m, v, st, named, what)
            o = O(enc)
            expect(not m == o and m != o and not o == m and o != m, "equal to a member of another enum", got=repr(m), **what)
            for k in O.__members__.values():
                expect(not m == k and m != k, "equal to a member of another enum", got=repr(m), other=repr(k), **what)
            for got in (E.read(enc), E.reads(enc), E(BytesIO(enc)), cs.read("E", enc), E.read(memoryview(enc))):
                expect(got == m and hash(got) == hash(m) and got.value == v, "call forms differ", got=repr(got), **what)
            expect(m.dumps() == enc and E.dumps(m) == enc and E.dumps(E(v)) == enc, "dump of the value", got=m.dumps(), want=enc, **what)
            out = BytesIO()
            E.write(out, m)
            expect(out.getvalue() == enc, "write of the value", **what)
            enc2 = encode(base, prev, end)
            # field; encodings with padding are produced by the library itself and checked by C04
            s = cs.S(p=1, e=E(v), q=2)
            raw = s.dumps()
            al = cs.S.fields["e"].offset
            expect(raw[al : al + len(enc)] == enc, "dump of a field", got=raw, **what)
            s2 = cs.S(raw)
            check_value(E, s2.e, v, st, named, what)
            expect((s2.p, s2.q) == (1, 2) and s2 == s and s2.dumps() == raw, "structure", got=repr(s2), **what)
            if not align:
                raw = b"\x02" + enc + enc2 + enc2 + enc + b"\x07"
                n = cs.N(raw)
                expect([type(x) for x in n.a] == [E, E] and [x.value for x in n.a] == [v, prev] and [x.value for x in n.f] == [prev, v]
                       and n.q == 7 and n.dumps() == raw, "arrays", got=repr(n), **what)
                check_value(E, n.a[0], v, st, named, what)
                check_value(E, n.f[1], v, st, named, what)
                if v and prev:
                    zero = encode(base, 0, end)
                    raw = enc + enc2 + enc + zero + b"\x09"
                    z = cs.Z(raw)
                    expect([x.value for x in z.z] == [v, prev, v] and all(type(x) is E for x in z.z) and z.q == 9 and z.dumps() == raw,
                           "null-terminated array", got=repr(z), **what)
                raw = b"\x01" + enc + enc2
                x = cs.X(raw)
                expect([y.value for y in x.r] == [v, prev] and all(type(y) is E for y in x.r) and x.dumps() == raw,
                       "to-end-of-stream array", got=repr(x), **what)
            if size:
                uenc = enc + bytes(cs.U.size - len(enc))
                u = cs.U(uenc)
                check_value(E, u.e, v, st, named, what)
                expect(u.dumps() == uenc and u.b == enc[0], "union", got=repr(u), **what)
                u = cs.U(bytes(cs.U.size))
                u.e = m
                expect(u.dumps() == uenc and u.b == enc[0] and u.e == m, "assignment to a union", got=repr(u), **what)
                a = (cs.E[3])(enc + enc2 + enc)
                expect([y.value for y in a] == [v, prev, v] and all(type(y) is E for y in a) and a.dumps() == enc + enc2 + enc,
                       "array type", got=repr(a), **what)
            prev = v
        expect(dict(E.__members__) == members and {m.value: n for n, m in reversed(E.__members__.items())} == named,
               "parsing changed the members", definition=text)
    st.trace()


def run_val(kind, base, st):
    run_values(kind, base, values(base), st)


def run_val16(kind, base, part, st):
    lo = -32768 if base == "int16" else 0
    run_values(kind, base, range(lo + part * 4096, lo + (part + 1) * 4096), st)


def run_bits(kind, base, st):
    skind, size, signed, _ = SCALARS[base]
    if skind == "l" or base.endswith("128"):
        return
    total = size * 8
    for width in range(1, total + 1):
        if total > 8 and width not in (1, 2, 3, 7, 8, 9, total // 2, total - 1, total):
            continue
        rest = total - width
        for end, compiled, align in (("<", True, False), (">", True, True), ("<", False, True), (">", False, False)):
            cs = cstruct(endian=end)
            text = f"{kind} E : {base} {{ {MEMBERS[kind]} }};\n{kind} O : {base} {{ {MEMBERS[kind]} }};\nstruct S {{ E e : {width};" + (
                f" {base} r : {rest};" if rest else "") + " uint8 t; };\n" + f"union U {{ E e : {width}; uint8 b; }};"
            cs.load(text, compiled=compiled, align=align)
            E = cs.E
            named = {m.value: n for n, m in reversed(E.__members__.items())}
            full = (1 << width) - 1
            vals = range(full + 1) if width <= 8 else sorted({0, 1, 5, 6, 100, full, full - 1, full >> 1, (full >> 1) + 1, 0x155 & full})
            for v in vals:
                what = dict(definition=text, endian=end, compiled=compiled, value=v)
                rv = (0x2AA5 ^ v) & ((1 << rest) - 1)
                unit = (v << rest) | rv if end == ">" else v | (rv << width)
                raw = unit.to_bytes(size, "big" if end == ">" else "little") + b"\x5e"
                raw += bytes(cs.S.size - len(raw))
                s = cs.S(raw)
                st.state()
                st.trans(2)
                check_value(E, s.e, v, st, named, what)
                expect((not rest or s.r == rv) and s.t == 0x5E and s.dumps() == raw, "bit-field structure", got=repr(s), dump=s.dumps(), **what)
                expect(s.e != cs.O(v) and not s.e == cs.O(v), "equal to a member of another enum", **what)
                kw = {"e": E(v), "t": 0x5E, **({"r": rv} if rest else {})}
                expect(cs.S(**kw).dumps() == raw and cs.S(**kw) == s, "constructed bit-field structure", **what)
                u = cs.U(raw[:cs.U.size])
                check_value(E, u.e, v, st, named, what)
    st.trace()


def run_eq(part, st):
    """Every pair of values of two enums, two flags and the same types of another instance."""
    text = "enum A : uint8 { X, Y, Z = 5, W = 5 }; enum B : uint8 { X, Y, Z = 5 }; flag F : uint8 { X, Y, Z = 5 }; flag G : uint16 { X, Y };"
    c1, c2 = cstruct().load(text), cstruct().load(text)
    types = [c.resolve(n) for c in (c1, c2) for n in "ABFG"]
    vals = (0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 127, 128, 254, 255)
    objs = []
    for T in types:
        for v in vals:
            objs.append((T, v, T(encode("uint8" if T.size == 1 else "uint16", v, "<"))))
        for m in T.__members__.values():
            objs.append((T, m.value, m))
    for i, (T, v, a) in enumerate(objs):
        if i % 16 != part:
            continue
        for U, w, b in objs:
            want = T is U and v == w
            expect((a == b) is want and (a != b) is not want, "comparison", a=repr(a), b=repr(b), classes=(T, U), want=want)
            if want:
                expect(hash(a) == hash(b) and len({a, b}) == 1, "hashes of equal values", a=repr(a), b=repr(b))
            else:
                expect(len({a, b}) == 2 and b not in [a] and {a: 1}.get(b) is None, "different values treated as one", a=repr(a), b=repr(b))
            st.state()
            st.trans()
        for w in vals:
            expect((a == w) is (v == w) and (w == a) is (v == w) and (a != w) is (v != w), "comparison with an integer", a=repr(a), b=w)
        for other in (None, "x", 1.5, b"\x01", [], cstruct):
            expect(not a == other and a != other, "comparison with something else", a=repr(a), b=other)
    st.trace()


def run_alias(st):
    """Members sharing a value stay distinct names with that value."""
    for kind in ("enum", "flag"):
        for first, second in product(range(4), repeat=2):
            cs = cstruct().load(f"{kind} E : uint8 {{ A = {first}, B = {second}, C = {first}, D = {second} }};")
            got = {n: (m.name, m.value) for n, m in cs.E.__members__.items()}
            want = {n: (n, v) for n, v in zip("ABCD", (first, second, first, second))}
            expect(got == want, "members sharing a value", kind=kind, got=got, want=want)
            for n, (_, v) in want.items():
                m = getattr(cs.E, n)
                expect(m.value == v and m.name == n and m == cs.E(v) and hash(m) == hash(cs.E(v)) and m == cs.E(bytes([v])) and
                       m.dumps() == bytes([v]), "member sharing a value", kind=kind, name=n)
            st.state()
    st.trace()
