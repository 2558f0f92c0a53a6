"""C10 Expressions evaluate with C precedence and associativity, repeatably."""
import sys
from functools import lru_cache
from io import BytesIO
from itertools import product

from mc import cexpr, impl  # noqa: F401
from mc.cexpr import CExprError, Undefined
from mc.impl import tup
from mc.props.common import expect

from dissect.cstruct import cstruct
from dissect.cstruct.expression import Expression

PROP = "C10"
LIMIT = 120
RULE = ("every token string of the grammar (operands, unary - ~, 10 binary operators, parentheses incl. redundant ones) "
        "up to 10 tokens (quick) / 11-12 (thorough), each with 3 operand vectors mixing literals, context identifiers, "
        "constants and sizeof, 2 spacings; every literal form x suffix x magnitude; identifier names; sizeof of every "
        "built-in and user type; all evaluation histories up to 3 steps over contexts / failing contexts / redefined "
        "constants and types on one expression object; the same expressions as array lengths (parsed repeatedly), enum "
        "values and #define constants")
ASSUMPTIONS = ["division/modulo with a negative operand, division by zero and negative shift counts are outside the "
               "property's domain (skipped)"]
BIN = ("*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|")
UN = ("-", "~")


# ---------------------------------------------------------------- grammar
@lru_cache(None)
def prim(n):
    """Skeletons of primaries with n tokens: x | ( expr ) | U prim."""
    out = []
    if n == 1:
        out.append("x")
    if n >= 2:
        out += ["U" + s for s in prim(n - 1)]
    if n >= 3:
        out += ["(" + s + ")" for s in expr(n - 2)]
    return tuple(out)


@lru_cache(None)
def expr(n):
    out = list(prim(n))
    for k in range(1, n - 1):
        out += [a + "B" + b for a in prim(k) for b in expr(n - 1 - k)]
    return tuple(out)


def weight(sk):
    return 10 ** sk.count("B") * 2 ** sk.count("U")


# operand vectors: (text, kind); kinds resolve through literal, context, constant or sizeof
VECTORS = [
    ("7", "3", "b", "2", "K5", "6", "9"),
    ("a", "K5", "0x3", "sizeof(uint16)", "1", "b", "2"),
    ("BIG", "b", "0b11", "a", "0x100000001u", "3", "010"),
]
CTX = {"a": 13, "b": 2}
CTX2 = {"a": 5, "b": 3, "K5": 1}
CONSTS = {"K5": 5, "BIG": (1 << 70) + 9, "a": 1000, "Z": 0, "N": 4}


def render(sk, ops, operands, spaced):
    out, o, b = [], iter(ops), iter(operands)
    for c in sk:
        out.append(next(b) if c == "x" else next(o) if c in "BU" else c)
    if spaced:
        return " ".join(out)
    text = ""
    for t in out:
        text += (" " if text.endswith("-") and t == "-" else "") + t
    return text


def opsets(sk):
    return product(*[BIN if c == "B" else UN for c in sk if c in "BU"])


def fresh():
    cs = cstruct()
    cs.consts.update(CONSTS)
    cs.load("struct S12 { uint32 a; uint8 b[8]; }; typedef S12 S_t; union U5 { uint8 x[5]; uint16 y; };"
            "enum EN : uint16 { A }; typedef struct { uint8 q[3]; } u3;")
    return cs


SIZES = {"uint16": 2, "S12": 12, "S_t": 12, "U5": 5, "EN": 2, "u3": 3}


def oracle(text, ctx, consts=CONSTS, sizes=SIZES):
    return cexpr.evaluate(text, ctx, consts, lambda n: sizes[n])


def deep_oracle(text, ctx):
    """The oracle descends recursively; the implementation gets the interpreter's normal limit."""
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20000)
    try:
        return oracle(text, ctx)
    finally:
        sys.setrecursionlimit(limit)


# ---------------------------------------------------------------- cases
def cases(tier):
    yield ["caller", 0]
    yield ["names", 0]
    yield ["sizeof", 0]
    for op in BIN:
        yield ["long", op]
    for form in range(8):
        yield ["lit", form]
    full = 8 if tier == "quick" else 9
    part = 10 if tier == "quick" else 12
    for n in range(1, part + 1):
        for sk in expr(n):
            w = weight(sk)
            if n > full and (w > (2e4 if tier == "quick" else 2e5) or w < 1e3):
                continue
            # deeper strings only where all nesting is informative: no redundant parentheses
            if n > full and ("((" in sk and "))" in sk or "(x)" in sk or sk.startswith("(") and sk.endswith(")") or
                             "(U" in sk or "UU" in sk):
                continue
            heads = BIN if w >= 1e4 else (None,)
            for h in heads:
                yield ["e", [sk, h]]
    for n in range(1, 6 if tier == "quick" else 7):
        for sk in expr(n):
            yield ["hist", sk]
            yield ["len", sk]
            yield ["val", sk]


def run(case, st):
    globals()["run_" + case[0]](tup(case[1]), st)


CS = None


def cs_():
    global CS
    if CS is None:
        CS = fresh()
    return CS


def ev(e, ctx):
    return e.evaluate(dict(ctx))


def run_e(arg, st):
    sk, head = arg
    cs = cs_()
    nx = sk.count("x")
    first = [c for c in sk if c in "BU"].index("B") if head else None
    for ops in opsets(sk):
        if head and ops[first] != head:
            continue
        for i, vec in enumerate(VECTORS):
            text = render(sk, ops, vec[:nx] if nx <= 7 else (vec * 2)[:nx], i == 1)
            try:
                want = oracle(text, CTX)
            except Undefined:
                st.count("outside_domain")
                continue
            st.state()
            e = Expression(cs, text)
            got = ev(e, CTX)
            st.trans()
            if got != want:
                expect(False, "value", None, text=text, got=got, expected=want)
            if i == 0:
                got = ev(e, CTX)
                st.trans()
                if got != want:
                    expect(False, "value when evaluated again", None, text=text, got=got, expected=want)
            st.trace()
    st.outcome((sk, head))


STEPS = ("ctx", "ctx2", "none", "missing", "redef", "retype", "boom")


def run_hist(sk, st):
    """All histories of up to 3 evaluations/changes on one expression object, followed by an evaluation."""
    nx = sk.count("x")
    vecs = [("a", "b", "K5", "2"), ("N", "sizeof(VAR)", "Q", "3"), ("Q", "N", "a", "b")]
    hs = [h for n in (1, 2, 3) for h in product(STEPS, repeat=n)]
    allops = list(opsets(sk))
    if len(allops) > 20:
        hs = [h for h in hs if len(h) < 3]
    for ops in allops:
        for vec in vecs:
            text = render(sk, ops, vec[:nx], False)
            for h in hs:
                cs = cstruct()
                cs.consts.update(CONSTS)
                cs.add_type("VAR", "uint16")
                consts, sizes = dict(CONSTS), {"VAR": 2}
                e = Expression(cs, text)
                for step in (*h, "ctx", "ctx2"):
                    st.trans()
                    if step == "redef":
                        consts["N"] += 2
                        consts["K5"] += 1
                        cs.consts.update(consts)
                        continue
                    if step == "retype":
                        sizes["VAR"] = 6 - sizes["VAR"]
                        cs.add_type("VAR", {2: "uint16", 4: "uint32"}[sizes["VAR"]], replace=True)
                        continue
                    ctx = {"ctx": {**CTX, "Q": 4}, "ctx2": {**CTX2, "Q": 9}, "none": None, "missing": {"a": 1},
                           "boom": {"a": "x", "b": "y", "Q": None}}[step]
                    try:
                        want = cexpr.evaluate(text, ctx, consts, lambda n: sizes[n])
                    except Undefined:
                        want = Undefined
                    except (CExprError, ValueError, TypeError):
                        want = None
                    try:
                        got = e.evaluate(ctx)
                    except Exception:  # noqa: BLE001
                        got = None
                    if want is not Undefined and got != want:
                        expect(False, "value after a history", None, text=text, history=h, at=step, got=got,
                               expected=want)
                st.trace()
            st.state()


def run_len(sk, st):
    """As array length: the field context, the clamp at zero and repeated parsing with the same type."""
    nx = sk.count("x")
    srcs = [("a", "b", "2"), ("N", "a", "b"), ("b", "3", "a"), ("sizeof(uint16)", "a", "N")]
    inputs = [(3, 2), (0, 0), (1, 5), (7, 1), (3, 2)]
    for ops in opsets(sk):
        for vec in srcs:
            text = render(sk, ops, vec[:nx], True)
            for comp in (True, False):
                cs = cstruct()
                cs.consts["N"] = 4
                cs.consts["a"] = 200
                T = cs.load(f"struct T {{ uint8 a; uint8 b; uint8 x[{text}]; uint8 z; }};", compiled=comp).T
                st.state()
                for a, b in inputs:
                    try:
                        want = max(0, cexpr.evaluate(text, {"a": a, "b": b}, {"N": 4}, lambda n: 2))
                    except Undefined:
                        continue
                    if want > 600:
                        continue
                    fh = BytesIO(bytes([a, b]) + bytes(i & 0xFF for i in range(want)) + b"\x77" * 8)
                    obj = T(fh)
                    st.trans()
                    if not (len(obj.x) == want and obj.z == 0x77 and fh.tell() == 3 + want):
                        expect(False, "array length", None, text=text, compiled=comp, a=a, b=b, got=len(obj.x),
                               expected=want)
                    st.trace()


def run_val(sk, st):
    """As #define constants and enum/flag values (earlier members visible)."""
    nx = sk.count("x")
    vec = ("N", "M1", "3", "M2")[:nx]
    for ops in opsets(sk):
        text = render(sk, ops, vec, True)
        ctx = {"M1": 6, "M2": 1}
        try:
            want = cexpr.evaluate(text, ctx, {"N": 4, "M1": 99})
        except Undefined:
            continue
        st.state()
        cs = cstruct()
        cs.load(f"#define N 4\n#define M1 99\nenum E : int64 {{ M1 = 6, M2 = 1, X = {text}, Y, Z = {text} }};\n"
                + (f"flag G : uint64 {{ M1 = 6, M2 = 1, X = {text}, Y }};" if want >= 0 else ""))
        ok = cs.E.X.value == want and cs.E.Y.value == want + 1 and cs.E.Z.value == want
        expect(ok, "enum value", None, text=text, got=[cs.E.X.value, cs.E.Y.value, cs.E.Z.value], expected=want)
        if want >= 0:
            nxt = 1 << want.bit_length() if want else 1
            expect(cs.G.X.value == want and cs.G.Y.value == nxt, "flag value", None, text=text,
                   got=[cs.G.X.value, cs.G.Y.value], expected=[want, nxt])
        text2 = text.replace("M1", "K").replace("M2", "K2")
        want = cexpr_or(text2, {"N": 4, "K": 6, "K2": 1})
        if want is not Undefined:
            cs.load(f"#define K 6\n#define K2 1\n#define R {text2}\n#define R2 ({text2}) // c\n")
            expect(cs.consts["R"] == want == cs.consts["R2"] and isinstance(cs.consts["R"], int), "constant", None,
                   text=text2, got=[cs.consts["R"], cs.consts["R2"]], expected=want)
        st.trans(3)
        st.trace()


def cexpr_or(text, consts):
    try:
        return cexpr.evaluate(text, {}, consts)
    except Undefined:
        return Undefined


def run_lit(form, st):
    cs = cs_()
    vals = list(range(0, 300)) + sorted({v for k in range(8, 140) for v in (1 << k, (1 << k) - 1, (1 << k) + 1)})
    vals += [0xABCDEF, 0xBADC0DE, 0xB, 0xB0B, 0xDEADBEEFCAFE]
    suffixes = ["", "u", "l", "U", "L", "ul", "UL", "lu", "LU", "Ul", "uL", "ll", "LL", "ull", "ULL", "llu", "LLU", "uLL"]
    fmt = ["{:d}", "0x{:x}", "0X{:X}", "0x{:X}", "0b{:b}", "0B{:b}", "0{:o}", "0x00{:x}"][form]
    for v in vals:
        if form == 6 and v == 0:
            pass
        for s in suffixes:
            lit = fmt.format(v) + s
            for text, f in ((lit, lambda v: v), (f"-{lit}", lambda v: -v), (f"~{lit}+1", lambda v: ~v + 1),
                            (f"({lit})", lambda v: v), (f"{lit}*3", lambda v: v * 3), (f"1+{lit}", lambda v: 1 + v),
                            (f"{lit}<<1", lambda v: v << 1), (f" {lit} ", lambda v: v), (f"\t{lit}\t-{lit}", lambda v: 0),
                            (f"{lit}-b", lambda v: v - 2), (f"b+{lit}|0", lambda v: 2 + v)):
                st.state()
                got = ev(Expression(cs, text), CTX)
                st.trans()
                if got != f(v):
                    expect(False, "literal", None, text=text, got=got, expected=f(v))
    st.trace()


NAMES = ["a", "b", "u", "l", "U", "L", "ul", "e", "x", "x1", "b1", "o", "o7", "A", "F", "ff", "deadbeef", "_", "__", "_1",
         "_a", "a_", "sizeofx", "sizeof_", "SIZEOF", "u8", "L2", "name", "longer_name_2", "i", "None", "EOF2", "self", "cls",
         "Expression", "len", "int", "queue", "stack", "B0", "X0", "l1", "u_", "or", "and", "not", "if", "in"]


def run_names(_, st):
    cs = cstruct()
    for i, n in enumerate(NAMES):
        cs.consts[n] = 100 + i
    forms = ["{}", "-{}", "~{}", "({})", "{}+1", "1+{}", "3-{}", "{}*{}", "{}-{}", "{} - -{}", "{}<<2", "2 | {}", "~-{}",
             "-{}-{}", "({}-1)-{}", "0x10+{}", "7-{}u".replace("u", ""), "{}%7", "-({})"]
    for i, n in enumerate(NAMES):
        for form in forms:
            text = form.replace("{}", n)
            for ctx in (None, {}, {n: 7 + i}, {"other": 3}, {n: 0}):
                want = cexpr.evaluate(text, ctx, cs.consts)
                e = Expression(cs, text)
                st.state()
                got = [e.evaluate(ctx), e.evaluate(ctx), e.evaluate({n: 3}), e.evaluate(ctx)]
                st.trans(4)
                ok = got == [want, want, cexpr.evaluate(text, {n: 3}), want]
                expect(ok, "identifier", None, text=text, context=ctx, got=got, expected=want)
        for m in NAMES:
            if m != n:
                text = f"{n}-{m}*2"
                got = Expression(cs, text).evaluate({m: 5})
                expect(got == cs.consts[n] - 10, "context before constants", None, text=text, got=got)
                st.trans()
    st.trace()


LENGTHS = (*range(2, 22), 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200)


def run_long(op, st):
    """Long chains of every pair of operators, deep nesting on either side, long rows of unary operators."""
    cs = cs_()
    vals = ("a", "3", "0x2", "b", "sizeof(uint16)", "1", "K5", "0b11")
    for op2 in BIN:
        for n in LENGTHS:
            opnds = [vals[i % 8] for i in range(n)]
            ops = [(op, op2)[i % 2] for i in range(n - 1)]
            if "<<" in ops:
                opnds = [opnds[0]] + ["b" if i % 3 else "1" for i in range(n - 1)]
            chain = opnds[0] + "".join(f" {o} {x}" for o, x in zip(ops, opnds[1:]))
            half = n // 2
            texts = [chain, chain.replace(" ", ""), f"({chain}) {op} b", f"1 + ({chain})",
                     "".join(f"{o} {x} " for o, x in zip([""] + ops[:half], opnds)) + f"{op2} 1 {op} ({chain})"]
            left, right = opnds[0], opnds[-1]
            for i in range(1, n):
                left = f"({left}{ops[i - 1]}{opnds[i]})"
                right = f"({opnds[-1 - i]} {ops[-i]} {right})"
            texts += [left, left[1:-1] + f" {op2} 1", f"b {op2} {left} {op} 3", "(" * n + "a" + ")" * n + f" {op} b {op2} 1"]
            if "<<" not in ops and ">>" not in ops:
                texts += [right, right[1:-1], f"b {op} {right}"]
            if n < 70:
                texts += [f"{'~' * n}a {op} {'- ' * n}b", f"a {op} {'~-' * n}b {op2} 1", f"b {op} {'-(' * n}a {op2} 1{')' * n}"]
            for text in texts:
                try:
                    want = deep_oracle(text, CTX)
                except Undefined:
                    st.count("outside_domain")
                    continue
                st.state()
                e = Expression(cs, text)
                got = [ev(e, CTX), ev(e, CTX)]
                st.trans(2)
                expect(got == [want, want], "long expression", None, text=text, got=got, expected=want)
                st.trace()
        # many different names, long names, big numbers
        for n in (5, 33, 130):
            ctx = {f"v{'_' * (i % 40)}{i}": i * i + 1 for i in range(n)}
            names = list(ctx)
            text = f" {op} ".join(f"({x} {op2} 1)" for x in names) if op not in ("<<",) else f" {op2} ".join(
                f"({x} - {(1 << 200) + i})" for i, x in enumerate(names))
            try:
                want = deep_oracle(text, ctx)
            except (Undefined, OverflowError, MemoryError):
                continue
            got = Expression(cs, text).evaluate(ctx)
            st.state()
            st.trans()
            expect(got == want, "many names", None, text=text, got=got, expected=want)


def run_sizeof(_, st):
    cs = cs_()
    names = [n for n in cs.typedefs if n not in ("CHAR",) and cs.resolve(n).size is not None]
    for n in names:
        size = cs.resolve(n).size
        for text, want in ((f"sizeof({n})", size), (f"-sizeof({n})", -size), (f"~sizeof({n})", ~size),
                           (f"sizeof( {n} )", size), (f"sizeof ({n})", size), (f"sizeof({n})*2", size * 2),
                           (f"2*sizeof({n})+1", 2 * size + 1), (f"(sizeof({n}))", size), (f"20-(sizeof({n})-1)", 21 - size),
                           (f"sizeof({n})+sizeof(uint16)", size + 2), (f"1<<sizeof({n})", 1 << size),
                           (f"b*(1+sizeof({n}))-a", 2 * (1 + size) - 13)):
            st.state()
            e = Expression(cs, text)
            got = [ev(e, CTX), ev(e, CTX)]
            st.trans(2)
            expect(got == [want, want], "sizeof", None, text=text, got=got, expected=want)
    for ptr in ("uint32", "uint64"):
        c = cstruct(pointer=ptr)
        c.load("struct P { uint8 *p; };")
        expect(Expression(c, "sizeof(P)").evaluate() == c.pointer.size, "sizeof of a pointer structure")
    st.trace()


def run_caller(_, st):
    """Constants: earlier constants only, comments, redefinition, literal forms through #define."""
    cs = cstruct()
    for lit, want in (("10", 10), ("0x10", 16), ("010", 8), ("0b10", 2), ("10u", 10), ("0x10ULL", 16), ("-1", -1),
                      ("(1)", 1), ("~0", -1), ("0", 0), ("00", 0), ("007", 7), ("0XfF", 255), ("1 << 4", 16),
                      ("(1<<4)|1", 17), ("sizeof(uint32)", 4), ("2 - 1", 1), ("10-2-3", 5), ("- 1", -1), ("+5", 5)):
        cs.load(f"#define C {lit}\n")
        st.state()
        st.trans()
        expect(cs.consts["C"] == want and type(cs.consts["C"]) is int, "constant", None, text=lit, got=cs.consts["C"],
               expected=want)
    cs.load("#define A 3\n#define B A * 2\n#define C B + A\n#define A 10\n#define D C + A\n")
    expect((cs.consts["B"], cs.consts["C"], cs.consts["D"]) == (6, 9, 19), "constants over constants")
    st.trace()
