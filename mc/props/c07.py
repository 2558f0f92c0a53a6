"""C07 Array length semantics: fixed, expression, null-terminated and to-end-of-stream."""
from io import BytesIO
from itertools import product

from mc import cexpr, impl, ref, space
from mc.impl import tup
from mc.props.common import cfgname, expect
from mc.ref import SCALARS, Cfg, Model, NotCanonical, RefEOF
from mc.space import ENV, A, F, P, S, st

from dissect.cstruct import cstruct
from dissect.cstruct.expression import Expression

PROP = "C07"
LIMIT = 200
RULE = ("every element type (all scalars, enums, flags, pointers, structures, unions, bit-field and dynamic structures, "
        "nested arrays) x every length form (fixed 0..5, expression, null-terminated, to-end-of-stream, 2- and 3-dimensional combinations) x "
        "every sequence of <=4 element tokens (zero, several non-zero, partial-zero bytes) x every cut of the input x "
        "counter values 0..4, as structure member (compiled, interpreted, packed, aligned, both byte orders) and as type "
        "on its own; all short byte strings over {0,1,2,ff}; every length expression of a list over fields of every "
        "integer-like kind, constants and shadowing combinations; dumps of every wrong element count; the model "
        "(list semantics of mc.ref) decides value, consumption, errors and the dump of each")
ASSUMPTIONS = ["NaN and invalid UTF-16 are outside the domain", "to-end-of-stream arrays of zero-size elements are "
               "outside the domain", "unions, structures inside null-terminated arrays end at an all-zero element"]

PT, DYN, BITS, UN = space.PT, space.DYN, space.BITS, space.UN
TAILPAD = st("TP", F("x", S("uint32")), F("y", S("uint8")))
ONEB = st("OB", F("x", S("uint8")))
ELEMS = {n: S(n) for n in SCALARS if n != "void"}
ELEMS.update({e: ("e", e) for e in ("E8", "E16", "E24", "E32S", "F8", "F16", "F24", "G8S", "E48")})
ELEMS.update({"p": P(S("uint8")), "PT": PT, "DYN": DYN, "BITS": BITS, "UN": UN, "TP": TAILPAD, "OB": ONEB,
              "u8[2]": A(S("uint8"), 2), "u16[2]": A(S("uint16"), 2), "char[2]": A(S("char"), 2),
              "wchar[2]": A(S("wchar"), 2), "PT[2]": A(PT, 2), "i24[2]": A(S("int24"), 2), "E16[2]": A(("e", "E16"), 2),
              "u8[2][2]": A(A(S("uint8"), 2), 2), "leb[2]": A(S("uleb128"), 2), "p[2]": A(P(S("uint8")), 2)})
NO_ZERO = ("u8[2]", "u16[2]", "char[2]", "wchar[2]", "PT[2]", "i24[2]", "E16[2]", "u8[2][2]", "leb[2]", "p[2]", "p")


def cases(tier):
    yield ["wrong", 0]
    yield ["exprs", 0]
    yield ["shadow", 0]
    yield ["api", 0]
    yield ["dims", 0]
    yield ["big", 0]
    for e in ELEMS:
        for form in ("fixed", "expr", "zero", "eof"):
            if form == "zero" and e in NO_ZERO:
                continue
            yield ["large", [e, form, tier]]
    for e in ("char", "wchar", "uint8", "uint16", "int24", "uleb128", "E8", "E16", "OB"):
        yield ["lengths", [e, tier]]
    for e in ELEMS:
        for form in ("fixed", "expr", "zero", "eof"):
            if form == "zero" and e in NO_ZERO:
                continue
            yield ["form", [e, form, tier]]
    for e in ("uint8", "int16", "uint24", "char", "wchar", "uleb128", "E8", "PT", "u8[2]", "OB", "F16", "DYN"):
        for form in ("expr", "zero", "eof"):
            if form == "zero" and e in NO_ZERO:
                continue
            yield ["bytes", [e, form, 6 if tier == "quick" else 8]]


def run(case, st_):
    globals()["run_" + case[0]](tup(case[1]), st_)


def model_of(cfg):
    return Model(ENV, cfg)


def struct_of(elem, form, count=None):
    if form == "fixed":
        return st("T", F("h", S("uint8")), F("x", A(elem, count)), F("t", S("uint8")))
    if form == "expr":
        return st("T", F("n", S("uint8")), F("x", A(elem, ("x", "n"))), F("t", S("uint8")))
    if form == "zero":
        return st("T", F("h", S("uint8")), F("x", A(elem, ("z",))), F("t", S("uint8")))
    return st("T", F("h", S("uint8")), F("x", A(elem, ("eof",))))


def tokens(elem, model):
    """Encodings of some elements: the zero element and several non-zero ones."""
    out = []
    for k in (0, 1, 2, 3, 5):
        v = space.Filler(model, k).fill(elem)
        try:
            raw = model.encode(elem, v)
            if model.decode(elem, raw)[0] != v:
                continue
        except NotCanonical:
            continue
        if raw not in out:
            out.append(raw)
    size = model.size(elem)
    if size and elem[0] in "sea" and elem[1] not in ("float16", "float", "double"):
        for raw in (b"\x01" + bytes(size - 1), bytes(size - 1) + b"\x01"):
            if raw not in out:
                out.append(raw)
    zero = [r for r in out if not any(r)]
    return zero[:1], [r for r in out if any(r)][:3]


def judge(T, t, model, data, st_, what):
    """One parse (and dump) against the model."""
    want = used = None
    try:
        want, used = model.decode(t, data)
        if used > len(data):
            return  # only trailing padding is missing: C08's business
    except RefEOF:
        pass
    except NotCanonical:
        return
    fh = BytesIO(data)
    st_.trans()
    try:
        obj = T(fh)
    except EOFError:
        if want is None:
            st_.count("truncated_rejected")
            return
        expect(False, "complete input rejected", None, what=what, data=data, expected=want)
    if want is None:
        expect(False, "truncated input gave a value", None, what=what, data=data, got=obj)
    got = impl.norm(t, obj, ENV)
    if got != want:
        expect(False, "array contents", None, what=what, data=data, got=got, expected=want)
    if fh.tell() != used:
        expect(False, "position after the array", None, what=what, data=data, got=fh.tell(), expected=used)
    x = obj.x if t[0] == "st" else obj
    mx = dict(want[1:])["x"] if t[0] == "st" else want
    n = len(mx) - 1 if isinstance(mx, tuple) else len(mx)
    if len(x) != n:
        expect(False, "number of elements", None, what=what, data=data, got=len(x), expected=n)
    enc = model.encode(t, want)
    out = obj.dumps() if t[0] == "st" else T.dumps(obj)
    st_.trans()
    if out != enc:
        expect(False, "dumped array", None, what=what, data=data, got=out, expected=enc)
    st_.trace()


def run_form(arg, st_):
    en, form, tier = arg
    elem = ELEMS[en]
    structy = elem[0] in ("st", "un") or elem[0] == "a" and elem[1][0] == "st"
    for end in "<>":
        for align in (False, True) if structy else (False, True):
            for comp in (True, False):
                cfg = Cfg(end, align, "uint32", comp)
                model = model_of(cfg)
                zero, non = tokens(elem, model)
                toks = (zero + non)[:4]
                counts = range(6) if form == "fixed" else (None,)
                for count in counts:
                    t = struct_of(elem, form, count)
                    cs = impl.build(t, ENV, cfg)
                    T, what = cs.T, f"{ref.text(t, ENV)} [{cfgname(cfg)}]"
                    XT = T.fields["x"].type
                    st_.state()
                    datas = []
                    al = model.alignment(elem) if align else 1
                    h = {"expr": None}.get(form, b"\x5a")
                    for k in range(0, 4 if count is None else 1):
                        for seq in product(toks, repeat=k):
                            body = b"".join(seq)
                            if form == "expr":
                                for n in {k, max(0, k - 1), k + 1, 0, 4}:
                                    datas.append((bytes([n]), body, k == n and k < 3 or n <= 1))
                            elif form == "zero":
                                datas.append((h, body + (zero[0] if zero else b""), k < 3))
                            else:
                                datas.append((h, body, k < 3))
                    if count is not None:
                        base = toks * 6
                        for s in range(len(toks)):
                            datas.append((h, b"".join(base[s : s + count]), count < 4))
                            datas.append((h, b"".join(base[s : s + max(0, count - 1)]), False))
                            datas.append((h, toks[s] * (count + 1), False))
                    for h_, body, cuts in datas:
                        whole = h_ + bytes([0x99]) * (-1 % al) + body
                        datalist = [whole + b"\x7e" * (0 if form == "eof" else al + 20), whole]
                        if cuts:
                            datalist += [whole[:c] for c in range(len(whole))]
                        for data in datalist:
                            judge(T, t, model, data, st_, what)
                            if form != "expr" and comp and not align:
                                xt = t[2][1][1]
                                judge(XT, xt, model, data[1:], st_, what + " on its own")


def run_bytes(arg, st_):
    """Every byte string over a small alphabet."""
    en, form, length = arg
    elem = ELEMS[en]
    alpha = (0, 1, 2, 0xFF) if en != "uleb128" else (0, 1, 0x7F, 0x80)
    for end in "<>":
        for comp in (True, False):
            cfg = Cfg(end, False, "uint32", comp)
            model = model_of(cfg)
            t = struct_of(elem, form)
            T = impl.build(t, ENV, cfg).T
            what = f"{ref.text(t, ENV)} [{cfgname(cfg)}]"
            for n in range(length + 1):
                for p in product(alpha, repeat=n):
                    data = b"\x02" + bytes(p) if form == "expr" else b"\x5a" + bytes(p)
                    st_.state()
                    judge(T, t, model, data, st_, what)


# ---------------------------------------------------------------- dimensions
def run_dims(_, st_):
    inner = {"u8": S("uint8"), "u16": S("uint16"), "i24": S("int24"), "char": S("char"), "wchar": S("wchar"),
             "E16": ("e", "E16"), "PT": PT, "p": P(S("uint8")), "float": S("float")}
    forms = [(2, 3), (3, 2), (1, 1), (2, 1), (1, 3), (0, 2), (2, 0), (2, 3, 2), (1, 2, 3), (("x", "n"), 2),
             (2, ("x", "n")), (("x", "n"), ("x", "n + 1")), (("x", "n"), 2, ("x", "m")), (2, ("x", "m"), ("x", "n")),
             (("eof",), 2), (("eof",), ("x", "n")), (("eof",), 2, 3), (("x", "m"), ("x", "n")), (3, ("x", "CN")), (("x", "CN"), 2),
             (2, ("z",)), (3, ("z",)), (("x", "n"), ("z",)), (2, 2, ("z",)), (("eof",), ("z",))]
    for (en, elem), dims in product(inner.items(), forms):
        if ("z",) in dims and en == "p":
            continue
        t = elem
        for d in reversed(dims):
            t = A(t, d)
        eof = dims[0] == ("eof",)
        T = st("T", F("n", S("uint8")), F("m", S("uint8")), F("x", t), *([] if eof else [F("t", S("uint8"))]))
        for end, comp, align in product("<>", (True, False), (False, True)):
            cfg = Cfg(end, align, "uint32", comp)
            model = model_of(cfg)
            cs = impl.build(T, ENV, cfg)
            for n, m in product((0, 1, 2, 3), (0, 1, 2)):
                st_.state()
                es = model.size(elem)
                if eof and dims[1] != ("z",) and ("x", "n") in dims and n == 0:
                    continue
                for fill in range(3):
                    if ("z",) in dims:
                        rows = [bytes(es), b"\x31" * es + bytes(es), b"\x32" * es * 3 + bytes(es)]
                        al = model.alignment(elem) if align else 1
                        data = bytes([n, m]) + b"\x11" * (-2 % al) + b"".join(
                            rows[(i * 2 + fill) % 3] for i in range(12 if not eof else fill * 2))
                        judge(cs.T, T, model, data, st_, f"{ref.text(T, ENV)} [{cfgname(cfg)}]")
                        continue
                    body = bytes((i * 7 + 3 + fill) % 90 + 1 if fill else 0x30 + i % 60 for i in range(120 * es if not eof else (6, 12, 13)[fill] * es + fill))
                    al = model.alignment(elem) if align else 1
                    data = bytes([n, m]) + b"\x11" * (-2 % al) + body
                    what = f"{ref.text(T, ENV)} [{cfgname(cfg)}]"
                    judge(cs.T, T, model, data, st_, what)
                    # C order: element [i][j].. is the flat element (i*d1 + j)..
                    if all(isinstance(d, int) for d in dims) and en == "u8" and 0 not in dims:
                        obj = cs.T(data)
                        flat = flatten(obj.x)
                        base = cs.T.fields["x"].offset
                        expect(flat == list(data[base : base + len(flat)]), "C order", None, what=what, got=obj.x)
    # rows cannot be null-terminated themselves
    for text in ("uint8 x[][2];", "uint8 x[][];", "char x[][2];", "uint8 n; uint8 x[][n];", "uint8 x[2][][2];"):
        for comp in (True, False):
            try:
                cstruct().load(f"struct T {{ {text} }};", compiled=comp)
            except Exception:  # noqa: BLE001
                st_.trans()
                continue
            expect(False, "open inner dimension accepted", None, text=text)


def flatten(x):
    return [z for y in x for z in flatten(y)] if isinstance(x, list) else [int(x)]


# ---------------------------------------------------------------- expressions
EXPRS = ["n", "n+1", "n-2", "n - 3", "2-n", "n*2", "CN", "CN-n", "n<<1", "n&3", "sizeof(uint16)*n", "(n)", "-n", "n/2", "n%3",
         "0x2", "010", "~n+4", "n|m", "n^m", "m-n", "n-m", "n*m", "(n+m)*2", "n+m*2", "n>>1", "0b11", "3u", "-1", "-5 + 2",
         "CN*n", "sizeof(PT)", "n - CN", "(n & 1) + (m & 1)", "~0", "~(-3)", "1 + 1", "7 - 2 - 2", "8 / 2 / 2", "1 << 1 << 1", "2 | 1 & 0", "0"]


def run_exprs(_, st_):
    """Counters of every integer-like kind; negative lengths are zero; repeated use of one type."""
    kinds = {"uint8": ("uint8", 1, lambda v, o: v.to_bytes(1, o)), "int8": ("int8", 1, lambda v, o: v.to_bytes(1, o, signed=True)),
             "uint16": ("uint16", 2, lambda v, o: v.to_bytes(2, o)), "int24": ("int24", 3, lambda v, o: v.to_bytes(3, o, signed=True)),
             "uint64": ("uint64", 8, lambda v, o: v.to_bytes(8, o)), "uint128": ("uint128", 16, lambda v, o: v.to_bytes(16, o)),
             "uleb128": ("uleb128", 1, lambda v, o: bytes([v])), "E": ("E", 2, lambda v, o: v.to_bytes(2, o)),
             "G": ("G", 4, lambda v, o: v.to_bytes(4, o)), "ileb128": ("ileb128", 1, lambda v, o: bytes([v & 0x7F]))}
    for (kn, (tn, _, enc)), text in product(kinds.items(), EXPRS):
        for end, comp, elem in product("<>", (True, False), ("uint8", "uint16", "uint24", "char", "wchar", "E")):
            if elem not in ("uint8", "uint24") and kn != "uint8":
                continue
            o = "little" if end == "<" else "big"
            cs = cstruct(endian=end)
            cs.load("#define CN 3\n#define n 77\nenum E : uint16 { A = 1 }; flag G : uint32 { X = 1 };"
                    "struct PT { uint8 x; uint16 y; };")
            cs.load(f"struct T {{ {tn} n; {tn} m; {elem} x[{text}]; uint8 t; uint16 y[{text}]; }};", compiled=comp)
            es = len(cs.resolve(elem))
            st_.state()
            for n, m in ((0, 0), (1, 2), (3, 1), (2, 5), (-1, 1), (5, -4), (3, 1)):
                if (n < 0 or m < 0) and not kn.startswith("i"):
                    continue
                try:
                    want = cexpr.evaluate(text, {"n": n, "m": m}, {"CN": 3, "n": 77}, {"uint16": 2, "PT": 3}.get)
                except cexpr.Undefined:
                    continue
                want = max(0, want)
                body = bytes(0x41 + i % 20 for i in range(want * es))
                if elem == "wchar":
                    body = b"".join("A".encode("utf-16-le" if end == "<" else "utf-16-be") for i in range(want))
                data = enc(n, o) + enc(m, o) + body + b"\x7a" + bytes(range(1, 2 * want + 1))
                fh = BytesIO(data + b"!!")
                obj = cs.T(fh)
                st_.trans(2)
                ok = len(obj.x) == want and obj.t == 0x7A and len(obj.y) == want and fh.tell() == len(data)
                expect(ok, "array length", None, text=text, counter=tn, elem=elem, compiled=comp, n=n, m=m, expected=want,
                       got=(len(obj.x), len(obj.y)))
                expect(obj.dumps() == data, "dump", None, text=text, counter=tn, elem=elem, got=obj.dumps(), data=data)
                st_.trace()


def run_shadow(_, st_):
    """Which name a length refers to: fields parsed before, then constants; EOF; anonymous members; bit-fields."""
    good = [
        # definition, input, path to the array, expected length
        ("#define N 2\nstruct T { uint8 x[N]; uint8 N; };", b"\1\2\3", 2),
        ("#define N 2\nstruct T { uint8 N; uint8 x[N]; };", b"\3abcd", 3),
        ("#define N 2\nstruct T { uint8 x[N]; uint8 N; uint8 y[N]; };", b"\1\2\3abc", 2),
        ("#define N 2\nstruct T { uint8 N; uint8 x[N]; uint8 y[N + 1]; };", b"\1abc", 1),
        ("#define N 2\nstruct I { uint8 N; uint8 x[N]; }; struct T { uint8 x[N]; I i; };", b"\1\2\1z", 2),
        ("struct T { uint8 EOF; uint8 x[EOF]; };", b"\2abcd", 2),
        ("struct T { uint8 EOF; uint8 x[EOF]; uint8 t; };", b"\2abcd", 2),
        ("#define EOF 1\nstruct T { uint8 x[EOF]; };", b"abcd", 1),
        ("struct T { uint8 x[EOF]; };", b"abcd", 4),
        ("struct T { uint8 x[EOF]; };", b"", 0),
        ("struct T { uint16 x[EOF]; };", b"abcde", 2),
        ("struct T { uint8 a; uint8 x[ EOF ]; };", b"abcde", 4),
        ("struct T { struct { uint8 n; }; uint8 x[n]; };", b"\2abc", 2),
        ("struct T { struct { uint8 a; struct { uint8 n; }; }; uint8 x[n]; };", b"\0\2abc", 2),
        ("struct T { union { uint8 n; uint16 w; }; uint8 x[n]; };", b"\2\0abc", 2),
        ("#define n 1\nstruct T { struct { uint8 n; }; uint8 x[n]; };", b"\2abc", 2),
        ("struct T { uint8 n : 3; uint8 m : 5; uint8 x[n]; };", b"\x7aabc", 2),
        ("struct T { uint8 n : 3; uint8 m : 5; uint8 x[m]; };", b"\x12abc", 2),
        ("struct T { uint8 n; uint8 m; uint8 x[n - m]; };", b"\1\4abc", 0),
        ("struct T { uint8 n; uint8 m; uint8 x[n * m]; };", b"\2\2abcd", 4),
        ("struct T { uint8 n; uint8 n2; uint8 x[n2]; };", b"\1\3abcd", 3),
        ("struct T { uint8 *n; uint8 x[n]; };", b"\2" + bytes(7) + b"abcd", 2),
        ("enum E : uint8 { TWO = 2 }; struct T { E n; uint8 x[n]; };", b"\2abcd", 2),
        ("enum { TWO = 2, THREE }; struct T { uint8 x[THREE]; };", b"abcd", 3),
        ("enum { TWO = 2, THREE }; struct T { uint8 n; uint8 x[n + TWO]; };", b"\1abcd", 3),
        ("#define A 1\n#define B A + 1\nstruct T { uint8 x[B * 2]; };", b"abcdef", 4),
        ("#define NEG -3\nstruct T { uint8 x[NEG]; uint8 t; };", b"abcd", 0),
        ("struct T { uint8 x[3 - 5]; uint8 t; };", b"abcd", 0),
        ("struct T { uint8 u; uint8 l; uint8 x[l - u]; };", b"\1\3abcd", 2),
        ("struct T { uint8 n; struct { uint8 n; uint8 x[n]; } s; uint8 x[n]; };", b"\2\1zab", 2),
        ("struct I { uint8 n; uint8 x[n]; }; struct T { uint8 n; I s[n]; uint8 x[n]; };", b"\2\1a\0xy", 2),
        ("struct T { uint8 len; char x[len]; };", b"\3abcd", 3),
        ("struct T { uint8 size; char x[size]; };", b"\3abcd", 3),
        ("struct T { uint8 sizeof_; char x[sizeof_]; };", b"\3abcd", 3),
        ("struct T { uint8 _; char x[_]; };", b"\3abcd", 3),
        ("struct T { int8 n; char x[n]; };", b"\xfeabcd", 0),
        ("struct T { int8 n; wchar x[n]; };", b"\xfeabcd", 0),
        ("struct T { int8 n; uint24 x[n]; };", b"\xfeabcd", 0),
        ("struct T { int8 n; struct { uint8 q; } x[n]; };", b"\xfeabcd", 0),
        ("struct T { uint8 n; uint8 a[n]; uint8 m; uint8 x[m]; };", b"\1a\2abcd", 2),
    ]
    for text, data, want in good:
        for comp in (True, False):
            cs = cstruct().load(text, compiled=comp)
            st_.state()
            for _ in range(2):
                obj = cs.T(data)
                st_.trans()
                expect(len(obj.x) == want, "array length", None, text=text, compiled=comp, got=len(obj.x), expected=want)
                out = obj.dumps()
                expect(out == data[: len(out)], "dump", None, text=text, got=out)
            st_.trace()
    # the constant is redefined after the type was defined: a length known at definition keeps its value
    bad = ["struct T { uint8 x[nope]; };", "struct T { uint8 n; uint8 x[n + nope]; };", "struct T { uint8 x[n]; uint8 n; };",
           "struct T { uint8 x[EOF + 1]; };"]
    for text in bad:
        for comp in (True, False):
            try:
                got = cstruct().load(text, compiled=comp).T(bytes(20))
            except Exception:  # noqa: BLE001
                st_.trans()
                continue
            expect(False, "length that cannot be evaluated gave a value", None, text=text, got=got)


# ---------------------------------------------------------------- types made through the API, large arrays, wrong counts
def run_api(_, st_):
    for end in "<>":
        cs = cstruct(endian=end)
        cs.load("struct P { uint8 a; uint16 b; }; enum E : uint16 { A = 1 }; #define K 2\n".replace("; #", ";\n#"))
        cfg = Cfg(end, False, "uint64", True)
        model = model_of(cfg)
        PP = st("P", F("a", S("uint8")), F("b", S("uint16")))
        for name, t in {**{n: S(n) for n in SCALARS if n != "void"}, "P": PP}.items():
            T = getattr(cs, name)
            for n in (0, 1, 2, 3, 7):
                at = A(t, n)
                for tt, AT in ((at, T[n]), (A(at, 2), T[n][2]) if model.size(t) else (at, T[n])):
                    v = space.Filler(model, 2).fill(tt)
                    data = model.encode(tt, v)
                    st_.state()
                    st_.trans(3)
                    got = impl.norm(tt, AT(data + b"zz"), ENV)
                    expect(got == v, "array type made through the API", None, type=name, n=n, got=got, expected=v)
                    expect(AT.dumps(AT(data)) == data, "dump", None, type=name, n=n)
                    if model.size(tt) is not None:
                        expect(len(AT) == len(data), "size", None, type=name, n=n, got=len(AT))
                expr = T[Expression(cs, "K * 2 - 1")]
                v = space.Filler(model, 2).fill(A(t, 3))
                data = model.encode(A(t, 3), v)
                expect(impl.norm(A(t, 3), expr(data + b"zz"), ENV) == v, "expression array through the API", None, type=name)
            AT = T[None]
            for n in range(3):
                el = [space.Filler(model, 2).fill(t, nz=True) for _ in range(n)]
                data = b"".join(model.encode(t, e) for e in el) + model.encode(t, model.zero(t))
                fh = BytesIO(data + b"zzz")
                got = impl.norm(A(t, ("z",)), AT(fh), ENV)
                want = model.decode(A(t, ("z",)), data)[0]
                expect(got == want and fh.tell() == len(data), "null-terminated array through the API", None, type=name,
                       got=got, expected=want)
                fh.seek(0)
                expect(AT.dumps(AT(fh)) == data, "dump of a null-terminated array", None, type=name)
                st_.trans(2)
    st_.trace()


def run_big(_, st_):
    for n in (15, 16, 17, 127, 128, 255, 256, 257, 1000, 4095, 65535):
        for comp in (True, False):
            cs = cstruct()
            for elem, es in (("uint8", 1), ("char", 1), ("uint16", 2), ("wchar", 2), ("uint24", 3)):
                cs = cstruct().load(f"struct T {{ uint8 a; {elem} x[{n}]; uint8 t; }}; struct D {{ uint16 n; {elem} x[n]; uint8 t; }};"
                                    f"struct Z {{ {elem} x[]; uint8 t; }}; struct E {{ uint8 a; {elem} x[EOF]; }};", compiled=comp)
                body = bytes(0x41 + i % 26 for i in range(n * es))
                for T, data in ((cs.T, b"\1" + body + b"\7"), (cs.D, n.to_bytes(2, "little") + body + b"\7"),
                                (cs.Z, body + bytes(es) + b"\7"), (cs.E, b"\1" + body)):
                    fh = BytesIO(data)
                    obj = T(fh)
                    st_.state()
                    st_.trans(2)
                    expect(len(obj.x) == n and fh.tell() == len(data), "long array", None, type=elem, n=n, got=len(obj.x))
                    expect(obj.dumps() == data, "dump of a long array", None, type=elem, n=n)
                    for cut in (len(data) - 2, len(data) // 2, 1):
                        if T is cs.E:
                            break
                        try:
                            got = T(data[:cut])
                        except EOFError:
                            continue
                        expect(False, "truncated long array gave a value", None, type=elem, n=n, cut=cut, got=len(got.x))
    st_.trace()


def values_of(elem, model, n):
    """n encoded elements, none of them zero, with few repetitions."""
    pool, k = [], 1
    while len(pool) < 40 and k < 120:
        k += 1
        try:
            v = space.Filler(model, k - 1).fill(elem)
            raw = model.encode(elem, v)
            if any(raw) and model.decode(elem, raw)[0] == v and raw not in pool:
                pool.append(raw)
        except (NotCanonical, IndexError):
            continue
    return [pool[(i * 7 + i // 11) % len(pool)] for i in range(n)]


LARGE = (31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025)


def run_large(arg, st_):
    """Long arrays of every element kind: counts around every power of two up to 4096 elements."""
    en, form, tier = arg
    elem = ELEMS[en]
    small = elem[0] in "se"
    counts = LARGE if small or tier != "quick" else (64, 129, 256, 257)
    if small or tier != "quick":
        counts += (1300, 2047, 2049, 4095, 4096, 4097) if en in ("uint8", "char", "wchar", "uint16") or tier != "quick" else (2049,)
    for end, comp, n in product("<>", (True, False), counts):
        cfg = Cfg(end, False, "uint32", comp)
        model = model_of(cfg)
        zero, _ = tokens(elem, model)
        seq = values_of(elem, model, n)
        body = b"".join(seq)
        if form == "expr":
            t = st("T", F("n", S("uint16")), F("x", A(elem, ("x", "n"))), F("t", S("uint8")))
            head = n.to_bytes(2, "little" if end == "<" else "big")
        else:
            t = struct_of(elem, form, n)
            head = b"\x5a"
        T = impl.build(t, ENV, cfg).T
        what = f"{ref.text(t, ENV)} [{cfgname(cfg)}]"
        whole = head + body + (zero[0] if form == "zero" and zero else b"")
        st_.state()
        tails = (b"",) if form == "eof" else (b"\x7e", b"\x7e" * 300, b"")
        for tail in tails:
            judge(T, t, model, whole + tail, st_, what)
        for cut in (1, len(seq[-1]) + 1, len(body) // 2):
            judge(T, t, model, whole[:-cut], st_, what)
        if form == "eof":
            judge(T, t, model, whole + b"\x01", st_, what)


def run_lengths(arg, st_):
    """Every length up to a bound, for the element kinds with readers of their own."""
    en, tier = arg
    elem = ELEMS[en]
    top = (1100 if en in ("char", "wchar") else 300) if tier == "quick" else 5000 if en in ("char", "wchar", "uint8") else 1100
    for end in "<>":
        cfg = Cfg(end, False, "uint32", True)
        model = model_of(cfg)
        cs = impl.build(st("T", F("x", A(elem, ("z",)))), ENV, cfg)
        Z = cs.T.fields["x"].type
        E = cs.resolve(en)
        zero, _ = tokens(elem, model)
        seq = values_of(elem, model, top)
        ends, at = [0], 0
        for raw in seq:
            at += len(raw)
            ends.append(at)
        body = b"".join(seq)
        for n in range(top + 1):
            st_.state()
            st_.trans(3)
            data = body[: ends[n]] + zero[0]
            fh = BytesIO(data + b"\x7e" * 5)
            got = Z(fh)
            expect(len(got) == n and fh.tell() == len(data), "length of a null-terminated array", None, elem=en, n=n,
                   got=len(got), pos=fh.tell())
            expect(Z.dumps(got) == data, "dump of a null-terminated array", None, elem=en, n=n)
            fixed = E[n](body[: ends[n]])
            expect(len(fixed) == n and fixed == got and E[n].dumps(fixed) == body[: ends[n]], "array of n elements", None,
                   elem=en, n=n)
            try:
                got = Z(body[: ends[n]])
            except EOFError:
                continue
            expect(False, "unterminated array gave a value", None, elem=en, n=n, got=len(got))
    st_.trace()


def run_wrong(_, st_):
    """A fixed-size array of non-character elements never dumps with another number of elements."""
    for en, elem in ELEMS.items():
        if en in ("char", "wchar"):
            continue
        for align in (False, True):
            cfg = Cfg("<", align, "uint32", True)
            model = model_of(cfg)
            for n in range(0, 4):
                t = struct_of(elem, "fixed", n)
                cs = impl.build(t, ENV, cfg)
                XT = cs.T.fields["x"].type
                one = model.encode(elem, space.Filler(model, 2).fill(elem))
                for m in range(0, 6):
                    vals = [XT.type(one) for _ in range(m)]
                    ways = {
                        "array": lambda: XT.dumps(vals),
                        "array of a tuple": lambda: XT.dumps(tuple(vals)),
                        "constructed": lambda: cs.T(h=1, x=vals, t=2).dumps(),
                        "positional": lambda: cs.T(1, vals, 2).dumps(),
                        "assigned": lambda: assign(cs.T(), "x", vals).dumps(),
                        "changed in place": lambda: in_place(cs.T(h=1, t=2), vals).dumps(),
                    }
                    for how, f in ways.items():
                        st_.state()
                        st_.trans()
                        try:
                            out = f()
                        except Exception as e:  # noqa: BLE001
                            if m == n:
                                expect(False, "array of the right size refused", None, elem=en, n=n, how=how, error=repr(e))
                            continue
                        if m != n:
                            expect(False, "array of the wrong size dumped", None, elem=en, declared=n, given=m, how=how,
                                   got=out)
                        # outer and inner dimensions
                if elem[0] in "se" and n:
                    t2 = A(A(elem, n), 2)
                    T2 = cs.resolve(en)[n][2]
                    good = [[T2.type.type(one)] * n] * 2
                    expect(len(T2.dumps(good)) == model.size(t2) if model.size(t2) else T2.dumps(good), "2-dimensional dump")
                    for badv in ([good[0]], good + [good[0]], [good[0], good[0][:-1]], [good[0] + good[0][:1], good[0]], []):
                        try:
                            out = T2.dumps(badv)
                        except Exception:  # noqa: BLE001
                            st_.trans()
                            continue
                        expect(False, "2-dimensional array of the wrong size dumped", None, elem=en, n=n, value=badv, got=out)
    st_.trace()


def assign(o, f, v):
    setattr(o, f, v)
    return o


def in_place(o, vals):
    while len(o.x) > len(vals):
        o.x.pop()
    for i, v in enumerate(vals):
        if i < len(o.x):
            o.x[i] = v
        else:
            o.x.append(v)
    return o
