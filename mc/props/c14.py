"""C14 No hidden shared state: instances, defaults and cstruct objects are independent."""
import copy
import enum
from io import BytesIO
from itertools import product

from dissect.cstruct import cstruct, dumpstruct

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import cfgname, configs
from mc.ref import Cfg, Model
from mc.space import BITS, DYN, ENV, NEST, PT, TAIL, UN, A, F, P, S, in_, st, un

PROP = "C14"
LIMIT = 700
RULE = ("all operation histories up to depth 3 (thorough: 4 on a reduced alphabet) over four instances of one structure (two default "
        "constructed, two parsed from the same buffer) and two cstruct objects with same-named types: construct default / "
        "parsed / from values, assign every place, failing parse / construction / dump, utilities, deep copies, and "
        "load / endian / pointer / add_type / add_field / constants on the other object; x definitions x {<,>} x "
        "{compiled,interpreted}; after every history every instance equals the instance of the projection of the history "
        "to its own operations, run alone; defaults are zero, parse results, layout and the type tables are unchanged")
TECHNIQUE = ("explicit-state exploration of all operation histories up to a depth bound on the real objects; oracle: "
             "projection of the history on each object, executed in isolation, plus reference model values")
ASSUMPTIONS = ["a list or structure object which the caller itself stores in two instances is shared (Python semantics)"]

Q = ("x", "n")
DEFS = {
    "arr": st("T", F("a", A(S("uint8"), 3)), F("b", A(A(S("uint16"), 2), 2)), F("c", S("uint32"))),
    "nest": st("T", F("a", S("uint8")), F("s", NEST), F("t", in_(PT))),
    "starr": st("T", F("a", A(PT, 2)), F("b", A(A(PT, 2), 2)), F("c", S("uint8"))),
    "union": st("T", F("a", S("uint8")), F("u", UN), F("v", A(UN, 2)), F("z", S("uint16"))),
    "untop": un("T", F("a", S("uint32")), F("p", PT), F("b", A(S("uint8"), 6)), F("n_", NEST)),
    "anon": st("T", F("a", S("uint8")), F(None, st("", F("x", A(S("uint8"), 2)), F("y", in_(PT)), mode="in")),
               F(None, un("", F("k", S("uint16")), F("l", A(S("uint8"), 2)), mode="in")), F("z", S("uint8"))),
    "bits": st("T", F("a", S("uint16"), 3), F("b", S("uint16"), 13), F("s", BITS), F("c", A(BITS, 2))),
    "dyn": st("T", F("n", S("uint8")), F("a", A(S("uint16"), Q)), F("d", DYN), F("b", A(DYN, 2)), F("z", A(S("char"), ("z",)))),
    "enum": st("T", F("a", ("e", "E8")), F("b", A(("e", "E16"), 2)), F("c", ("e", "F8")), F("d", A(("e", "F16"), 2)),
               F("e", A(("e", "E24"), 2))),
    "text": st("T", F("a", A(S("char"), 3)), F("b", A(S("wchar"), 2)), F("c", A(A(S("char"), 2), 2)), F("d", S("wchar")),
               F("e", A(S("char"), ("z",)))),
    "ptr": st("T", F("a", P(S("uint8"))), F("b", A(P(PT), 2)), F("c", P(S("char")))),
    "ints": st("T", F("a", S("int24")), F("b", A(S("int24"), 2)), F("c", A(S("ileb128"), 2)), F("d", A(S("double"), 2)),
               F("e", A(S("uint128"), 2))),
    "expr": st("T", F("n", S("uint8")), F("a", A(S("uint8"), ("x", "(n & 3) * CN + sizeof(uint16)"))),
               F("b", A(S("uint16"), ("x", "n / (n - 2)"))), F("c", A(A(S("uint8"), Q), 2))),
    "deep": st("T", F("s", st("N2", F("s", st("N1", F("x", A(PT, 2)), F("y", A(S("uint8"), 2)))), F("u", UN))), F("z", S("uint8"))),
    "eof": st("T", F("a", S("uint8")), F("b", A(PT, ("eof",)))),
    "unstruct": un("T", F("s", st("N1", F("x", S("uint8")), F("u", UN), F("y", A(PT, 2)))), F("r", A(S("uint8"), 12))),
}
# the same names with another meaning, for the other cstruct object
OTHER = """
#define CN 5
enum E8 : uint16 { E8A = 7, E8B = 9 }; enum E16 : uint8 { E16A = 1 }; enum E24 : uint32 { E24A = 3 };
flag F8 : uint32 { F8A, F8Q }; flag F16 : uint8 { F16A };
struct PT { uint32 y[2]; uint8 x; }; struct DYN { uint16 n; uint8 d[n]; }; struct BITS { uint8 u : 4; uint8 v : 4; };
struct NEST { uint8 t; PT p; }; union UN { uint16 w; uint8 b[2]; }; struct N1 { uint8 q; }; struct N2 { N1 s[2]; };
struct TAIL { uint8 a; };
struct T { uint16 n; uint8 a[n]; PT s; UN u; E8 e; F8 f; uint8 *p; uint32 x : 4; uint32 y : 28; uint16 arr[2]; };
"""
GLOBAL = ("fail_parse", "fail_make", "fail_dump", "utils", "batch", "ownload", "deepcopy",
          "o_endian", "o_load", "o_pointer", "o_types", "o_consts", "o_parse", "o_field", "o_new", "clobber")


def cases(tier):
    for name in DEFS:
        for end in "<>":
            for comp in (False, True):
                for align in (False, True) if tier == "thorough" else (comp,):
                    yield ["hist", name, end, align, comp, "all", 2, None]
                    for first in range(8):
                        yield ["hist", name, end, align, comp, "few", 3, first]
                    if tier == "thorough" and align == comp:
                        for first in range(24):
                            yield ["hist", name, end, align, comp, "all", 3, first]
                        for first in range(12):
                            yield ["hist", name, end, align, comp, "small", 4, first]
    for name in DEFS:
        for end in "<>":
            for comp in (False, True):
                yield ["pure", name, end, comp]
                yield ["share", name, end, comp]
    yield ["classes"]


def show(case):
    return case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def snap(v):
    """The complete observable value of an object."""
    if isinstance(v, int) and hasattr(type(v), "dereference"):
        return ("P", int(v))
    if not isinstance(v, int) and hasattr(v, "__fields__"):
        return ("S", v.__class__.__name__,
                tuple((f.name, snap(getattr(v, f._name))) for f in v.__class__.__fields__))
    if isinstance(v, list):
        return ("A", *[snap(e) for e in v])
    if isinstance(v, enum.Enum):
        return ("E", type(v).__name__, v.value)
    if isinstance(v, float):
        return ("F", v.hex())
    return (v.__class__.__mro__[1].__name__ if isinstance(v, (bytes, str)) else "i", v)


def observe(o):
    try:
        d = o.dumps()
    except NotImplementedError:
        d = None
    return snap(o), d, bool(o), len(type(o).__fields__)


def get(o, path):
    for c in path:
        o = o[c] if isinstance(c, int) else getattr(o, c)
    return o


def places(o, limit=7):
    """Assignable paths of an instance: leaves, array elements, whole members."""
    out = []

    def walk(v, path):
        if not isinstance(v, int) and hasattr(v, "__fields__"):
            for name in v.__class__.fields:
                sub = getattr(v, name)
                out.append(path + (name,))
                walk(sub, path + (name,))
        elif isinstance(v, list):
            for i, e in list(enumerate(v))[:2]:
                out.append(path + (i,))
                walk(e, path + (i,))

    walk(o, ())
    out = [p for p in out if not (isinstance(p[-1], str) and p[-1] == "n")]
    deep = [p for p in out if len(p) > 1]
    flat = [p for p in out if len(p) == 1]
    # leaves of containers first, spread over the whole list
    pick = []
    for group, n in ((deep, limit - 2), (flat, 2)):
        if group:
            step = max(1, len(group) // n)
            pick += group[::step][:n]
    return pick


class World:
    """One execution: four instances of T and the two cstruct objects."""

    def __init__(self, ctx):
        self.ctx = ctx
        c = ctx
        self.slots = [c.T(), c.T(), c.T(c.data), c.T(bytearray(c.data))]
        self.extra = []

    def do(self, op):
        c = self.ctx
        if op[0] == "g":
            getattr(self, "op_" + op[1])()
            return
        _, slot, kind, arg = op
        if kind == "set":
            path = arg
            o = self.slots[slot]
            try:
                tgt = get(o, path[:-1])
                val = get(c.T(c.data2), path)
            except (IndexError, AttributeError):
                return
            val = detach(val)
            try:
                if isinstance(path[-1], int):
                    tgt[path[-1]] = val
                else:
                    setattr(tgt, path[-1], val)
            except IndexError:
                return
        elif kind == "default":
            self.slots[slot] = c.T()
        elif kind == "parse":
            self.slots[slot] = c.T(c.data2)
        elif kind == "kw":
            src = c.T(c.data2)
            if c.model.layout(c.t)["size"] is None and c.t[0] == "un":
                return
            names = [f._name for f in c.T.__fields__]
            self.slots[slot] = c.T(**{n: detach(getattr(src, n)) for n in names[-1:]})

    # operations that concern none of the instances
    def op_fail_parse(self):
        c = self.ctx
        for cut in (0, 1, len(c.data) // 2, len(c.data) - 1):
            try:
                c.T(c.data[:cut])
            except EOFError:
                pass
        try:
            c.T(c.bad)
        except Exception:  # noqa: BLE001
            pass

    def op_fail_make(self):
        c = self.ctx
        for kw in ({"nothing": 1}, {"a": object()}):
            try:
                c.T(**kw).dumps()
            except Exception:  # noqa: BLE001
                pass

    def op_fail_dump(self):
        c = self.ctx
        for o in (c.T(), c.T(c.data)):
            for name in list(type(o).fields)[:3]:
                try:
                    setattr(o, name, object())
                    o.dumps()
                except Exception:  # noqa: BLE001
                    pass

    def op_utils(self):
        c = self.ctx
        for o in self.slots[1:3]:
            repr(o), str(o), bool(o), len(o), o == self.slots[0], o != self.slots[3]
            try:
                hash(o)
            except TypeError:
                pass
            try:
                dumpstruct(o, output="string")
            except Exception:  # noqa: BLE001
                pass
            o.dumps() if not c.T.dynamic or c.t[0] == "st" else None

    def op_batch(self):
        c = self.ctx
        for T in (c.cs.uint8[3], c.cs.uint16[None], c.cs.char[2], c.cs.uint32, c.cs.PT if "PT" in c.cs.typedefs else c.cs.int8):
            o = T(BytesIO(b"\x01\x02\x03\x04\0\0\0\0\0\0\0\0"))
            T.dumps(o)
            d = T.__default__()
            if isinstance(d, list):
                d.append(5)
        stream = BytesIO(c.data + c.data + c.data)
        c.T(stream)
        try:
            c.T(stream)
        except EOFError:
            pass

    def op_ownload(self):
        c = self.ctx
        c.n += 1
        if c.n > 200:
            return
        c.cs.load(f"#define XX{c.n} {c.n}\nenum XE{c.n} : uint8 {{ XA{c.n} = 3 }}; typedef T XT{c.n};"
                  f"struct XS{c.n} {{ uint8 n; uint16 a[n]; XE{c.n} e; T t; union {{ uint8 q[2]; uint16 r; }}; }};",
                  compiled=c.n % 2 == 0, align=c.n % 3 == 0)

    def op_deepcopy(self):
        """A deep copy is an instance of its own."""
        if impl.has_union(self.ctx.t):
            return  # copying proxies of union members isn't supported
        for o in self.slots[:3]:
            try:
                k = copy.deepcopy(o)
            except Exception:  # noqa: BLE001
                return  # copying pointers isn't supported
            before = observe(o)
            if observe(k) != before:
                raise Violation(f"deep copy {k!r} of {o!r}: {self.ctx.what()}")
            for path in self.ctx.places[:4]:
                try:
                    tgt = get(k, path[:-1])
                    val = detach(get(self.ctx.T(self.ctx.data2), path))
                    if isinstance(path[-1], int):
                        tgt[path[-1]] = val
                    else:
                        setattr(tgt, path[-1], val)
                except (IndexError, AttributeError):
                    continue
            if observe(o) != before:
                raise Violation(f"changing a deep copy changed the original to {o!r}: {self.ctx.what()}")

    def op_clobber(self):
        """The buffer an instance was parsed from changes."""
        c = self.ctx
        buf = bytearray(c.data)
        o = c.T(memoryview(buf))
        before = observe(o)
        buf[:] = bytes(b ^ 0xFF for b in buf)
        if observe(o) != before:
            raise Violation(f"changing the input buffer changed the instance to {o!r}: {c.what()}")

    def op_o_endian(self):
        o = self.ctx.other
        o.endian = ">" if o.endian == "<" else "<"

    def op_o_load(self):
        c = self.ctx
        c.m += 1
        if c.m > 200:
            return
        c.other.load(f"#define YY{c.m} {c.m}\n#define CN {c.m}\nenum YE{c.m} : uint8 {{ YA }}; struct Y{c.m} {{ uint16 x[3]; T t; PT p[2]; }};"
                     f"typedef uint8 yt{c.m}; struct {{ uint8 a; }} Z{c.m};", align=c.m % 2 == 0, compiled=c.m % 3 == 0)

    def op_o_pointer(self):
        o = self.ctx.other
        o.pointer = o.uint32 if o.pointer is not o.uint32 else o.uint16

    def op_o_types(self):
        o = self.ctx.other
        o.add_type("uint8", o.uint32, replace=True)
        o.add_type("uint16", "uint64", replace=True)
        o.add_type("mytype", o.int24, replace=True)
        o.add_type("T2", "T", replace=True)

    def op_o_consts(self):
        o = self.ctx.other
        o.consts["CN"] = 77
        o.consts["sizeof"] = 3
        o.lookups["x"] = {}

    def op_o_parse(self):
        o = self.ctx.other
        T = o.T
        try:  # the pointer width or the types used by it may have changed by now
            inst = T(bytes(600))
            inst.arr[0] = 3
            T().arr[1] = 9
            inst.dumps()
        except Exception:  # noqa: BLE001
            pass
        try:
            T(b"\x05")
        except EOFError:
            pass
        list(o.E8), o.E8(99), o.F8(0x77)

    def op_o_field(self):
        c = self.ctx
        c.k += 1
        if c.k > 40:
            return
        c.other.PT.add_field(f"zz{c.k}", c.other.int8)
        with c.other.T.start_update():
            c.other.T.add_field(f"zz{c.k}", c.other.int16)

    def op_o_new(self):
        c = self.ctx
        c.news += 1
        if c.news % 7 == 1:
            x = cstruct(endian=">", pointer="uint16")
            x.load(OTHER, compiled=c.news % 2 == 0)
            x.T(bytes(80))
            x.T().arr[0] = 4
            x.endian = "<"


def detach(v):
    """A value that isn't shared with the object it comes from."""
    if isinstance(v, list):
        return [detach(e) for e in v]
    if not isinstance(v, int) and hasattr(v, "__fields__"):
        return v.__class__(v.dumps())
    return v


class Ctx:
    def __init__(self, name, cfg):
        self.name = name
        self.cfg = cfg
        self.t = t = DEFS[name]
        self.model = Model(ENV, cfg)
        self.cs = impl.build(t, ENV, cfg)
        self.other = cstruct(endian=">" if cfg.endian == "<" else "<", pointer="uint8")
        self.other.load(OTHER, compiled=not cfg.compiled, align=not cfg.align)
        self.T = self.cs.T
        if name != "expr":
            pats = list(space.inputs(self.model, t, (2, 5)))
            self.v, _, _, self.data = pats[0]
            self.v2, _, _, self.data2 = pats[1]
        else:
            self.data, self.v = expr_data(self.model, t, 6)
            self.data2, self.v2 = expr_data(self.model, t, 3)
        self.bad = bytes([2]) * 8 if name == "expr" else b"\xff" * 3
        self.n = self.m = self.k = self.news = 0
        self.places = places(self.T(self.data))
        self.base = self.table()
        self.refs = {}

    def what(self):
        return f"{ref.text(self.t, ENV)} [{cfgname(self.cfg)}]"

    def table(self):
        """Everything other objects must not change."""
        c = self.cs
        T = self.T
        return ({n: x for n, x in c.typedefs.items() if not n.startswith(("XE", "XS", "XT"))},
                {n: x for n, x in c.consts.items() if not n.startswith("XX")}, c.endian, c.pointer,
                {n: (list(getattr(c, n).__members__.items()), [m.value for m in getattr(c, n)]) for n in ENV.enums
                 if n in c.typedefs},
                T.size, T.alignment, T.dynamic, T.__compiled__, [(f.name, f.type, f.bits, f.offset) for f in T.__fields__],
                len(c.uint8), len(c.uint16), c.uint32.alignment)

    def alphabet(self):
        ops = []
        for slot in (0, 2):
            for path in self.places:
                ops.append(("s", slot, "set", path))
        ops.append(("s", 1, "set", self.places[0]))
        for slot in (0, 1, 3):
            ops.append(("s", slot, ("default", "kw", None, "parse")[slot], None))
        return ops + [("g", g) for g in GLOBAL]

    def alone(self, slot, ops):
        """The instance after only its own operations, in a world of its own."""
        key = slot, ops
        if key not in self.refs:
            c = Ctx.__new__(Ctx)
            c.__dict__.update(self.__dict__)
            c.cs = impl.build(self.t, ENV, self.cfg)
            c.T = c.cs.T
            w = World(c)
            for op in ops:
                w.do(op)
            self.refs[key] = observe(w.slots[slot])
        return self.refs[key]


def expr_data(model, t, n):
    v = ("S", ("n", n), ("a", ("A", *range(1, (n & 3) * 3 + 3))), ("b", ("A", *range(7, 7 + (n // (n - 2) if n != 2 else 0)))),
         ("c", ("A", ("A", *range(n)), ("A", *range(n)))))
    return model.encode(t, v), v


def run_hist(name, end, align, comp, which, depth, first, st_):
    cfg = Cfg(end, align, "uint32", comp)
    ctx = Ctx(name, cfg)
    ops = ctx.alphabet()
    sets = [o for o in ops if o[0] == "s"]
    glob = [o for o in ops if o[0] == "g"]
    turn = 2 * (end == ">") + comp
    if which == "few":
        ops = sets[turn % 3:-3:3] + sets[-3:] + [o for i, o in enumerate(glob) if i % 2 == turn % 2]
    elif which == "small":
        ops = sets[turn % 3:-3:3] + sets[-3:-1] + glob[turn::4]
    zero = observe(ctx.T())
    if ctx.t[0] == "st" and not impl.has_union(ctx.t):
        if name != "eof" and impl.norm(ctx.t, ctx.T(), ENV) != ctx.model.zero(ctx.t):
            raise Violation(f"default is {ctx.T()!r}: {ctx.what()}")
    start = [observe(ctx.T(ctx.data)), observe(ctx.T(ctx.data2))]
    for i, v in ((0, ctx.v), (1, ctx.v2)):
        got = impl.norm(ctx.t, ctx.T((ctx.data, ctx.data2)[i]), ENV)
        if got != v:
            raise Violation(f"parsed {got!r}, expected {v!r}: {ctx.what()}")
    parts = {("all", 3): 24, ("few", 3): 8, ("small", 4): 12}.get((which, depth))
    begin = ops if first is None else [o for i, o in enumerate(ops) if i % parts == first]
    for op0 in begin:
        for d in range(depth) if depth == 2 else (depth - 1,):
            for rest in product(ops, repeat=d):
                hist = (op0, *rest)
                if d > 1 and all(o[0] == "g" for o in hist):
                    continue  # without any operation on instances the shorter histories suffice
                w = World(ctx)
                for op in hist:
                    w.do(op)
                st_.trans(len(hist))
                for slot in range(4):
                    own = tuple(o for o in hist if o[0] == "s" and o[1] == slot)
                    want = ctx.alone(slot, own)
                    got = observe(w.slots[slot])
                    if got != want:
                        raise Violation(f"after {hist}: instance {slot} is {got!r}, alone it is {want!r}: {ctx.what()}")
                for what, want, got in (("a default instance", zero, observe(ctx.T())),
                                        ("the parse result", start[0], observe(ctx.T(ctx.data))),
                                        ("the parse result", start[1], observe(ctx.T(ctx.data2)))):
                    if got != want:
                        raise Violation(f"after {hist}: {what} is {got!r}, was {want!r}: {ctx.what()}")
                st_.state()
            tab = ctx.table()
            if tab != ctx.base:
                diff = [(a, b) for a, b in zip(ctx.base, tab) if a != b]
                raise Violation(f"types or settings changed: {str(diff)[:600]}: {ctx.what()}")
    st_.trace()


def run_pure(name, end, comp, st_):
    """Parsing does not depend on what was parsed before: all sequences of 3 inputs of several types, good and truncated."""
    cfg = Cfg(end, False, "uint32", comp)
    ctx = Ctx(name, cfg)
    cs = ctx.cs
    if name != "expr":
        ins = [d for _, _, _, d in space.inputs(ctx.model, ctx.t)]
    else:
        ins = [expr_data(ctx.model, ctx.t, n)[0] for n in (0, 1, 3, 4, 6)] + [b"\x02\1\1\1\1\1\1\1\1\1\1\1\1\1\1"]
    acts = [("T", d) for d in ins]
    acts += [("T", d[: len(d) * k // 3]) for d in (ins[2], ins[-1]) for k in (1, 2) if d]
    acts += [(typ, d) for typ in ("uint32", "int24", "char", "wchar", "uleb128", "double") for d in (b"", bytes(range(129, 150)))]

    def outcome(c, act):
        typ, d = act
        try:
            r = getattr(c, typ)(BytesIO(d))
            return observe(r) if typ == "T" else snap(r)
        except Exception as e:  # noqa: BLE001
            return type(e).__name__, str(e)

    fresh = [outcome(impl.build(ctx.t, ENV, cfg) if a[0] == "T" else cs, a) for a in acts]
    for seq in product(range(len(acts)), repeat=3):
        for i in seq:
            st_.trans()
            got = outcome(cs, acts[i])
            if got != fresh[i]:
                raise Violation(f"parse sequence {[acts[j] for j in seq]}: {acts[i]} gives {got!r}, on its own {fresh[i]!r}: "
                                f"{ctx.what()}")
    st_.trace()
    st_.state()


def run_share(name, end, comp, st_):
    """No container of one instance is the container of another, whichever way they were made."""
    cfg = Cfg(end, False, "uint32", comp)
    ctx = Ctx(name, cfg)
    T = ctx.T
    field_types = [f.type for f in T.__fields__]
    makers = [lambda: T(), lambda: T(ctx.data), lambda: T(BytesIO(ctx.data)), lambda: T.__default__(),
              lambda: T.reads(ctx.data), lambda: T.read(ctx.data), lambda: T(**{})]
    arr = T[2]
    makers += [lambda: arr.__default__()[0], lambda: arr.__default__()[1]]
    if name != "eof":
        makers.append(lambda: arr(ctx.data + ctx.data)[1])
    seen = {}
    keep = []

    def containers(v, path=()):
        if isinstance(v, list):
            yield path, v
            for i, e in enumerate(v):
                yield from containers(e, path + (i,))
        elif not isinstance(v, int) and hasattr(v, "__fields__"):
            yield path, v
            for f in v.__class__.__fields__:
                yield from containers(getattr(v, f._name), path + (f._name,))

    for i, mk in enumerate(makers):
        for rep in range(2):
            o = mk()
            keep.append(o)
            for path, c in containers(o):
                if c.__class__.__name__ and type(c).__name__ == "UnionProxy":
                    continue
                if id(c) in seen and seen[id(c)][0] is c:
                    raise Violation(f"{path} of an instance made by way {i} is the object at {seen[id(c)][1]}: {ctx.what()}")
                seen[id(c)] = c, (i, rep, path)
                st_.trans()
    # the default of every field's type is a fresh one too
    for ft in field_types:
        for rep in range(3):
            d = ft.__default__()
            keep.append(d)
            for path, c in containers(d):
                if type(c).__name__ == "UnionProxy":
                    continue
                if id(c) in seen and seen[id(c)][0] is c:
                    raise Violation(f"default value of {ft.__name__} shares {path} with {seen[id(c)][1]}: {ctx.what()}")
                seen[id(c)] = c, (ft.__name__, rep, path)
    st_.state()


def run_classes(st_):
    """Types belong to their own cstruct object: all pairs of settings, with same-named definitions, used alternately."""
    settings = [(e, p, a, c) for e in "<>" for p in ("uint16", "uint32", "uint64") for a in (False, True) for c in (False, True)]
    text = ("enum E : uint16 { A = 1 }; struct P { uint8 x; uint32 y; }; struct T { uint8 n; E e; P p; uint16 d[2]; uint8 *q; "
            "uint16 b : 4; uint16 c : 12; wchar w; int24 i; };")
    t = st("T", F("n", S("uint8")), F("e", ("e", "E8")), F("p", st("P", F("x", S("uint8")), F("y", S("uint32")))),
           F("d", A(S("uint16"), 2)), F("q", P(S("uint8"))), F("b", S("uint16"), 4), F("c", S("uint16"), 12), F("w", S("wchar")),
           F("i", S("int24")))
    from mc.ref import Env

    env = Env(enums={"E8": ("enum", "uint16", (("A", 1),))}, consts={})

    def made(s):
        cs = cstruct(endian=s[0], pointer=s[1])
        cs.load(text, compiled=s[3], align=s[2])
        m = Model(env, Cfg(s[0], s[2], s[1], s[3]))
        val = ("S", ("n", 1), ("e", ("E", "E8", 0x0102)), ("p", ("S", ("x", 3), ("y", 0x04050607))),
               ("d", ("A", 0x0809, 0x0A0B)), ("q", ("P", 0x0C0D)), ("b", 14), ("c", 0x0F1), ("w", "\u0112"), ("i", -3))
        return cs, m.encode(t, val)

    def check(cs, enc, s):
        o = cs.T(enc)
        got = (o.n, int(o.e), o.p.x, o.p.y, list(o.d), int(o.q), o.b, o.c, str(o.w), o.i)
        want = (1, 0x0102, 3, 0x04050607, [0x0809, 0x0A0B], 0x0C0D, 14, 0x0F1, "\u0112", -3)
        if got != want or o.dumps() != enc or len(cs.T) != len(enc):
            raise Violation(f"{s}: {got!r} size {len(cs.T)} dump {o.dumps().hex()}, expected {want!r} {enc.hex()}")
        if cs.T.cs is not cs or cs.uint16.cs is not cs or type(o.e).cs is not cs or type(o.p).cs is not cs:
            raise Violation("a type belongs to another cstruct object")

    for a in settings:
        for b in settings:
            ca, ea = made(a)
            cb, eb = made(b)
            for cs, enc, s in ((ca, ea, a), (cb, eb, b), (ca, ea, a)):
                check(cs, enc, s)
                st_.trans()
            ca.load("struct More { uint8 z; T t; };")
            cb.load("struct More { uint16 z; };")
            ca.endian = "<" if ca.endian == ">" else ">"
            check(cb, eb, b)
            ca.endian = a[0]
            check(ca, ea, a)
            if len(ca.More) != len(ca.T) + 1 or len(cb.More) != 2:
                raise Violation("definitions of two cstruct objects mix")
    st_.trace()
