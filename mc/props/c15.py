"""C15 Concurrent parsing with shared types is equivalent to sequential parsing."""
from __future__ import annotations

import os
from io import BytesIO

from mc import impl, ref, sched, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.c14 import observe, snap
from mc.props.common import cfgname
from mc.ref import Cfg, Model
from mc.space import BITS, DYN, ENV, NEST, PT, UN, A, F, P, S, in_, st, un

PROP = "C15"
LIMIT = 600
RULE = ("all schedules of two threads (thorough: three) with at most 2 preemptions at source-line granularity (1 preemption for the "
        "longer operations and for freshly loaded types; thorough: also every bytecode instruction, and 3 preemptions on the "
        "shortest) x operations {parse, dump, dereference, truncated parse, default + dump} on independent streams of shared "
        "types x definitions with expressions, bit-fields, unions, pointers, arrays, enums, strings x {compiled, "
        "interpreted} x {warm, freshly loaded}; every thread must obtain what it obtains alone, and so must a later caller")
TECHNIQUE = ("stateless model checking of the implementation under a controlled scheduler: exhaustive enumeration of "
             "preemption-bounded thread interleavings; oracle: each operation executed alone")
ASSUMPTIONS = ["switches happen between source lines (thorough: bytecode instructions) of Python code outside the standard library",
               "each thread uses its own streams and objects"]

Q = ("x", "n")
DEFS = {
    "expr": st("T", F("n", S("uint8")), F("a", A(S("uint8"), ("x", "n * 2 + 1")))),
    "exprneg": st("T", F("n", S("uint8")), F("a", A(S("uint8"), ("x", "-(n - 9) & CN | (n << 1)")))),
    "exprsize": st("T", F("n", S("uint8")), F("m_", S("uint8")), F("a", A(S("uint16"), ("x", "n - (m_ & 1) + sizeof(uint16)")))),
    "exprdiv": st("T", F("n", S("uint8")), F("a", A(S("uint8"), ("x", "6 / (n - 2)")))),
    "expr2": st("T", F("n", S("uint8")), F("a", A(S("uint8"), Q)), F("b", A(A(S("uint8"), Q), 2)), F("c", A(S("char"), ("x", "n+1")))),
    "bits": st("T", F("a", S("uint16"), 3), F("b", S("uint16"), 13), F("c", S("uint8"), 4), F("d", S("uint8"), 4)),
    "bitsmix": st("T", F("a", S("uint8"), 3), F("x", S("uint16")), F("b", ("e", "E8"), 5), F("c", S("int32"), 30)),
    "bitsarr": st("T", F("s", A(BITS, 2))),
    "union": un("T", F("a", S("uint32")), F("p", PT), F("b", A(S("uint8"), 4))),
    "unionin": st("T", F("u", UN), F("z", S("uint8"))),
    "anon": st("T", F(None, un("", F("k", S("uint16")), F("l", A(S("uint8"), 2)), mode="in")), F("z", S("uint8"))),
    "ptr": st("T", F("p", P(S("uint16"))), F("v", S("uint16"))),
    "ptrs": st("T", F("p", A(P(PT), 2)), F("q", P(S("char")))),
    "arr": st("T", F("a", A(S("uint16"), 3)), F("b", A(S("int24"), 2))),
    "starr": st("T", F("a", A(PT, 2))),
    "zero": st("T", F("a", A(S("char"), ("z",))), F("b", A(S("uint16"), ("z",)))),
    "eof": st("T", F("a", S("uint8")), F("b", A(S("uint16"), ("eof",)))),
    "eofst": st("T", F("b", A(PT, ("eof",)))),
    "enum": st("T", F("a", ("e", "E8")), F("b", A(("e", "E16"), 2)), F("c", ("e", "F8"))),
    "wide": st("T", F("a", S("uint128")), F("b", S("int24")), F("c", A(S("uint48"), 2))),
    "leb": st("T", F("a", S("uleb128")), F("b", A(S("ileb128"), 2))),
    "text": st("T", F("a", A(S("char"), 3)), F("b", A(S("wchar"), 2)), F("c", S("wchar"))),
    "float": st("T", F("a", S("float")), F("b", A(S("double"), 2)), F("c", S("float16"))),
    "nest": st("T", F("s", NEST), F("z", S("uint8"))),
    "dyn": st("T", F("n", S("uint8")), F("d", A(DYN, 2))),
    "flat": st("T", F("a", S("uint32")), F("b", S("uint16")), F("c", S("uint8"))),
}
# shared types other than structures
PLAIN = ("uint16", "int24", "uleb128", "char", "wchar", "float", "uint128", "E8", "F8", "uint8[3]", "char[3]", "wchar[2]", "int24[2]", "E16[2]",
         "char[None]", "wchar[None]", "uint16[None]", "uleb128[2]", "uint16*", "void", "PT", "BITS", "UN", "PT[2]")
OPS = ("p", "d", "x", "t", "m")
PAIRS = [("p", "p"), ("p", "d"), ("d", "p"), ("d", "d"), ("p", "t"), ("x", "x"), ("t", "p"), ("m", "p"), ("p", "m")]
DUMPABLE = frozenset(DEFS) - {"x"}
QUICK2 = [("p", "p"), ("d", "d"), ("p", "d")]
# with two preemptions in the quick tier
FIRST = {("expr", True), ("expr", False), ("exprdiv", True), ("bits", True), ("bits", False), ("bitsmix", True), ("anon", True),
         ("ptr", True), ("ptr", False), ("ptrs", True), ("arr", True), ("arr", False), ("starr", True), ("zero", True), ("eof", True),
         ("enum", True), ("text", True), ("float", True), ("nest", True), ("flat", True), ("flat", False), ("wide", True)}
SHORT = ("flat", "ptr", "float", "enum", "ptrs", "nest", "text", "arr")


def setups(tier):
    for name in DEFS:
        for comp in (False, True):
            yield name, "<" if comp else ">", comp and name not in ("flat", "arr"), comp
            if tier == "thorough":
                yield name, ">" if comp else "<", not comp, comp


def cases(tier):
    for name, end, align, comp in setups(tier):
        for pair in PAIRS:
            yield ["run", name, end, align, comp, pair, "warm", 1, "line", 0, 1]
            if pair in QUICK2 or tier == "thorough":
                yield ["run", name, end, align, comp, pair, "cold", 1, "line", 0, 1]
    for i, typ in enumerate(PLAIN):
        for pair in QUICK2:
            yield ["plain", typ, "<>"[i % 2], pair, 2]
    for name, end, align, comp in setups("quick"):
        for pair in QUICK2:
            if tier == "quick" and ((name, comp) not in FIRST or (pair == ("d", "d") and name[:3] not in ("bit", "fla", "ptr"))):
                continue
            parts = 8 if tier == "thorough" else 2
            for part in range(parts):
                yield ["run", name, end, align, comp, pair, "warm", 2, "line", part, parts]
    if tier == "thorough":
        for name, end, align, comp in setups("quick"):
            for pair in QUICK2:
                yield ["run", name, end, align, comp, pair, "warm", 1, "opcode", 0, 1]
                if name != "eofst":
                    yield ["run", name, end, align, comp, pair, "cold", 1, "opcode", 0, 1]
            if name in SHORT and comp:
                for part in range(4):
                    yield ["run", name, end, align, comp, ("p", "p"), "cold", 2, "line", part, 4]
                    yield ["run", name, end, align, comp, ("p", "p"), "warm", 3, "line", part, 4]
                    yield ["run", name, end, align, comp, ("p", "p", "p"), "warm", 2, "line", part, 4]
                    yield ["run", name, end, align, comp, ("p", "d", "p"), "warm", 2, "line", part, 4]


def show(case):
    return case


_sched = {}


def scheduler(opcodes=False):
    key = os.getpid(), opcodes
    if key not in _sched:
        if hasattr(os, "sched_setaffinity"):  # handing over between threads is cheapest on one processor
            cpus = sorted(os.sched_getaffinity(0))
            if len(cpus) > 1:
                os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})
        _sched[key] = sched.Scheduler(3, opcodes)
    return _sched[key]


def execute(ops, segments, opcodes=False):
    s = scheduler(opcodes)
    try:
        return s.run(ops, segments)
    except BaseException as e:
        _sched.pop((os.getpid(), opcodes), None)
        if isinstance(e, sched.Stuck):
            raise Violation(f"{e}: schedule {segments}") from None
        raise


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


class Shared:
    """The shared types, and the operations of the threads on them."""

    def __init__(self, name, cfg):
        self.cfg = cfg
        self.t = DEFS[name]
        self.cs = impl.build(self.t, ENV, cfg)
        self.T = self.cs.T

    def ops(self, pair, data):
        out = []
        for k, (kind, d) in enumerate(zip(pair, data)):
            out.append(getattr(self, "op_" + kind)(d))
        return out

    def op_p(self, d):
        T = self.T
        stream = BytesIO(d)
        return lambda: (observe_plain(T(stream)), stream.tell())

    def op_d(self, d):
        o = self.T(d)
        stream = BytesIO()

        def dump():
            o.write(stream)
            return stream.getvalue()
        return dump

    def op_x(self, d):
        """Parse, use the result, dump."""
        T = self.T

        def use():
            o = T(BytesIO(d + bytes(48)))
            deref = []
            for f in T.__fields__:
                v = getattr(o, f._name)
                for p in v if isinstance(v, list) else [v]:
                    if isinstance(p, int) and hasattr(type(p), "dereference") and p:
                        deref.append(snap(p.dereference()))
            return deref, o.dumps(), observe_plain(o)
        return use

    def op_t(self, d):
        T = self.T
        return lambda: observe_plain(T(BytesIO(d[: max(0, len(d) - 1)])))

    def op_m(self, d):
        """Make a default instance, assign its members, dump."""
        T = self.T
        vals = [(f._name, getattr(T(d), f._name)) for f in T.__fields__]

        def make():
            o = T()
            for n, v in vals:
                setattr(o, n, v)
            return o.dumps(), bool(o), observe_plain(o)
        return make


def observe_plain(o):
    return snap(o)


def datas(name, cfg):
    m = Model(ENV, cfg)
    t = DEFS[name]
    if name.startswith("expr"):
        out = []
        for n in (4, 3, 5):
            if name == "expr":
                v = ("S", ("n", n), ("a", ("A", *range(n, n + n * 2 + 1))))
            elif name == "exprneg":
                size = -(n - 9) & ENV.consts["CN"] | (n << 1)
                v = ("S", ("n", n), ("a", ("A", *range(size))))
            elif name == "exprsize":
                v = ("S", ("n", n), ("m_", n), ("a", ("A", *range(n - (n & 1) + 2))))
            elif name == "exprdiv":
                v = ("S", ("n", n), ("a", ("A", *range(6 // (n - 2)))))
            else:
                v = ("S", ("n", n), ("a", ("A", *range(n))), ("b", ("A", ("A", *range(n)), ("A", *range(n)))), ("c", bytes(range(n + 1))))
            out.append(m.encode(t, v))
        return out
    out = []
    for _, _, _, d in space.inputs(m, t):
        if d not in out and (name not in ("ptr", "ptrs") or True):
            out.append(d)
    out = [out[3 % len(out)], out[5 % len(out)], out[1]]
    if name == "ptr":
        out = [m.encode(t, ("S", ("p", ("P", a)), ("v", 0x0102 + a))) for a in (5, 7, 9)]
    if name == "ptrs":
        out = [m.encode(t, ("S", ("p", ("A", ("P", a), ("P", a + 2))), ("q", ("P", a + 1)))) for a in (1, 7, 3)]
    return out


def run_run(name, end, align, comp, pair, mode, bound, gran, part, parts, st_):
    cfg = Cfg(end, align, "uint32", comp)
    data = datas(name, cfg)
    opcodes = gran == "opcode"
    n = len(pair)

    def fresh():
        return Shared(name, cfg)

    # alone, in a world of its own
    want = []
    length = []
    for k in range(n):
        s = fresh()
        res, total = execute([s.ops(pair, data)[k]], [(0, sched.COUNT)], opcodes)
        want.append(res[0])
        length.append(total)
    shared = fresh()
    if mode == "warm":
        for rep in range(2):
            for k in range(n):
                res, total = execute([shared.ops(pair, data)[k]], [(0, sched.COUNT)], opcodes)
                if res[0] != want[k]:
                    raise Violation(f"alone and repeated: {res[0]!r}, before {want[k]!r}: {what(name, cfg)}")
                length[k] = total
    for k in range(n):
        if pair[k] == "p":
            m = Model(ENV, cfg)
            v, used = m.decode(DEFS[name], data[k], 0, bytearray(len(data[k]) + 64)) if not space.has_eof(DEFS[name]) else (None, None)
            got = shared.T(data[k])
            if v is not None and impl.norm(DEFS[name], got, ENV) != v:
                raise Violation(f"parsed {got!r}, expected {v!r}: {what(name, cfg)}")
    schedules = [p for p in plans(length, bound) if parts == 1 or p[0][1] % parts == part]
    st_.count("schedules", len(schedules))
    for plan in schedules:
        s = shared if mode == "warm" else fresh()
        res, total = execute(s.ops(pair, data), plan, opcodes)
        st_.trans(total)
        if res != want:
            bad = [(k, res[k], want[k]) for k in range(n) if res[k] != want[k]]
            raise Violation(f"threads {pair} with schedule {plan}: " + "; ".join(
                f"thread {k} got {g!r}, alone {w!r}" for k, g, w in bad) + f": {what(name, cfg)}")
        st_.state()
        if mode == "cold":  # nothing was left behind in the types
            for k, op in enumerate(s.ops(pair, data)):
                after = guarded(op)
                if after != want[k]:
                    raise Violation(f"after threads {pair} with schedule {plan}: {after!r}, before {want[k]!r}: {what(name, cfg)}")
    st_.trace(len(schedules))


def guarded(op):
    try:
        return op()
    except Exception as e:  # noqa: BLE001
        return "raised", type(e).__name__, str(e)


def what(name, cfg):
    return f"{ref.text(DEFS[name], ENV)} [{cfgname(cfg)}]"


def plans(length, bound):
    """All schedules with at most ``bound`` preemptions, as segment lists; the last thread runs are implied."""
    n = len(length)
    if bound == 1:
        for a in range(n):
            for i in range(1, length[a] + 1):
                for b in range(n):
                    if b != a:
                        yield [(a, i), (b, sched.NEVER), (a, sched.NEVER)]
    elif bound == 2:
        for a in range(n):
            for b in range(n):
                if b == a:
                    continue
                for i in range(1, length[a] + 1):
                    for j in range(1, length[b] + 1):
                        yield [(a, i), (b, j), (a, sched.NEVER)]
                        for c in range(n):
                            if c not in (a, b):
                                yield [(a, i), (b, j), (c, sched.NEVER)]
    else:
        for a in range(n):
            b = 1 - a
            for i in range(1, length[a] + 1):
                for j in range(1, length[b] + 1):
                    for k in range(1, length[a] - i + 1):
                        yield [(a, i), (b, j), (a, k), (b, sched.NEVER)]


def run_plain(typ, end, pair, bound, st_):
    from dissect.cstruct import cstruct

    cs = cstruct(endian=end, pointer="uint32")
    text = "\n".join(x for x, _ in ref.render(st("T", F("a", PT), F("b", BITS), F("c", UN), F("d", ("e", "E8")), F("e", ("e", "E16")),
                                                F("f", ("e", "F8"))), ENV))
    cs.load(text)
    base = typ.rstrip("*").split("[")[0]
    T = getattr(cs, base)
    if typ.endswith("*"):
        T = cs._make_pointer(T)
    elif "[" in typ:
        cnt = typ.split("[")[1][:-1]
        T = T[None if cnt == "None" else int(cnt)]
    data = [bytes([1, 2, 3, 4, 5, 6, 7, 8, 1, 0, 2, 0, 0, 0, 9, 0, 0, 0, 0, 0]), bytes([0x11, 0x12, 3, 0x14, 0x15, 0, 0, 0, 0, 0, 0, 0]) + bytes(9)]

    def ops():
        out = []
        for kind, d in zip(pair, data):
            stream = BytesIO(d)
            if kind == "p":
                out.append(lambda stream=stream: (snap(T(stream)), stream.tell()))
            else:
                v = T(stream)
                o = BytesIO()
                out.append(lambda o=o, v=v: (T.write(o, v), o.getvalue())[1])
        return out

    want, length = [], []
    for k in range(2):
        execute([ops()[k]], [(0, sched.COUNT)])
        res, total = execute([ops()[k]], [(0, sched.COUNT)])
        want.append(res[0])
        length.append(total)
        if res[0] and res[0][0] == "raised":
            raise Violation(f"{typ}: {res[0]}")
    for plan in plans(length, bound):
        res, total = execute(ops(), plan)
        st_.trans(total)
        st_.state()
        if res != want:
            raise Violation(f"{typ}: threads {pair} with schedule {plan}: got {res!r}, alone {want!r}")
    st_.count("schedules", length[0] * length[1] * 2)
    st_.trace()
