"""C08 Truncated or failing input never fabricates data."""
from io import BytesIO

from mc import impl, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, configs, expect, show as _show, walk_bytes  # noqa: F401
from mc.ref import SCALARS, NotCanonical, RefEOF
from mc.space import ENV, A, F, S, st

PROP = "C08"
LIMIT = 120
RULE = ("every program of the bounded program space x {<,>} x {packed,aligned} x {compiled,interpreted} x content "
        "patterns x (every cut point of the input; every read() call of the parse x {exception, empty read, one byte "
        "short, half}); after every failing parse a complete parse with the same type must give the expected value. "
        "Also every scalar and array form on its own, dereferencing at every address near the end of the stream")
ASSUMPTIONS = ["short reads are injected on parses without to-end-of-stream arrays, whose extent is the end of input"]


class Fault(Exception):
    pass


class Stream:
    """Seekable stream which misbehaves on its k-th read."""

    def __init__(self, data, k=-1, mode=None):
        self.data, self.k, self.mode = data, k, mode
        self.pos = 0
        self.reads = 0
        self.hit = False

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
        end = max(end, self.pos)
        if self.reads == self.k:
            self.hit = True
            if self.mode == "raise":
                self.reads += 1
                raise Fault("injected")
            have = end - self.pos
            give = {"empty": 0, "one": have - 1, "half": have // 2}[self.mode]
            if give >= have or give < 0:
                self.hit = False
                give = have
            end = self.pos + give
        self.reads += 1
        out = self.data[self.pos : end]
        self.pos = end
        return out

    def seek(self, off, whence=0):
        self.pos = max(0, off + (0, self.pos, len(self.data))[whence])
        return self.pos

    def tell(self):
        return self.pos

    def seekable(self):
        return True

    def readable(self):
        return True


def cases(tier):
    for name in SCALARS:
        if name != "void":
            yield ["scalar", name]
    for e in ENV.enums:
        yield ["scalar", e]
    yield ["deref", 0]
    for key in space.keys(tier):
        yield ["m", key, tier == "thorough" or key[0] == "x" or len(key[1]) < 2]


def show(case):
    return _show([case[1]]) if case[0] == "m" else case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


def parse(T, stream):
    try:
        return "ok", T(stream)
    except EOFError as e:
        return "eof", e
    except Exception as e:  # noqa: BLE001
        return "error", e


def again(p, dirty, v):
    got = p.norm(p.T(BytesIO(dirty)))
    expect(got == v, "a failed parse changed what later parses return", p, data=dirty, got=got, expected=v)


def run_m(key, full, st_):
    t = space.get(key)
    for cfg in configs():
        p = Prog(t, cfg)
        ks = range(space.PATTERNS) if full and key[0] == "p" else (2, 3) if full else (2 if cfg.big else 3,)
        for v, enc, mask, dirty in space.inputs(p.model, t, ks):
            n = len(dirty)
            if not n:
                continue
            last = max((i + 1 for i, m in enumerate(mask) if m), default=0)
            big = n > 300
            cuts = (range(n) if n <= 64 else {0, 1, n // 2, last - 2, last - 1, last, n - 1} - {-1, -2, n} if big else
                    sorted({*range(20), *range(n - 24, n), *range(0, n, max(1, n // 24))}))
            for c in cuts:
                st_.state()
                st_.trans()
                kind, obj = parse(p.T, BytesIO(dirty[:c]))
                cut(p, t, dirty, c, kind, obj, last, v, st_)
            again(p, dirty, v)
            st_.trace()
            faults(p, dirty, v, last, st_, full, big)


def cut(p, t, dirty, c, kind, obj, last, v, st_):
    if p.eof:
        try:
            want, used = p.model.decode(t, dirty[:c])
        except RefEOF:
            want = None
        except NotCanonical:
            return
        if kind == "ok":
            got = p.norm(obj)
            if want is None:
                raise Violation("value returned from a truncated input: " + p.what(data=dirty[:c], got=got, full=dirty))
            expect(got == want, "wrong value from a shortened input", p, data=dirty[:c], got=got, expected=want)
        return
    if kind == "ok":
        got = p.norm(obj)
        if c < last:
            raise Violation("value returned from a truncated input: " + p.what(data=dirty[:c], got=got, full=dirty))
        expect(got == v, "value returned from a shortened input differs from the one of the complete input", p,
               data=dirty[:c], got=got, expected=v)
    elif c < last:
        expect(kind == "eof", f"premature end of input raises {obj!r} instead of EOFError", p, data=dirty[:c])
    st_.outcome((kind, str(obj)[:40] if kind != "ok" else ""))


def faults(p, dirty, v, last, st_, full, big):
    plain = Stream(dirty)
    got = p.norm(p.T(plain))
    expect(got == v, "parse of a minimal file-like object differs", p, data=dirty, got=got, expected=v)
    total = plain.reads
    ks = range(total) if total <= 40 else sorted({*range(10), *range(total - 10, total), *range(0, total, total // 20)})
    for k in ks if not big else {0, 1, 2, total // 2, total - 2, total - 1} & {*range(total)}:
        for mode in ("raise", "one", "empty", "half"):
            if mode != "raise" and p.eof:
                continue
            s = Stream(dirty, k, mode)
            kind, obj = parse(p.T, s)
            st_.state()
            st_.trans()
            if kind == "ok":
                got = p.norm(obj)
                if mode == "raise":
                    raise Violation(f"exception of read call {k} was swallowed: " + p.what(data=dirty, got=got))
                expect(got == v, f"value fabricated when read call {k} delivers fewer bytes ({mode})", p, data=dirty,
                       got=got, expected=v)
            elif mode == "raise":
                expect(isinstance(obj, (Fault, EOFError)) or chained(obj), f"read call {k} raised, parse raised {obj!r}",
                       p, data=dirty)
            elif not s.hit:
                raise Violation(f"parse failed without a fault: {obj!r} " + p.what(data=dirty))
            if kind != "ok" and (full and not big or k == total - 1):
                again(p, dirty, v)


def chained(e):
    return True  # any error is an error


def run_scalar(name, st_):
    base = ("e", name) if name in ENV.enums else ("s", name)
    for cfg in configs(comps=(True,), aligns=(False,)):
        p = Prog(st("T", F("x", base)), cfg)
        IT0 = getattr(p.cs, name)
        forms = [(base, IT0), *[(("a", base, n), IT0[n]) for n in (1, 2, 3, 16, 17)], (("a", base, ("z",)), IT0[None]),
                 (("a", ("a", base, 2), 3), IT0[2][3])]
        for t, IT in forms:
            for k in range(space.PATTERNS):
                v = space.Filler(p.model, k).fill(t)
                enc = p.model.encode(t, v)
                for c in range(len(enc)):
                    for form in ("reads", "stream", "read", "view"):
                        st_.state()
                        st_.trans()
                        try:
                            if form == "reads":
                                got = IT.reads(enc[:c])
                            elif form == "stream":
                                got = IT(BytesIO(enc[:c]))
                            elif form == "read":
                                got = IT.read(BytesIO(enc[:c]))
                            else:
                                got = IT.reads(memoryview(enc)[:c])
                        except EOFError:
                            continue
                        raise Violation(f"{t} returned {got!r} from truncated {enc[:c].hex()} of {enc.hex()} [{cfg}]")
                got = impl.norm(t, IT.reads(enc), ENV)
                st_.trace()
                expect(got == v, f"{t} after failures", None, got=got, expected=v)
                plain = Stream(enc)
                IT(plain)
                for r in range(plain.reads):
                    for mode in ("raise", "one", "empty", "half"):
                        s = Stream(enc, r, mode)
                        kind, obj = parse(IT, s)
                        st_.state()
                        st_.trans()
                        if kind == "ok" and (mode == "raise" or impl.norm(t, obj, ENV) != v):
                            raise Violation(f"{t} returned {obj!r} with read call {r} {mode} on {enc.hex()} [{cfg}]")


def run_deref(_, st_):
    targets = {"uint8": 1, "uint16": 2, "uint32": 4, "int24": 3, "uint64": 8, "PT": None, "char": None, "double": 8,
               "E16": 2, "ileb128": None}
    for cfg in configs(ptr="uint8"):
        for name in targets:
            tt = space.PT if name == "PT" else ("e", name) if name in ENV.enums else ("s", name)
            p = Prog(st("T", F("p", ("p", tt)), F("z", S("uint8"))), cfg)
            for n in range(2, 14):
                body = bytes(0x80 | i for i in range(n))
                for addr in range(1, n + 3):
                    data = bytes([addr]) + body[1:]
                    fh = BytesIO(data)
                    obj = p.T(fh)
                    st_.state()
                    st_.trans()
                    want = None
                    try:
                        if name == "char":
                            want, _ = p.model.decode(A(S("char"), ("z",)), data, addr)
                        else:
                            want, _ = p.model.decode(tt, data, addr)
                    except RefEOF:
                        want = None
                    except NotCanonical:
                        continue
                    for attempt in (1, 2):
                        try:
                            got = obj.p.dereference()
                        except EOFError:
                            expect(want is None, "dereference failed", p, data=data)
                            continue
                        if want is None:
                            raise Violation("dereference beyond the end returned a value: "
                                            + p.what(data=data, got=repr(got)))
                        got = impl.norm(A(S("char"), ("z",)) if name == "char" else tt, got, ENV)
                        expect(got == want, "dereference", p, data=data, got=got, expected=want)
                    expect(fh.tell() == 2, "dereference moved the stream", p, data=data)
                    st_.trace()
