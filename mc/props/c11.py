"""C11 Union members are coherent views of one byte buffer."""
from io import BytesIO
from itertools import product

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import CONFIGS, cfgname, expect
from mc.ref import SCALARS, Cfg, Model, NotCanonical, RefEOF, Straddle, one_bits, up
from mc.space import BITS, ENV, NEST, PT, TAIL, UN, A, F, Filler, P, S, in_

PROP = "C11"
LIMIT = 200
RULE = ("every union of one or two members out of 32 member kinds (scalars, arrays, enums, flags, pointers, bit-fields, "
        "padded / nested / bit-field structures, anonymous structures, unions in unions; three members over a core set) x "
        "{top-level, member, named member, anonymous member, array element, in a structure in a union} x {<,>} x "
        "{packed,aligned}; from every initial state (default, parsed, built from one member) every sequence of "
        "assignments up to the depth bound, over every member and every nested path x values x {direct, through a reference "
        "taken before}, plus rejected assignments; after every step all members, all held references and the dump are "
        "compared with a byte-buffer model")
TECHNIQUE = ("explicit-state exploration of all assignment histories up to a depth bound on the real objects, each state "
             "compared with a byte-buffer reference model")
ASSUMPTIONS = ["elements of arrays in unions are replaced by assigning the whole array (in-place list mutation is not an assignment to a member)",
               "bytes that are padding inside the assigned member may keep the old value or become zero",
               "unions of fixed size", "values that no longer form valid UTF-16 or are NaN for another member are not explored"]

KINDS = {
    "u8": S("uint8"), "u16": S("uint16"), "u32": S("uint32"), "i24": S("int24"), "i64": S("int64"), "u128": S("uint128"),
    "f32": S("float"), "ch": S("char"), "wc": S("wchar"),
    "u8x3": A(S("uint8"), 3), "u16x2": A(S("uint16"), 2), "chx5": A(S("char"), 5), "wcx2": A(S("wchar"), 2),
    "i24x2": A(S("int24"), 2), "e8": ("e", "E8"), "e16": ("e", "E16"), "f32f": ("e", "F32"), "e16x2": A(("e", "E16"), 2),
    "p": P(S("uint8")), "PT": PT, "TAIL": TAIL, "BITS": BITS, "NEST": NEST, "inPT": in_(PT), "PTx2": A(PT, 2),
    "UN": UN, "inUN": in_(UN), "bits": "bits", "anon": "anon", "anonu": "anonu", "2d": A(A(S("uint8"), 2), 2),
    "nest2": ("st", "", (F("h", S("uint8")), F("j", ("st", "", (F("m", NEST), F("q", ("un", "", (F("lo", S("uint8")), F("w", S("uint16"))), "in"))), "in"))), "in"),
}
CORE3 = ("u8", "u32", "u8x3", "PT", "BITS", "UN", "anon", "bits", "inPT")
SHAPES = ("top", "in", "named", "anon", "arr", "deep")


def member(kind, i):
    t = KINDS[kind]
    if t == "bits":
        return F(f"m{i}", S("uint16"), 5)
    if t == "anon":
        return F(None, ("st", "", (F(f"m{i}x", S("uint8")), F(f"m{i}y", S("uint16"))), "in"))
    if t == "anonu":
        return F(None, ("un", "", (F(f"m{i}x", S("uint32")), F(f"m{i}y", A(S("uint8"), 3))), "in"))
    return F(f"m{i}", t)


def build_type(kinds, shape):
    ms = tuple(member(k, i) for i, k in enumerate(kinds))
    if shape == "top":
        return ("un", "T", ms, "top")
    if shape == "in":
        return ("st", "T", (F("pre", S("uint8")), F("u", ("un", "", ms, "in")), F("post", S("uint16"))), "top")
    if shape == "named":
        return ("st", "T", (F("pre", S("uint8")), F("u", ("un", "TU", ms, "top")), F("post", S("uint16"))), "top")
    if shape == "anon":
        return ("st", "T", (F("pre", S("uint8")), F(None, ("un", "", ms, "in")), F("post", S("uint16"))), "top")
    if shape == "arr":
        return ("st", "T", (F("pre", S("uint8")), F("u", A(("un", "TU", ms, "top"), 2))), "top")
    if shape == "deep":
        inner = ("st", "TI", (F("g", S("uint8")), F("u", ("un", "TU", ms, "top")), F("k", S("uint8"))), "top")
        return ("un", "T", (F("s", inner), F("raw", A(S("uint8"), 6))), "top")
    raise ValueError(shape)


def walk(m, t, base=0):
    """(path, type, bits, offset, unit) of every member, through structures and unions (and arrays of unions)."""
    off = 0
    unit = None
    for (fname, ft, bits), lo in zip(t[2], m.layout(t)["offsets"]):
        u = None
        if bits:
            ss = SCALARS[m.storage(ft)][1]
            if t[0] == "un":
                pos, used = base, 0
            else:
                if lo is not None:
                    unit = [base + lo, 0]
                pos, used = unit
                unit[1] += bits
            u = (ss, ss * 8 - used - bits if m.cfg.big else used)
        else:
            pos = base + lo
        name = () if fname is None else (fname,)
        if fname is not None:
            yield name, ft, bits, pos, u
        if ft[0] in ("st", "un") and not bits:
            for sub in walk(m, ft, pos):
                yield name + sub[0], *sub[1:]
        elif ft[0] == "a" and ft[1][0] == "un":
            es = m.size(ft[1])
            for i in range(ft[2]):
                for sub in walk(m, ft[1], pos + i * es):
                    yield name + (i,) + sub[0], *sub[1:]


def in_union(m, t, path):
    """Whether the path passes through a union at all (other assignments are plain structure assignments)."""
    k = t
    if k[0] == "un":
        return True
    for c in path[:1]:
        if isinstance(c, int):
            return in_union(m, k[1], path[1:])
        for fname, ft, bits in k[2]:
            if fname == c:
                if bits or len(path) == 1:
                    return False
                if ft[0] in ("st", "un", "a"):
                    return in_union(m, ft, path[1:])
            elif fname is None and (ft[0] == "un" or ft[0] == "st") and any(n == c for n, _, _ in ft[2]):
                return ft[0] == "un" or in_union(m, ft, path)
    return False


def get(obj, path):
    for c in path:
        obj = obj[c] if isinstance(c, int) else getattr(obj, c)
    return obj


def bit_value(bits, k):
    full = (1 << bits) - 1
    return (0, full, 0x155555 & full, 1 << (bits - 1), full >> 1, 1)[k]


class Cell:
    """What is to be assigned where: the model value, its bytes and the bits it owns."""

    def __init__(self, m, path, ft, bits, off, unit, k):
        self.path, self.ft, self.bits, self.off = path, ft, bits, off
        self.k = k
        if bits:
            iv = bit_value(bits, k)
            self.v = iv if ft[0] == "s" else ("E", ft[1], iv)
            ss, shift = unit
            self.enc = (iv << shift).to_bytes(ss, m.cfg.order)
            self.mask = (((1 << bits) - 1) << shift).to_bytes(ss, m.cfg.order)
            self.pad = bytes(ss)
        else:
            self.v = Filler(m, k).fill(ft)
            if ft == S("uint16") or ft == S("uint32"):
                self.v ^= 0x1234 if k == 2 else 0
            self.enc = m.encode(ft, self.v)
            mask = bytearray(len(self.enc))
            m.decode(ft, self.enc, 0, mask)
            self.mask = bytes(mask)
            self.pad = bytes(0xFF ^ b for b in mask)

    def apply(self, buf):
        """(new buffer, bits that may also become zero)"""
        new = bytearray(buf)
        free = bytearray(len(buf))
        for i, (e, k, p) in enumerate(zip(self.enc, self.mask, self.pad)):
            new[self.off + i] = (new[self.off + i] & ~k & 0xFF) | (e & k)
            free[self.off + i] = p
        return bytes(new), bytes(free)


class Run:
    def __init__(self, t, cfg):
        self.t, self.cfg = t, cfg
        self.m = Model(ENV, cfg)
        self.cs = impl.build(t, ENV, cfg)
        self.T = getattr(self.cs, t[1])
        self.size = self.m.size(t)
        mask = bytearray(self.size)
        self.m.decode(t, bytes(self.size), 0, mask)
        self.mask = bytes(mask)
        self.members = [w for w in walk(self.m, t) if in_union(self.m, t, w[0])]
        self.holders = sorted({w[0][:i] for w in self.members for i in range(1, len(w[0]))}, key=repr)
        self.nodes = {}
        for path, ft, bits, off, unit in walk(self.m, t):
            self.nodes[path] = (ft, off)
        for path in self.holders:
            if path not in self.nodes:  # element of an array of unions
                ft, off = self.nodes[path[:-1]]
                self.nodes[path] = (ft[1], off + path[-1] * self.m.size(ft[1]))

    def text(self):
        return f"{ref.text(self.t, ENV)[:1200]}\n  [{cfgname(self.cfg)}]"

    def fail(self, msg, hist, **kw):
        raise Violation(msg + ": " + self.text() + "\n  history: " + "; ".join(map(str, hist)) +
                        "".join(f"\n  {k}: {v.hex() if isinstance(v, bytes) else v!r}" for k, v in kw.items()))

    def value(self, cell, holder, name):
        """The object to assign; structures alternate between parsed and constructed instances."""
        ft = cell.ft
        if cell.bits:
            return cell.v if ft[0] == "s" else getattr(self.cs, ft[1])(cell.v[2])
        if ft[0] in ("st", "un") or ft[0] == "a" and ref.is_struct(ft[1]):
            FT = holder.__class__.fields[name].type
            if cell.k != 2 or impl.has_union(ft):
                return FT.reads(cell.enc)
            return impl.denorm(ft, cell.v, self.cs, FT)
        return impl.denorm(ft, cell.v, self.cs)

    def compare(self, obj, held, buf, free, hist, st):
        """Checks everything against the buffer model; returns the buffer with the undetermined bits settled."""
        out = obj.dumps()
        st.trans()
        if len(out) != self.size:
            self.fail("dump has the wrong size", hist, dump=out, size=self.size)
        settled = bytearray(buf)
        for i, (o, b, k, f) in enumerate(zip(out, buf, self.mask, free)):
            if (o ^ b) & k & ~f or (o & ~b) & k & f:
                self.fail("dump does not show the new bytes of the assigned member and the old bytes elsewhere", hist,
                          dump=out, expected=buf, data_mask=self.mask)
            if o & ~k & 0xFF:
                self.fail("padding is not dumped as zero", hist, dump=out, data_mask=self.mask)
            settled[i] = (b & ~(k & f)) | (o & k & f)
        buf = bytes(settled)
        want, _ = self.m.decode(self.t, buf)
        got = impl.norm(self.t, obj, ENV)
        if got != want:
            self.fail("a member is not what its type parses from the bytes of the union", hist, got=got, want=want, buffer=buf)
        for path, ref_ in held.items():
            ft, off = self.nodes[path]
            w, _ = self.m.decode(ft, buf, off)
            g = impl.norm(ft, ref_, ENV)
            if g != w:
                self.fail(f"a reference to {path} taken earlier shows other values", hist, got=g, want=w, buffer=buf)
        return buf

    def initial(self, st):
        """(name, fresh object factory, buffer)"""
        out = [("default", self.T, bytes(self.size))]
        for k in (2, 3):
            v = Filler(self.m, k).fill(self.t)
            try:
                raw = self.m.encode(self.t, v)
                # a filler may give members of one union contradicting values: take the bytes as they come
                pos_free = bytes(b | (0xA5 & ~m & 0xFF) for b, m in zip(raw, self.mask))
                self.m.decode(self.t, pos_free)
            except NotCanonical:
                continue
            out.append((f"parsed-{k}", (lambda d=pos_free: self.T(d)), pos_free))
        for name, b in (("zeros", 0), ("ones", 0xFF)):
            # buffers of one value only, which nothing has been written to yet
            if self.ok(data := bytes([b]) * self.size):
                out.append((f"parsed-{name}", (lambda d=data: self.T(d)), data))
        return out

    def cells(self, ks):
        out = []
        for w in self.members:
            for k in ks:
                try:
                    out.append(Cell(self.m, *w, k))
                except NotCanonical:
                    continue
        return out

    def ok(self, buf):
        try:
            self.m.decode(self.t, buf)
        except (NotCanonical, RefEOF):
            return False
        return True


def bad_values(cell):
    if cell.bits:
        return [1 << cell.bits, -1] if cell.ft[0] == "s" else []
    k = cell.ft
    if k[0] == "s" and SCALARS[k[1]][0] == "i":
        size = SCALARS[k[1]][1]
        return [1 << (8 * size), -(1 << (8 * size)), "x"]
    if k[0] == "a" and k[1] in (S("uint8"), S("uint16")):
        return [[0] * (k[2] + 1), [0] * (k[2] - 1), [1 << 16] * k[2]]
    if k[0] == "e":
        return ["bad"]
    return []


def histories(r, depth, ks0, ks, st, fails=True, deep=False):
    first, rest = r.cells(ks0), r.cells(ks)
    for iname, make, buf0 in r.initial(st):
        plain = iname in ("parsed-zeros", "parsed-ones")

        def replay(hist):
            obj = make()
            held = {p: get(obj, p) for p in r.holders}
            return obj, held

        # one instance per history: every history is executed from its beginning on fresh objects
        def steps(level):
            cells = rest if level or plain else first
            for ci, c in enumerate(cells):
                yield ci, c, False
                if len(c.path) > 1:
                    yield ci, c, True

        def explore(prefix, level):
            for ci, c, through in steps(level):
                hist = prefix + [(level, ci, c, through)]
                obj, held = replay(hist)
                buf = buf0
                free = bytes(len(buf))
                log = [iname]
                buf = r.compare(obj, held, buf, free, log, st) if level == 0 else buf
                ok = True
                for lv, _, cell, thr in hist:
                    nbuf, free = cell.apply(buf)
                    if not r.ok(nbuf):
                        ok = False
                        break
                    holder = held[cell.path[:-1]] if thr else get(obj, cell.path[:-1])
                    name = cell.path[-1]
                    value = r.value(cell, holder, name)
                    log.append(f"{'held ' if thr else ''}{'.'.join(map(str, cell.path))} = {cell.v!r}")
                    setattr(holder, name, value)
                    st.trans()
                    st.state()
                    buf = r.compare(obj, held, nbuf, free, log, st) if lv == level else settle(r, obj, nbuf, free)
                if not ok:
                    continue
                st.trace()
                st.outcome(buf)
                if fails and not plain and (ci == 0 if level == 0 else deep and ci == 0):
                    rejected(r, obj, held, buf, rest, log, st)
                if level + 1 < depth and not (plain and not deep):
                    explore(hist, level + 1)

        explore([], 0)


def settle(r, obj, buf, free):
    out = obj.dumps()
    return bytes((b & ~(k & f)) | (o & k & f) for o, b, k, f in zip(out, buf, r.mask, free))


def rejected(r, obj, held, buf, cells, log, st):
    seen = set()
    for c in cells:
        if c.path in seen:
            continue
        seen.add(c.path)
        for bad in bad_values(c):
            for holder in ([held[c.path[:-1]]] if len(c.path) > 1 else []) + [get(obj, c.path[:-1])]:
                try:
                    setattr(holder, c.path[-1], bad)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    r.fail("a value that cannot be stored was accepted", log + [f"{c.path} = {bad!r}"])
                st.trans()
                r.compare(obj, held, buf, bytes(len(buf)), log + [f"rejected {'.'.join(map(str, c.path))} = {bad!r}"], st)


def parsing(r, st):
    """Size, alignment, consumption, members, position independence, construction from one member."""
    T, m = r.T, r.m
    lay = m.layout(r.t)
    if T.size != r.size or len(T) != r.size:
        r.fail("size", [], got=T.size, want=r.size)
    for k in range(6):
        try:
            raw = m.encode(r.t, Filler(m, k).fill(r.t))
            raw = bytes(b | ((0, 0xFF, 0x5A)[k % 3] & ~x & 0xFF) for b, x in zip(raw, r.mask))
            want, _ = m.decode(r.t, raw)
        except NotCanonical:
            continue
        for pre in (0, 16, 48):
            fh = BytesIO(b"\xcc" * pre + raw + b"\x77" * 9)
            fh.seek(pre)
            obj = T(fh)
            st.state()
            st.trans()
            if fh.tell() != pre + r.size:
                r.fail("parsing does not consume exactly the size", [], consumed=fh.tell() - pre, size=r.size)
            if impl.norm(r.t, obj, ENV) != want:
                r.fail("parsed members", [], data=raw, got=impl.norm(r.t, obj, ENV), want=want)
            r.compare(obj, {}, raw, bytes(len(raw)), [f"parsed {raw.hex()}"], st)
            if r.t[0] == "un":
                for f in T.__fields__:
                    if f.bits:
                        continue
                    got = getattr(obj, f._name)
                    again = f.type(obj.dumps())
                    if not got == again and not any(x[0] == f.name and padded(m, x[1]) for x in r.t[2]):
                        r.fail(f"member {f._name} differs from parsing its type from the bytes", [], got=repr(got), again=repr(again))
        st.trace()
    if r.t[0] == "un":
        for i, (fname, ft, bits) in enumerate(r.t[2]):
            if fname is None:
                continue
            for k in (1, 2, 3):
                w = next(x for x in r.members if x[0] == (fname,))
                cell = Cell(m, *w, k)
                buf, free = cell.apply(bytes(r.size))
                if not r.ok(buf):
                    continue
                val = r.value(cell, T(), fname)
                if val is None:
                    continue
                obj = T(**{fname: val})
                r.compare(obj, {}, buf, free, [f"T({fname}={cell.v!r})"], st)
                st.state()
                if i == 0:
                    obj = T(r.value(cell, T(), fname)) if not isinstance(val, (bytes, bytearray)) else T(**{fname: val})
                    r.compare(obj, {}, buf, free, [f"T({cell.v!r})"], st)


def padded(m, ft):
    size = m.size(ft)
    mask = bytearray(size)
    m.decode(ft, bytes(size), 0, mask)
    return any(b != 0xFF for b in mask)


def cases(tier):
    deep = tier == "thorough"
    for kinds in [(k,) for k in KINDS] + [c for c in product(KINDS, repeat=2)]:
        for shape in SHAPES:
            if shape == "anon" and any(KINDS[k] == "bits" for k in kinds) and False:
                continue
            if shape not in ("top",) and len(kinds) == 2 and not deep and not all(k in CORE3 for k in kinds):
                continue
            if shape == "deep" and not deep and len(kinds) == 2 and not kinds[0] in ("PT", "u8", "anon"):
                continue
            yield [kinds, shape, 2 if shape == "top" and (all(k in CORE3 for k in kinds) or deep) or deep and len(kinds) == 1 else 1]
    for kinds in product(CORE3, repeat=3):
        if not deep and (len(set(kinds)) < 3 or list(kinds) not in (sorted(kinds), sorted(kinds)[::-1])):
            continue
        yield [kinds, "top", 1 if not deep else 2]
    if deep:
        for kinds in product(CORE3, repeat=2):
            for shape in ("top", "in", "anon"):
                yield [kinds, shape, 3]


def show(case):
    kinds, shape, depth = tup(case)
    try:
        return f"depth {depth}: " + ref.text(build_type(kinds, shape), ENV)[:400]
    except Exception:  # noqa: BLE001
        return repr(case)


def run(case, st):
    kinds, shape, depth = tup(case)
    t = build_type(kinds, shape)
    try:
        Model(ENV, Cfg()).layout(t)
    except Straddle:
        return
    cfgs = [Cfg(e, a, "uint64" if e == "<" else "uint32", c) for e, a, c in CONFIGS]
    for n, cfg in enumerate(cfgs):
        r = Run(t, cfg)
        parsing(r, st)
        if not cfg.compiled and shape == "top" and not any(k in ("PT", "NEST", "BITS", "inPT") for k in kinds):
            continue  # the structures inside are what a reader is compiled for
        if not cfg.compiled and len(kinds) > 1 and n % 2 and depth < 2:
            continue
        if depth == 3:
            if cfg.compiled and cfg.align:
                histories(r, 3, (2,), (1,), st, fails=False)
        elif depth == 2:
            if cfg.compiled:
                histories(r, 2, (2,), (0, 1), st, deep=True)
            else:
                histories(r, 1, (1, 2), (0, 2), st)
        else:
            histories(r, 1, (1, 2, 3) if len(kinds) > 1 else (0, 1, 2, 3, 4), (2,), st)
