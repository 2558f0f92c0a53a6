"""C02 Byte fidelity."""
from io import BytesIO

from dissect.cstruct import cstruct

from mc import space
from mc.engine import Violation
from mc.impl import tup
from mc.props.common import Prog, configs, expect, show, small, walk_bytes  # noqa: F401

PROP = "C02"
LIMIT = 120
RULE = ("every program of the bounded program space x {<,>} x {packed,aligned} x {compiled,interpreted} x 6 content "
        "patterns with garbage in padding; on single-member programs (thorough: also pairs of core members and special programs) additionally every "
        "single-bit change and every byte forced to 00/ff of every content; every value of the domain of every type (all 8-bit "
        "contents, every byte at every position and around every power of two for wider ones, float corners, LEB128 of "
        "every length) in a structure and arrays; dump compared byte for byte with the "
        "reference encoding (data bits kept, padding and unassigned bits zero)")
ASSUMPTIONS = ["canonical encodings only (minimal LEB128, no NaN, valid UTF-16), as in the property's quantifier",
               "unions of fixed size (dumping dynamic unions is documented as unsupported)"]


DUPS = ("struct T { uint8 _; uint16 a; };", "struct T { uint8 a; uint16 _; };",
        "struct T { uint8 _; uint16 a; uint8 _; };", "struct T { uint32 _; uint32 _; };",
        "struct T { uint8 _ : 4; uint8 a : 4; uint8 _; };", "struct T { uint8 _[2]; uint8 a; uint8 _[2]; };")


def run_dup(text, st):
    """Fields called _ , of which a structure may have several."""
    for end in "<>":
        for comp in (False, True):
            cs = cstruct(endian=end)
            cs.load(text, compiled=comp)
            data = bytes(range(1, 1 + len(cs.T)))
            fh = BytesIO(data + b"\xee")
            got = cs.T(fh).dumps()
            st.trans()
            if fh.tell() != len(data) or got != data:
                raise Violation(f"dump {got.hex()} differs from the input {data.hex()}: {text} endian={end} compiled={comp}")


def cases(tier):
    for text in DUPS:
        yield ["dup", text]
    for name in space.VALUE_TYPES:
        for ptr in ("uint8", "uint32", "uint64") if name == "ptr" else ("uint64",):
            yield ["vals", name, ptr, tier]
    for key in space.keys(tier):
        yield [key, int(small(key, tier))]


def check(p, data, v, enc, used, st):
    tail = b"" if p.eof else b"\xee\xdd\xcc"
    fh = BytesIO(data[:used] + tail)
    obj = p.T(fh)
    st.trans(2)
    expect(fh.tell() == used, "parsing consumed a different number of bytes than the encoding has", p, data=data,
           consumed=fh.tell(), expected=used)
    got = obj.dumps()
    expect(len(got) == used, "dump has a different length than what parsing consumed", p, data=data, dump=got)
    expect(got == enc, "dump differs from the input outside padding, or padding is not zero", p, data=data, dump=got,
           expected=enc)
    expect(p.T.dumps(obj) == got and bytes(obj) == got, "dump call forms differ", p, data=data)
    out = BytesIO()
    out.write(b"##")
    obj.write(out)
    expect(out.getvalue() == b"##" + enc, "write() differs from dumps()", p, data=data, written=out.getvalue())
    st.outcome(got)


def run_vals(name, ptr, tier, st):
    t = space.value_program(name)
    for cfg in configs(ptr=ptr):
        p = Prog(t, cfg)
        if not cfg.align:
            for v, enc in space.value_inputs(p.model, name, tier):
                st.state()
                st.trace()
                check(p, enc, v, enc, len(enc), st)


def run(case, st):
    if case[0] == "dup":
        return run_dup(case[1], st)
    if case[0] == "vals":
        return run_vals(*case[1:], st)
    key, walk = tup(case)
    t = space.get(key)
    for cfg in configs():
        p = Prog(t, cfg)
        for v, enc, mask, dirty in space.inputs(p.model, t):
            st.state()
            st.trace()
            check(p, dirty, v, enc, len(enc), st)
            if walk:
                for data, v2, enc2, used in walk_bytes(p.model, t, dirty):
                    if v2 is None:
                        continue
                    st.state()
                    check(p, data, v2, enc2, used, st)
