"""C20 Generated type stubs are valid Python naming exactly the loaded definitions."""
from __future__ import annotations

import ast
import enum
import keyword
import logging
import sys
import tempfile
from itertools import product
from pathlib import Path

from dissect.cstruct import cstruct
from dissect.cstruct.tools import stubgen

from mc import impl, ref, space
from mc.engine import Violation
from mc.impl import tup
from mc.props import c13
from mc.ref import Cfg
from mc.space import ENV

PROP = "C20"
LIMIT = 300
RULE = ("the stub of every program of the bounded program space and of every hand-written definition text; of every ordered "
        "pair (thorough: triple) of 34 definitions in one and in separate load() calls; of every Python keyword, soft keyword "
        "and special name in every role (constant, structure, union, enum, flag, typedef, field, enum member, nested "
        "structure, alias of, pointer to, array of, nested member); of every constant literal form; of modules with several "
        "cstruct objects; parsed with ast and compared, declaration by declaration, with the types reachable on the cstruct "
        "object")
TECHNIQUE = ("bounded explicit-state model checking: exhaustive enumeration of definition sets; oracle: the stub's syntax tree is "
             "resolved name by name against the real type graph")
ASSUMPTIONS = ["names which Python can't declare (keywords, function-like macros) are left out of the declarations",
               "structures without a name of their own may be declared under an internal name, next to their only use"]

KEYWORDS = [*keyword.kwlist]
SOFT = ["match", "case", "type", "_", "self", "cls", "fh", "cstruct", "print", "int", "float_", "Literal", "overload", "Array", "TypeAlias",
        "CharArray", "BinaryIO", "__cs__", "Structure", "Enum", "__init__", "__class__", "object", "list", "a", "flag_", "__x", "x__", "init", "mro_"]
DEFS = [
    "struct A { uint8 x; };", "struct A { uint8 x; char s[4]; wchar w[2]; uint16 a[3]; };", "union B { uint8 x; uint16 y; };",
    "struct C { struct { uint8 x; }; uint8 y; };", "struct D { struct { uint8 x; } s; struct In { uint16 q; } t; };",
    "struct E { struct { uint8 x; struct { uint16 z; } in; } s[2]; union { uint8 p; } *u; };", "enum F { FA, FB = 5 };",
    "enum F2 : uint8 { FA, FB = 5 };", "flag G { GA, GB };", "enum { K1 = 1, K2 };", "flag { K3 = 4, K4 };", "#define N1 5\n", "#define N2 \"text\"\n",
    "typedef uint8 t1;", "typedef t1 t2;", "typedef uint16 *p1;", "typedef char str1[8];", "typedef uint8 mat1[2][3];", "typedef struct { uint8 a; } H, I;",
    "typedef struct _J { struct _J *next; } J;", "typedef struct { uint8 v; } *pK;", "struct L { struct L *next; struct L **all[2]; };",
    "struct { uint8 a; } M1;", "struct O { uint8 a; } O2, O3;", "typedef DWORD t3;", "typedef unsigned long long t4;", "struct Q1 { };",
    "union R { struct { uint8 a; uint8 b; }; uint16 c; struct { uint8 d; } e; };", "struct T { uint8 n; uint8 a[n]; char z[]; uleb128 l; };",
    "struct U { void v; float16 f; double d; int128 i; uint24 b : 4; };", "typedef struct { struct { uint8 b; } in[2]; } V;",
    "struct A2 { A *p; }; struct A { A2 a; };", "#define LONG_ 0xffffffffffffffffffff\n", "typedef struct { uint8 a; } W[2];",
]
LITERALS = ["1", "-1", "0x10", "010", "0b11", "1.5", "-1.5", "1e999", "-1e999", "\"s\"", "'c'", "\"a'b\"", "'a\"b'", "\"\\n\"", "b'x'", "b\"\\xff\"", "(1, 2)",
            "()", "(1,)", "[1, 2]", "[]", "{'a': 1}", "{}", "{1, 2}", "None", "True", "False", "...", "1+2j", "2j", "(1e999,)", "[1e999]", "{'a': 1e999}",
            "some text", "a b \" c", "it's", "(1 + 2) * 3", "1 << 70", "sizeof(uint32)", "1u", "1UL", "0xFFu", "\\x", "#", "# x", "'''", "\"\"\"",
            "\u00e9", "'\u00e9'", "'\\u2028'", "\t1", "1 \\", "-", "(", ")", "do { } while (0)", "struct x", "__attribute__((packed))", "\"%s\"", "\"{}\"", "'\\\\'",
            "99999999999999999999999999", "1_000", "1.", ".5", "1e5", "0.1", "1e-400", "(-1)", "~0", "''", "\"\"", "b''", "\"a\" \"b\"", "f'x'", "u'x'", "r'\\d'", "Ellipsis", "nan",
            "frozenset()", "set()", "((1, (2, [3, {4: 5}])),)", "'\\ud800'", "\"\\x00\"", "{1e999}", "{None: None}"]


def cases(tier):
    keys = space.keys("quick") if tier == "quick" else space.keys("thorough")
    group = []
    for key in keys:
        group.append(key)
        if len(group) == 40:
            yield ["progs", group]
            group = []
    if group:
        yield ["progs", group]
    for name in c13.TEXTS:
        yield ["text", c13.TEXTS[name]]
    for name in c13.SETS:
        yield ["text", "\n".join(d[0] for d in c13.SETS[name])]
    for d in DEFS:
        yield ["text", d]
    for i in range(len(DEFS)):
        yield ["pairs", i]
    if tier == "thorough":
        for i in range(len(DEFS)):
            for j in range(len(DEFS)):
                if i != j:
                    yield ["triples", i, j]
    for name in (*KEYWORDS, *SOFT):
        yield ["name", name]
    for name in KEYWORDS:
        yield ["names2", name]
    for i in range(0, len(LITERALS), 8):
        yield ["consts", i]
    yield ["builtin"]
    yield ["modules"]
    yield ["api"]
    yield ["nesting", 3 if tier == "quick" else 4]


def show(case):
    return case


def run(case, st_):
    case = tup(case)
    globals()["run_" + case[0]](*case[1:], st_)


# ---------------------------------------------------------------- oracle
EMPTY = frozenset(cstruct().typedefs)
LIB = {"CharArray", "WcharArray", "Array", "Pointer", "Structure", "Union", "Enum", "Flag"}


def declarable(name):
    return name.isidentifier() and not keyword.iskeyword(name)


class Bad(Exception):
    pass


def is_array(T):
    return hasattr(T, "num_entries")


def is_pointer(T):
    return hasattr(T, "dereference")


def is_struct(T):
    return hasattr(T, "__fields__") and not is_pointer(T) and not is_array(T)


class Stub:
    """The declarations of a stub, resolved against the cstruct object."""

    def __init__(self, cs, source, cls_name="cstruct", prefix=""):
        self.cs = cs
        self.cls = cls_name
        self.prefix = prefix
        tree = ast.parse(source)
        compile(source, "<stub>", "exec", dont_inherit=True)
        if len(tree.body) != 1 or not isinstance(tree.body[0], ast.ClassDef) or tree.body[0].name != cls_name:
            raise Bad(f"the stub isn't a class {cls_name}")
        node = tree.body[0]
        if [ast.unparse(b) for b in node.bases] != [f"{prefix}cstruct"]:
            raise Bad(f"bases of {cls_name}: {ast.unparse(node).splitlines()[0]}")
        self.node = node
        self.decls = {}
        for stmt in node.body:
            if isinstance(stmt, ast.ClassDef):
                name = stmt.name
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                name = stmt.target.id
            elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Constant) and stmt.value.value is ...:
                continue
            else:
                raise Bad(f"unexpected {ast.unparse(stmt)}")
            if name in self.decls:
                raise Bad(f"{name} is declared twice")
            self.decls[name] = stmt

    def user(self):
        """User-defined types and constants of the cstruct object."""
        types = {n: self.cs.resolve(t) for n, t in self.cs.typedefs.items() if n not in EMPTY}
        return types, dict(self.cs.consts)

    def check(self):
        types, consts = self.user()
        inner = set()
        for name, value in consts.items():
            if not declarable(name):
                if name in self.decls:
                    raise Bad(f"{name} is declared")
                continue
            stmt = self.decls.get(name)
            if name in types and isinstance(stmt, ast.ClassDef):
                continue
            self.const(name, value, stmt)
        for name, T in types.items():
            if not declarable(name):
                if name in self.decls:
                    raise Bad(f"{name} is declared")
                continue
            if name not in self.decls:
                raise Bad(f"{name} isn't declared")
            if name in consts and not isinstance(self.decls[name], ast.ClassDef):
                continue
            inner |= self.type(name, T)
        # nothing else
        for name, stmt in self.decls.items():
            if name in types or name in consts:
                continue
            if name in inner and isinstance(stmt, ast.ClassDef):
                continue
            raise Bad(f"{name} is declared, but there is no such definition")
        for name in self.decls:
            if name not in inner and not hasattr(self.cs, name):
                raise Bad(f"{name} isn't provided")

    def const(self, name, value, stmt):
        if not isinstance(stmt, ast.AnnAssign):
            raise Bad(f"constant {name} isn't declared")
        if isinstance(value, enum.Enum):
            value = value.value
        a = stmt.annotation
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id == "Literal":
            try:
                got = ast.literal_eval(a.slice)
            except ValueError:
                raise Bad(f"hint of {name} is {ast.unparse(a)}") from None
            if type(got) is not type(value) or got != value or repr(got) != repr(value):
                raise Bad(f"hint of {name} is {ast.unparse(a)}, its value is {value!r}")
        elif not (isinstance(a, ast.Name) and a.id == type(value).__name__ or value is None and isinstance(a, ast.Constant)):
            raise Bad(f"hint of {name} is {ast.unparse(a)}, its value is {value!r}")

    def type(self, name, T):
        """One declared name stands for T; returns the internal names it needed."""
        stmt = self.decls[name]
        if isinstance(stmt, ast.ClassDef):
            if is_struct(T):
                self.struct(stmt, T, name)
            elif issubclass(T, enum.Enum):
                self.enum(stmt, T)
            elif is_array(T) or is_pointer(T):
                raise Bad(f"{name} is a class, but stands for {T.__name__}")
            return set()
        if ast.unparse(stmt.annotation) != "TypeAlias" or stmt.value is None:
            raise Bad(f"{name} is declared as {ast.unparse(stmt)}")
        inner = set()
        self.match(stmt.value, T, [], inner, name)
        return inner

    def match(self, node, T, scopes, inner, where):
        """The expression stands for type T."""
        text = ast.unparse(node)

        def bad(why=""):
            raise Bad(f"{where}: {text} is no hint for {T.__name__} {why}")

        if isinstance(node, ast.Subscript):
            kind = self.lib(node.value)
            if kind == "Array":
                if not is_array(T) or T.type in (self.cs.char, self.cs.wchar):
                    bad()
            elif kind == "Pointer":
                if not is_pointer(T):
                    bad()
            else:
                bad()
            self.match(node.slice, T.type, scopes, inner, where)
            return
        if self.lib(node) in ("CharArray", "WcharArray") and not any(text in s for s in scopes):
            if not is_array(T) or T.type is not (self.cs.char if self.lib(node) == "CharArray" else self.cs.wchar):
                bad()
            return
        if is_array(T) or is_pointer(T):
            bad()
        if self.lib(node) in ("Structure", "Union", "Enum", "Flag") and not any(text in s for s in scopes):
            # a type which has no name that Python can declare
            types, _ = self.user()
            if declarable(T.__name__) or any(declarable(n) and t is T for n, t in types.items()) or self.lib(node) != T.__base__.__name__:
                bad()
            return
        if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == self.cls:
            self.globally(node.attr, T, bad, inner)
            return
        if isinstance(node, ast.Name):
            for scope in reversed(scopes):
                if node.id in scope:
                    if not is_struct(T):
                        bad()
                    if scope[node.id].get("checked"):
                        if scope[node.id]["checked"] is not T:
                            bad("(another structure)")
                        return
                    scope[node.id]["checked"] = T
                    self.struct(scope[node.id]["node"], T, node.id, scopes)
                    return
                break  # the bodies of enclosing classes aren't visible
            if not scopes:
                self.globally(node.id, T, bad, inner)
                return
            if node.id == T.__name__ and is_struct(T) and any(T is x for x in self.open):
                return  # a structure which refers to itself
        bad()

    open: list = []

    def globally(self, name, T, bad, inner):
        types, _ = self.user()
        if name in types:
            if types[name] is not T:
                bad(f"but for {types[name].__name__}")
            if name not in self.decls:
                bad("(not declared)")
            return
        if name in EMPTY and name not in self.decls:
            if self.cs.resolve(name) is not T:
                bad(f"but for {self.cs.resolve(name).__name__}")
            return
        stmt = self.decls.get(name)
        if isinstance(stmt, ast.ClassDef) and is_struct(T) and T.__name__ == name:
            if name not in inner:
                inner.add(name)
                self.struct(stmt, T, name)
            return
        bad("(no such name)")

    def lib(self, node):
        text = ast.unparse(node)
        if self.prefix and not text.startswith(self.prefix):
            return None
        text = text[len(self.prefix):]
        return text if text in LIB else None

    def enum(self, node, T):
        base = "Flag" if "Flag" in [b.__name__ for b in T.__mro__] else "Enum"
        if [self.lib(b) for b in node.bases] != [base]:
            raise Bad(f"bases of {node.name}")
        got = []
        for stmt in node.body:
            if isinstance(stmt, ast.Expr):
                continue
            if not isinstance(stmt, ast.Assign):
                raise Bad(f"{node.name}: {ast.unparse(stmt)}")
            got.append(stmt.targets[0].id)
        want = [k for k in T.__members__ if declarable(k)]
        if got != want:
            raise Bad(f"members of {node.name} are {got}, expected {want}")

    def struct(self, node, T, name, outer=()):
        bases = [self.lib(b) for b in node.bases]
        want = "Union" if "Union" in [b.__name__ for b in T.__mro__] else "Structure"
        if bases != [want]:
            raise Bad(f"base of {name} is {bases}, expected {want}")
        scope = {}
        hints = {}
        inits = []
        for stmt in node.body:
            if isinstance(stmt, ast.ClassDef):
                if stmt.name in scope and ast.dump(scope[stmt.name]["node"]) != ast.dump(stmt):
                    raise Bad(f"{name}.{stmt.name} is declared differently twice")
                scope[stmt.name] = {"node": stmt}
            elif isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                if stmt.target.id in hints:
                    raise Bad(f"{name}.{stmt.target.id} is declared twice")
                hints[stmt.target.id] = stmt.annotation
            elif isinstance(stmt, ast.FunctionDef) and stmt.name == "__init__":
                inits.append(stmt)
            else:
                raise Bad(f"{name}: unexpected {ast.unparse(stmt)[:200]}")
        fields = {n: f for n, f in T.fields.items() if declarable(n)}
        if list(hints) != list(fields):
            raise Bad(f"fields of {name} are {list(hints)}, expected {list(fields)}")
        self.open = [*self.open, T]
        try:
            for n, f in fields.items():
                self.match(hints[n], f.type, [*outer, scope], set(), f"{name}.{n}")
        finally:
            self.open = self.open[:-1]
        for n, s in scope.items():
            if "checked" not in s:
                raise Bad(f"{name}.{n} is declared without being a field's type")
        if len(inits) < 1:
            raise Bad(f"{name} has no __init__")
        args = inits[0].args
        names = [a.arg for a in args.args][1:]
        if names != list(fields) or args.vararg or args.kwarg or len(args.defaults) != len(names):
            raise Bad(f"arguments of {name}.__init__ are {names}, expected {list(fields)}")
        for a in args.args[1:]:
            if ast.unparse(a.annotation) != ast.unparse(hints[a.arg]) + " | None":
                raise Bad(f"{name}.__init__ {a.arg}: {ast.unparse(a.annotation)}")


def verify(cs, what, cls="cstruct", prefix=""):
    try:
        src = stubgen.generate_cstruct_stub(cs, prefix, cls)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"no stub ({type(e).__name__}: {e}) for {what}") from e
    try:
        Stub(cs, src, cls, prefix).check()
    except SyntaxError as e:
        raise Violation(f"stub isn't valid Python ({e}) for {what}:\n{src}") from None
    except Bad as e:
        raise Violation(f"{e}; for {what}:\n{src}") from None
    return src


def both(cs, what, st_):
    if not LIB & {*cs.typedefs, *cs.consts}:  # without a prefix, the names of the library can be hidden
        verify(cs, what)
    verify(cs, what, "_name", "__cs__.")
    st_.state()
    st_.trans(2)


# ---------------------------------------------------------------- cases
def run_progs(keys, st_):
    for i, key in enumerate(keys):
        t = space.get(key)
        cs = impl.build(t, ENV, Cfg("<", False, "uint32", i % 8 == 0))
        both(cs, ref.text(t, ENV), st_)
    st_.trace()


def load(text, compiled=False):
    cs = cstruct()
    try:
        cs.load(text, compiled=compiled)
    except Exception:  # noqa: BLE001 -- definitions which can't be loaded have no stub
        return None
    return cs


def run_text(text, st_):
    for compiled in (True, False):
        cs = load(text, compiled)
        if cs is None:
            st_.count("not_loadable")
        else:
            both(cs, text, st_)
    st_.trace()


def run_pairs(i, st_):
    for j in range(len(DEFS)):
        for split in (False, True):
            cs = cstruct()
            try:
                if split:
                    cs.load(DEFS[i])
                    verify(cs, DEFS[i])
                    cs.load(DEFS[j], compiled=False)
                else:
                    cs.load(DEFS[i] + "\n" + DEFS[j], compiled=False)
            except Exception:  # noqa: BLE001
                st_.count("not_loadable")
                continue  # the same name, or a type which is missing
            both(cs, DEFS[i] + "\n" + DEFS[j], st_)
    st_.trace()


def run_triples(i, j, st_):
    for k in range(len(DEFS)):
        cs = load("\n".join((DEFS[i], DEFS[j], DEFS[k])))
        if cs:
            both(cs, "\n".join((DEFS[i], DEFS[j], DEFS[k])), st_)
    st_.trace()


ROLES = ["struct {n} {{ uint8 a; }};", "union {n} {{ uint8 a; }};", "enum {n} {{ A }};", "flag {n} {{ A }};", "typedef uint8 {n};", "typedef uint8 *{n};",
         "typedef uint8 {n}[2];", "typedef char {n}[2];", "typedef struct {{ uint8 a; }} {n};", "typedef struct {n} {{ uint8 a; }} Al;",
         "typedef struct Al {{ uint8 a; }} {n};", "typedef struct {{ uint8 a; }} {n}, Al;", "typedef struct {{ uint8 a; }} Al, {n};",
         "#define {n} 1\n", "enum {{ {n} = 2 }};", "enum E {{ {n}, B }};", "enum E {{ {n} }};", "flag E {{ {n} }};", "struct S {{ uint8 {n}; }};",
         "struct S {{ uint8 {n}; uint8 b; char c[2]; }};", "union S {{ uint8 {n}; }};", "struct S {{ struct {{ uint8 {n}; }}; }};",
         "struct S {{ struct {{ uint8 {n}; }} x; }};", "struct S {{ struct {n} {{ uint8 a; }} x; }};", "struct S {{ struct {n} {{ uint8 a; }} x[2]; }};",
         "struct S {{ struct {n} {{ uint8 a; }} *x; }};", "struct S {{ struct {{ uint8 a; }} {n}; }};", "struct S {{ struct {n} {{ uint8 a; }} {n}; }};",
         "struct {n} {{ uint8 a; }}; struct S {{ {n} x; }};", "struct {n} {{ uint8 a; }}; struct S {{ {n} *x; }};",
         "struct {n} {{ uint8 a; }}; struct S {{ {n} x[2][3]; }};", "struct {n} {{ uint8 a; }}; typedef {n} Al; struct S {{ Al x; {n} y; }};",
         "enum {n} {{ A }}; struct S {{ {n} x; {n} y[2]; {n} *z; }};", "enum {n} {{ A }}; typedef {n} Al; typedef {n} *pAl; typedef {n} aAl[2];",
         "flag {n} {{ A }}; struct S {{ {n} x; }};", "struct {n} {{ struct {n} *next; }};", "struct {n} {{ {n} *next[2]; }};",
         "typedef uint8 {n}; struct S {{ {n} x; }};", "typedef struct {{ uint8 a; }} *{n}; struct S {{ {n} x; }};",
         "struct {n} {{ uint8 a; }}; typedef {n} *pAl; typedef {n} aAl[2]; struct S {{ pAl x; aAl y; }};",
         "typedef struct {n} {{ struct {n} *n; }} Al; struct S {{ Al x; }};", "struct {n} {{ uint8 a; }} Al; struct S {{ Al x; }};",
         "struct S {{ uint8 x; }}; typedef S {n}; struct T {{ {n} x; {n} *y; }};", "struct S {{ union {n} {{ uint8 {n}; }} {n}; }};",
         "struct {n} {{ struct {n} {{ uint8 a; }} b; }};", "struct Al {{ uint8 b; }}; struct {n} {{ struct Al {{ uint8 a; }} b; Al c; }};"]
COMMON = [("struct Other { uint8 q; };", ""), ("", "struct Last { uint8 q; Other_ *p; };")]


def run_name(name, st_):
    for i, role in enumerate(ROLES):
        text = role.format(n=name)
        cs = load(text)
        if cs is None:
            st_.count("not_loadable")
            continue
        both(cs, text, st_)
        cs.load("struct After { uint8 q; }; enum After2 { X }; #define AFTER 1\n".replace("; #", ";\n#"))
        both(cs, text + " and more", st_)
    st_.trace()


def run_names2(name, st_):
    """A name which can't be declared together with every other role of another one."""
    for a, b in product(ROLES[:18], ROLES):
        text = a.format(n=name) + "\n" + b.format(n="Zz").replace(" S ", " S2 ").replace("Al", "Al2").replace("enum E ", "enum E2 ").replace("flag E ", "flag E2 ")
        cs = load(text)
        if cs is not None:
            both(cs, text, st_)
    st_.trace()


def run_consts(start, st_):
    for lit in LITERALS[start:start + 8]:
        for text in (f"#define X {lit}\n", f"#define X {lit}\nstruct S {{ uint8 a; }};", f"#define X_ {lit} \nenum E {{ A }};\n", f"#define F(x) {lit}\n",
                     f"#define A-B {lit}\n#define C {lit}\n", f"#define class {lit}\n", f"#define X\t {lit}\t\n#define X2 {lit}\n"):
            cs = load(text)
            if cs is not None:
                both(cs, text, st_)
                cs.consts["Y"] = cs.consts.get("X")
                both(cs, text + " and Y", st_)
    for value in (object(), 1.5, float("nan"), float("-inf"), b"x", (1, [2]), cstruct, range(3), None, ..., "\x00", 10 ** 30, True, {1: (float("inf"),)}):
        cs = cstruct()
        cs.consts["V"] = value
        src = stubgen.generate_cstruct_stub(cs)
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise Violation(f"stub with constant {value!r} isn't valid: {e}\n{src}") from None
        if not any(isinstance(s, ast.AnnAssign) and s.target.id == "V" for s in tree.body[0].body):
            raise Violation(f"constant {value!r} isn't declared\n{src}")
        st_.state()
    st_.trace()


def run_builtin(st_):
    """Every built-in type as the type of fields, aliases, arrays and pointers."""
    for name in sorted(EMPTY):
        cs = cstruct()
        cs.load(f"struct S {{ {name} a; {name} b[2]; {name} *c; {name} *d[2]; {name} e[]; {name} f[2][3]; {name} **g; }}; typedef {name} A; typedef {name} *P; "
                f"typedef {name} R[2]; typedef A B; union U {{ {name} a; B b; R c; P d; }};" if name != "void" else
                "struct S { void *a; void b; }; typedef void A; typedef void *P;")
        both(cs, name, st_)
    cs = cstruct()
    src = verify(cs, "no definitions")
    if src.split() != ["class", "cstruct(cstruct):", "..."]:
        raise Violation(f"stub without definitions is {src!r}")
    st_.trace()


def run_modules(st_):
    """Stubs of whole files."""
    texts = [c13.TEXTS[n] for n in ("struct", "enumanon", "typedefs", "inner", "flag", "define")]
    with tempfile.TemporaryDirectory(prefix="mc20") as tmp:
        base = Path(tmp)
        for n in range(4):
            for i, names in enumerate((("c_a",), ("c_a", "c_b"), ("cs", "other", "x"), ())):
                path = base / f"mod{n}{i}.py"
                lines = ["from dissect.cstruct import cstruct"]
                for k, name in enumerate(names):
                    lines += [f"{name}_def = {texts[(n + k + i) % len(texts)]!r}", f"{name} = cstruct()", f"{name}.load({name}_def)"]
                path.write_text("\n".join(lines) + "\n")
                try:
                    src = stubgen.generate_file_stub(path, base)
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"no stub for {lines}: {type(e).__name__}: {e}") from e
                if not names:
                    if src != "":
                        raise Violation(f"stub of a module without cstruct objects: {src!r}")
                    continue
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise Violation(f"stub of a module isn't valid: {e}\n{src}") from None
                got = {s.name: s for s in tree.body if isinstance(s, ast.ClassDef)}
                alias = {s.target.id: s for s in tree.body if isinstance(s, ast.AnnAssign)}
                if list(got) != [f"_{x}" for x in names] or list(alias) != list(names):
                    raise Violation(f"module with {names} declares {list(got)} and {list(alias)}\n{src}")
                imported = {a.asname or a.name for s in tree.body if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
                for need in ("__cs__", "TypeAlias", "Literal", "overload", "BinaryIO"):
                    if need in src.split("class", 1)[1] and need not in imported:
                        raise Violation(f"{need} isn't imported\n{src}")
                for k, name in enumerate(names):
                    if ast.unparse(alias[name].value) != f"_{name}":
                        raise Violation(f"{name} is {ast.unparse(alias[name])}")
                    cs = cstruct()
                    cs.load(texts[(n + k + i) % len(texts)])
                    try:
                        part = ast.unparse(got[f"_{name}"])
                        Stub(cs, part, f"_{name}", "__cs__.").check()
                    except Bad as e:
                        raise Violation(f"{e}; module {lines}:\n{src}") from None
                    st_.state()
        # the command writes the same
        want = {p: stubgen.generate_file_stub(p, base) for p in sorted(base.glob("*.py"))}
        argv = sys.argv
        logging.disable(logging.CRITICAL)
        try:
            for targets in ([base], list(want)):
                for target in targets:
                    sys.argv = ["cstruct-stubify", str(target)]
                    stubgen.main()
                for p, src in want.items():
                    out = p.with_suffix(".pyi")
                    got = out.read_text() if out.exists() else ""
                    if got != src:
                        raise Violation(f"stub file of {p.read_text()!r} is {got!r}, expected {src!r}")
                    out.unlink(missing_ok=True)
                    st_.state()
        finally:
            sys.argv = argv
            logging.disable(logging.NOTSET)
    st_.trace()


def run_api(st_):
    """Types which were added without a definition."""
    for order in (0, 1):
        cs = cstruct()
        if order:
            cs.load("struct S { uint8 a; }; typedef S S2; enum E { A };")
        cs.add_type("al1", "uint8")
        cs.add_type("al2", "al1")
        cs.add_type("al3", cs.uint16)
        cs.add_type("arr", cs.uint8[3])
        cs.add_type("ptr", cs._make_pointer(cs.uint32))
        if order:
            cs.add_type("S3", "S2")
            cs.add_type("S4", cs.S)
            cs.add_type("E2", "E")
            cs.add_type("SA", cs.S[2])
            cs.S.add_field("b", cs.uint16)
            cs.S.add_field("c", cs.E)
        both(cs, "add_type", st_)
        src = stubgen.generate_cstruct_stub(cs)
        if src != stubgen.generate_cstruct_stub(cs):
            raise Violation("the stub changes when it is generated again")
    st_.trace()


def run_nesting(depth, st_):
    """All nestings of anonymous / named / inline members up to the depth."""
    forms = ["struct {{ {b} }};", "struct {{ {b} }} m{k};", "struct In{k} {{ {b} }} m{k};", "union {{ {b} }} m{k}[2];", "union {{ {b} }};", "struct In{k} {{ {b} }} *m{k};"]
    leaf = ["uint8 v{k};", "G *v{k}; char t{k}[3];"]
    for d in range(1, depth + 1):
        for combo in product(range(len(forms)), repeat=d):
            for li in range(len(leaf)):
                body = leaf[li].format(k=d)
                for k in range(d, 0, -1):
                    body = f"uint8 w{k}; " + forms[combo[k - 1]].format(b=body, k=k)
                for top in ("struct G {{ uint8 g; }}; struct S {{ {b} }};", "struct G {{ uint8 g; }}; typedef union {{ {b} }} S, S2;"):
                    text = top.format(b=body)
                    cs = cstruct()
                    cs.load(text, compiled=False)
                    both(cs, text, st_)
    st_.trace()
