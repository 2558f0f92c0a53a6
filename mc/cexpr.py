"""Independent evaluator for the integer expression grammar (recursive descent, C precedence, unbounded ints).

Shares no code with dissect.cstruct.  Used as the oracle for C10 and to resolve array lengths in mc.ref.
"""
from __future__ import annotations

import re


class CExprError(Exception):
    pass


_TOK = re.compile(r"\s*(?:(0[xX][0-9a-fA-F]+|0[bB][01]+|[0-9]+)([uUlL]{0,3})(?![0-9A-Za-z_])|([A-Za-z_][A-Za-z0-9_]*)|(<<|>>|[-+*/%&^|~()]))")

# lowest to highest, all left associative
_LEVELS = (("|",), ("^",), ("&",), ("<<", ">>"), ("+", "-"), ("*", "/", "%"))


def lex(text):
    out, pos = [], 0
    text = text.rstrip(" \t")
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise CExprError(f"lex {text[pos:]!r}")
        pos = m.end()
        num, suf, ident, op = m.groups()
        if num is not None:
            if suf.lower() not in ("", "u", "l", "ul", "lu", "ll", "ull", "llu"):
                raise CExprError(f"suffix {suf}")
            out.append(("n", literal(num)))
        elif ident is not None:
            out.append(("i", ident))
        else:
            out.append(("o", op))
    return out


def literal(num):
    low = num.lower()
    if low.startswith("0x"):
        return int(low[2:], 16)
    if low.startswith("0b"):
        return int(low[2:], 2)
    if len(low) > 1 and low[0] == "0":
        return int(low, 8)
    return int(low, 10)


def evaluate(text, context=None, consts=None, sizeof=None):
    toks = lex(text)
    pos = 0
    context = context or {}
    consts = consts or {}

    def peek():
        return toks[pos] if pos < len(toks) else ("end", None)

    def take():
        nonlocal pos
        t = peek()
        pos += 1
        return t

    def primary():
        k, v = take()
        if k == "n":
            return v
        if k == "i":
            if v == "sizeof":
                if take() != ("o", "("):
                    raise CExprError("sizeof")
                words = []
                while peek()[0] == "i":
                    words.append(take()[1])
                if take() != ("o", ")") or not words:
                    raise CExprError("sizeof")
                return sizeof(" ".join(words))
            if v in context:
                return int(context[v])
            if v in consts:
                return int(consts[v])
            raise CExprError(f"unknown {v}")
        if (k, v) == ("o", "("):
            r = binary(0)
            if take() != ("o", ")"):
                raise CExprError("paren")
            return r
        raise CExprError(f"token {v}")

    def unary():
        k, v = peek()
        if k == "o" and v in "-~":
            take()
            r = unary()
            return -r if v == "-" else ~r
        return primary()

    def binary(level):
        if level == len(_LEVELS):
            return unary()
        left = binary(level + 1)
        while peek()[0] == "o" and peek()[1] in _LEVELS[level]:
            op = take()[1]
            right = binary(level + 1)
            left = apply(op, left, right)
        return left

    r = binary(0)
    if pos != len(toks):
        raise CExprError("trailing")
    return r


class Undefined(CExprError):
    """Outside the claimed domain (negative division operand, negative shift, division by zero)."""


def apply(op, a, b):
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "&":
        return a & b
    if op in ("<<", ">>"):
        if b < 0 or b > 4096:
            raise Undefined(op)
        return a << b if op == "<<" else a >> b
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if b == 0 or a < 0 or b < 0:
        raise Undefined(op)
    q, r = divmod(a, b)
    return q if op == "/" else r
