"""The language of a regular expression, as a z3 regular expression (for the constructs that have an exact counterpart; no flags)."""
import re
import z3
from . import terms as T
try: from re import _parser as sre, _constants as K
except ImportError: import sre_parse as sre, sre_constants as K

RS = z3.ReSort(T.String)


def _one(c): return z3.Re(T.sv(chr(c)))


def _set(items):
    neg = bool(items) and items[0][0] is K.NEGATE
    out = []
    for op, a in items[1:] if neg else items:
        if op is K.LITERAL: out.append(_one(a))
        elif op is K.RANGE: out.append(z3.Range(T.sv(chr(a[0])), T.sv(chr(a[1]))))
        else: return None
    r = out[0] if len(out) == 1 else z3.Union(*out)
    return z3.Intersect(z3.AllChar(RS), z3.Complement(r)) if neg else r


def _seq(p, first, last):
    """exact language of a parsed pattern; None if there is a construct without a counterpart"""
    out = []
    n = len(p)
    for i, (op, a) in enumerate(p):
        if op is K.LITERAL: r = _one(a)
        elif op is K.NOT_LITERAL: r = z3.Intersect(z3.AllChar(RS), z3.Complement(_one(a)))
        elif op is K.ANY: r = z3.Intersect(z3.AllChar(RS), z3.Complement(_one(10)))
        elif op is K.IN: r = _set(a)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, q = a
            r = _seq(q, False, False)
            if r is None: return None
            if hi is K.MAXREPEAT or hi == K.MAXREPEAT: r = z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            else: r = z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
        elif op is K.SUBPATTERN:
            if a[1] or a[2]: return None
            r = _seq(a[3], first and n == 1, last and n == 1)
        elif op is K.BRANCH:
            rs = [_seq(q, first and n == 1, last and n == 1) for q in a[1]]
            if any(x is None for x in rs): return None
            r = rs[0] if len(rs) == 1 else z3.Union(*rs)
        else: return None
        if r is None: return None
        out.append(r)
    if not out: return z3.Re(T.sv(''))
    return out[0] if len(out) == 1 else z3.Concat(*out)


def language(pat, how):
    """the strings s for which pat.how(s) finds something, or None"""
    if pat.flags & ~re.UNICODE: return None
    p = list(sre.parse(pat.pattern))
    start = end = False
    if p and p[0][0] is K.AT and p[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING): start, p = True, p[1:]
    if p and p[-1][0] is K.AT and p[-1][1] is K.AT_END_STRING: end, p = True, p[:-1]
    dollar = False
    if p and p[-1][0] is K.AT and p[-1][1] is K.AT_END: dollar, p = True, p[:-1]
    r = _seq(p, False, False)
    if r is None: return None
    any_ = z3.Full(RS)
    bits = [r]
    if how == 'search' and not start: bits.insert(0, any_)
    if dollar: bits.append(z3.Option(_one(10)) if how != 'fullmatch' else z3.Re(T.sv('')))
    elif not end and how != 'fullmatch': bits.append(any_)
    return bits[0] if len(bits) == 1 else z3.Concat(*bits)
