"""Spec functions shared by several properties, with the invariant templates that go with them."""
import z3
from pyvc import terms as T
from pyvc.types import *
from pyvc.core import *

V = T.V

# first occurrences, in order
uniq = T.Fold('uniq', lambda: T.empty(), lambda acc, x, p: T.ite(T.member(p, x), acc, T.concat(acc, T.unit(x))), T.SeqV)


def memo_cands(lv):
    """local dicts and sets that remember the elements seen so far"""
    out = {}
    d = lv.done
    for n, t, v in lv.kinds('set'): out['seen:' + n] = t == T.elems(d)
    for n, t, v in lv.kinds('xdict'): out['seen:' + n] = T.elems(t[0]) == T.elems(d)
    for n, t, v in lv.kinds('dict'):
        out['seen:' + n] = T.elems(T.acc('keys', t)) == T.strset(d)
        k = z3.Const('k', T.String)
        out['self:' + n] = z3.ForAll([k], z3.Implies(T.member(T.acc('keys', t), k), T.aselect(T.acc('vals', t), k) == V.StrV(k)))
    return out
