"""Contract types: they fix how parameters, container elements and fields are read."""


class Ty:
    def __repr__(self):
        return self.__class__.__name__


class TInt(Ty): pass
class TStr(Ty): pass
class TBool(Ty): pass
class TNone(Ty): pass
class TAny(Ty): pass          # any V, forked on its tag when used


class TList(Ty):
    def __init__(self, e): self.e = e
    def __repr__(self): return "List(%r)" % self.e


class TOSet(Ty):
    """insertion-ordered set (gyp.common.OrderedSet), modelled by its contract as a duplicate-free sequence"""
    def __init__(self, e): self.e = e


class TSet(Ty):
    def __init__(self, e): self.e = e


class TDict(Ty):
    """dict with str keys; v: type of values; rec: {key: (type, required)} for known keys"""
    def __init__(self, v=None, rec=None): self.v, self.rec = v or Any, rec or {}


class TXDict(Ty):
    """dict keyed by boxed values (objects, ints...), root level only"""
    def __init__(self, k, v): self.k, self.v = k, v


class TTup(Ty):
    def __init__(self, *es): self.es = es


class TUnion(Ty):
    def __init__(self, *ts): self.ts = ts


class TObj(Ty):
    def __init__(self, cls): self.cls = cls


class TSeq(Ty):
    """immutable sequence of unknown length"""
    def __init__(self, e): self.e = e


Any, IntT, StrT, BoolT, NoneT = TAny(), TInt(), TStr(), TBool(), TNone()


def Opt(t): return TUnion(NoneT, t)


class TOther(Ty):
    """a value of some type none of the modelled ones (float, custom class, ...)"""


class TFun(Ty):
    """a function value known only by its contract: apply(eng, st, f, args, kw) -> outcomes"""
    def __init__(self, apply): self.apply = apply
