"""helpers shared by the properties about encoders"""
from pyvc import terms as T
from vlib import readers as R


class Mid(R.Reader):
    """the same reader, accepting only between two words"""
    def __init__(self, r): self.r, self.start, self.special = r, r.start, r.special
    def step(self, q, c): return self.r.step(q, c)
    def final(self, q): return [] if q == 'gap' or isinstance(q, tuple) and q[0] == 'gap' else None


def mentions_term(t, x):
    return t.eq(x) or any(mentions_term(t.arg(i), x) for i in range(t.num_args()))
