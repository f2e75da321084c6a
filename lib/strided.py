"""Strided arrays of doubles for the harnesses, on the symbolic and the concrete runs alike"""
import itertools, sym
from decide import true
def contiguous(shape):
    st, s = [], 8
    for n in reversed(shape): st.insert(0, s); s *= n
    return st
def layout(shape, mode, k=0):
    """k: each array gets strides of its own. mode 0: strides passed as 0; 1: padded rows; 2: transposed order with padding; -> (strides, bytes)"""
    if mode == 0:
        return contiguous(shape), 8 * _prod(shape)
    order = list(range(len(shape))) if mode == 1 else list(reversed(range(len(shape))))
    st = [0] * len(shape); s = 8 * (2 if mode == 1 else 1) + 8 * (k % 5)
    for d in reversed(order):
        st[d] = s; s = s * shape[d] + 8 * (1 + d) + 8 * (k % 3)
    size = sum((n - 1) * x for n, x in zip(shape, st)) + 8
    return st, size
def _prod(x):
    r = 1
    for v in x: r *= v
    return r
class Arr:
    def __init__(self, run, name, shape, vals=None, mode=0, null=False):
        self.run, self.name, self.shape, self.mode, self.null = run, name, shape, mode, null
        run.narr = getattr(run, "narr", 0) + 1
        self.st, self.size = layout(shape, mode, run.narr)
        if null: self.b = None; return
        fields = {}
        if vals is not None:
            for v, ix in zip(vals, itertools.product(*map(range, shape))):
                fields[self.off(ix)] = ("d", v)
        self.b = run.mem(name, self.size, fields)
        self.used = {self.off(ix) for ix in itertools.product(*map(range, shape))}
    def off(self, ix): return sum(i * s for i, s in zip(ix, self.st))
    def args(self):
        return (self.b, *([0] * len(self.st) if self.mode == 0 else self.st))
    def vals(self):
        return [self.b.d(0, self.off(ix)) for ix in itertools.product(*map(range, self.shape))]
    def holes(self):
        """the padding was not written to"""
        if self.null: return []
        ok = all(self.b.d(0, o) is None for o in range(0, self.size, 8) if o not in self.used)
        return [true(self.name + ": padding untouched", ok)]
