"""Manipulation of recorded outputs."""
import numpy as np


class Rec:
    def __init__(self, sdr=None, sir=None, sar=None, perm=None):
        self.sdr, self.sir, self.sar, self.perm = sdr, sir, sar, perm

    def metrics(self):
        return [(n, getattr(self, n)) for n in ("sdr", "sir", "sar") if getattr(self, n) is not None]

    @staticmethod
    def map(o, f):
        return Rec(*[None if v is None else f(v) for v in (o.sdr, o.sir, o.sar, o.perm)])


def slice_out(o, bshape, i):
    """i None: flatten the batch; else element i of a flat batch"""
    nb = int(np.prod(bshape)) if bshape else 1
    k = len(bshape)
    if i is None:
        return Rec.map(o, lambda v: v.reshape((nb,) + v.shape[k:]))
    return Rec.map(o, lambda v: v.reshape((nb,) + v.shape[k:])[i])
