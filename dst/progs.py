"""Pieces of rank programs shared by the properties"""
import numpy as np

from . import gen
from .oracle import sl2


def rec_stencils(ctx, T, key='stencils'):
    """Rank 0 reports the stencils of composite bases and of their boundary functions"""
    if ctx.rank:
        return
    out = []
    for b in T.bases:
        if b.is_orthogonal:
            out.append(None)
            continue
        S = b.stencil_matrix().diags().toarray()
        B = np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float))
        out.append((S, B))
    ctx.rec(key, out)


def put(T, arr, glob, spectral=True):
    """Fill this rank's part of a global array"""
    arr[...] = glob[tuple(slice(*x) for x in sl2(T.local_slice(spectral)))]
    return arr


def rec_local(ctx, key, T, arr, spectral, lead=0):
    """Report this rank's part"""
    ctx.rec(key, (sl2(T.local_slice(spectral)), np.array(arr)))
