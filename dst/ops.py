"""A library of operations, from which random programs are made (C14, C15, C17, C18).

Every operation is determined by its own description and by the spaces: what it computes must not depend on when, after
what, next to whom or under which schedule it runs.  Its results are recorded as ('o', number, k); what must be kept by the
program afterwards is remembered by the pool and compared at the end.
"""
import copy
import os

import numpy as np

from . import gen, oracle
from .oracle import Model


class Pool:
    """The objects one process works with"""

    def __init__(self, ctx, cfg, comm, tag=''):
        self.ctx, self.sf, self.cfg, self.comm, self.tag = ctx, ctx.sf, cfg, comm, tag
        self.obj = {}
        self.kept = []
        self.n = None
        self.k = 0

    def get(self, key, make):
        if key not in self.obj:
            self.obj[key] = make()
        return self.obj[key]

    def space(self, i):
        return self.get(('T', i), lambda: gen.build(self.sf, self.comm, self.cfg['spaces'][i]))

    def V(self, i, n):
        """Scalar, vector, tensor or composite space over space i"""
        T = self.space(i)
        sf = self.sf
        make = {0: lambda: T, 1: lambda: sf.VectorSpace(T), 2: lambda: sf.TensorSpace(T), 3: lambda: sf.CompositeSpace([T, T, T])}[n]
        return self.get(('V', i, n), make) if self.cfg.get('share', 1) else make()

    def nc(self, i, n):
        nd = len(self.cfg['spaces'][i]['bases'])
        return {0: 1, 1: nd, 2: nd**2, 3: 3}[n]

    def fun(self, i, n, seed, V=None):
        """A function with known coefficients"""
        T = self.space(i)
        V = V or self.V(i, n)
        m = Model(self.cfg['spaces'][i])
        u = self.sf.Function(V)
        nc = self.nc(i, n)
        flat = np.asarray(u).view(np.ndarray).reshape((nc,) + T.shape(True))
        sl = tuple(slice(*x) for x in oracle.sl2(T.local_slice(True)))
        for k in range(nc):
            flat[k] = m.random_coefs(seed + 101 * k)[sl]
        return u

    def arr(self, i, n, seed, V=None):
        """Physical data"""
        T = self.space(i)
        V = V or self.V(i, n)
        u = self.sf.Array(V)
        s = self.cfg['spaces'][i]
        rs = np.random.RandomState(seed % 2**31)
        nc = self.nc(i, n)
        flat = np.asarray(u).view(np.ndarray).reshape((nc,) + T.shape(False))
        sl = tuple(slice(*x) for x in oracle.sl2(T.local_slice(False)))
        sh = tuple(gen.phys_size(b) for b in s['bases'])
        for k in range(nc):
            g = rs.uniform(-1, 1, sh)
            if np.iscomplexobj(u):
                g = g + 1j * rs.uniform(-1, 1, sh)
            flat[k] = g[sl]
        return u

    # what comes out
    def loc(self, sp, u, spectral):
        """The local part of a distributed result, of all components"""
        T = sp.flatten()[0] if hasattr(sp, 'flatten') else sp
        sh = T.shape(spectral)
        gs = tuple(int(x) for x in T.global_shape(spectral))
        a = np.array(u)
        self.ctx.rec((self.tag, self.n, self.k), ('loc', gs, oracle.sl2(T.local_slice(spectral)), a.reshape((-1,) + tuple(sh))))
        self.k += 1

    def glob(self, v):
        self.ctx.rec((self.tag, self.n, self.k), ('glob', np.array(v)))
        self.k += 1

    def keep(self, what, u):
        """From now on nobody may change this"""
        self.kept.append((self.n, what, u, np.array(u)))

    def check_kept(self):
        for n, what, u, c in self.kept:
            if not np.array_equal(np.array(u), c, equal_nan=True):
                self.ctx.fail('overwritten', f'{what} of operation {n} was changed by a later one')

    def one(self, i, op):
        self.n, self.k = i, 0
        globals()['op_' + op['op']](self, op)

    def run(self, ops, only=None):
        for i, op in enumerate(ops):
            if only is not None and i not in only:
                continue
            self.one(i, op)
            if self.cfg.get('kept', 1):
                self.check_kept()


# -- the operations

def op_bwd(p, op):
    i, n = op['sp'], op['n']
    V = p.V(i, n)
    uh = p.fun(i, n, op['seed'])
    u = uh.backward() if op['how'] == 0 else V.backward(uh, p.sf.Array(V)) if op['how'] == 1 else uh.backward(p.sf.Array(V))
    p.loc(V, u, False)
    p.keep('result of backward', u)
    p.keep('argument of backward', uh)


def op_fwd(p, op):
    i, n = op['sp'], op['n']
    V = p.V(i, n)
    u = p.arr(i, n, op['seed'])
    uh = u.forward() if op['how'] == 0 else V.forward(u, p.sf.Function(V)) if op['how'] == 1 else V.scalar_product(u, p.sf.Function(V))
    p.loc(V, uh, True)
    p.keep('result of forward', uh)
    p.keep('argument of forward', u)


def op_pad(p, op):
    i, n = op['sp'], op['n']
    V = p.V(i, n)
    uh = p.fun(i, n, op['seed'])
    pf = tuple(op['pf'])
    Vp = V.get_dealiased(pf)
    u = uh.backward(padding_factor=pf) if op['how'] == 0 else Vp.backward(uh, p.sf.Array(Vp))
    p.loc(Vp, u, False)
    p.keep('result of padded backward', u)
    w = Vp.forward(u, p.sf.Function(V))
    p.loc(V, w, True)
    p.keep('result of padded forward', w)


def op_conv(p, op):
    i, n = op['sp'], op['n']
    V = p.V(i, n)
    Vp = V.get_dealiased(tuple(op['pf']))
    a, b = p.fun(i, n, op['seed']), p.fun(i, n, op['seed'] + 7)
    ab = Vp.convolve(a, b, p.sf.Function(V))
    p.loc(V, ab, True)
    p.keep('convolution', ab)


def op_dot(p, op):
    i = op['sp']
    a, b = p.fun(i, 1, op['seed']), p.fun(i, op['n'] or 1, op['seed'] + 7)
    fo = op['how'] != 1
    ab = p.sf.dot(a, b, forward_output=fo) if b.ndim == a.ndim else p.sf.dot(b, a, forward_output=fo)
    p.loc(ab.function_space(), ab, fo)


def op_cross(p, op):
    i = op['sp']
    nd = len(p.cfg['spaces'][i]['bases'])
    V = p.V(i, 1)
    a, b = p.arr(i, 1, op['seed']), p.arr(i, 1, op['seed'] + 7)
    from shenfun.utilities import cross
    c = p.sf.Array(V if nd == 3 else p.space(i))
    c[...] = 5
    cross(c, a, b)
    w = c.forward()
    p.loc(V if nd == 3 else p.space(i), w, True)


def op_eval(p, op):
    i, n = op['sp'], op['n']
    s = p.cfg['spaces'][i]
    V = p.V(i, n)
    uh = p.fun(i, n, op['seed'])
    rs = np.random.RandomState(op['seed'])
    x = np.array([gen.dom(b)[0] + (gen.dom(b)[1] - gen.dom(b)[0]) * rs.uniform(0, 1, op['npts']) for b in s['bases']])
    v = uh.eval(x) if op['how'] == 0 or n else V.eval(x, uh, method=op['how'] - 1)
    p.glob(v)
    p.keep('evaluation', v)


def op_dxeval(p, op):
    i = op['sp']
    s = p.cfg['spaces'][i]
    uh = p.fun(i, 0, op['seed'])
    rs = np.random.RandomState(op['seed'])
    x = np.array([gen.dom(b)[0] + (gen.dom(b)[1] - gen.dom(b)[0]) * rs.uniform(0, 1, op['npts']) for b in s['bases']])
    p.glob((2 * p.sf.Dx(uh, op['ax'] % len(s['bases']), 1)).eval(x))


def op_lin(p, op):
    """A linear form, of data or of an expression"""
    i, n = op['sp'], op['n']
    sf = p.sf
    V = p.V(i, n)
    v = sf.TestFunction(V)
    if op['how'] == 0:
        f = sf.inner(v, p.arr(i, n, op['seed']))
    elif op['how'] == 1:
        f = sf.Function(V)
        f = sf.inner(v, p.arr(i, n, op['seed']), output_array=f)
    elif n == 1:
        f = sf.inner(v, sf.grad(p.fun(i, 0, op['seed'])))
    else:
        f = sf.inner(v, sf.Dx(p.fun(i, n, op['seed']), op['ax'] % V.dimensions, 1)) if not n else sf.inner(v, p.fun(i, n, op['seed']))
    p.loc(V, f, True)
    p.keep('linear form', f)


def mats(p, i, n, how, V):
    sf = p.sf

    def make():
        u, v = sf.TrialFunction(V), sf.TestFunction(V)
        M = sf.inner(v, u)
        A = sf.inner(v, sf.div(sf.grad(u))) if how == 0 else sf.inner(sf.grad(v), sf.grad(u)) if how == 1 else []
        out = [x for y in (M, A) for x in (y if isinstance(y, list) else [y])]
        return out
    return p.get(('M', i, n, how), make) if p.cfg.get('share', 1) else make()


def op_mat(p, op):
    """Matrix-vector products with matrices assembled once"""
    i, n = op['sp'], op['n']
    sf = p.sf
    V = p.V(i, n)
    M = mats(p, i, n, op['how'], V)
    u = p.fun(i, n, op['seed'], V)
    if op.get('blk') or n:
        B = p.get(('B', i, n, op['how']), lambda: sf.BlockMatrix(M)) if p.cfg.get('share', 1) else sf.BlockMatrix(M)
        w = B.matvec(u, sf.Function(V))
    else:
        w = sf.Function(V)
        for m in M:
            w += m.matvec(u, sf.Function(V))
    p.loc(V, w, True)
    p.keep('product', w)


def op_prj(p, op):
    i = op['sp']
    sf = p.sf
    T = p.space(i)
    O = p.get(('O', i), T.get_orthogonal) if p.cfg.get('share', 1) else T.get_orthogonal()
    u = p.fun(i, 0, op['seed'])
    if op['how'] == 0:
        w = sf.project(sf.Dx(u, op['ax'] % T.dimensions, 1), O)
        p.loc(O, w, True)
    elif op['how'] == 1:
        W = p.get(('VO', i), lambda: sf.VectorSpace(O)) if p.cfg.get('share', 1) else sf.VectorSpace(O)
        w = sf.project(sf.grad(u), W)
        p.loc(W, w, True)
    else:
        # a projection that is kept and used again, with a function that is filled anew
        def make():
            f = sf.Function(T)
            return f, sf.Project(sf.div(sf.grad(f)), O)
        if not aligned(p, i):
            return
        f, P = p.get(('P', i), make) if p.cfg.get('share', 1) else make()
        f[...] = u
        w = sf.Function(O)
        w = sf.Function(O, buffer=np.array(P()))
        p.loc(O, w, True)
    p.keep('projection', w)


def op_inn(p, op):
    """Inner objects kept and evaluated again"""
    i = op['sp']
    sf = p.sf
    T = p.space(i)

    def make():
        f = sf.Function(T)
        return f, sf.Inner(sf.TestFunction(T), sf.div(sf.grad(f)) + f)
    f, I = p.get(('I', i), make) if p.cfg.get('share', 1) else make()
    f[...] = p.fun(i, 0, op['seed'])
    w = np.array(I())
    p.loc(T, w, True)


def solvable(s):
    """Kinds of solvers for a space: number of non-periodic axes"""
    np_ = [b for b in s['bases'] if b['f'] != 'F']
    if any(b.get('bc') not in ('DD',) for b in np_):
        return None
    if len(np_) > 2 or any(b['f'] not in ('C', 'L') for b in np_):
        return None
    return len(np_)


def aligned(p, i):
    T = p.space(i)
    s = p.cfg['spaces'][i]
    sub = T.forward.output_pencil.subcomm
    return not any(sub[a].Get_size() > 1 for a, b in enumerate(s['bases']) if b['f'] != 'F')


def op_slv(p, op):
    i, n = op['sp'], op['n']
    sf = p.sf
    from shenfun import la
    s = p.cfg['spaces'][i]
    V = p.V(i, n)
    q = solvable(s)
    if q is None or not aligned(p, i):
        return

    def make():
        u, v = sf.TrialFunction(V), sf.TestFunction(V)
        M, A = sf.inner(v, 2 * u), sf.inner(v, -sf.div(sf.grad(u)))
        M = [x for y in (M, A) for x in (y if isinstance(y, list) else [y])]
        if n or op.get('blk'):
            return la.BlockMatrixSolver(M)
        if q == 0:
            return la.SolverDiagonal(M)
        if q == 1:
            return la.SolverGeneric1ND(M)
        return la.SolverGeneric2ND(M)
    sol = p.get(('S', i, n, bool(op.get('blk'))), make) if p.cfg.get('share', 1) else make()
    m = Model(s)
    T = p.space(i)
    b = sf.Function(V)
    flat = np.asarray(b).view(np.ndarray).reshape((p.nc(i, n),) + T.shape(True))
    for k in range(len(flat)):
        flat[k] = m.random_coefs(op['seed'] + 31 * k, bc=False)[tuple(slice(*x) for x in oracle.sl2(T.local_slice(True)))]
    x = sol(b, sf.Function(V)) if n or op.get('blk') else sol(b, u=sf.Function(V))
    p.loc(V, x, True)
    p.keep('solution', x)


def op_int(p, op):
    """Numbers for the whole domain"""
    i = op['sp']
    sf = p.sf
    T = p.space(i)
    u = p.arr(i, 0, op['seed'])
    if op['how'] == 0:
        p.glob(sf.inner(1, u))
    elif op['how'] == 1:
        p.glob(sf.dx(u))
    elif op['how'] == 2 and all(b['f'] == 'F' for b in p.cfg['spaces'][i]['bases']):
        from shenfun.fourier import energy_fourier
        p.glob(energy_fourier(p.fun(i, 0, op['seed']), T))
    else:
        V = p.V(i, 1)
        a = p.arr(i, 1, op['seed'] + 1, V)
        p.glob(sf.inner(tuple([1] * V.num_components()), a))


def op_ref(p, op):
    """A function on another resolution and back"""
    i, n = op['sp'], op['n']
    s = p.cfg['spaces'][i]
    u = p.fun(i, n, op['seed'])
    N = [b['N'] + 2 * d for b, d in zip(s['bases'], op['dN'])]
    w = u.refine(N)
    p.loc(w.function_space(), w, True)
    v = p.sf.Function(p.V(i, n))
    v = w.assign(v)
    p.loc(p.V(i, n), v, True)
    p.keep('refined function', w)
    if op.get('destroy'):
        w.function_space().destroy()


def op_ort(p, op):
    i, n = op['sp'], op['n']
    u = p.fun(i, n, op['seed'])
    w = u.to_ortho()
    p.loc(w.function_space(), w, True)
    p.keep('function in the orthogonal basis', w)


def op_mesh(p, op):
    T = p.space(op['sp'])
    X = T.local_mesh(True)
    p.loc(T, np.array([np.array(x) for x in X]), False)
    b = [a for a in range(T.dimensions) if p.cfg['spaces'][op['sp']]['bases'][a]['f'] == 'F']
    if not any(q.get('bc') for q in p.cfg['spaces'][op['sp']]['bases']):
        K = T.local_wavenumbers(broadcast=True, scaled=bool(op['how']))
        p.loc(T, np.array([np.array(K[a]) for a in b] or [np.zeros(T.shape(True))]), True)


def op_msk(p, op):
    i = op['sp']
    T = p.space(i)
    u = p.fun(i, 0, op['seed'])
    rs = np.random.RandomState(3)
    u[...] = np.array(u) + 1
    u.mask_nyquist(T.get_mask_nyquist() if op['how'] else None)
    p.loc(T, u, True)


def op_h5(p, op):
    """Write a file and read it again"""
    i, n = op['sp'], op['n']
    sf = p.sf
    from shenfun.io import ShenfunFile
    T = p.space(i)
    V = p.V(i, n)
    name = f'f{p.tag}{p.n}' if not op.get('same') else f'f{p.tag}'
    u = p.fun(i, n, op['seed'])
    f = ShenfunFile(name, T, backend='hdf5', mode='w')
    f.write(op['seed'] % 5, {'u': [u]})
    w = sf.Function(V)
    f2 = ShenfunFile(name, T, backend='hdf5', mode='r')
    f2.read(w, 'u', step=op['seed'] % 5)
    p.comm.Barrier()
    p.loc(V, w, True)
    p.keep('what was read', w)


def op_chk(p, op):
    i = op['sp']
    sf = p.sf
    from shenfun.io import Checkpoint
    T = p.space(i)
    u = p.fun(i, 0, op['seed'])
    name = f'c{p.tag}{p.n}'
    c = Checkpoint(name, checkevery=1, data={'0': {'u': [u]}})
    c.update(0.5, 3)
    w = sf.Function(T)
    Checkpoint(name, checkevery=1, data={'0': {'u': [w]}}).read(w, 'u')
    p.comm.Barrier()
    p.loc(T, w, True)


def op_etd(p, op):
    i = op['sp']
    sf = p.sf
    s = p.cfg['spaces'][i]
    from shenfun.utilities import integrators
    T = p.space(i)
    nonp = [b for b in s['bases'] if b['f'] != 'F']
    u, uh = sf.Array(T), p.fun(i, 0, op['seed'])
    if nonp and (solvable(s) != 1 or not aligned(p, i)):
        return

    def L(self, v, **kw):
        return 0.1 * sf.div(sf.grad(v))

    def N(self, ub, uh_, dU, **kw):
        ub = T.backward(uh_, ub)
        if nonp:
            g = sf.Array(T)
            g[...] = 0.1 * np.array(ub)**2
            dU.fill(0)
            return sf.inner(sf.TestFunction(T), g, output_array=dU)
        return T.forward(0.1 * ub * ub, dU)
    cls = getattr(integrators, ('ETD', 'ETDRK4', 'RK4')[op['how'] % 3] if not nonp else ('IRK3', 'BackwardEuler')[op['how'] % 2])
    w = cls(T, L=L, N=N).solve(u, uh, 0.01, (0, 0.02))
    p.loc(T, w, True)


def op_der(p, op):
    """A space derived from another one, used and possibly destroyed"""
    i = op['sp']
    sf = p.sf
    T = p.space(i)
    k = op['kind']
    s = p.cfg['spaces'][i]
    if k == 'refined':
        D = T.get_refined([b['N'] + 2 for b in s['bases']])
    elif k == 'dealiased':
        D = T.get_dealiased(1.5)
    else:
        D = getattr(T, 'get_' + k)()
    u = sf.Array(D)
    rs = np.random.RandomState(op['seed'])
    g = rs.uniform(-1, 1, D.global_shape(False))
    u[...] = g[tuple(slice(*x) for x in oracle.sl2(D.local_slice(False)))]
    w = D.forward(u, sf.Function(D if k != 'dealiased' else T))
    p.loc(D if k != 'dealiased' else T, w, True)
    if op.get('destroy'):
        D.destroy()
    else:
        p.keep('result in a derived space', w)


def op_new(p, op):
    """Another space like it, used and possibly destroyed"""
    i = op['sp']
    sf = p.sf
    T = gen.build(sf, p.comm, p.cfg['spaces'][i])
    u = p.arr(i, 0, op['seed'])
    v = sf.Array(T)
    v[...] = np.array(u)
    w = T.forward(v, sf.Function(T))
    p.loc(T, w, True)
    if op.get('destroy'):
        T.destroy()


def op_outer(p, op):
    i = op['sp']
    from shenfun.utilities import outer
    a, b = p.arr(i, 1, op['seed']), p.arr(i, 1, op['seed'] + 7)
    if op['how']:
        b = a
    V = p.V(i, 2)
    o = p.sf.Array(V)
    o[...] = 7 + op['seed']
    o = outer(a, b, o)
    p.loc(V, o, False)


def op_algebra(p, op):
    """Arithmetic with functions and components of functions"""
    i, n = op['sp'], op['n']
    u, v = p.fun(i, n, op['seed']), p.fun(i, n, op['seed'] + 7)
    ku, kv = np.array(u), np.array(v)
    w = 2 * u + v * 0.5 - u / 3
    p.loc(p.V(i, n), w, True)
    c = w.copy()
    c[...] = 0
    if n:
        b = w[0].backward()
        p.loc(p.space(i), b, False)
        w[0] = 1
    if not (np.array_equal(ku, np.array(u)) and np.array_equal(kv, np.array(v))):
        p.ctx.fail('input-changed', 'arithmetic changed its operands')


OPS = dict(bwd=4, fwd=4, pad=4, conv=2, dot=2, cross=1, eval=3, dxeval=1, lin=3, mat=3, prj=4, inn=2, slv=4, int=3, ref=2, ort=1, mesh=1, msk=1,
           h5=1, chk=1, etd=2, der=3, new=1, outer=1, algebra=1)
KINDS = ('refined', 'dealiased', 'orthogonal', 'homogeneous', 'testspace', 'unplanned')


def usable(o, s):
    """Whether the library offers this operation in this space"""
    bases = s['bases']
    allf = all(b['f'] == 'F' for b in bases)
    k = o['op']
    bc = any(b.get('bc') for b in bases)
    odd = any(b['f'] in ('La', 'H', 'J') for b in bases)
    inh = any(any(b.get('v') or ()) for b in bases)
    cx = gen.is_complex(s)
    nonp = sum(b['f'] != 'F' for b in bases)
    nd = len(bases)
    if k in ('conv', 'dot', 'pad'):
        return not odd and not (k == 'dot' and inh)
    if k in ('eval', 'dxeval'):
        return not odd and not (cx and (nonp == nd or nd == 3 and nonp == 2))
    if k == 'prj' and nonp and (nonp > 2 or bases[gen.axes_of(s)[0]]['f'] == 'F'):
        return False
    if k in ('prj', 'inn', 'mat', 'etd', 'lin', 'slv'):
        if odd or inh or any(b['f'] in ('U', 'Q') for b in bases):
            return False
        if k == 'etd':
            return nonp == 0 or nonp == 1 and solvable(s) == 1
        if k == 'slv':
            return solvable(s) is not None
        return True
    if k == 'int':
        return not odd and not cx
    if k in ('ref', 'ort', 'der'):
        return not odd and not inh
    if k in ('cross', 'outer'):
        return not odd and not inh
    return True


def clean(o, s):
    nd = len(s['bases'])
    if o['op'] in ('conv',):
        o['n'] = o['n'] if o['n'] == 1 else 0
    if o['op'] == 'pad' and o['n'] == 3:
        o['n'] = 0
    if o['op'] == 'dot':
        o['n'] = 2 if o['n'] == 2 else 1
    if o['op'] in ('mat', 'slv', 'lin', 'ref', 'eval'):
        o['n'] = o['n'] if o['n'] in (0, 1) else 0
    if o['op'] == 'lin' and o['n']:
        o['how'] = o['how'] % 3
    if o['op'] == 'ort' and o['n'] == 3:
        o['n'] = 1
    if o['op'] == 'h5' and o['n'] == 3:
        o['n'] = 0
    if o['op'] == 'der' and o['kind'] == 'unplanned':
        o['kind'] = 'orthogonal'
    if o['op'] == 'der' and o['kind'] == 'dealiased' and o.get('destroy'):
        o.pop('destroy')
    return o


def rop(rng, spaces, weights=OPS):
    """A random operation"""
    names = list(weights)
    while True:
        o = dict(op=rng.choices(names, [weights[k] for k in names])[0], sp=rng.randrange(len(spaces)), n=rng.choice((0, 0, 0, 1, 1, 2, 3)),
                 seed=rng.randrange(10**5), how=rng.randrange(3))
        s = spaces[o['sp']]
        if not usable(o, s):
            continue
        nd = len(s['bases'])
        if o['op'] in ('pad', 'conv'):
            o['pf'] = [rng.choice((1.5, 1.5, 2))] * nd if rng.random() < 0.7 else [rng.choice((1, 1.5, 1.25)) for _ in range(nd)]
            if all(x == 1 for x in o['pf']):
                o['pf'][0] = 1.5
        if o['op'] in ('eval', 'dxeval'):
            o['npts'] = rng.choice((1, 2, 4))
            o['how'] = rng.randrange(4)
        if o['op'] in ('dxeval', 'prj', 'lin'):
            o['ax'] = rng.randrange(nd)
        if o['op'] in ('mat', 'slv'):
            o['blk'] = int(rng.random() < 0.3)
        if o['op'] == 'prj':
            o['out'] = rng.randrange(2)
        if o['op'] == 'ref':
            o['dN'] = [rng.choice((1, 2)) for _ in range(nd)]
        if o['op'] == 'der':
            o['kind'] = rng.choice(KINDS)
        if o['op'] in ('der', 'new', 'ref') and rng.random() < 0.4:
            o['destroy'] = 1
        return clean(o, s)


FAMS = (('F', 9), ('C', 4), ('L', 4), ('U', 1), ('Q', 1))


def rspaces(rng, P, n=None):
    """Random spaces, some of them close relatives"""
    out = []
    for _ in range(n or rng.choice((1, 2, 2, 3))):
        if out and rng.random() < 0.5:
            s = copy.deepcopy(rng.choice(out))
            k = rng.random()
            if k < 0.4 and not any(b.get('v') for b in s['bases']):
                b = rng.choice(s['bases'])
                if b['f'] != 'F':
                    if b.get('bc'):
                        b.pop('bc')
                        b.pop('v', None)
                    else:
                        b['bc'] = 'DD'
                else:
                    b['dom'] = rng.randrange(4)
            elif k < 0.7:
                b = rng.choice(s['bases'])
                b['N'] += 2
            elif k < 0.85:
                if s.get('slab'):
                    s.pop('slab')
                else:
                    s['slab'] = 1
        else:
            while True:
                s = gen.space(rng, P=P, fams=FAMS, nmax={2: 10, 3: 7, 4: 5}[2] if rng.random() < 0.6 else None, ndim=rng.choice((2, 2, 3)), allc=0.05)
                # solvers need Dirichlet conditions
                for b in s['bases']:
                    if b['f'] in 'CL' and b.get('bc') and rng.random() < 0.7:
                        b['bc'] = 'DD'
                        if b.get('v') and not any(b['v']):
                            b.pop('v')
                        elif b.get('v'):
                            b['v'] = b['v'][:2] if len(b['v']) > 1 else [1, 2]
                        if rng.random() < 0.6:
                            b.pop('v', None)
                if rng.random() < 0.12:
                    gen.rcm(rng, s)
                break
        if gen.fits(s, P):
            out.append(s)
    return out or rspaces(rng, P, n)


# -- comparing

def compare(ra, rb, tag, n, what, bitwise=False, tol=1e-9, tagb=None, rec=None):
    """The results of operation n of two runs, as seen by all of their processes.  Returns how many there are"""
    from .oracle import need, close
    tagb = tag if tagb is None else tagb
    k = 0
    while (tag, n, k) in ra or (tagb, n, k) in rb:
        a, b = ra.get((tag, n, k)), rb.get((tagb, n, k))
        need(a is not None and b is not None, 'missing', lambda: f'{what}: result {k} in one run only')
        if bitwise:
            need(set(a) == set(b), 'missing', lambda: f'{what}: result {k} on processes {sorted(a)} and {sorted(b)}')
            for r in a:
                x, y = a[r], b[r]
                need(x[:-1] == y[:-1], 'layout', lambda: f'{what}: layout differs on process {r}')
                need(x[-1].shape == y[-1].shape and x[-1].tobytes() == y[-1].tobytes(), 'not-reproducible',
                     lambda: f'{what}: result {k} on process {r} differs by {np.max(np.abs(x[-1] - y[-1])) if x[-1].shape == y[-1].shape else "shape"}')
        else:
            x, y = (whole(v, what) for v in (a, b))
            close(x, y, f'{what}: result {k}', 'result-differs', tol=tol)
        k += 1
    return k


def whole(v, what):
    """One result of all processes"""
    from .oracle import assemble, close
    first = v[min(v)]
    if first[0] == 'loc':
        return assemble({r: (x[2], x[3]) for r, x in v.items()}, first[1], what, 1)
    for r, x in v.items():
        close(x[1], first[1], f'{what}: process {r} and {min(v)}', 'ranks-disagree', tol=1e-9)
    return first[1]
