"""C06: weak forms, matrix-vector products, derivatives and projections"""
import copy

import numpy as np
import sympy as sp

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close

EXTRA = 8

# name: (components of test, of trial) and terms (i, j, coef, d test, d trial); e(a) is one derivative along axis a


def vterms(name, nd):
    def e(a, n=1):
        return [n if b == a else 0 for b in range(nd)]
    z = [0] * nd
    if name == 't.grad u':
        return nd * nd, nd, [(i * nd + j, i, 1, z, e(j)) for i in range(nd) for j in range(nd)]
    if name == 'v.div t':
        return nd, nd * nd, [(i, i * nd + j, 1, z, e(j)) for i in range(nd) for j in range(nd)]
    if name == 'grad v.t':
        return nd, nd * nd, [(i, i * nd + j, 1, e(j), z) for i in range(nd) for j in range(nd)]
    if name == 't.t':
        return nd * nd, nd * nd, [(i, i, 1, z, z) for i in range(nd * nd)]
    if name == 'v.grad u':
        return nd, 0, [(i, 0, 1, z, e(i)) for i in range(nd)]
    if name == 'div v.u':
        return nd, 0, [(i, 0, 1, e(i), z) for i in range(nd)]
    if name == 'v.div u':
        return 0, nd, [(0, i, 1, z, e(i)) for i in range(nd)]
    if name == 'grad v.u':
        return 0, nd, [(0, i, 1, e(i), z) for i in range(nd)]
    if name == 'grad v.grad u':
        return nd, nd, [(i, i, 1, e(a), e(a)) for i in range(nd) for a in range(nd)]
    if name == 'sgrad v.sgrad u':
        return 0, 0, [(0, 0, 1, e(a), e(a)) for a in range(nd)]
    if name == 'v.u':
        return nd, nd, [(i, i, 1, z, z) for i in range(nd)]
    if name == 'v.lap u':
        return nd, nd, [(i, i, 1, z, e(a, 2)) for i in range(nd) for a in range(nd)]
    if name == 'sv.lap u':
        return 0, 0, [(0, 0, 1, z, e(a, 2)) for a in range(nd)]
    if name == 'v.curl u':
        if nd == 2:
            return 0, nd, [(0, 1, 1, z, e(0)), (0, 0, -1, z, e(1))]
        return nd, nd, [(i, (i + 2) % 3, 1, z, e((i + 1) % 3)) for i in range(3)] + \
            [(i, (i + 1) % 3, -1, z, e((i + 2) % 3)) for i in range(3)]
    raise KeyError(name)


def cterms(s, name):
    """Terms in the coordinates of the space, with powers of x and of x + 3 per axis: (i, j, c, d test, d trial, px, ph)"""
    nd = len(s['bases'])
    nv, nu, terms = vterms(name, nd)
    z = [0] * nd
    if not s.get('cm'):
        return nv, nu, [t + (z, z) for t in terms]
    if s['cm']['k'] == 'sep':
        out = []
        for (i, j, c, dt, du) in terms:
            ph = [0] * nd
            for a in range(nd):
                k, q = gen.hscale(s, a)
                n = 1 - dt[a] - du[a]
                c *= float(k)**n
                ph[a] = n * q
            out.append((i, j, c, dt, du, z, ph))
        return nv, nu, out
    t, q = s['cm']['t'], s['cm']['q']

    def e(a):
        return [int(b == a) for b in range(nd)]

    def r(n):
        return [n * int(b == q) for b in range(nd)]
    gw = [r(0) if a == t else r(1) for a in range(nd)]
    if name == 'v.u' or name == 't.t':
        out = [(i, i, 1, z, z, r(1)) for i in range(nv)]
    elif name == 'v.grad u':
        out = [(i, 0, 1, z, e(i), gw[i]) for i in range(nd)]
    elif name == 'grad v.u':
        out = [(0, i, 1, e(i), z, gw[i]) for i in range(nd)]
    elif name == 'v.div u':
        out = [(0, i, 1, z, e(i), gw[i]) for i in range(nd)] + [(0, q, 1, z, z, r(0))]
    elif name == 'div v.u':
        out = [(i, 0, 1, e(i), z, gw[i]) for i in range(nd)] + [(q, 0, 1, z, z, r(0))]
    elif name == 'v.curl u' and nd == 2:
        out = []
        for a, b, sg in ((0, 1, 1), (1, 0, -1)):
            out.append((0, b, sg, z, e(a), r(int(b == t))))
            if b == t:
                out.append((0, b, sg, z, z, r(0)))
    elif name == 'v.curl u':
        out = []
        for i in range(3):
            for a, b, sg in (((i + 1) % 3, (i + 2) % 3, 1), ((i + 2) % 3, (i + 1) % 3, -1)):
                n = int(i == t)
                out.append((i, b, sg, z, e(a), r(n + int(b == t))))
                if b == t and a == q:
                    out.append((i, b, sg, z, z, r(n)))
    elif name == 'sgrad v.sgrad u':
        out = [(0, 0, 1, e(a), e(a), r(1) if a == t else r(3)) for a in range(nd)]
    elif name == 'sv.lap u':
        out = [(0, 0, 1, z, [2 * x for x in e(a)], r(1) if a == t else r(3)) for a in range(nd)] + [(0, 0, 1, z, e(q), r(2))]
    else:
        raise KeyError(name)
    return nv, nu, [x + (z,) for x in out]


# with the angle and the radius as coordinates; the last two are multiplied by the radius squared
PFORMS = ('v.u', 't.t', 'v.grad u', 'grad v.u', 'v.div u', 'div v.u', 'v.curl u', 'sgrad v.sgrad u', 'sv.lap u')
# at most one derivative in each direction
QFORMS = ('v.u', 't.t', 'v.grad u', 'grad v.u', 'v.div u', 'div v.u', 'v.curl u')


def allowed(s, name):
    cm = s.get('cm')
    if not cm:
        return True
    if cm['k'] == 'pol':
        if name == 'v.curl u' and cm['t'] != (cm['q'] + 1) % len(s['bases']) and len(s['bases']) == 3 or \
                name == 'v.curl u' and len(s['bases']) == 2 and cm['t'] == 0:
            return False
        return name in PFORMS
    if any(m and m[0] == 'quad' for m in cm['m']):
        return name in QFORMS
    return True


VFORMS = ('v.grad u', 'div v.u', 'v.div u', 'grad v.u', 'grad v.grad u', 'v.u', 'v.lap u', 'v.curl u', 'sgrad v.sgrad u', 'sv.lap u',
          't.grad u', 'v.div t', 'grad v.t', 't.t')
PROJ = ('t.grad u', 'v.div t', 't.t', 'v.grad u', 'v.div u', 'v.u', 'v.lap u', 'v.curl u', 'sv.lap u')


def vexprs(sf, name, v, u, s):
    g, d = sf.grad, sf.div
    if s.get('cm') and s['cm']['k'] == 'pol':
        r = v.function_space().coors.psi[s['cm']['q']]
        if name == 'sgrad v.sgrad u':
            return g(v), g(u) * r**2
        if name == 'sv.lap u':
            return v, d(g(u)) * r**2
    return {'t.grad u': lambda: (v, g(u)), 'v.div t': lambda: (v, d(u)), 'grad v.t': lambda: (g(v), u), 't.t': lambda: (v, u),
            'v.grad u': lambda: (v, g(u)), 'div v.u': lambda: (d(v), u), 'v.div u': lambda: (v, d(u)), 'grad v.u': lambda: (g(v), u),
            'grad v.grad u': lambda: (g(v), g(u)), 'v.u': lambda: (v, u), 'v.lap u': lambda: (v, d(g(u))),
            'v.curl u': lambda: (v, sf.curl(u)), 'sgrad v.sgrad u': lambda: (g(v), g(u)), 'sv.lap u': lambda: (v, d(g(u)))}[name]()


def trial_space(s, tb):
    """The space of the trial function: the same bases with other boundary conditions"""
    if not tb:
        return s
    d = copy.deepcopy(s)
    for b, t in zip(d['bases'], tb):
        if t is None:
            continue
        b.pop('bc', None)
        b.pop('v', None)
        b.update({k: v for k, v in t.items() if v})
    return d


def limit(s, c, top):
    """Remove the highest polynomials"""
    for a, b in enumerate(s['bases']):
        if b['f'] == 'F':
            continue
        n = b['N'] - gen.numbc(b)
        t = top[a] if isinstance(top, (list, tuple)) else top
        if t:
            sl = [slice(None)] * c.ndim
            sl[a] = slice(max(n - t, 1), n)
            c[tuple(sl)] = 0
    return c


def coefs(s, op, k=0):
    return limit(s, Model(s).random_coefs(op['seed'] + 17 * k), op.get('top', 0))


def tspace(sf, T, n):
    nd = T.dimensions
    return T if not n else sf.VectorSpace(T) if n == nd else sf.TensorSpace(T)


def make(sf, T, d, op, n, k0=0):
    """A Function with n components (0: scalar)"""
    uh = sf.Function(tspace(sf, T, n))
    flat = np.asarray(uh).reshape((max(n, 1),) + T.shape(True))
    for k in range(max(n, 1)):
        progs.put(T, flat[k], coefs(d, op, k + k0))
    return uh


def expr(sf, T, f, terms):
    """sum of c * prod x_a^p_a * D^d f"""
    e = None
    for t in terms:
        w = sf.Expr(f)
        for a, n in enumerate(t['d']):
            if n:
                w = sf.Dx(w, a, n)
        c = t['c']
        for a, p in enumerate(t.get('m') or ()):
            if p:
                c = T.coors.psi[a]**p * c
        if c != 1:
            w = w * c
        e = w if e is None else e + w
    return e


def symfun(T, s, op):
    """A sympy function representable on the grid (any function will do)"""
    e = sp.S(0)
    for j, a in enumerate(op['fun']):
        x = T.coors.psi[j]
        lo, hi = gen.dom(s['bases'][j])
        f = s['bases'][j]['f']
        if f == 'F':
            e += sp.cos(a * 2 * sp.pi * x / sp.Float(hi - lo) + j)
        elif f in ('La', 'H'):
            e += a * sp.exp(-x**2 / 2)
        else:
            e += a * x**2 - x
    return e * (1 + T.coors.psi[0] / 7) if s['bases'][0]['f'] not in ('F',) else e


def symgrid(s, op):
    m = Model(s)
    e = 0.0
    X = np.meshgrid(*m.tgrid(), indexing='ij')
    for j, a in enumerate(op['fun']):
        x = X[j]
        lo, hi = gen.dom(s['bases'][j])
        f = s['bases'][j]['f']
        if f == 'F':
            e = e + np.cos(a * 2 * np.pi * x / (hi - lo) + j)
        elif f in ('La', 'H'):
            e = e + a * np.exp(-x**2 / 2)
        else:
            e = e + a * x**2 - x
    return e * (1 + X[0] / 7) if s['bases'][0]['f'] not in ('F',) else e


def comp(f, i, n):
    return f.v[i] if n else f


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    sd = trial_space(s, cfg.get('tb'))
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank < cfg['sub'] else 1, -ctx.rank)
        if ctx.rank >= cfg['sub']:
            return
    nd = len(s['bases'])
    T = gen.build(sf, comm, s)
    D = gen.build(sf, comm, sd) if cfg.get('tb') else T
    progs.rec_stencils(ctx, T, 'stT')
    progs.rec_stencils(ctx, D, 'stD')

    def flat(w, n):
        return np.asarray(w).reshape((max(n, 1),) + T.shape(True))

    def rec(i, w, n):
        progs.rec_local(ctx, ('v', i), T, np.array(flat(w, n)), True, lead=1)

    for i, op in enumerate(cfg['ops']):
        kind = op['op']
        if kind == 'sym':
            e = symfun(T, s, op)
            v = sf.TestFunction(T)
            rec(i, sf.inner(v, e), 0)
            a = sf.Array(T, buffer=e)
            progs.rec_local(ctx, ('a', i), T, np.array(a), False)
            if not any(b.get('v') for b in s['bases']):
                f = sf.Function(T, buffer=e)
                progs.rec_local(ctx, ('f', i), T, np.array(f), True)
            continue
        if kind == 'form':
            nv = nu = 0
            v, u = sf.TestFunction(T), sf.TrialFunction(D)
            ev = expr(sf, T, v, op['t'])
            eu = expr(sf, D, u, op['u'])
            uh = make(sf, D, sd, op, 0)
            euh = expr(sf, D, uh, op['u'])
        else:
            nv, nu, _ = vterms(op['name'], nd)
            VT = tspace(sf, T, nv)
            VD = tspace(sf, D, nu)
            v, u = sf.TestFunction(VT), sf.TrialFunction(VD)
            ev, eu = vexprs(sf, op['name'], v, u, s)
            uh = make(sf, D, sd, op, nu)
            # use the space the trial function lives in
            if nu:
                uh0, uh = uh, sf.Function(VD)
                uh[:] = np.asarray(uh0)
            euh = vexprs(sf, op['name'], v, uh, s)[1]
        keep = np.array(uh)
        mode = op['mode']
        for rep in range(op.get('rep', 1)):
            if mode == 'lin':
                out = sf.inner(ev, euh)
            elif mode == 'arr':
                ua = uh.backward()
                out = sf.inner(ev, ua)
            elif mode == 'ret':
                A = sf.inner(ev, euh, return_matrices=True)
                A = A if isinstance(A, list) else [A]
                out = sf.Function(v.function_space())
                w = np.zeros(T.shape(True), dtype=out.dtype)
                for m in A:
                    gi, gj = m.global_index
                    comp(out, gi, nv)[...] += m.matvec(comp(uh, gj, nu), w)
            elif mode in ('bil', 'mul'):
                A = sf.inner(ev, eu)
                A = A if isinstance(A, list) else [A]
                out = sf.Function(v.function_space())
                w = np.zeros(T.shape(True), dtype=out.dtype)
                for m in A:
                    gi, gj = m.global_index
                    if mode == 'mul':
                        comp(out, gi, nv)[...] += (2 * m) * np.array(comp(uh, gj, nu))
                    else:
                        comp(out, gi, nv)[...] += m.matvec(comp(uh, gj, nu), w)
                if mode == 'mul':
                    out *= 0.5
            elif mode == 'blk':
                A = sf.inner(ev, eu)
                A = A if isinstance(A, list) else [A]
                M = sf.BlockMatrix(A)
                out = sf.Function(v.function_space())
                out = M.matvec(uh, out, use_scipy=op.get('scipy'))
            elif mode == 'proj':
                out = sf.project(euh, v.function_space())
            elif mode == 'Proj':
                if rep == 0:
                    Pr = sf.Project(euh, v.function_space())
                    if op.get('rep', 1) > 1:
                        # the object refers to the function, whatever its values
                        uh[:] = 0
                        Pr()
                        uh[:] = keep
                out = Pr()
            elif mode == 'Inner':
                if rep == 0:
                    In = sf.Inner(v, euh)
                    if op.get('add'):
                        In = In + sf.Inner(v, euh)
                    if op.get('rep', 1) > 1:
                        uh[:] = 0
                        In()
                        uh[:] = keep
                out = In()
                if op.get('add'):
                    out = np.asarray(out) / 2
            else:
                raise KeyError(mode)
        if not np.array_equal(keep, np.array(uh)):
            ctx.fail('input-changed', f'{mode} changed its argument')
        rec(i, out, nv)


def matrix(s, sd, st, std, a, dt, du, p, h=0):
    """One-dimensional matrix of the weighted inner product, rows: test"""
    b, bd = s['bases'][a], sd['bases'][a]
    mt, md = Model(s, st), Model(sd, std)
    if b['f'] == 'F':
        M = 2 * gen.phys_size(b, 1) + EXTRA
        x, w = oracle.nodes(b, M)
    else:
        q = {k: v for k, v in b.items() if k != 'q'}
        if b['f'] in ('C', 'L', 'U'):
            q['q'] = {'C': 'GC', 'L': 'LG', 'U': 'GU'}[b['f']]
        x, w = oracle.nodes(q, b['N'] + EXTRA)
        w = w / oracle.dfac(b)
    V, U = mt.fmat(a, x, dt), md.fmat(a, x, du)
    if b.get('bc'):
        V = V.copy()
        V[:, b['N'] - gen.numbc(b):] = 0
    X = oracle.to_true(b, x)
    return np.conj(V).T @ ((w * X**p * (X + 3)**h)[:, None] * U)


def measure(s):
    """Square root of the metric determinant: constant, powers of x and of x + 3"""
    nd = len(s['bases'])
    px, ph, c = [0] * nd, [0] * nd, 1.0
    if s.get('cm') and s['cm']['k'] == 'pol':
        px[s['cm']['q']] = 1
    elif s.get('cm'):
        for a in range(nd):
            k, ph[a] = gen.hscale(s, a)
            c *= float(k)
    return c, px, ph


def apply(mats, c):
    for a, A in enumerate(mats):
        c = np.moveaxis(np.tensordot(A, c, (1, a)), 0, a)
    return c


class C06(Property):
    id = 'C06'
    quick_runs = 400
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'scipy.sparse')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',
                   'integrands stay within the exactness of Gauss quadrature with as many points as modes')

    def corners(self):
        out = []
        R, C, L = dict(f='F', N=8, cx=0), dict(f='F', N=8, cx=1), dict(f='L', N=9, bc='DD')
        Ch, Lo = dict(f='C', N=10, bc='DD'), dict(f='L', N=9)
        for P in (1, 2, 3, 4, 6):
            for bases, ex in (([C, R], {}), ([R, C], {'axes': [1, 0]}), ([C, C, R], {}), ([R, C, L], {'axes': [2, 1, 0]}),
                              ([L, R], {}), ([R, Ch], {'axes': [1, 0]}), ([L, Ch], {}), ([Lo, Ch, R], {}), ([Lo, R, L], {'axes': [0, 2, 1]}),
                              ([dict(f='L', N=9, bc='DD', v=[1, 2]), R], {}), ([Lo, Lo, Lo], {})):
                s = dict(bases=copy.deepcopy(bases), **ex)
                if not gen.fits(s, P):
                    continue
                nd = len(bases)
                e0 = [1] + [0] * (nd - 1)
                e1 = [0] * (nd - 1) + [2]
                one = dict(c=1, d=[0] * nd)
                ops = [dict(op='form', mode='lin', seed=1, t=[one], u=[dict(c=2, d=e0), dict(c=1, d=e1)]),
                       dict(op='form', mode='bil', seed=2, t=[dict(c=1, d=e0)], u=[dict(c=1, d=e0)])]
                if not any(b.get('v') for b in bases):
                    ops += [dict(op='vec', name='grad v.grad u', mode='blk', seed=3),
                            dict(op='sym', fun=[1] * nd, seed=0)]
                if not any(b.get('v') for b in bases) and sum(b['f'] != 'F' for b in bases) < 3:
                    ops += [dict(op='vec', name='v.grad u', mode='proj', seed=4),
                            dict(op='vec', name='v.curl u', mode='Proj', seed=4, rep=2)]
                if not any(b.get('v') for b in bases) and P < 3:
                    ops += [dict(op='vec', name='v.grad u', mode='Inner', seed=5, rep=2),
                            dict(op='form', mode='Inner', seed=6, t=[one], u=[dict(c=1, d=e0), one], add=1)]
                out.append(dict(P=P, policy='random', space=s, ops=ops))
        return [self.clean(c) for c in out]

    def clean(self, cfg):
        s = cfg['space']
        sd = trial_space(s, cfg.get('tb'))
        np_ = sum(b['f'] != 'F' for b in s['bases'])
        inh = any(b.get('v') for b in sd['bases']) or any(b.get('v') for b in s['bases'])
        ops = []
        for o in cfg['ops']:
            o = dict(o)
            if o['op'] != 'sym':
                # keep the integrands within reach of the quadrature
                top = []
                for a, b in enumerate(s['bases']):
                    t = 3 if b['f'] in ('H', 'La') else 0
                    if o['op'] == 'form':
                        t += max((x.get('m') or [0] * 9)[a] for x in o['u']) + max((x.get('m') or [0] * 9)[a] for x in o['t'])
                    cm = s.get('cm')
                    if cm and (a == cm['q'] if cm['k'] == 'pol' else gen.hscale(s, a)[1]):
                        t += 1 if cm['k'] == 'sep' or o['op'] == 'form' else 3
                    if b['f'] == 'Q' or b['f'] == 'J' or b['f'] == 'U':
                        t += 1
                    top.append(t)
                o['top'] = top
                if o['op'] == 'vec' and not allowed(s, o['name']):
                    o['name'] = 'v.grad u'
                if o['mode'] in ('proj', 'Proj'):
                    # one non-periodic axis must be aligned in spectral space; more of them: project moves the data,
                    # but Project needs them all to be local
                    if np_ > 2 or inh or np_ and s['bases'][gen.axes_of(s)[0]]['f'] == 'F':
                        o['mode'] = 'lin'
                    elif o['mode'] == 'Proj' and np_ == 2 and cfg['P'] > 1:
                        o['mode'] = 'proj'
                    if o['op'] == 'form':
                        o['t'] = [dict(c=1, d=[0] * len(s['bases']))]
                    elif o['name'] not in PROJ:
                        o['mode'] = 'lin'
                if o['mode'] == 'Inner':
                    if o['op'] == 'form':
                        o['t'] = [dict(c=1, d=[0] * len(s['bases']))]
                    elif o['name'] not in PROJ:
                        o['mode'] = 'lin'
                if o['mode'] == 'arr' and (inh or o['op'] == 'vec'):
                    o['mode'] = 'lin'
                if o['mode'] == 'arr':
                    o['u'] = [dict(c=1, d=[0] * len(s['bases']))]
            ops.append(o)
        cfg['ops'] = ops
        return cfg

    def gen(self, rng):
        P = gen.ranks(rng)
        sub = rng.randint(1, P - 1) if P > 1 and rng.random() < 0.15 else 0
        s = gen.space(rng, P=sub or P, quads=False, values=rng.random() < 0.3, max_nonp=rng.choice((2, 2, 3)))
        nd = len(s['bases'])
        if rng.random() < 0.25:
            gen.rcm(rng, s)
        cfg = dict(P=P, space=s)
        if sub:
            cfg['sub'] = sub
        poly = [a for a in range(nd) if s['bases'][a]['f'] != 'F']
        inh = any(b.get('v') for b in s['bases'])
        if poly and not inh and rng.random() < 0.4:
            tb = [None] * nd
            for a in poly:
                b = s['bases'][a]
                if rng.random() < 0.6 and not b.get('scaled'):
                    opts = [None] + [x for x in gen.FAM_BCS[b['f']] if 2 * len(gen.BCS[x]) + 2 <= b['N']]
                    if b.get('alpha') or b.get('beta'):
                        opts = [None]
                    tb[a] = dict(bc=rng.choice(opts))
            cfg['tb'] = tb
        ops = []
        for _ in range(rng.randint(1, 3)):
            o = dict(op=rng.choice(('form', 'form', 'form', 'vec', 'vec', 'sym')), seed=rng.randrange(10**6))
            if o['op'] == 'sym':
                o['fun'] = [rng.choice((1, 2, 0)) for _ in range(nd)]
                ops.append(o)
                continue
            o['mode'] = rng.choice(('lin', 'lin', 'bil', 'blk', 'proj', 'Proj', 'ret', 'mul', 'arr', 'Inner'))
            if o['mode'] == 'Inner' and rng.random() < 0.4:
                o['add'] = 1
            if rng.random() < 0.3:
                o['rep'] = 2
            if o['mode'] == 'blk':
                o['scipy'] = rng.choice((None, False))
            if o['op'] == 'vec':
                o['name'] = rng.choice(VFORMS if o['mode'] not in ('proj', 'Proj') else PROJ)
            else:
                def term(md, measure):
                    t = dict(c=rng.choice((1, 1, 2, -0.5)), d=[rng.choice((0, 0, 0, 1, md)) for _ in range(nd)])
                    if measure:
                        t['m'] = [rng.choice((0, 0, 1, 2)) if b['f'] not in ('F', 'H', 'La') else 0 for b in s['bases']]
                    return t
                me = rng.random() < 0.3
                o['t'] = [term(1, False) for _ in range(rng.choice((1, 1, 2)))]
                o['u'] = [term(2, me) for _ in range(rng.choice((1, 1, 2, 3)))]
            ops.append(o)
        cfg['ops'] = ops
        return gen.sched(rng, self.clean(cfg))

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= c['sub']:
                c.pop('sub')
            yield c
        for i, o in enumerate(cfg['ops']):
            for k in ('t', 'u'):
                if len(o.get(k, ())) > 1:
                    for j in range(len(o[k])):
                        c = copy.deepcopy(cfg)
                        del c['ops'][i][k][j]
                        yield c

    def run(self, env, cfg):
        s = cfg['space']
        sd = trial_space(s, cfg.get('tb'))
        nd = len(s['bases'])
        P = cfg.get('sub') or cfg['P']
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st, std = r['stT'][0], r['stD'][0]
        oracle.check_stencils(s, st)
        oracle.check_stencils(sd, std)
        m, md = Model(s, st), Model(sd, std)
        dof = m.dofslice()
        cache = {}

        def mat(*k):
            if k not in cache:
                cache[k] = matrix(s, sd, st, std, *k)
            return cache[k]
        mass = None
        mc, mx, mh = measure(s)
        for i, op in enumerate(cfg['ops']):
            what = f'op {i} ' + (op.get('name') or op['op']) + ' ' + op.get('mode', '')
            if op['op'] == 'sym':
                u = symgrid(s, op)
                if gen.is_complex(s):
                    u = u.astype(complex)
                close(oracle.assemble(r[('a', i)], u.shape, what + ' array'), u, what + ' array')
                X = np.meshgrid(*m.tgrid(), indexing='ij')
                for a in range(nd):
                    u = u * (X[a]**mx[a] * (X[a] + 3)**mh[a])
                ref = m.scalar_product(u * mc)
                close(oracle.assemble(r[('v', i)], m.spec_shape(), what, lead=1)[0], ref, what)
                env.probe('sympy')
                continue
            if op['op'] == 'form':
                nv = nu = 0
                terms = [(0, 0, t['c'] * u['c'] * mc, t['d'], u['d'],
                          [x + y + p for x, y, p in zip(t.get('m') or [0] * nd, u.get('m') or [0] * nd, mx)], mh)
                         for t in op['t'] for u in op['u']]
                if any(any(t.get('m') or ()) for t in op['u']):
                    env.probe('measure')
            else:
                nv, nu, terms = cterms(s, op['name'])
                env.probe('vector' if max(nv, nu) <= nd else 'tensor')
            got = oracle.assemble(r[('v', i)], m.spec_shape(), what, lead=1)
            cs = [coefs2(sd, md, op, k) for k in range(max(nu, 1))]
            ref = np.zeros((max(nv, 1),) + m.spec_shape(), dtype=complex)
            sc = np.zeros(ref.shape)
            for (ti, tj, c, dt, du, p, h) in terms:
                ms = [mat(a, dt[a], du[a], p[a], h[a]) for a in range(nd)]
                ref[ti] += c * apply(ms, cs[tj])
                sc[ti] += abs(c) * apply([np.abs(M) for M in ms], np.abs(cs[tj]))
            tol = 1e-9
            if op['mode'] in ('proj', 'Proj'):
                if mass is None:
                    mass = [np.linalg.inv(matrix(s, s, st, st, a, 0, 0, mx[a], mh[a])[dof[a], dof[a]]) for a in range(nd)]
                    mass[0] /= mc
                q = np.zeros_like(ref)
                e = np.zeros(sc.shape)
                for k in range(len(ref)):
                    q[k][dof] = apply(mass, ref[k][dof])
                    e[k][dof] = apply([np.abs(x) for x in mass], sc[k][dof])
                ref, sc = q, e
                tol = 1e-10
            env.probe(op['mode'])
            close(got if np.iscomplexobj(got) else got.astype(complex), ref, what, tol=tol, sc=float(sc.max()))
        if cfg.get('tb'):
            env.probe('petrov')
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])
        if any(b.get('v') for b in sd['bases']):
            env.probe('inhomogeneous')
        if sum(b['f'] != 'F' for b in s['bases']) == 2:
            env.probe('two_nonperiodic')

    def probes_expected(self):
        return ['lin', 'bil', 'blk', 'mul', 'ret', 'arr', 'proj', 'Proj', 'Inner', 'sympy', 'measure', 'vector', 'tensor', 'petrov', 'inhomogeneous', 'two_nonperiodic', 'map_sep', 'map_pol']


def coefs2(sd, md, op, k):
    return limit(sd, md.random_coefs(op['seed'] + 17 * k), op.get('top', 0))


PROPERTY = C06
