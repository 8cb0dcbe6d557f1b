"""C08: boundary values are imposed on every process, whatever they depend on and whenever they change"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need

# A boundary value is a list of terms (number, time function, [function of each other axis])
TIMES = ('1', 't', 'c')         # 1, 1 + t, cos(t)


def tval(k, t):
    return {'1': 1.0, 't': 1.0 + t, 'c': np.cos(t)}[k]


def tsym(sp, k):
    t = sp.symbols('t', real=True)
    return {'1': sp.S(1), 't': 1 + t, 'c': sp.cos(t)}[k]


def fval(b, k, xi):
    """Function number k of an axis, at reference points: in the span of the basis"""
    if k == 0:
        return np.ones_like(xi)
    if b['f'] == 'F':
        return np.cos(xi) if k == 1 else np.sin(xi)
    if b.get('bc') == 'DD':
        return (1 - xi**2) * (xi if k == 2 else 1)
    return xi if k == 1 else xi**2


def fsym(sp, b, k, x):
    lo, hi = gen.dom(b)
    if k == 0:
        return sp.S(1)
    if b['f'] == 'F':
        xi = (x - lo) * 2 * sp.pi / sp.Float(hi - lo)
        return sp.cos(xi) if k == 1 else sp.sin(xi)
    xi = -1 + 2 * (x - lo) / sp.Float(hi - lo)
    if b.get('bc') == 'DD':
        return (1 - xi**2) * (xi if k == 2 else 1)
    return xi if k == 1 else xi**2


def axis_of(s):
    return next(a for a, b in enumerate(s['bases']) if b.get('bc') and 'vx' in b)


def values(sp, s, a):
    """Values of the boundary conditions as given to the code"""
    syms = sp.symbols('x,y,z,r', real=True)
    out = []
    for terms in s['bases'][a]['vx']:
        if isinstance(terms, (int, float)):
            out.append(terms)
            continue
        e = sp.S(0)
        for c, tk, fs in terms:
            q = sp.S(c) * tsym(sp, tk)
            for ax, b in enumerate(s['bases']):
                if ax != a:
                    q = q * fsym(sp, b, fs[ax], syms[ax])
            e = e + q
        out.append(e)
    return out


def build(sf, comm, s, a, inplace=False):
    import sympy as sp
    bases = []
    funs = None
    if s.get('fun'):
        # the values are functions, of a space without boundary conditions along this axis
        so = copy.deepcopy({k: v for k, v in s.items() if k != 'fun'})
        for k in ('bc', 'vx'):
            so['bases'][a].pop(k)
        TC = gen.build(sf, comm, so)
        mo = Model(so)
        funs = []
        for j in range(gen.numbc(s['bases'][a])):
            others, terms = bcoefs(s, a, j, 0.0)
            c = np.zeros(mo.spec_shape(), complex)
            for cc, tk, fs in terms:
                q = np.array(cc * tval(tk, 0.0), complex)
                for ax in range(mo.nd):
                    q = np.multiply.outer(q, axcoefs(mo, ax, fs[ax] if ax != a else 0))
                c = c + q
            funs.append(put(TC, sf.Function(TC), c if gen.spec_complex(so) else c.real))
    for i, b in enumerate(s['bases']):
        kw = gen.kwargs(b)
        if i == a:
            d = {'left': {}, 'right': {}}
            for (side, kind), val in zip(gen.BCS[b['bc']], funs or values(sp, s, a)):
                d[side][kind] = (gen.RC, val) if kind in 'RW' else val
            kw['bc'] = {x: v for x, v in d.items() if v}
        bases.append(sf.FunctionSpace(b['N'], b['f'], **kw))
    if len(bases) == 1:
        return bases[0], bases
    return gen.build(sf, comm, s, bases=bases, modify_spaces_inplace=inplace), bases


class One:
    """A single function space with the interface of a tensor product space"""


def sl(T, spectral):
    if T.dimensions == 1:
        n = T.shape(spectral)
        return ((0, n if isinstance(n, int) else n[0]),)
    return oracle.sl2(T.local_slice(spectral))


def put(T, arr, glob, spectral=True):
    arr[...] = glob[tuple(slice(*x) for x in sl(T, spectral))]
    return arr


def bcoefs(s, a, j, t):
    """Coefficients, over the other axes, of boundary value number j (order as given) at time t"""
    terms = s['bases'][a]['vx'][j]
    others = [ax for ax in range(len(s['bases'])) if ax != a]
    if isinstance(terms, (int, float)):
        terms = [(terms, '1', [0] * len(s['bases']))] if terms else []
    return others, terms


def axcoefs(m, ax, k):
    """Coefficients of fval(ax, k) in the basis of axis ax"""
    b = m.s['bases'][ax]
    N = gen.spec_size(b)
    if b['f'] == 'F':
        out = np.zeros(N, complex)
        if k == 0:
            out[0] = 1
        else:
            h = 0.5 if k == 1 else -0.5j
            out[1] = h
            if b.get('cx'):
                out[N - 1] = np.conj(h)
        return out
    n = b['N'] - gen.numbc(b)
    xi = np.cos(np.pi * (np.arange(3 * N) + 0.5) / (3 * N))
    V = m.fmat(ax, xi)[:, :n]
    sol, _, rank, _ = np.linalg.lstsq(V, fval(b, k, xi), rcond=None)
    res = np.abs(V @ sol - fval(b, k, xi)).max()
    assert res < 1e-9, (b, k, res)
    return np.concatenate([sol, np.zeros(N - n)])


def reference(m, a, t, seed, interior=True):
    """Global coefficients of a function with the right boundary values at time t"""
    s = m.s
    c = m.random_coefs(seed, bc=False).astype(complex)
    if not interior:
        c[...] = 0
    b = s['bases'][a]
    order = oracle.bcorder(b)
    for j, cond in enumerate(gen.BCS[b['bc']]):
        d = gen.orders(cond[1])[0][0]
        others, terms = bcoefs(s, a, j, t)
        tot = np.zeros([gen.spec_size(s['bases'][ax]) for ax in others], complex)
        for cc, tk, fs in terms:
            q = np.array(cc * tval(tk, t), complex)
            for ax in others:
                q = np.multiply.outer(q, axcoefs(m, ax, fs[ax]))
            tot = tot + q
        pos = [slice(None)] * m.nd
        pos[a] = b['N'] - gen.numbc(b) + order.index(cond)
        c[tuple(pos)] = tot / oracle.dfac(b)**d
    if not gen.spec_complex(s):
        c = c.real
    return c


def bvalues(s, a, j, t, xs):
    """Boundary value j on the grid of the other axes"""
    others, terms = bcoefs(s, a, j, t)
    out = np.zeros([len(xs[ax]) for ax in others])
    for cc, tk, fs in terms:
        q = np.array(cc * tval(tk, t))
        for ax in others:
            q = np.multiply.outer(q, fval(s['bases'][ax], fs[ax], xs[ax]))
        out = out + q
    return out


# Two directions with inhomogeneous conditions: those of a polynomial, sum of c (1 + t)**k x**i y**j

def poly(cfg, t, X, Y, di=0, dj=0):
    out = 0.0 * (X + Y)
    for c, k, i, j in cfg['poly']:
        P, Q = np.polynomial.Polynomial([0] * i + [1]).deriv(di), np.polynomial.Polynomial([0] * j + [1]).deriv(dj)
        out = out + c * (1 + t)**k * P(X) * Q(Y)
    return out


def two(ctx, cfg, comm):
    import sympy as sp
    sf = ctx.sf
    s = cfg['space']
    xy = sp.symbols('x,y', real=True)
    ts = sp.symbols('t', real=True)
    f = sum(sp.S(c) * (1 + ts)**k * xy[0]**i * xy[1]**j for c, k, i, j in cfg['poly'])
    bases = []
    for a, b in enumerate(s['bases']):
        kw = gen.kwargs(b)
        lo, hi = [sp.Rational(x) for x in gen.dom(b)]
        d = {'left': {}, 'right': {}}
        for side, kind in gen.BCS[b['bc']]:
            n = gen.orders(kind)[0][0]
            d[side][kind] = sp.expand(sp.diff(f, xy[a], n).subs(xy[a], lo if side == 'left' else hi))
        kw['bc'] = {x: v for x, v in d.items() if v}
        bases.append(sf.FunctionSpace(b['N'], b['f'], **kw))
    T = gen.build(sf, comm, s, bases=bases, modify_spaces_inplace=bool(cfg.get('inplace')))
    if comm.Get_rank() == 0:
        ctx.rec('st', [(b.stencil_matrix().diags().toarray(), np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float))) for b in T.bases])
    m = Model(s)
    X = np.meshgrid(*m.tgrid(), indexing='ij')
    u = sf.Function(T)
    t = 0.0
    for i, op in enumerate(cfg['ops']):
        if op['op'] == 'time':
            t = op['t']
            for a in op['order']:
                (T.bases if not cfg.get('inplace') else bases)[a].bc.update(t)
            continue
        if op['op'] == 'fwd':
            ub = put(T, sf.Array(T), poly(cfg, t, *X), False)
            u = T.forward(ub, u if op.get('keep') else sf.Function(T))
        elif op['op'] == 'set':
            u = sf.Function(T)
            put(T, u, m.random_coefs(op['seed'], bc=False))
            u.set_boundary_dofs()
        ctx.rec(('c', i), (sl(T, True), np.array(u)))
        ctx.rec(('b', i), (sl(T, False), np.array(u.backward())))


def prog(ctx, cfg):
    sf = ctx.sf
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank in cfg['sub'] else 1, -ctx.rank)
        if ctx.rank not in cfg['sub']:
            return
    s = cfg['space']
    if cfg.get('poly'):
        two(ctx, cfg, comm)
        return
    a = axis_of(s)
    T, own = build(sf, comm, s, a, cfg.get('inplace'))
    bases = T.bases if T.dimensions > 1 else [T]
    if comm.Get_rank() == 0:
        out = []
        for b in bases:
            out.append(None if b.is_orthogonal else (b.stencil_matrix().diags().toarray(),
                                                     np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float))))
        ctx.rec('st', out)
        from mpi4py import MPI
        st = out
    else:
        st = None
    st = comm.bcast(st)
    m = Model(s, st)
    bc = (own[a] if cfg.get('inplace') else bases[a]).bc
    cplx = gen.spec_complex(s)
    u = sf.Function(T)
    Td = None
    t = 0.0
    V = None
    for i, op in enumerate(cfg['ops']):
        o = op['op']
        if o == 'time':
            t = op['t']
            bc.update(t)
            if Td is not None:
                Td.bases[a].bc.update(t)
        elif o == 'fwd':
            ref = reference(m, a, t, op['seed'])
            ub = put(T, sf.Array(T), m.backward(ref).real if not gen.is_complex(s) else m.backward(ref), False)
            u = T.forward(ub, u if op.get('keep') else sf.Function(T))
            ctx.rec(('c', i), (sl(T, True), np.array(u)))
        elif o == 'vec':
            V = sf.CompositeSpace([T, T]) if T.dimensions > 1 else sf.CompositeSpace([T, T])
            w = sf.Array(V)
            for k in range(2):
                ref = m.backward(reference(m, a, t, op['seed'] + k))
                put(T, w[k], ref if gen.is_complex(s) else ref.real, False)
            wh = sf.Function(V)
            V.forward(w, wh)
            for k in range(2):
                ctx.rec(('v', i, k), (sl(T, True), np.array(wh[k])))
        elif o == 'set':
            u = sf.Function(T)
            put(T, u, m.random_coefs(op['seed'], bc=False))
            u.set_boundary_dofs()
            ctx.rec(('c', i), (sl(T, True), np.array(u)))
        elif o == 'back':
            ub = u.backward()
            ctx.rec(('b', i), (sl(T, False), np.array(ub)))
        elif o == 'solve':
            vv, uu = sf.TestFunction(T), sf.TrialFunction(T)
            if T.dimensions > 1:
                sizes = [c.Get_size() for c in T.forward.output_pencil.subcomm]
                if any(sizes[x] > 1 for x, b in enumerate(s['bases']) if b['f'] != 'F'):
                    ctx.rec('unaligned', 1)
                    continue
            M = sf.inner(vv, uu)
            K = sf.inner(vv, -1.0 * sf.div(sf.grad(uu)))
            M = M if isinstance(M, list) else [M]
            K = K if isinstance(K, list) else [K]
            np_ = sum(b['f'] != 'F' for b in s['bases'])
            if op.get('blk'):
                sol = sf.la.BlockMatrixSolver(M + K)
            elif T.dimensions == 1:
                sol = sf.la.Solver(M + K)
            else:
                sol = {1: sf.la.SolverGeneric1ND, 2: sf.la.SolverGeneric2ND, 3: sf.la.SolverND}[np_](M + K)
            b = sf.Function(T)
            put(T, b, m.random_coefs(op['seed'], bc=False))
            u = sf.Function(T)
            if op.get('dirty'):
                u[:] = 1
            u = sol(b, u)
            ctx.rec(('d', i), (sl(T, True), np.array(u)))
        elif o == 'pad':
            if T.dimensions == 1:
                continue
            pf = tuple(op['pf'])
            if Td is None:
                Td = u.get_dealiased_space(pf)
                Td.bases[a].bc.update(t, True) if op.get('force') else Td.bases[a].bc.update(t)
                cfgpf = pf
            up = u.backward(padding_factor=cfgpf)
            uh = Td.forward(up, sf.Function(Td))
            ctx.rec(('p', i), (sl(T, True), np.array(uh)))
        elif o == 'copy':
            w = u.copy()
            w = sf.Function(T, buffer=np.array(u)) if op.get('buf') else w
            ctx.rec(('c2', i), (sl(T, True), np.array(w)))
        elif o == 'lin':
            # boundary values of the right hand side do not matter: forward of the same data gives the same function
            ub = u.backward()
            w = T.forward(ub)
            ctx.rec(('c2', i), (sl(T, True), np.array(w)))


class C08(Property):
    id = 'C08'
    quick_runs = 700
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'numpy', 'scipy', 'sympy')
    stub = ('MPI library',)
    assumptions = ('boundary values lie in the span of the other bases, so that their projection is exact',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=6, cx=0), dict(f='F', N=4, cx=1)
        for P in (1, 2, 3, 4):
            for f in 'LC':
                for bc in ('DD', 'NN', 'DNDN', 'D_'):
                    nb = len(gen.BCS[bc])
                    for bases, ax in (([0, R], None), ([R, 0], [1, 0]), ([0, R], [1, 0]), ([C, 0, R], [1, 0, 2]), ([0, C, R], None), ([C, R, 0], [2, 0, 1]),
                                      ([C, 0, R], None), ([0, dict(f='L', N=6), R], None), ([dict(f='C', N=6, bc='DD'), 0], None)):
                        nd = len(bases)
                        if (P + len(out)) % 3:
                            out.append(None)
                            continue
                        a = bases.index(0)
                        b = dict(f=f, N=10, bc=bc, dom=(P + nb) % 4,
                                 vx=[[[1.0 + j, 't', [1] * nd], [0.5, '1', [0 if 'bc' not in (x or {}) else 1 for x in bases]]] for j in range(nb)])
                        s = dict(bases=[copy.deepcopy(x) if x else b for x in bases])
                        if ax:
                            s['axes'] = ax
                            if s['bases'][ax[-1]]['f'] != 'F' or s['bases'][ax[-1]].get('cx'):
                                if any(q['f'] == 'F' for q in s['bases']):
                                    r = [q for q in s['bases'] if q['f'] == 'F']
                                    if ax[-1] == a or s['bases'][ax[-1]].get('cx'):
                                        pass
                        out.append(dict(P=P, policy='random', space=s, inplace=P % 2,
                                        ops=[dict(op='fwd', seed=len(out)), dict(op='back'), dict(op='time', t=0.5), dict(op='set', seed=1), dict(op='back'),
                                             dict(op='fwd', seed=2), dict(op='time', t=2.0), dict(op='solve', seed=3), dict(op='back'), dict(op='vec', seed=4),
                                             dict(op='pad', pf=[1] * a + [1.0] + [1.5] * (nd - a - 1))]))
        for P, bc, f in ((2, 'RR', 'L'), (3, 'DW', 'C'), (2, 'NR', 'L')):
            out.append(dict(P=P, policy='random', space=dict(bases=[dict(f=f, N=8, bc=bc, dom=P, vx=[[[1.0, 't', [0, 1]]], [[0.5, '1', [0, 0]]]]), R]),
                            ops=[dict(op='fwd', seed=1), dict(op='back'), dict(op='time', t=0.5), dict(op='set', seed=1), dict(op='back')]))
        for bx, by in (('DD', 'NN'), ('NN', 'DN'), ('DNDN', 'DD')):
            for poly in ([[2, 0, 0, 0]], [[1, 1, 1, 1], [2, 0, 1, 0]]):
                out.append(dict(P=1, policy='random', poly=poly, space=dict(bases=[dict(f='L', N=11, bc=bx, dom=1), dict(f='C', N=10, bc=by, dom=2)]),
                                ops=[dict(op='time', t=0.5, order=[0, 1]), dict(op='fwd'), dict(op='set', seed=1), dict(op='time', t=2.0, order=[1, 0]), dict(op='fwd')]))
        return [c for c in (c if c.get('poly') else self.clean(c) for c in out if c) if c]

    def clean(self, cfg):
        s = cfg['space']
        if len(s['bases']) == 1:
            cfg['P'] = 1
            cfg.pop('sub', None)
            for op in cfg['ops']:
                op.pop('blk', None)
            if cfg['ops'][0]['op'] != 'time':
                cfg['ops'].insert(0, dict(op='time', t=0.5))
        if s.get('axes') and any(b['f'] == 'F' for b in s['bases']):
            # the axis transformed first decides whether physical data are complex
            last = s['bases'][s['axes'][-1]]
            if last['f'] != 'F' and all(b.get('cx') for b in s['bases'] if b['f'] == 'F'):
                s['dtype'] = 'D'
        return cfg

    def gen2(self, rng):
        P = 1     # Solver2D, used by this transform, is serial
        while True:
            bs = []
            for _ in range(2):
                f = rng.choice('CL')
                bc = rng.choice([x for x in gen.FAM_BCS[f] if x != 'DN23'])
                n = 2 * len(gen.BCS[bc]) + 2
                bs.append(dict(f=f, N=rng.randint(max(n, P), max(n, P) + 5), bc=bc, dom=rng.randrange(4)))
            s = dict(bases=bs)
            if rng.random() < 0.5:
                s['axes'] = rng.choice(([0, 1], [1, 0]))
            if gen.fits(s, P):
                break
        poly = [[rng.choice((1, 2, -1, 0.5)), rng.choice((0, 0, 0, 1, 2)), rng.randint(0, min(4, bs[0]['N'] - 1)), rng.randint(0, min(4, bs[1]['N'] - 1))]
                for _ in range(rng.choice((1, 2, 3)))]
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = rng.choice(('fwd', 'fwd', 'set', 'time'))
            if o == 'time':
                ops.append(dict(op=o, t=rng.choice((0.0, 0.5, 2.0)), order=rng.choice(([0, 1], [1, 0]))))
            ops.append(dict(op=o if o != 'time' else 'fwd', seed=rng.randrange(10**6), keep=rng.randrange(2)))
        if any(k for c, k, i, j in poly):
            ops.insert(0, dict(op='time', t=0.5, order=[0, 1]))
        return gen.sched(rng, dict(P=P, space=s, poly=poly, ops=ops, inplace=rng.randrange(2)))

    def check2(self, env, cfg):
        s = cfg['space']
        if not gen.fits(s, cfg['P']):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st = next(iter(r['st'].values()))
        oracle.check_stencils(s, st)
        m = Model(s, st)
        X = np.meshgrid(*m.tgrid(), indexing='ij')
        t = 0.0
        for i, op in enumerate(cfg['ops']):
            if op['op'] == 'time':
                t = op['t']
                env.probe('two_axes_time')
                continue
            c = oracle.assemble(r[('c', i)], m.spec_shape(), f'op {i}: coefficients')
            b = oracle.assemble(r[('b', i)], tuple(q['N'] for q in s['bases']), f'op {i}: backward')
            sc = 1 + np.abs(poly(cfg, t, *X)).max()
            close(b, m.backward(c), f'op {i}: backward', sc=sc)
            for a, q in enumerate(s['bases']):
                for side, kind in gen.BCS[q['bc']]:
                    n = gen.orders(kind)[0][0]
                    xs = [np.linspace(-1, 1, 7)] * 2
                    xs[a] = np.array([-1.0 if side == 'left' else 1.0])
                    d = [0, 0]
                    d[a] = n
                    ref = poly(cfg, t, *np.meshgrid(*[oracle.to_true(w, x) for w, x in zip(s['bases'], xs)], indexing='ij'), *d)
                    close(m.expand(c, xs, d), ref, f'op {i} ({op["op"]}): condition {kind} {side} of axis {a}', 'boundary', tol=1e-7, sc=sc + np.abs(ref).max())
            if op['op'] == 'fwd':
                close(b, poly(cfg, t, *X), f'op {i}: function', tol=1e-7, sc=sc)
        env.probe('two_axes')

    def gen(self, rng):
        if rng.random() < 0.1:
            return self.gen2(rng)
        while True:
            P = gen.ranks(rng)
            sub = None
            if P > 1 and rng.random() < 0.15:
                sub = sorted(rng.sample(range(P), rng.randint(1, P - 1)))
            Q = len(sub) if sub else P
            s = gen.space(rng, P=Q, values=False, one_inhom=False, params=False, bcs=0.6,
                          fams=(('F', 8), ('C', 5), ('L', 5), ('U', 1), ('Q', 1)))
            if rng.random() < 0.03:
                s = dict(bases=[dict(f=rng.choice('LC'), N=rng.randint(10, 16), bc=None)])
            cand = [a for a, b in enumerate(s['bases']) if b['f'] != 'F']
            if not cand:
                continue
            a = rng.choice(cand)
            b = s['bases'][a]
            nd = len(s['bases'])
            if not b.get('bc'):
                ok = [x for x in gen.FAM_BCS[b['f']] if 2 * len(gen.BCS[x]) + 2 <= b['N']]
                if not ok:
                    continue
                b['bc'] = rng.choice(ok)
            if b['f'] in 'LC' and b['N'] >= 6 and rng.random() < 0.04:
                b['bc'] = rng.choice(gen.ROBIN)
            for ax, q in enumerate(s['bases']):
                if ax != a and q.get('bc') not in (None, 'DD', 'NN'):
                    q.pop('bc')
            if nd > 1 and not gen.fits(s, Q):
                continue
            break

        def term():
            fs = []
            for ax, q in enumerate(s['bases']):
                if ax == a:
                    fs.append(0)
                elif q.get('bc') == 'DD':
                    fs.append(rng.choice((1, 2)))
                elif q.get('bc') == 'NN':
                    fs.append(0)
                else:
                    fs.append(rng.choice((0, 1, 1, 2)))
            return [rng.choice((1.0, -0.5, 2.0)), rng.choice(('1', 't', 'c')), fs]
        dd = any(q.get('bc') == 'DD' for ax, q in enumerate(s['bases']) if ax != a)
        b['vx'] = [0 if rng.random() < 0.2 else rng.choice((1, -2.0, 0.5)) if rng.random() < 0.2 and not dd
                   else [term() for _ in range(rng.choice((1, 1, 2)))] for _ in range(gen.numbc(b))]
        if all(isinstance(v, (int, float)) for v in b['vx']) and (dd or rng.random() < 0.7):
            b['vx'][rng.randrange(len(b['vx']))] = [term()]
        ops = [dict(op='fwd', seed=rng.randrange(10**6))]
        for _ in range(rng.randint(2, 6)):
            o = rng.choice(('time', 'time', 'fwd', 'fwd', 'set', 'back', 'back', 'vec', 'solve', 'pad', 'copy', 'lin'))
            d = dict(op=o)
            if o == 'time':
                d['t'] = rng.choice((0.0, 0.5, 1.0, 3.25))
            if o in ('fwd', 'set', 'vec', 'solve'):
                d['seed'] = rng.randrange(10**6)
            if o == 'fwd' and rng.random() < 0.5:
                d['keep'] = 1
            if o == 'solve':
                if rng.random() < 0.3:
                    d['dirty'] = 1
                if rng.random() < 0.3:
                    d['blk'] = 1
            if o == 'copy' and rng.random() < 0.5:
                d['buf'] = 1
            if o == 'pad':
                d['pf'] = [1 if ax == a and rng.random() < 0.5 else rng.choice((1, 1.5)) for ax in range(nd)]
            ops.append(d)
        cfg = dict(P=P, space=s, ops=ops)
        if sub:
            cfg['sub'] = sub
        if rng.random() < 0.5:
            cfg['inplace'] = 1
        if nd > 1 and rng.random() < 0.25:
            gen.rcm(rng, s)
        if rng.random() < 0.12 and nd > 1 and not any(q.get('bc') for ax, q in enumerate(s['bases']) if ax != a):
            np_ = sum(q['f'] != 'F' for q in s['bases'])
            # not implemented: evaluation of complex functions with several non-periodic axes in 3D or without any Fourier axis
            if not (gen.is_complex(s) and (np_ == nd or (nd == 3 and np_ == 2))):
                s['fun'] = 1
            for v in b['vx']:
                if isinstance(v, list):
                    for x in v:
                        x[1] = '1'
        return gen.sched(rng, self.clean(cfg))

    def shrink(self, cfg):
        for k in range(len(cfg['ops'])):
            c = copy.deepcopy(cfg)
            del c['ops'][k]
            if c['ops'] and (len(c['space']['bases']) > 1 or k):
                yield c
        if cfg.get('poly'):
            for k in range(len(cfg['poly']) if len(cfg['poly']) > 1 else 0):
                c = copy.deepcopy(cfg)
                del c['poly'][k]
                yield c
            for k in ('inplace', 'axes', 'dom'):
                c = copy.deepcopy(cfg)
                for d in [c, c['space']] + c['space']['bases']:
                    d.pop(k, None)
                if c != cfg:
                    yield c
            return
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= max(c['sub']):
                c.pop('sub')
            try:
                axis_of(c['space'])
            except StopIteration:
                continue
            yield c
        for k in ('inplace', 'sub'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c

    def run(self, env, cfg):
        if cfg.get('poly'):
            self.check2(env, cfg)
            return
        s = cfg['space']
        nd = len(s['bases'])
        P = len(cfg['sub']) if cfg.get('sub') else cfg['P']
        a = axis_of(s)
        if nd > 1 and not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        if len(s['bases'][a]['vx']) != gen.numbc(s['bases'][a]):
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st = next(iter(r['st'].values()))
        oracle.check_stencils(s, st)
        m = Model(s, st)
        b = s['bases'][a]
        bt = [dict(b, vx=None, v=[0] * gen.numbc(b)) if ax == a else q for ax, q in enumerate(s['bases'])]
        t = 0.0
        cur = None      # current coefficients of u, when known
        tdep = any(not isinstance(v, (int, float)) and any(x[1] != '1' for x in v) for v in b['vx'])
        ms = 1e-9

        def boundary(c, when, what):
            """The function has the boundary values of time t"""
            for j, (side, kind) in enumerate(gen.BCS[b['bc']]):
                xs = m.grid([1] * nd)
                xs[a] = np.array([{'left': -1.0, 'right': 1.0}[side]])
                ref = bvalues(s, a, j, when, xs)
                st_ = np.abs(m.stencil(a))
                got, sc = 0, 0.0
                for d, cf in gen.orders(kind):
                    der = [0] * nd
                    der[a] = d
                    got = got + cf * np.squeeze(m.expand(c, xs, der), a)
                    # conditioning: coefficients times derivatives of the basis
                    amp = (np.abs(oracle.orthoder(b, xs[a], d, st_.shape[1])) @ st_.T)[0] * oracle.dfac(b)**d
                    sc += float(np.max(np.tensordot(amp, np.abs(c), (0, a))))
                close(got, np.broadcast_to(ref, got.shape), f'{what}: {side} {kind} at time {when}', 'boundary-value', tol=ms, sc=sc)

        for i, op in enumerate(cfg['ops']):
            o = op['op']
            if o == 'time':
                t = op['t']
                if tdep:
                    env.probe('time_update')
                continue
            if o in ('fwd', 'set'):
                ref = reference(m, a, t, op['seed'])
                got = oracle.assemble(r[('c', i)], m.spec_shape(), f'operation {i} {o}')
                close(got, ref, f'operation {i} {o} at time {t}', 'coefficients', sc=oracle.scale(m.backward(ref), ref))
                boundary(got, t, f'operation {i} {o}')
                cur = got
            elif o == 'vec':
                for k in range(2):
                    ref = reference(m, a, t, op['seed'] + k)
                    got = oracle.assemble(r[('v', i, k)], m.spec_shape(), f'operation {i} {o}')
                    close(got, ref, f'operation {i}: component {k} at time {t}', 'coefficients', sc=oracle.scale(m.backward(ref), ref))
            elif o == 'back':
                if cur is None:
                    continue
                got = oracle.assemble(r[('b', i)], tuple(gen.phys_size(q) for q in s['bases']), f'operation {i} {o}')
                close(got, m.backward(cur), f'operation {i}: backward', 'values')
            elif o == 'solve':
                if ('d', i) not in r:
                    cur = cur
                    continue
                got = oracle.assemble(r[('d', i)], m.spec_shape(), f'operation {i} {o}')
                boundary(got, t, f'operation {i} {o}')
                env.probe('solve')
                cur = got
            elif o == 'pad':
                if ('p', i) not in r or cur is None:
                    continue
                got = oracle.assemble(r[('p', i)], m.spec_shape(), f'operation {i} {o}')
                boundary(got, t, f'operation {i}: from the padded space')
                env.probe('padded')
            elif o in ('copy', 'lin'):
                got = oracle.assemble(r[('c2', i)], m.spec_shape(), f'operation {i} {o}')
                if o == 'copy' and cur is not None:
                    close(got, cur, f'operation {i}: copy', 'coefficients')
                if o == 'lin':
                    boundary(got, t, f'operation {i}: backward and forward')
        if any(not isinstance(v, (int, float)) and any(any(x[2]) for x in v) for v in b['vx']):
            env.probe('depends_on_position')
        if s.get('fun'):
            env.probe('function_valued')
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])

    def probes_expected(self):
        return ['time_update', 'solve', 'padded', 'depends_on_position', 'function_valued', 'map_sep', 'map_pol', 'two_axes', 'two_axes_time']


PROPERTY = C08
