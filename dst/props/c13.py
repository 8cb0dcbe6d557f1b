"""C13: time integrators perform the scheme they are named after, on the global coefficients"""
import copy
from functools import reduce

import numpy as np

from .. import gen, oracle
from ..runner import Property
from ..oracle import Model, close, need, same_everywhere
from .c06 import matrix

DIAG = ('ETD', 'ETDRK4', 'RK4')
IMPL = ('IRK3', 'BackwardEuler')
IMEX = ('IMEXRK3', 'IMEXRK011', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443')
GAUSS = {'C': 'GC', 'L': 'LG', 'U': 'GU'}


def ncomp(cfg):
    return len(cfg['space']['bases']) if cfg.get('vec') else 1


def lincoef(cfg, i):
    """Diffusion, advection and reaction of component i"""
    q = cfg['lin']
    return q['nu'] * (1 + 0.5 * i if cfg.get('aniso') else 1), q['be'], q['ka'] * (1 + 0.5 * i if cfg.get('aniso') == 2 else 1)


def nonlin(cfg, u, X, t):
    """The nonlinear term at the quadrature points"""
    q = cfg['non']
    nc = len(u)
    return np.array([q[0] * u[i] * u[(i + 1) % nc] + q[1] * u[i] + q[2] * (X[-1] + 0.3 * i) + q[3] * t + 0 * u[i] for i in range(nc)])


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun import la
    from shenfun.utilities import integrators
    s = cfg['space']
    nd = len(s['bases'])
    nc = ncomp(cfg)
    T = gen.build(sf, ctx.comm, s) if nd > 1 else gen.base(sf, s['bases'][0])
    bases = T.bases if nd > 1 else [T]
    if ctx.rank == 0:
        ctx.rec('st', [None if b.is_orthogonal else (b.stencil_matrix().diags().toarray(), np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float)))
                       for b in bases])
    kind = cfg['kind']
    np_ = [a for a in range(nd) if s['bases'][a]['f'] != 'F']
    if nd > 1 and any(T.forward.output_pencil.subcomm[a].Get_size() > 1 for a in np_):
        ctx.rec('unaligned', 1)
        return
    V = sf.VectorSpace(T) if cfg.get('vec') else T
    u_hat = sf.Function(V)
    sl = tuple(slice(*x) for x in oracle.sl2(T.local_slice(True))) if nd > 1 else (slice(None),)
    flat = np.asarray(u_hat).reshape((nc,) + np.asarray(u_hat).shape[-nd:])
    for i in range(nc):
        flat[i] = start(cfg, i)[sl]
    u = sf.Array(V)
    X = T.local_mesh(True) if nd > 1 else [T.mesh()]
    steps = []
    lsl = [(x.start or 0, x.stop) for x in sl]

    def rec(n, t, tstep, uh):
        steps.append((n, round(t, 12), tstep))
        ctx.rec(('u', len(steps) - 1), (lsl, np.array(uh).reshape(flat.shape)))

    def L(self, v, **params):
        if cfg.get('form') == 'array':
            K = T.local_wavenumbers(scaled=True) if nd > 1 else [T.wavenumbers(scaled=True)]
            out = [-nu * sum(k**2 for k in K) + be * 1j * K[-1] - ka for nu, be, ka in (lincoef(cfg, i) for i in range(nc))]
            if not lincoef(cfg, 0)[1]:
                out = [o.real for o in out]
            return np.array(np.broadcast_arrays(*out)) if nc > 1 else out[0]
        nu, be, ka = lincoef(cfg, 0)
        lap = sf.div(sf.grad(v)) if nd > 1 else sf.Dx(v, 0, 2)
        if cfg.get('aniso') and nc > 1:
            # a vector of coefficients
            e = tuple(lincoef(cfg, i)[0] for i in range(nc))
            r = e * lap
        else:
            r = nu * lap if nu else None
        if be:
            d = be * sf.Dx(v, nd - 1, 1)
            r = d if r is None else r + d
        if ka:
            r = -ka * v if r is None else r - ka * v
        return r

    def N(self, ub, uh, dU, **params):
        ub = V.backward(uh, ub)
        ubf = np.asarray(ub).reshape((nc,) + np.asarray(ub).shape[-nd:])
        g = sf.Array(V)
        np.asarray(g).reshape(ubf.shape)[...] = nonlin(cfg, ubf, X, params.get('ti', 0.0))
        if kind in DIAG:
            dU = V.forward(g, dU)
            if nd > 1:
                dU.mask_nyquist(T.get_mask_nyquist())
            else:
                T.mask_nyquist(dU)
        else:
            dU.fill(0)      # as in the demos: forms with vectors are added to what is there
            dU = sf.inner(sf.TestFunction(V), g, output_array=dU)
        return dU

    if kind not in IMEX:
        cls = getattr(integrators, kind)
        state = {'n': 0, 'calls': 0}

        def update(self, ub, uh, t, tstep, mark, **params):
            rec(mark['calls'], t, tstep, uh)
        kw = {} if cfg.get('nolin') else dict(L=L)
        if cfg.get('nonon'):
            I = cls(V, update=update, mark=state, **kw)
        else:
            I = cls(V, N=N, update=update, mark=state, **kw)
        t = cfg['t0']
        for c, (dt, n, frac) in enumerate(cfg['calls']):
            state['calls'] = c
            if cfg.get('renew') and c:
                I = cls(V, update=update, mark=state, **kw) if cfg.get('nonon') else cls(V, N=N, update=update, mark=state, **kw)
            if cfg.get('setup'):
                I.setup(dt)
            r = I.solve(u, u_hat, dt, (t, t + (n - frac) * dt))
            ctx.rec(('ret', c), (lsl, np.array(r).reshape(flat.shape)))
            t += n * dt
    else:
        cls = getattr(integrators, kind)
        W = T.get_orthogonal()
        H, H2 = sf.Function(W), sf.Function(W)
        Ha = sf.Array(T)
        nm = cfg['nmode']
        if nm == 'fun':
            Nl = H
        elif nm == 'arr':
            Nl = [Ha]
        elif nm == 'list':
            Nl = [H, H2]
        else:
            Nl = [sf.Dx(H, cfg['fax'], 1), H2]
        v = sf.TestFunction(T)
        t = cfg['t0']
        lap = (lambda f: sf.div(sf.grad(f))) if nd > 1 else (lambda f: sf.Dx(f, 0, 2))

        def Lop(f):
            nu, be, ka = lincoef(cfg, 0)
            r = nu * lap(f)
            if be:
                r = r + be * sf.Dx(f, nd - 1, 1)
            if ka:
                r = r - ka * f
            return r
        for c, (dt, n, frac) in enumerate(cfg['calls']):
            ue = lap(u_hat) if cfg.get('ulap') else sf.Expr(u_hat) if cfg.get('uexpr') else u_hat
            kw = dict(solver=la.SolverGeneric2ND) if len(np_) == 2 and (kind != 'IMEXRK3' or cfg.get('sol')) else {}
            if len(np_) == 1 and cfg.get('sol') and nd > 1:
                kw = dict(solver=la.SolverGeneric1ND)
            I = cls(v, ue, Lop, Nl, dt, **kw)
            I.assemble()
            if ctx.rank == 0:
                ctx.rec('stages', [np.array(x, float) for x in I.stages()])
            for k in range(n):
                for rk in range(I.steps()):
                    ub = T.backward(u_hat, u)
                    g = sf.Array(T)
                    g[:] = nonlin(cfg, np.asarray(ub)[None], X, 0.0)[0]
                    Ha[:] = g
                    gW = sf.Array(W)
                    gW[:] = g if nm in ('fun', 'arr') else 0.75 * np.array(g)
                    W.forward(gW, H)
                    gW[:] = 0.25 * np.array(g)
                    W.forward(gW, H2)
                    I.compute_rhs(rk)
                    I.solve_step(rk)
                t += dt
                rec(c, t, k + 1, u_hat)
    ctx.rec('steps', steps)


def start(cfg, i):
    return 0.3 * Model_start(cfg, i)


def Model_start(cfg, i):
    c = Model(cfg['space']).random_coefs(cfg['seed'] + 17 * i, bc=False)
    for a, b in enumerate(cfg['space']['bases']):
        if b.get('bc') and any(b.get('v') or ()):
            m = Model(cfg['space'])
            m.set_bc(c, a, [v / 0.3 for v in oracle.bcvals(b)])
    return c


# -- reference --------------------------------------------------------------

def diffops(nd, nu, be, ka):
    """Terms (coefficient, derivatives)"""
    out = [(nu, [2 if a == b else 0 for b in range(nd)]) for a in range(nd)] if nu else []
    if be:
        out.append((be, [1 if b == nd - 1 else 0 for b in range(nd)]))
    if ka:
        out.append((-ka, [0] * nd))
    return out


def compose(t1, t2):
    return [(c * d, [x + y for x, y in zip(a, b)]) for c, a in t1 for d, b in t2]


class Dense:
    def __init__(self, cfg, st):
        self.cfg, self.s = cfg, cfg['space']
        self.m = Model(self.s, st)
        self.nd = len(self.s['bases'])
        self.nc = ncomp(cfg)
        self.X = np.meshgrid(*self.m.tgrid(), indexing='ij')
        self.st = st
        shp = self.m.spec_shape()
        self.shape = shp
        dof = np.ones(shp, bool)
        mask = np.ones(shp)
        for a, b in enumerate(self.s['bases']):
            sl = [slice(None)] * self.nd
            if b.get('bc'):
                sl[a] = slice(b['N'] - gen.numbc(b), None)
                dof[tuple(sl)] = False
            if b['f'] == 'F' and b['N'] % 2 == 0:
                sl[a] = b['N'] // 2
                mask[tuple(sl)] = 0
        self.dof = dof.ravel()
        self.mask = mask
        self.cache = {}

    def op(self, terms):
        key = repr(terms)
        if key not in self.cache:
            A = 0
            for c, d in terms:
                ms = [matrix(self.s, self.s, self.st, self.st, a, 0, d[a], 0) for a in range(self.nd)]
                A = A + c * reduce(np.kron, ms)
            self.cache[key] = A if np.ndim(A) else np.zeros((len(self.dof),) * 2)
        return self.cache[key]

    def lin(self, i):
        return [] if self.cfg.get('nolin') else diffops(self.nd, *lincoef(self.cfg, i))

    def N(self, c, t):
        """(v, N(u)) of all components"""
        if self.cfg.get('nonon'):
            return np.zeros_like(c)
        u = [self.m.backward(x) for x in c]
        g = nonlin(self.cfg, u, self.X, t)
        out = []
        for i in range(self.nc):
            r = np.array(self.m.scalar_product(g[i]))
            nm = self.cfg.get('nmode')
            if nm == 'dx':
                b = self.s['bases'][self.cfg['fax']]
                k = oracle.wavenumbers(b) * oracle.dfac(b)
                sh = [1] * self.nd
                sh[self.cfg['fax']] = -1
                r = r * (0.25 + 0.75j * k.reshape(sh))
            out.append(r * self.mask)
        return np.array(out)

    def solve(self, A, b, old):
        """A x = b at the degrees of freedom, with the boundary values of old"""
        x = np.array(old, dtype=np.result_type(A, b, old)).ravel()
        d = self.dof
        b = b.ravel()[d] - A[np.ix_(d, ~d)] @ x[~d]
        x[d] = np.linalg.solve(A[np.ix_(d, d)], b)
        return x.reshape(old.shape) * self.mask

    # schemes: one step from c at time t
    def steps(self):
        """Yields the solution after each step"""
        cfg = self.cfg
        c = np.array([start(cfg, i) for i in range(self.nc)])
        t = cfg['t0']
        kind = cfg['kind']
        prev = None
        for call, (dt, n, frac) in enumerate(cfg['calls']):
            if cfg.get('renew') and call:
                prev = None
            for k in range(n):
                if kind in DIAG:
                    c = self.diag(kind, c, dt)
                elif kind == 'IRK3':
                    a, b, ti = (8. / 15., 5. / 12., 3. / 4.), (0.0, -17. / 60., -5. / 12.), (0., 8. / 15., 2. / 3.)
                    N0 = 0
                    for rk in range(3):
                        N1 = self.N(c, t + ti[rk] * dt)
                        new = []
                        for i in range(self.nc):
                            M, A = self.op([(1., [0] * self.nd)]), self.op(self.lin(i))
                            h = (a[rk] + b[rk]) * dt / 2
                            rhs = (M + h * A) @ c[i].ravel() + dt * (a[rk] * N1[i] + (b[rk] * N0[i] if rk else 0)).ravel()
                            new.append(self.solve(M - h * A, rhs, c[i]))
                        N0 = N1
                        c = np.array(new)
                elif kind == 'BackwardEuler':
                    N1 = self.N(c, t)
                    N0 = N1 if prev is None else prev
                    prev = N1
                    new = []
                    for i in range(self.nc):
                        M, A = self.op([(1., [0] * self.nd)]), self.op(self.lin(i))
                        new.append(self.solve(M - dt * A, M @ c[i].ravel() + dt * (2 * N1[i] - N0[i]).ravel(), c[i]))
                    c = np.array(new)
                else:
                    c = self.imex(kind, c, dt)
                t += dt
                yield call, t, k + 1, c

    def diag(self, kind, c, dt):
        z = np.array([np.diag(self.op(self.lin(i))).reshape(self.shape) * dt for i in range(self.nc)])
        e, e2 = np.exp(z), np.exp(z / 2)
        N = lambda y: self.N(y, 0.0)
        if kind == 'RK4':
            f = lambda y: N(y) + z / dt * y
            k1 = f(c)
            k2 = f(c + dt / 2 * k1)
            k3 = f(c + dt / 2 * k2)
            k4 = f(c + dt * k3)
            return c + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        if kind == 'ETD':
            return e * c + dt * phi(1, z) * N(c)
        p1 = phi(1, z / 2)
        N1 = N(c)
        a = e2 * c + dt / 2 * p1 * N1
        N2 = N(a)
        b = e2 * c + dt / 2 * p1 * N2
        N3 = N(b)
        d = e2 * a + dt / 2 * p1 * (2 * N3 - N1)
        N4 = N(d)
        f1, f2, f3 = phi(1, z), phi(2, z), phi(3, z)
        return e * c + dt * ((f1 - 3 * f2 + 4 * f3) * N1 + 2 * (f2 - 2 * f3) * (N2 + N3) + (4 * f3 - f2) * N4)

    def imex(self, kind, c, dt):
        z = [0] * self.nd
        one = [(1., z)]
        if self.cfg.get('ulap'):
            one = diffops(self.nd, 1., 0, 0)
        M, A = self.op(one), self.op(compose(diffops(self.nd, *lincoef(self.cfg, 0)), one))
        if kind == 'IMEXRK3':
            a, b = (8. / 15., 5. / 12., 3. / 4.), (0.0, -17. / 60., -5. / 12.)
            N0 = 0
            for rk in range(3):
                N1 = self.N(c, 0.0)[0].ravel()
                h = (a[rk] + b[rk]) * dt / 2
                c = self.solve(M - h * A, (M + h * A) @ c[0].ravel() + dt * (a[rk] * N1 + b[rk] * N0), c[0])[None]
                N0 = N1
            return c
        a, b, _ = TABLES[kind]
        c0 = c
        Ns, Ls = [], []
        for k in range(len(a) - 1):
            Ns.append(self.N(c, 0.0)[0].ravel())
            Ls.append(A @ c[0].ravel())
            rhs = M @ c0[0].ravel() + dt * sum(b[k + 1][j] * Ns[j] for j in range(k + 1)) + dt * sum(a[k + 1][j] * Ls[j] for j in range(1, k + 1))
            c = self.solve(M - dt * a[k + 1][k + 1] * A, rhs, c[0])[None]
        return c


def phi(n, z):
    """The phi functions, by Taylor series where the definition cancels"""
    z = np.asarray(z, complex)
    f = [1.0, 1.0, 2.0, 6.0]
    tay = np.zeros_like(z)
    small = np.abs(z) < 1
    zs = np.where(small, z, 0)
    term = np.ones_like(z) / f[n]
    for k in range(1, 30):
        tay += term
        term = term * zs / (n + k)
    zb = np.where(small, 1, z)
    r = np.exp(zb)
    for k in range(n):
        r = r - zb**k / f[k]
    return np.where(small, tay, r / zb**n)


_g = (2 - np.sqrt(2)) / 2
_d = 1 - 1 / (2 * _g)
TABLES = {
    'IMEXRK011': ([[0, 0], [0, 0]], [[0, 0], [1, 0]], (0, 1)),
    'IMEXRK111': ([[0, 0], [0, 1]], [[0, 0], [1, 0]], (0, 1)),
    'IMEXRK222': ([[0, 0, 0], [0, _g, 0], [0, 1 - _g, _g]], [[0, 0, 0], [_g, 0, 0], [_d, 1 - _d, 0]], (0, _g, 1)),
    'IMEXRK443': ([[0, 0, 0, 0, 0], [0, 1 / 2, 0, 0, 0], [0, 1 / 6, 1 / 2, 0, 0], [0, -1 / 2, 1 / 2, 1 / 2, 0], [0, 3 / 2, -3 / 2, 1 / 2, 1 / 2]],
                  [[0, 0, 0, 0, 0], [1 / 2, 0, 0, 0, 0], [11 / 18, 1 / 18, 0, 0, 0], [5 / 6, -5 / 6, 1 / 2, 0, 0], [1 / 4, 7 / 4, 3 / 4, -7 / 4, 0]],
                  (0, 1 / 2, 2 / 3, 1 / 2, 1)),
}


class C13(Property):
    id = 'C13'
    quick_runs = 800
    thorough_runs = 40000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'numpy', 'scipy.sparse (SuperLU)')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',
                   'Gauss quadrature, so that quadrature and exact inner products with the nonlinear term agree')

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        L, D = dict(f='L', N=9, bc='DD', q='LG'), dict(f='C', N=8, bc='NN', q='GC')
        for P in (1, 2, 3, 4):
            for kind in DIAG:
                for bases, ax in (([C, R], None), ([R, C], [1, 0]), ([C, C, R], None)):
                    for vec in (0, 1):
                        if P == 3 and vec:
                            continue
                        out.append(dict(P=P, kind=kind, space=dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {})), vec=vec,
                                        form=('expr', 'array')[len(out) % 2], calls=[[0.02, 2, 0], [0.02, 1, 0.4]]))
            for kind in IMPL + IMEX:
                for bases, ax in (([L, R], None), ([R, D], [1, 0]), ([L, D, C], None), ([dict(L, v=[1, 2]), R], None), ([R], None), ([D], None)):
                    if len(bases) == 1 and P > 1:
                        continue
                    out.append(dict(P=P, kind=kind, space=dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}), **({'dtype': 'D'} if len(bases) == 3 else {})),
                                    vec=len(out) % 2, calls=[[0.02, 2, 0], [0.05, 1, 0.4]], nmode=('fun', 'arr', 'list')[len(out) % 3]))
        for i, c in enumerate(out):
            c.update(seed=i, t0=(0.0, 1.5)[i % 2], policy='random', lin=dict(nu=0.3, be=(0, 0.5)[i // 2 % 2], ka=(0, 0.7)[i % 2]), non=[0.5, 0.3, 0.2, 0.4])
        return [c for c in (self.clean(c) for c in out) if c]

    def clean(self, cfg):
        s = cfg['space']
        bs = s['bases']
        nd = len(bs)
        for b in bs:
            if b['f'] in GAUSS:
                b['q'] = GAUSS[b['f']]
        np_ = [a for a in range(nd) if bs[a]['f'] != 'F']
        kind = cfg['kind']
        if nd == 1:
            for k in ('axes', 'slab', 'collapse', 'dtype'):
                s.pop(k, None)
            cfg['vec'] = 0
        if kind in DIAG and np_ or kind in IMPL + IMEX and not np_ and nd > 1 or len(np_) > 2:
            return None
        if kind in IMEX or len(np_) > 1:
            cfg['vec'] = 0
        if kind == 'BackwardEuler' and nd == 1 and any(b.get('v') for b in bs):
            for b in bs:
                b.pop('v', None)
        if kind not in DIAG and bs[-1]['f'] == 'F':
            # complex one-dimensional matrices have no fast solver (a loud error)
            cfg['lin']['be'] = 0
        if kind in DIAG:
            if len(cfg['calls']) > 1 and kind == 'BackwardEuler':
                cfg.pop('renew', None)
        else:
            cfg.pop('form', None)
            cfg.pop('nolin', None)
            cfg.pop('aniso', None)
        if not cfg.get('vec') or kind not in DIAG:
            cfg.pop('aniso', None)
        if cfg.get('aniso') and cfg.get('form') != 'array':
            cfg['aniso'] = 1
        if cfg.get('form') != 'array' and cfg.get('vec'):
            # expressions with both vector coefficients and scalars
            cfg['lin']['ka'] = cfg['lin']['ka'] if not cfg.get('aniso') else 0
            cfg['lin']['be'] = 0
            if cfg.get('aniso'):
                cfg['lin']['nu'] = cfg['lin']['nu'] or 0.3
        if kind in IMEX:
            cfg.pop('nonon', None)
            cfg.pop('renew', None)
            F = [a for a in range(nd) if bs[a]['f'] == 'F']
            nm = cfg.get('nmode') or 'fun'
            if nm == 'dx' and (not F or nd == 1):
                nm = 'list'
            cfg['nmode'] = nm
            if nm == 'dx':
                cfg['fax'] = F[0]
            if cfg.get('ulap') and not (len(np_) == 1 and bs[np_[0]].get('bc') == 'DNDN'):
                cfg.pop('ulap')
            if cfg.get('ulap'):
                bs[np_[0]].pop('v', None)
                cfg['lin']['be'] = 0
        else:
            cfg.pop('nmode', None)
            cfg.pop('ulap', None)
        if kind not in IMPL + ('IRK3',):
            cfg['non'][3] = 0
        if nd > 1 and not gen.fits(s, cfg['P']):
            return None
        return cfg

    def gen(self, rng):
        while True:
            kind = rng.choice(DIAG + IMPL * 2 + IMEX)
            P = gen.ranks(rng)
            nd = rng.choice((1, 2, 2, 2, 3))
            nonp = 0 if kind in DIAG else rng.choice((1, 1, 1, 2))
            if nd == 1:
                P = rng.choice((1, 2))
                fam = 'F' if nonp == 0 else rng.choice(('F', 'L', 'C'))
                s = dict(bases=[gen.rbase(rng, fam, nmin=5, nmax=12, bcs=1.0, values=True, cx=rng.choice((0, 1)))])
            else:
                s = gen.space(rng, ndim=nd, P=P, fams=(('F', 1),) if nonp == 0 else (('F', 4), ('C', 3), ('L', 3), ('U', 1)), max_nonp=nonp, bcs=1.0,
                              values=nonp == 1, nmax={2: 10, 3: 7}[nd])
            ok = True
            for b in s['bases']:
                if b['f'] == 'F':
                    continue
                if kind in IMEX and nonp == 1 and rng.random() < 0.2 and b['N'] >= 8:
                    b['bc'] = 'DNDN'
                    b.pop('v', None)
                elif b.get('bc') not in ('DD', 'NN', 'DN', 'ND') or b['f'] == 'U' and b.get('bc') not in ('DD', 'NN'):
                    b['bc'] = 'DD'
                    b.pop('v', None)
                if b.get('v'):
                    b['v'] = [0.5 * x for x in b['v'][:2]]
            cfg = dict(P=P, kind=kind, space=s, seed=rng.randrange(10**6), vec=int(rng.random() < 0.35), t0=rng.choice((0.0, 0.0, 1.5)),
                       lin=dict(nu=rng.choice((0.05, 0.3)), be=rng.choice((0, 0, 0.5)), ka=rng.choice((0, 0.7, -0.4))),
                       non=[rng.choice((0, 0.5)), rng.choice((0, -0.3)), rng.choice((0, 0.2)), rng.choice((0, 0.4))])
            dt = rng.choice((0.01, 0.04, 0.1))
            cfg['calls'] = [[dt, rng.randint(1, 3), rng.choice((0, 0, 0.4))]]
            if rng.random() < 0.6:
                cfg['calls'].append([rng.choice((dt, dt, 0.5 * dt)), rng.randint(1, 2), rng.choice((0, 0.4))])
            if rng.random() < 0.3:
                cfg['setup'] = 1
            if kind in DIAG:
                cfg['form'] = rng.choice(('expr', 'expr', 'array'))
                if rng.random() < 0.15:
                    cfg['nolin'] = 1
                if cfg['vec'] and rng.random() < 0.5:
                    cfg['aniso'] = rng.choice((1, 2))
                if rng.random() < 0.2:
                    cfg['lin']['nu'] = 0
                    cfg['lin']['ka'] = cfg['lin']['ka'] or 0.7
            if rng.random() < 0.15:
                cfg['nonon'] = 1
            if rng.random() < 0.3:
                cfg['renew'] = 1
            if kind in IMEX:
                cfg['nmode'] = rng.choice(('fun', 'arr', 'list', 'dx'))
                for k in ('sol', 'uexpr'):
                    if rng.random() < 0.4:
                        cfg[k] = 1
                if rng.random() < 0.7:
                    cfg['ulap'] = 1
            cfg = self.clean(cfg)
            if cfg is not None:
                break
        return gen.sched(rng, cfg)

    def shrink(self, cfg):
        for k in ('vec', 'aniso', 'form', 'nonon', 'nolin', 'renew', 'setup', 'ulap', 'uexpr', 'sol', 't0'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                if k == 't0':
                    c['t0'] = 0.0
                c = self.clean(c)
                if c:
                    yield c
        if len(cfg['calls']) > 1:
            c = copy.deepcopy(cfg)
            c['calls'].pop()
            yield c
        for i, x in enumerate(cfg['calls']):
            for j, v in ((1, x[1] - 1), (2, 0)):
                if v != x[j] and (j == 2 or v > 0):
                    c = copy.deepcopy(cfg)
                    c['calls'][i][j] = v
                    yield c
        for k in ('be', 'ka'):
            if cfg['lin'][k] and (cfg['lin']['nu'] or k == 'be' and cfg['lin']['ka']):
                c = copy.deepcopy(cfg)
                c['lin'][k] = 0
                yield c
        for i in range(4):
            if cfg['non'][i]:
                c = copy.deepcopy(cfg)
                c['non'][i] = 0
                yield c
        for c in super().shrink(cfg):
            c = self.clean(copy.deepcopy(c))
            if c and not (cfg.get('nonon') and c['kind'] in IMEX):
                yield c

    def run(self, env, cfg):
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st = next(iter(r['st'].values()))
        oracle.check_stencils(cfg['space'], st)
        if 'unaligned' in r:
            env.probe('unaligned')
            return
        d = Dense(cfg, st)
        steps = same_everywhere({k: np.array(v, float) for k, v in r['steps'].items()}, 'times and numbers of the steps', cfg['P'])
        ref = list(d.steps())
        need(len(steps) == len(ref), 'steps', lambda: f'{len(steps)} steps instead of {len(ref)}')
        if cfg['kind'] in TABLES:
            a, b, c = [np.array(x, float) for x in TABLES[cfg['kind']]]
            got = next(iter(r['stages'].values()))
            close(got[2], c, 'times of the stages', 'stages')
        sc = 1.0
        last = {}
        for k, (call, t, n, c) in enumerate(ref):
            need(steps[k][0] == call and abs(steps[k][1] - t) < 1e-9 and steps[k][2] == n, 'steps',
                 lambda: f'step {k}: update was called with time {steps[k][1]}, step {int(steps[k][2])} instead of {t}, {n}')
            sc = max(sc, oracle.scale(c))
            if not sc < 1e3:
                env.probe('blowup')
                return
            got = self.glob(cfg, r[('u', k)], d.shape)
            close(got, c, f'{cfg["kind"]} after {n} steps of call {call}', 'scheme', tol=2e-8, sc=sc)
            last[call] = c
        for call, c in last.items():
            if ('ret', call) in r:
                close(self.glob(cfg, r[('ret', call)], d.shape), c, f'returned by call {call}', 'return', tol=2e-8, sc=sc)
        env.probe(cfg['kind'])
        if cfg.get('vec'):
            env.probe('vector')

    def glob(self, cfg, rec, shape):
        if len(cfg['space']['bases']) == 1:
            for v in rec.values():
                close(v[1], next(iter(rec.values()))[1], 'solution on different processes', 'ranks-disagree', tol=1e-12)
            return next(iter(rec.values()))[1]
        return oracle.assemble(rec, shape, 'solution', lead=1)

    def probes_expected(self):
        return list(DIAG + IMPL + IMEX) + ['vector']


PROPERTY = C13
