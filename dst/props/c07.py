"""C07: linear solvers solve the global system on every process"""
import copy
import itertools

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, need
from .c06 import matrix, apply, measure

# kinds of equations, as terms (coefficient name, derivatives of test, of trial, power of x along the polynomial axis)


def eqterms(eq, nd, poly):
    def e(a, n=1):
        return [n if b == a else 0 for b in range(nd)]
    z = [0] * nd
    if eq == 'mass':
        return [('a', z, z)]
    if eq == 'helm':
        return [('a', z, z)] + [('b', e(a), e(a)) for a in range(nd)]
    if eq == 'lap':
        return [('a', z, z)] + [('-b', z, e(a, 2)) for a in range(nd)]
    if eq == 'pois':
        return [('-b', z, e(a, 2)) for a in range(nd)]
    if eq == 'wpois':
        return [('b', e(a), e(a)) for a in range(nd)]
    if eq == 'adv':
        return [('a', z, z)] + [('b', e(a), e(a)) for a in range(nd)] + [('c', z, e(nd - 1))] + [('c', z, e(p)) for p in poly[:1]]
    if eq == 'bih':
        return [('b', z, [x + y for x, y in zip(e(a, 2), e(b, 2))]) for a in range(nd) for b in range(nd)] + \
            [('-a', z, e(a, 2)) for a in range(nd)] + [('a', z, z)]
    raise KeyError(eq)


def coef(eqc, name):
    return -eqc[name[1]] if name[0] == '-' else eqc[name]


def spaces_of(cfg):
    """Descriptions of all components"""
    out = [cfg['space']]
    for c in cfg.get('comps') or ():
        d = copy.deepcopy(cfg['space'])
        for b, t in zip(d['bases'], c):
            if t is not None:
                b.pop('bc', None)
                b.pop('v', None)
                b.update({k: v for k, v in t.items() if v})
        out.append(d)
    return out


def allterms(cfg):
    """(i, j, value, d test, d trial, power)"""
    s = cfg['space']
    nd = len(s['bases'])
    poly = [a for a in range(nd) if s['bases'][a]['f'] != 'F']
    n = 1 + len(cfg.get('comps') or ())
    q = cfg['co']
    out = []
    for i in range(n):
        for k, (name, dt, du) in enumerate(eqterms(cfg['eq'], nd, poly)):
            p = [0] * nd
            if cfg.get('m') and k == 0 and poly:
                p[poly[0]] = cfg['m']
            out.append((i, i, coef(q, name) * (1 + 0.25 * i), dt, du, p))
    for (i, j, c, a, n_) in cfg.get('cpl') or ():
        out.append((i, j, c, [0] * nd, [n_ if b == a else 0 for b in range(nd)], [0] * nd))
    return out


def constraints(cfg, ds):
    """[(component, position, value)] and the argument of the solver"""
    out, arg = [], []
    poly = [a for a, b in enumerate(ds[0]['bases']) if b['f'] != 'F']
    how = cfg['how']
    nd = len(ds[0]['bases'])
    axes = range(nd) if how == 'nd' else poly
    con = [[0] + list(c) if len(c) == 2 else list(c) for c in cfg.get('con') or ()]
    con += [list(c) for c in cfg.get('xcon') or ()]
    seen = set()
    for i, row, val in con:
        dims = [gen.spec_size(ds[i]['bases'][a]) - gen.numbc(ds[i]['bases'][a]) for a in axes]
        row %= int(np.prod(dims)) if dims else 1
        if (i, row) in seen:
            continue
        seen.add((i, row))
        pos = [0] * nd
        for a, k in zip(axes, np.unravel_index(row, dims) if dims else ()):
            pos[a] = int(k)
        out.append((i, tuple(pos), val))
        arg.append((i, row, val) if how == 'blk' else (row, val))
    return out, tuple(arg)


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun import la
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank in cfg['sub'] else 1, -ctx.rank)
        if ctx.rank not in cfg['sub']:
            return
    ds = spaces_of(cfg)
    nc = len(ds)
    Ts = [gen.build(sf, comm, d) for d in ds]
    for i, T in enumerate(Ts):
        if comm.Get_rank() == 0:
            ctx.rank0, ctx_rank = ctx.rank, 0
            out = []
            for b in T.bases:
                if b.is_orthogonal:
                    out.append(None)
                    continue
                out.append((b.stencil_matrix().diags().toarray(), np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float))))
            ctx.rec(('st', i), out)
    T = Ts[0]
    nd = T.dimensions
    np_ = [a for a in range(nd) if cfg['space']['bases'][a]['f'] != 'F']
    sizes = [c.Get_size() for c in T.forward.output_pencil.subcomm]
    if any(sizes[a] > 1 for a in np_):
        ctx.rec('unaligned', 1)
        return
    if nc == 1 and not cfg.get('vec'):
        V = T
    elif cfg.get('vec'):
        V = sf.VectorSpace(T) if nc == nd else sf.CompositeSpace([T] * nc)
    else:
        V = sf.CompositeSpace(Ts)
    u, v = sf.TrialFunction(V), sf.TestFunction(V)
    mats = []
    for (i, j, c, dt, du, p) in allterms(cfg):
        vi, uj = (v, u) if nc == 1 else (v[i], u[j])
        vi, uj = sf.Expr(vi), sf.Expr(uj)
        for a in range(nd):
            if dt[a]:
                vi = sf.Dx(vi, a, dt[a])
            if du[a]:
                uj = sf.Dx(uj, a, du[a])
        cc = c
        for a in range(nd):
            if p[a]:
                cc = T.coors.psi[a]**p[a] * cc
        A = sf.inner(vi, uj * cc)
        mats += A if isinstance(A, list) else [A]
    how = cfg['how']
    sol = None
    if how == 'g1' or how == 'g1s':
        sol = la.SolverGeneric1ND(mats)
    elif how == 'g2':
        sol = la.SolverGeneric2ND(mats)
    elif how == 'nd':
        sol = {2: la.Solver2D, 3: la.Solver3D}.get(nd if cfg.get('alias') else 0, la.SolverND)(mats)
    elif how == 'diag':
        sol = la.SolverDiagonal(mats)
    elif how == 'blk':
        sol = la.BlockMatrixSolver(mats if cfg.get('alias') else sf.BlockMatrix(mats))
    elif how == 'tp':
        sol = mats[0].solve
    elif how == 'cheb':
        from shenfun.chebyshev.la import Helmholtz
        sol = Helmholtz(*mats)
    elif how == 'bih':
        from shenfun.chebyshev.la import Biharmonic
        sol = Biharmonic(*mats)
    con = constraints(cfg, ds)[1]
    kw = {}
    if how == 'g1s':
        kw['fast'] = False
    for k in range(cfg.get('rep', 1)):
        b = sf.Function(V)
        flat = np.asarray(b).reshape((nc,) + T.shape(True))
        for i in range(nc):
            progs.put(Ts[i], flat[i], rhs(ds[i], cfg['seed'] + 31 * i + 7 * k))
        if cfg.get('inplace') and how != 'blk':
            x = sol(b, constraints=con, **kw) if how != "bih" else sol(b)
        else:
            x = sf.Function(V)
            if cfg.get('dirty'):
                x[:] = 3 + k
            y = sol(b, x, constraints=con, **kw) if how != 'bih' else sol(b, x)
            if how != 'blk' and cfg.get('ret', 1):
                x = y
        flat = np.asarray(x).reshape((nc,) + T.shape(True))
        for i in range(nc):
            progs.rec_local(ctx, ('x', k, i), Ts[i], flat[i], True)
        if cfg.get('mv'):
            c = sf.Function(V)
            c[:] = 5
            sol.matvec(x, c)
            progs.rec_local(ctx, ('mv', k), T, np.asarray(c), True)


def rhs(d, seed):
    """Right hand side: random, nothing in the slots of boundary functions"""
    return Model(d).random_coefs(seed, bc=False)


class C07(Property):
    id = 'C07'
    quick_runs = 1100
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'numpy', 'scipy.sparse (SuperLU)')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1)
        for P in (1, 2, 3, 4):
            for poly in (dict(f='L', N=10, bc='DD'), dict(f='C', N=10, bc='DD'), dict(f='L', N=10, bc='NN'), dict(f='C', N=10, bc='NN'),
                         dict(f='L', N=12, bc='DNDN'), dict(f='C', N=12, bc='DNDN'), dict(f='C', N=11, bc='DNDN'), dict(f='L', N=10, bc='DD', v=[1, 2])):
                for bases, ax in (([poly, R], None), ([R, poly], [1, 0]), ([C, poly, R], [1, 0, 2]), ([poly, C, R], None), ([C, R, poly], [2, 0, 1])):
                    s = dict(bases=copy.deepcopy(bases))
                    if ax:
                        s['axes'] = ax
                    base = dict(P=P, policy='random', space=s, co=dict(a=2.0, b=1.0, c=0.5), seed=len(out), rep=2, dirty=P % 2, inplace=int(P == 2))
                    if poly['bc'] == 'NN':
                        base.update(eq='pois', con=[[0, 1.5]])
                        hows = ('g1', 'g1s', 'cheb') if poly['f'] == 'C' else ('g1', 'g1s')
                    elif poly['bc'] == 'DD':
                        base.update(eq='pois' if len(bases) == 2 else 'helm')
                        hows = ('g1', 'blk', 'cheb')
                    else:
                        base.update(eq='bih')
                        hows = ('g1', 'bih') if poly['f'] == 'C' else ('g1',)
                    for h in hows:
                        if P == 3 and h != 'g1':
                            continue
                        out.append(dict(copy.deepcopy(base), how=h))
            for bases in ([C, R], [C, C, R]):
                s = dict(bases=copy.deepcopy(bases))
                out.append(dict(P=P, policy='random', space=s, co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='pois', how='diag', con=[[0, 0]], rep=2))
                out.append(dict(P=P, policy='random', space=s, co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='pois', how='blk', con=[[0, 0, 2.0]], rep=2))
            L = dict(f='L', N=8, bc='DD')
            for bases, ax in (([L, dict(f='C', N=8, bc='DD'), C], [0, 1, 2]), ([C, L, dict(f='L', N=8)], [1, 2, 0]), ([L, L], None)):
                for h in ('g2', 'blk'):
                    s = dict(bases=copy.deepcopy(bases), slab=1)
                    if ax:
                        s['axes'] = ax
                    if len(bases) == 3:
                        s['dtype'] = 'D'
                    out.append(dict(P=P, policy='random', space=s, co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='helm', how=h, rep=2))
            for f, bc in (('L', 'NN'), ('C', 'NN'), ('L', 'DD')):
                B = dict(f=f, N=8, bc=bc)
                for bases, ax in (([B, B], None), ([C, B, B], [1, 2, 0])):
                    for h in ('g2', 'blk', 'nd'):
                        s = dict(bases=copy.deepcopy(bases), slab=1)
                        if ax:
                            s['axes'] = ax
                            s['dtype'] = 'D'
                        c = dict(P=P, policy='random', space=s, co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='pois', how=h, rep=2, con=[[0, 1.5]])
                        if bc == 'DD':
                            c['xcon'] = [[0, 2, 1.0], [0, 19, -0.5]]
                        out.append(c)
        out.append(dict(P=3, sub=[1, 2], policy='random', space=dict(bases=[dict(f='L', N=10, bc='NN'), copy.deepcopy(R)]),
                        co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='pois', how='g1', con=[[0, 1.0]], rep=2))
        out.append(dict(P=3, sub=[1, 2], policy='random', space=dict(bases=[dict(f='C', N=10, bc='NN'), copy.deepcopy(R)]),
                        co=dict(a=2.0, b=1.0, c=0.5), seed=1, eq='pois', how='blk', con=[[0, 0, 1.0]], rep=2))
        return [c for c in (self.clean(c) for c in out) if c]

    def clean(self, cfg):
        s = cfg['space']
        nb = s['bases']
        poly = [a for a, b in enumerate(nb) if b['f'] != 'F']
        comps = cfg.get('comps')
        P = len(cfg['sub']) if cfg.get('sub') else cfg['P']
        h = cfg['how']
        if P > 1 and len(poly) == 2 and len(nb) == 3:
            # only the periodic axis distributed in spectral space, else the solvers cannot be used
            fa = [a for a in range(3) if a not in poly][0]
            s['slab'] = 1
            ax = gen.axes_of(s)
            if ax[0] != (fa - 1) % 3:
                s['axes'] = [(fa - 1) % 3] + [a for a in ax if a != (fa - 1) % 3]
            last = nb[s['axes'][-1]] if s.get('axes') else nb[-1]
            if last['f'] != 'F':
                s['dtype'] = 'D'
                nb[fa]['cx'] = 1
        if comps or h not in ('g1', 'g1s', 'g2', 'nd', 'diag', 'blk', 'tp', 'cheb', 'bih'):
            h = 'blk'
        if len(poly) == 0 and h not in ('blk',):
            h = 'diag'
        if len(poly) == 1 and h in ('g2', 'diag'):
            h = 'g1'
        if len(poly) == 2 and h in ('g1', 'g1s', 'cheb', 'bih', 'diag', 'tp'):
            h = 'g2'
        if len(poly) == 3:
            if P > 1:
                cfg['P'] = P = 1
                cfg.pop('sub', None)
            h = 'nd'
            for k in ('comps', 'vec', 'cpl'):
                cfg.pop(k, None)
            comps = None
        if h == 'nd' and P > 1:
            h = 'g1' if len(poly) == 1 else 'g2'
        if h == 'cheb':
            if nb[poly[0]]['f'] != 'C' or nb[poly[0]].get('bc') not in ('DD', 'NN') or cfg['eq'] not in ('lap', 'pois') or cfg.get('m'):
                h = 'g1'
        if h == 'bih' and (nb[poly[0]]['f'] != 'C' or nb[poly[0]].get('bc') != 'DNDN' or cfg['eq'] != 'bih' or cfg.get('m')):
            h = 'g1'
        if h == 'tp' and any(any(b.get('v') or ()) for b in nb):
            h = 'g1' # the matrix alone does not know the boundary values
        if h == 'tp':
            cfg['eq'] = 'mass'
        if cfg['eq'] == 'bih' and any(nb[a].get('bc') != 'DNDN' for a in poly):
            cfg['eq'] = 'helm'
        if cfg['eq'] in ('mass', 'pois', 'wpois') or any(nb[a].get('bc') != 'DD' for a in poly):
            cfg.pop('m', None)
        if cfg.get('m'):
            cfg['co']['a'] = 1.0 # x u must not dominate: the solvers do not pivot
        # regular problems, or the one constraint that makes them so
        singular = cfg['eq'] in ('pois', 'wpois') and all(b.get('bc') in (None, 'NN') for b in nb)
        if cfg['eq'] in ('pois', 'wpois') and any(nb[a].get('bc') in (None,) for a in poly):
            cfg['eq'] = 'helm'
            singular = False
        if cfg['eq'] == 'pois' and any(nb[a].get('bc') not in ('DD', 'NN', 'DN', 'ND') for a in poly):
            cfg['eq'] = 'helm'
            singular = False
        if singular and h == 'blk' and comps:
            cfg['eq'] = 'helm'
            singular = False
        if cfg['eq'] in ('helm', 'adv') and any(nb[a].get('bc') and nb[a].get('bc') not in ('DD', 'NN', 'DN', 'ND') for a in poly):
            cfg['eq'] = 'helm'
        if h in ('cheb', 'bih') and s.get('cm') and any(measure(s)[1] + measure(s)[2]):
            h = 'g1' # the fast solvers are for constant coefficients
        cfg['how'] = h
        con = cfg.pop('con', None)
        if singular:
            val = con[0][-1] if con else 1.0
            if h == 'diag':
                cfg['con'] = [[0, 0]]
            elif h == 'blk':
                cfg['con'] = [[0, 0, val]]
            else:
                cfg['con'] = [[0, val]]
        elif con and con[0] and h in ('blk',) and comps:
            cfg['con'] = [[min(con[0][0], len(comps)), 0, con[0][-1]]]
        if h not in ('g2', 'nd', 'blk') or not poly:
            cfg.pop('xcon', None)
        inh = any(any(b.get('v') or ()) for b in nb)
        if comps or cfg.get('con') or cfg.get('xcon') or not (h in ('g1', 'g1s', 'cheb') or h in ('bih', 'nd') and not inh):
            cfg.pop('mv', None)
        nc = 1 + len(comps or ())
        for c in cfg.get('xcon') or ():
            c[0] %= nc
        return cfg

    def gen(self, rng):
        while True:
            P = gen.ranks(rng)
            sub = None
            if P > 1 and rng.random() < 0.2:
                sub = sorted(rng.sample(range(P), rng.randint(1, P - 1)))
            Q = len(sub) if sub else P
            mx = rng.choice((0, 1, 1, 1, 1, 2, 2, 3 if Q == 1 else 2))
            s = gen.space(rng, P=Q, quads=False, values=rng.random() < 0.35, max_nonp=mx, fams=(('F', 8), ('C', 5), ('L', 6), ('U', 1), ('J', 1), ('Q', 1)),
                          slab=True if mx == 2 and rng.random() < 0.8 else None, params=False, bcs=0.9)
            ax = gen.axes_of(s)
            poly = [a for a in ax if s['bases'][a]['f'] != 'F']
            if Q > 1 and ax[:len(poly)] != poly:
                # the non-periodic axes first: these are aligned in spectral space
                fs = [a for a in ax if s['bases'][a]['f'] == 'F']
                s['axes'] = poly + fs
                if fs and not s.get('dtype') and s['bases'][fs[-1]].get('cx'):
                    s['dtype'] = 'D'
            if not gen.fits(s, Q):
                continue
            break
        cfg = dict(P=P, space=s, co=dict(a=rng.choice((1.0, 2.5, 30.0)), b=rng.choice((1.0, 0.5, 3.0)), c=rng.choice((0.5, 1.0))),
                   seed=rng.randrange(10**6), eq=rng.choice(('mass', 'helm', 'helm', 'lap', 'pois', 'pois', 'wpois', 'adv', 'bih')),
                   how=rng.choice(('g1', 'g1', 'g1s', 'g2', 'blk', 'nd', 'cheb', 'cheb', 'bih', 'tp')))
        if sub:
            cfg['sub'] = sub
        if rng.random() < 0.2:
            gen.rcm(rng, s)
        if rng.random() < 0.5:
            cfg['rep'] = 2
        if rng.random() < 0.3:
            cfg['inplace'] = 1
        if rng.random() < 0.3:
            cfg['dirty'] = 1
        if rng.random() < 0.5:
            cfg['alias'] = 1
        if poly and rng.random() < 0.1:
            cfg['m'] = 1
        nd = len(s['bases'])
        if rng.random() < 0.4 and not cfg.get('m'):
            nc = rng.choice((2, 2, 3))
            if rng.random() < 0.4:
                cfg['comps'] = [[None] * nd] * (nc - 1)
                cfg['vec'] = 1
            else:
                cfg['comps'] = []
                for _ in range(nc - 1):
                    tb = [None] * nd
                    for a in poly:
                        b = s['bases'][a]
                        opts = [None] + [x for x in gen.FAM_BCS[b['f']] if x in ('DD', 'NN', 'DN', 'DNDN') and 2 * len(gen.BCS[x]) + 2 <= b['N']]
                        if rng.random() < 0.7 and not any(c.get('v') for c in s['bases']):
                            tb[a] = dict(bc=rng.choice(opts))
                    cfg['comps'].append(tb)
            cfg['cpl'] = [[i, j, rng.choice((0.25, -0.5)), rng.randrange(nd), rng.choice((0, 1))]
                          for i, j in itertools.permutations(range(nc), 2) if rng.random() < 0.5]
            cfg['eq'] = rng.choice(('mass', 'helm', 'helm', 'lap', 'adv')) if all(b.get('bc') == 'DD' for b in s['bases'] if b['f'] != 'F') else 'helm'
            if rng.random() < 0.3:
                cfg['con'] = [[rng.randrange(nc), 0, 1.5]]
        elif rng.random() < 0.5:
            cfg['con'] = [[0, rng.choice((0.0, 1.0, -2.5))]]
        if rng.random() < 0.3:
            cfg['mv'] = 1
        if rng.random() < 0.3:
            cfg['xcon'] = [[rng.randrange(3), rng.randrange(1000), rng.choice((0.0, 1.0, -2.5))] for _ in range(rng.choice((1, 2)))]
        return gen.sched(rng, self.clean(cfg))

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= max(c['sub']):
                c.pop('sub')
            yield c
        for k in ('rep', 'inplace', 'dirty', 'alias', 'm', 'cpl', 'sub', 'xcon', 'mv'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c

    def run(self, env, cfg):
        ds = spaces_of(cfg)
        s = ds[0]
        nd = len(s['bases'])
        P = len(cfg['sub']) if cfg.get('sub') else cfg['P']
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        if 'unaligned' in r:
            env.probe('unaligned')
            return
        nc = len(ds)
        st = [next(iter(r[('st', i)].values())) for i in range(nc)]
        for i in range(nc):
            oracle.check_stencils(ds[i], st[i])
        ms = [Model(ds[i], st[i]) for i in range(nc)]
        mc, mx, mh = measure(s)
        cache = {}

        def mat(i, j, *k):
            if (i, j) + k not in cache:
                cache[(i, j) + k] = matrix(ds[i], ds[j], st[i], st[j], *k)
            return cache[(i, j) + k]
        for k in range(cfg.get('rep', 1)):
            what = f'solve {k} with {cfg["how"]}'
            x = [oracle.assemble(r[('x', k, i)], ms[i].spec_shape(), f'{what} component {i}') for i in range(nc)]
            for i in range(nc):
                need(np.all(np.isfinite(x[i])), 'not-finite', f'{what}: component {i} is not finite')
            b = [rhs(ds[i], cfg['seed'] + 31 * i + 7 * k).astype(complex) for i in range(nc)]
            res = [-q for q in b]
            sc = [np.abs(q) for q in b]
            for (i, j, c, dt, du, p) in allterms(cfg):
                c = c * mc
                mm = [mat(i, j, a, dt[a], du[a], p[a] + mx[a], mh[a]) for a in range(nd)]
                res[i] += c * apply(mm, x[j])
                sc[i] += abs(c) * apply([np.abs(M) for M in mm], np.abs(x[j]))
            if cfg.get('mv'):
                c = oracle.assemble(r[('mv', k)], ms[0].spec_shape(), f'{what}: matvec')
                dof = ms[0].dofslice()
                lim = 1e-9 * max(1.0, float(np.max(sc[0][dof])))
                d = np.abs(c - res[0] - b[0])[dof]
                need(d.max() <= lim, 'matvec', lambda: f'{what}: matvec of the solution is off by {d.max():.3g}')
                env.probe('matvec')
            for i, pos, val in constraints(cfg, ds)[0]:
                need(abs(x[i][pos] - val) <= 1e-10 * (1 + abs(val)), 'constraint',
                     f'{what}: constrained degree of freedom {pos} of component {i} is {x[i][pos]}, not {val}')
                res[i][pos] = 0
                if len(pos) - pos.count(0) > 0 or i:
                    env.probe('constraint_other')
                env.probe('constraint')
            for i in range(nc):
                dof = ms[i].dofslice()
                e = np.abs(res[i][dof])
                lim = 1e-9 * max(1.0, float(np.max(sc[i][dof])))
                bad = np.argwhere(e > lim)
                need(len(bad) == 0, 'residual', lambda: f'{what}: component {i}: the solution leaves the residual {e.max():.3g} '
                     f'({len(bad)} of {e.size} equations, first at {tuple(int(q) for q in bad[0])}; size of terms {np.max(sc[i][dof]):.3g})')
                # boundary values
                ref = np.zeros(ms[i].spec_shape(), dtype=complex)
                for a, bb in enumerate(ds[i]['bases']):
                    if bb.get('bc') and any(bb.get('v') or ()):
                        ms[i].set_bc(ref, a)
                        env.probe('inhomogeneous')
                mask = np.ones(ref.shape, bool)
                mask[dof] = False
                d = np.abs(x[i] - ref)[mask]
                need(not d.size or d.max() < 1e-10, 'boundary-dofs', lambda: f'{what}: component {i}: boundary degrees of freedom off by {d.max():.3g}')
        env.probe(cfg['how'])
        if nc > 1:
            env.probe('block_coupled')
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])

    def probes_expected(self):
        return ['g1', 'g1s', 'g2', 'nd', 'diag', 'blk', 'tp', 'cheb', 'bih', 'constraint', 'constraint_other', 'matvec', 'inhomogeneous', 'block_coupled', 'map_sep', 'map_pol']


PROPERTY = C07
