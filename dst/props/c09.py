"""C09: derived spaces keep what they must, and moving functions between spaces preserves them"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need

DERIVED = ('refined', 'orthogonal', 'testspace', 'testspace_pg', 'dealiased', 'homogeneous', 'unplanned')


def stencils(T):
    out = []
    for b in T.bases:
        if b.is_orthogonal:
            out.append(None)
            continue
        out.append((b.stencil_matrix().diags().toarray(), np.atleast_2d(np.array(b.get_bc_space().stencil_matrix(), dtype=float))))
    return out


def make(sf, T, n, T2=None):
    """Composite spaces: 0 scalar, 1 vector, 2 tensor of rank 2"""
    if n and T2 is not None:
        # of spaces of two kinds
        nd = T.dimensions
        q = [[(T, T2)[(i + j) % 2] for j in range(nd)] for i in range(nd)]
        return sf.VectorSpace(q[0]) if n == 1 else sf.TensorSpace([sf.VectorSpace(x) for x in q])
    return T if not n else (sf.VectorSpace(T) if n == 1 else sf.TensorSpace(T))


def which(cfg, k):
    """Which of the two kinds of spaces component k lives in"""
    nd = len(cfg['space']['bases'])
    return (k // nd + k % nd) % 2 if cfg.get('mix') and cfg.get('rank') else 0


def alt(s):
    """Other boundary conditions, and other polynomials"""
    q = gen.alt(s)
    for b in q['bases']:
        if b['f'] in 'CL' and not s.get('cm'):
            b['f'] = 'L' if b['f'] == 'C' else 'C'
            b.pop('q', None)
    return q


def other(cfg):
    """The same run with the other kind of space"""
    c = copy.deepcopy(cfg)
    c['space'] = alt(cfg['space'])
    return c


def ncomp(cfg):
    return len(cfg['space']['bases'])**cfg.get('rank', 0)


def small(cfg):
    """The smaller of the two resolutions, where the function comes from"""
    s = copy.deepcopy(cfg['space'])
    if cfg.get('N2'):
        for b, n in zip(s['bases'], cfg['N2']):
            b['N'] = min(b['N'], n)
    return s


def target(cfg):
    s = copy.deepcopy(cfg['space'])
    if cfg.get('N2'):
        for b, n in zip(s['bases'], cfg['N2']):
            b['N'] = n
    return s


def ortho(s):
    s = copy.deepcopy(s)
    for b in s['bases']:
        b.pop('bc', None)
        b.pop('v', None)
    return s


def embed(s0, s1, c):
    """Coefficients in s1 of the function with coefficients c in the space s0 of lower resolution"""
    for a, (b0, b1) in enumerate(zip(s0['bases'], s1['bases'])):
        n0, n1 = gen.spec_size(b0), gen.spec_size(b1)
        sh = list(c.shape)
        sh[a] = n1
        out = np.zeros(sh, c.dtype)
        ix = [slice(None)] * c.ndim
        jx = [slice(None)] * c.ndim
        if b0['f'] == 'F' and b0.get('cx'):
            N0 = b0['N']
            p, q = (N0 + 1) // 2, N0 // 2 if N0 % 2 else N0 // 2 - 1
            ix[a] = jx[a] = slice(0, p)
            out[tuple(ix)] = c[tuple(jx)]
            if q:
                ix[a], jx[a] = slice(n1 - q, None), slice(N0 - q, None)
                out[tuple(ix)] = c[tuple(jx)]
        elif b0['f'] == 'F':
            p = (b0['N'] + 1) // 2
            ix[a] = jx[a] = slice(0, p)
            out[tuple(ix)] = c[tuple(jx)]
        else:
            nb = gen.numbc(b0)
            ix[a] = jx[a] = slice(0, n0 - nb)
            out[tuple(ix)] = c[tuple(jx)]
            if nb:
                ix[a], jx[a] = slice(n1 - nb, None), slice(n0 - nb, None)
                out[tuple(ix)] = c[tuple(jx)]
        c = out
    return c


def coefs(cfg, k):
    """Global coefficients, in the space of the run, of component k"""
    s0, s = small(cfg), cfg['space']
    c = Model(s0).random_coefs(cfg['seed'] + 17 * k, nyquist=bool(cfg.get('ny')))
    return embed(s0, s, c) if cfg.get('N2') else c


def layout(T, comm):
    """What a space is, as seen by this process"""
    f = T.forward
    return dict(gs=tuple(int(n) for n in T.global_shape(False)), gss=tuple(int(n) for n in T.global_shape(True)),
                ls=oracle.sl2(T.local_slice(False)), lss=oracle.sl2(T.local_slice(True)),
                axes=tuple(a for ax in T.axes for a in ax), dt=np.dtype(f.input_array.dtype).char, sdt=np.dtype(f.output_array.dtype).char,
                subs=tuple(c.Get_size() for c in f.output_pencil.subcomm),
                dom=tuple((float(b.domain[0]), float(b.domain[1])) for b in T.bases),
                mesh=[np.array(x) for x in T.local_mesh(True)],
                cart=[np.array(x) + np.zeros(T.shape(False)) for x in T.local_cartesian_mesh()], fam=tuple(b.family() for b in T.bases),
                bcs=tuple([0] if b.bc is None else [float(v) for v in b.bc.bc.orderedvals()] for b in T.bases),
                nb=tuple(0 if b.family() == 'fourier' else b.N - b.dim() for b in T.bases))


def adaptive_fun(a, syms):
    """Expression of cfg['ad']: smooth in every direction, with or without a narrow peak"""
    import sympy as sp
    e = sp.Integer(1)
    for b, x in zip(a['bases'], syms):
        k = b['k']
        e = e * ((2 + sp.cos(k * x)) if b['f'] == 'F' else (1 + x / 2 + sp.Rational(k, 3) * x**k))
    if a.get('peak'):
        i = next(i for i, b in enumerate(a['bases']) if b['f'] != 'F')
        e = e + sp.exp(-a['peak'] * (syms[i] - sp.Rational(3, 10))**2)
    return e


def adaptive(ctx, cfg, comm):
    """Spaces without resolution, which each process finds from the function"""
    import sympy as sp
    sf = ctx.sf
    a = cfg['ad']
    x = sp.symbols('x,y,z', real=True)[:len(a['bases'])]
    fe = adaptive_fun(a, x)
    bs = []
    for b in a['bases']:
        kw = dict(dtype='D' if b.get('cx') else 'd') if b['f'] == 'F' else {}
        bs.append(sf.FunctionSpace(b['N'], b['f'], **kw))
    T = sf.TensorProductSpace(comm, bs, axes=a.get('axes'), **(dict(dtype=a['dtype']) if a.get('dtype') else {}))
    u = sf.Function(T, buffer=fe)
    T2 = u.function_space()
    ctx.rec('lay', dict(gs=tuple(T2.global_shape(False)), ls=oracle.sl2(T2.local_slice(False)), dt=np.dtype(T2.forward.input_array.dtype).char,
                        axes=tuple(x for ax in T2.axes for x in ax), dom=tuple((float(b.domain[0]), float(b.domain[1])) for b in T2.bases),
                        size=int(np.prod([c.Get_size() for c in T2.forward.output_pencil.subcomm]))))
    X = T2.local_mesh(True)
    ctx.rec('err', (np.array(u.backward()), np.array(sp.lambdify(x, fe, 'numpy')(*X)) + np.zeros(T2.shape(False))))


def prog(ctx, cfg):
    sf = ctx.sf
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank in cfg['sub'] else 1, -ctx.rank)
        if ctx.rank not in cfg['sub']:
            return
    if cfg['act'] == 'adaptive':
        adaptive(ctx, cfg, comm)
        return
    s = cfg['space']
    T = gen.build(sf, comm, s)
    nd = T.dimensions
    first = comm.Get_rank() == 0
    if first:
        ctx.rec('st', stencils(T))
    act = cfg['act']
    rank = cfg.get('rank', 0)
    n = ncomp(cfg)
    TB = None
    if cfg.get('mix') and rank:
        TB = gen.build(sf, comm, alt(s))
        if first:
            ctx.rec('stB', stencils(TB))
    V = make(sf, T, rank, TB)
    cfgs = (cfg, other(cfg))

    def fill(u):
        flat = np.asarray(u).view(np.ndarray).reshape((n,) + T.shape(True))
        for k in range(n):
            progs.put(T, flat[k], coefs(cfgs[which(cfg, k)], k))
        return u

    def leaves(W):
        return W.flatten() if W.is_composite_space else [W]

    def out(key, u, T2):
        flat = np.array(u).reshape((n,) + T2.shape(True))
        for k in range(n):
            progs.rec_local(ctx, (key, k), T2, flat[k], True)

    def leaf(W, k=0):
        return leaves(W)[k]

    if act == 'derive':
        kind = cfg['kind']
        D = {'refined': lambda: V.get_refined(cfg['N2']), 'orthogonal': V.get_orthogonal, 'testspace': lambda: T.get_testspace(),
             'testspace_pg': lambda: T.get_testspace(kind='PG'), 'dealiased': lambda: V.get_dealiased(tuple(cfg['pf'])),
             'homogeneous': lambda: T.get_homogeneous(), 'unplanned': lambda: T.get_unplanned(True)}[kind]()
        need(len(leaves(D)) == n and type(D) is type(V), 'components', lambda: f'{kind} space of {type(V).__name__} of {n} components: {type(D).__name__} of {len(leaves(D))}')
        # it works: backward of something known, and again a space derived from the derived one
        u = sf.Function(D)
        u[...] = 0
        flat = np.asarray(u).view(np.ndarray).reshape((n,) + leaf(D).shape(True))
        if flat[0].size and all(x.start == 0 for x in leaf(D).local_slice(True)):
            for k in range(n):
                flat[k][(0,) * nd] = 1.0 + k
        ub = np.array(u.backward()).reshape((n,) + leaf(D).shape(False))
        D2 = None
        if cfg.get('again'):
            D2 = D.get_refined(tuple(int(b.N) for b in leaf(D).bases)) if cfg['again'] == 1 else D.get_orthogonal()
        for k in range(n):
            ctx.rec(('base', k), layout(leaf(V, k), comm))
            ctx.rec(('der', k), layout(leaf(D, k), comm))
            ctx.rec(('one', k), (oracle.sl2(leaf(D, k).local_slice(False)), ub[k]))
            if D2 is not None:
                ctx.rec(('der2', k), layout(leaf(D2, k), comm))
        return
    u = fill(sf.Function(V))
    keep = np.array(u)
    if act == 'refine':
        N2 = list(cfg['N2'])
        how = cfg.get('how', 0)
        if how == 1:
            V2 = V.get_refined(N2)
            w = sf.Function(V2)
            if cfg.get('dirty'):
                w[:] = 5
            w = u.refine(N2, output_array=w) if not rank else u.refine(N2)
        else:
            w = u.refine(N2[0] if how == 2 else N2)
        T2 = leaf(w.function_space())
        for k in range(n):
            ctx.rec(('lay', k), layout(leaf(w.function_space(), k), comm))
        out('w', w, T2)
    elif act == 'assign':
        T2 = gen.build(sf, comm, target(cfg))
        w = sf.Function(make(sf, T2, rank, gen.build(sf, comm, target(cfgs[1])) if TB is not None else None))
        if cfg.get('dirty'):
            w[:] = 5
        w = u.assign(w)
        out('w', w, T2)
    elif act == 'ortho':
        V2 = V.get_orthogonal()
        T2 = leaf(V2)
        w = None
        if cfg.get('how'):
            w = sf.Function(V2)
            w[:] = 5
        w = u.to_ortho(w)
        T2 = leaf(w.function_space())
        for k in range(n):
            ctx.rec(('lay', k), layout(leaf(w.function_space(), k), comm))
        out('w', w, T2)
    elif act == 'mask':
        w = u
        if cfg.get('how') == 1 and not rank:
            w = T.mask_nyquist(u)
        elif cfg.get('how') == 2 and TB is None:
            u.mask_nyquist(T.get_mask_nyquist())
        else:
            u.mask_nyquist()
        out('w', w, T)
        keep = None
    if keep is not None and not np.array_equal(keep, np.array(u)):
        ctx.fail('input-changed', f'{act} changed the function it was called on')
    if first and act in ('refine', 'assign'):
        for j in (0, 1) if TB is not None else (0,):
            W = w.function_space()
            ctx.rec(('st2', j), stencils(leaf(W, j)))


class C09(Property):
    id = 'C09'
    quick_runs = 1000
    thorough_runs = 40000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'numpy', 'scipy')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',)

    def corners(self):
        out = []
        for P in (1, 2, 3, 4):
            for bases, ax in (([dict(f='F', N=6, cx=1), dict(f='F', N=7, cx=0)], None), ([dict(f='F', N=7, cx=0), dict(f='C', N=8, bc='DD', v=[1, 2])], [1, 0]),
                              ([dict(f='L', N=8, bc='NN'), dict(f='F', N=8, cx=0, dom=2)], None),
                              ([dict(f='F', N=5, cx=1), dict(f='L', N=9, bc='DNDN'), dict(f='F', N=6, cx=0)], [1, 0, 2]),
                              ([dict(f='C', N=7), dict(f='L', N=8)], None), ([dict(f='F', N=7, cx=0), dict(f='C', N=7)], [0, 1])):
                s = dict(bases=copy.deepcopy(bases))
                if ax:
                    s['axes'] = ax
                i = len(out)
                N = [b['N'] for b in bases]
                for act, kw in (('refine', dict(N2=[2 * x for x in N])), ('refine', dict(N2=[x + 3 for x in N], how=1)), ('assign', dict(N2=[x + 1 for x in N])),
                                ('refine', dict(N2=[max(x - 2, 4) for x in N])), ('ortho', {}), ('mask', dict(ny=1)),
                                ('derive', dict(kind='homogeneous')), ('derive', dict(kind='unplanned')), ('derive', dict(kind='refined', N2=[x + 2 for x in N], again=1)),
                                ('derive', dict(kind='orthogonal', again=2)), ('derive', dict(kind='dealiased', pf=[1.5] * len(N), again=1)), ('derive', dict(kind='testspace_pg'))):
                    out.append(dict(P=P, policy='random', space=copy.deepcopy(s), act=act, seed=i, **kw))
        # conditions that only the generic bases have
        for i, (f, bc, v) in enumerate((('L', 'DN_', [0.5, 2]), ('C', 'DN_', [1, 2]), ('L', '_DN', [3, 1]), ('U', 'DN_', [1, 1]), ('Q', 'ND', [1, 2]), ('C', 'DN', [2, 1]), ('J', 'DN_', [1, 2]))):
            if bc not in gen.FAM_BCS[f]:
                continue
            for act, kw in (('derive', dict(kind='homogeneous')), ('derive', dict(kind='homogeneous', again=1)), ('derive', dict(kind='dealiased', pf=[1.5, 1])), ('refine', dict(N2=[14, 10]))):
                out.append(dict(P=2, policy='random', space=dict(bases=[dict(f=f, N=10, bc=bc, v=v, dom=i % 4), dict(f='F', N=8, cx=0)]), act=act, seed=i, **kw))
        for i in range(2):
            out.append(dict(P=3, policy='random', space=dict(bases=[]), act='adaptive', ad=dict(bases=[dict(f='C', N=0, k=2), dict(f='F', N=8, k=1)], peak=400), seed=i))
        out.append(dict(P=2, policy='random', space=dict(bases=[]), act='adaptive', ad=dict(bases=[dict(f='C', N=0, k=2), dict(f='L', N=0, k=1)], dtype='D'), seed=1))
        out.append(dict(P=3, policy='random', space=dict(bases=[]), act='adaptive', ad=dict(bases=[dict(f='F', N=0, cx=1, k=2), dict(f='L', N=0, k=2)], axes=[1, 0], dtype='D'), seed=2))
        out.append(dict(P=3, policy='random', space=dict(bases=[]), act='adaptive', ad=dict(bases=[dict(f='L', N=0, k=3), dict(f='C', N=0, k=2)], axes=[1, 0]), seed=2))
        out.append(dict(P=3, sub=[0, 2], policy='random', space=dict(bases=[dict(f='F', N=6, cx=1), dict(f='F', N=6, cx=0)]), act='derive', kind='homogeneous', seed=1))
        out.append(dict(P=3, sub=[0, 2], policy='random', space=dict(bases=[dict(f='F', N=6, cx=1), dict(f='F', N=6, cx=0)]), act='derive', kind='unplanned', seed=1))
        out.append(dict(P=3, sub=[1, 2], policy='random', space=dict(bases=[dict(f='F', N=6, cx=1), dict(f='F', N=6, cx=0)]), act='refine', N2=[9, 9], seed=1))
        return [c for c in (self.clean(c) for c in out) if self.ok(c)]

    def clean(self, cfg):
        s = cfg['space']
        if s.get('axes') and any(b['f'] == 'F' for b in s['bases']):
            last = s['bases'][s['axes'][-1]]
            if last['f'] != 'F' and all(b.get('cx') for b in s['bases'] if b['f'] == 'F'):
                s['dtype'] = 'D'
        return cfg

    def ok(self, cfg):
        if cfg['act'] == 'adaptive':
            return True
        P = len(cfg['sub']) if cfg.get('sub') else cfg['P']
        if not gen.fits(cfg['space'], P):
            return False
        if cfg.get('N2'):
            for b, n in zip(cfg['space']['bases'], cfg['N2']):
                if n < 2 * gen.numbc(b) + 2 or n < 3:
                    return False
            if cfg['act'] in ('refine', 'assign') or cfg.get('kind') == 'refined':
                return gen.fits(target(cfg), P) and (cfg.get('how') != 2 or len(set(cfg['N2'])) == 1)
        if cfg.get('kind') == 'dealiased':
            return gen.fits(cfg['space'], P, min(cfg['pf']))
        return True

    def gen(self, rng):
        while True:
            P = gen.ranks(rng)
            sub = None
            if P > 1 and rng.random() < 0.2:
                sub = sorted(rng.sample(range(P), rng.randint(1, P - 1)))
            Q = len(sub) if sub else P
            s = gen.space(rng, P=Q)
            cfg = dict(P=P, space=s, act=rng.choice(('refine', 'refine', 'refine', 'assign', 'assign', 'ortho', 'ortho', 'mask', 'derive', 'derive', 'derive')),
                       seed=rng.randrange(10**6))
            if sub:
                cfg['sub'] = sub
            nd = len(s['bases'])
            if rng.random() < 0.2:
                gen.rcm(rng, s)
            if rng.random() < 0.06:
                cfg['act'] = 'adaptive'
                cfg['P'] = min(cfg['P'], 3)
                if cfg.get('sub') and max(cfg['sub']) >= cfg['P']:
                    cfg.pop('sub')
                fam = rng.choice((['C', 'L'], ['L', 'Fd'], ['Fc', 'C'], ['C', 'C'], ['Fc', 'Fd'], ['L', 'Fc']))
                bs = [dict(f=f[0], N=rng.choice((0, 0, 16)), k=rng.randint(2, 5), **(dict(cx=1) if f == 'Fc' else {})) for f in fam]
                if all(b['N'] for b in bs):
                    bs[0]['N'] = 0
                cfg['ad'] = dict(bases=bs)
                if fam in (['C', 'L'], ['C', 'C'], ['L', 'Fc']) and rng.random() < 0.5:
                    cfg['ad']['axes'] = [1, 0]
                if fam == ['Fc', 'C']:
                    cfg['ad']['axes'] = rng.choice(([0, 1], [1, 0]))
                    cfg['ad']['dtype'] = 'D'
                if fam == ['L', 'Fc'] or fam == ['C', 'L'] and rng.random() < 0.5:
                    cfg['ad']['dtype'] = 'D'
                if any(b['f'] != 'F' and not b['N'] for b in bs) and rng.random() < 0.5:
                    cfg['ad']['peak'] = rng.choice((60, 400, 2000))
                cfg['space'] = dict(bases=[])
                break
            if rng.random() < 0.35:
                cfg['rank'] = rng.choice((1, 1, 2)) if nd == 2 else 1
                if rng.random() < 0.5 and any(b['f'] != 'F' for b in s['bases']):
                    cfg['mix'] = 1
            N = [b['N'] for b in s['bases']]
            if cfg['act'] in ('refine', 'assign') or cfg['act'] == 'derive':
                mode = rng.choice(('up', 'up', 'mix', 'down', 'double'))
                cfg['N2'] = [n * 2 if mode == 'double' else n + rng.randint(0, 5) if mode == 'up' else n - rng.randint(0, 3) if mode == 'down'
                             else n + rng.randint(-3, 4) for n in N]
                cfg['how'] = rng.choice((0, 0, 1))
                if cfg['act'] == 'refine' and rng.random() < 0.1:
                    cfg['how'] = 2
                    cfg['N2'] = [max(N) + rng.randint(0, 3)] * nd
                if rng.random() < 0.5:
                    cfg['dirty'] = 1
            elif cfg['act'] == 'mask':
                cfg['ny'] = 1
                cfg['how'] = rng.choice((0, 1, 2))
            elif cfg['act'] == 'ortho':
                cfg['how'] = rng.choice((0, 1))
            if cfg['act'] == 'derive':
                cfg['kind'] = rng.choice(('refined', 'orthogonal', 'dealiased') if cfg.get('rank') else DERIVED)
                if cfg['kind'] == 'dealiased':
                    cfg['pf'] = [rng.choice((1, 1.5, 2, 1.25, 1.4, 1.3)) for _ in range(nd)]
                if cfg['kind'] != 'testspace_pg':
                    cfg['again'] = rng.choice((0, 1, 2))
            if self.ok(self.clean(cfg)):
                break
        return gen.sched(rng, cfg)

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= max(c['sub']):
                c.pop('sub')
            if len(c['space']['bases']) == len(cfg['space']['bases']) and (not cfg.get('ad') or c['P'] <= 3):
                yield c
        for k in ('rank', 'mix', 'how', 'dirty', 'sub', 'again'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c

    def run(self, env, cfg):
        if not self.ok(cfg):
            env.probe('does_not_fit')
            return
        s = cfg['space']
        nd = len(s['bases'])
        who = sorted(cfg['sub']) if cfg.get('sub') else list(range(cfg['P']))
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        act = cfg['act']
        if act == 'derive':
            self.derived(env, cfg, s, nd, who, r)
            return
        if act == 'adaptive':
            lay = r['lay']
            gs = {tuple(d['gs']) for d in lay.values()}
            need(len(gs) == 1, 'ranks-disagree', lambda: f'processes found different resolutions: { {k: d["gs"] for k, d in lay.items()} }')
            gs = gs.pop()
            for b, n in zip(cfg['ad']['bases'], gs):
                need(not b['N'] or n == b['N'], 'resolution', lambda: f'an axis of {b["N"]} points was given {n}')
            need(not cfg['ad'].get('dtype') or all(d['dt'] == cfg['ad']['dtype'] for d in lay.values()), 'dtype', lambda: f'data type {next(iter(lay.values()))["dt"]} instead of {cfg["ad"]["dtype"]}')
            ax = tuple(cfg['ad'].get('axes') or range(len(gs)))
            for k, d in lay.items():
                need(d['axes'] == ax, 'axes', lambda: f'order of the axes {d["axes"]} instead of {ax}')
                need(d['size'] == len(who), 'decomposition', lambda: f'space on {d["size"]} processes instead of {len(who)}')
            parts = {k: (lay[k]['ls'], v[0]) for k, v in r['err'].items()}
            got = oracle.assemble(parts, gs, 'function')
            if not cfg['ad'].get('peak'):
                ref = oracle.assemble({k: (lay[k]['ls'], v[1]) for k, v in r['err'].items()}, gs, 'reference')
                close(got, ref, 'adaptively resolved function', 'function-changed', tol=1e-5)
            env.probe('adaptive')
            return
        cfgs = (cfg, other(cfg)) if cfg.get('mix') and cfg.get('rank') else (cfg,)
        sts = [next(iter(r[q].values())) for q in ('st', 'stB')[:len(cfgs)]]
        for q, st in zip(cfgs, sts):
            oracle.check_stencils(q['space'], st)
        ms = [Model(q['space'], st) for q, st in zip(cfgs, sts)]
        m = ms[0]
        n = ncomp(cfg)
        if len(cfgs) > 1:
            env.probe('mixed')
        if act == 'mask':
            for k in range(n):
                ref = coefs(cfgs[which(cfg, k)], k)
                for a, b in enumerate(s['bases']):
                    if b['f'] == 'F' and b['N'] % 2 == 0:
                        ix = [slice(None)] * nd
                        ix[a] = b['N'] // 2
                        ref[tuple(ix)] = 0
                got = oracle.assemble(r[('w', k)], m.spec_shape(), f'component {k}')
                close(got, ref, f'mask_nyquist, component {k}', 'mask', tol=1e-13)
            env.probe('mask')
            return
        if act == 'ortho':
            s2s = [ortho(q['space']) for q in cfgs]
            st2s = [{}] * len(cfgs)
            env.probe('to_ortho')
        else:
            s2s = [target(q) for q in cfgs]
            st2s = [next(iter(r[('st2', j)].values())) for j in range(len(cfgs))]
            for q, st in zip(s2s, st2s):
                oracle.check_stencils(q, st)
            env.probe(act)
            env.probe('coarser' if any(b2['N'] < b['N'] for b, b2 in zip(s['bases'], s2s[0]['bases'])) else 'finer')
        m2s = [Model(q, st) for q, st in zip(s2s, st2s)]
        rs = np.random.RandomState(5)
        xs = []
        for b in s['bases']:
            x = rs.uniform(-1, 1, 7)
            xs.append((x + 1) * np.pi if b['f'] == 'F' else 3 * np.abs(x) if b['f'] == 'La' else x)
        for k in range(n):
            j = which(cfg, k)
            c = coefs(cfgs[j], k)
            ref = ms[j].expand(c, xs)
            got = oracle.assemble(r[('w', k)], m2s[j].spec_shape(), f'component {k}')
            close(m2s[j].expand(got, xs), ref, f'{act}, component {k}: value of the function', 'function-changed', tol=1e-8)
            if act != 'ortho':
                close(got, embed(small(cfgs[j]), s2s[j], Model(small(cfgs[j])).random_coefs(cfg['seed'] + 17 * k)), f'{act}, component {k}', 'coefficients', tol=1e-9)
            if ('lay', k) in r:
                self.layouts(r[('lay', k)], s2s[j], who, f'space of component {k} of the new function')
                need(all(d['nb'] == tuple(gen.numbc(b) for b in s2s[j]['bases']) for d in r[('lay', k)].values()), 'bcs',
                     lambda: f'component {k} of the new function: boundary conditions { {q: d["nb"] for q, d in r[("lay", k)].items()} }')
        if cfg.get('rank'):
            env.probe('vector_or_tensor')

    def layouts(self, rec, s, who, what, axes=None, subs=None, pf=None):
        """All ranks of the communicator hold a part of the space described by s"""
        need(sorted(rec) == who, 'ranks', lambda: f'{what}: seen by {sorted(rec)}')
        gs = tuple(gen.phys_size(b, p) for b, p in zip(s['bases'], pf or [None] * len(s['bases'])))
        gss = tuple(gen.spec_size(b) for b in s['bases'])
        cover, cs = np.zeros(gs, int), np.zeros(gss, int)
        for r in who:
            d = rec[r]
            need(d['gs'] == gs and d['gss'] == gss, 'shape', lambda: f'{what}: rank {r} has global shapes {d["gs"]}, {d["gss"]} instead of {gs}, {gss}')
            cover[tuple(slice(*x) for x in d['ls'])] += 1
            cs[tuple(slice(*x) for x in d['lss'])] += 1
        need(np.all(cover == 1) and np.all(cs == 1), 'layout', f'{what}: the parts of the processes do not tile the global arrays')

    def derived(self, env, cfg, s, nd, who, r):
        for k in range(ncomp(cfg)):
            self.derived1(env, cfg, alt(s) if which(cfg, k) else s, nd, who, r, k)
        if cfg.get('rank'):
            env.probe('vector_derived')

    def derived1(self, env, cfg, s, nd, who, r, comp):
        kind = cfg['kind']
        base, der = r[('base', comp)], r[('der', comp)]
        s2 = copy.deepcopy(s)
        pf = None
        if kind == 'refined':
            s2 = target(dict(cfg, space=s))
        elif kind == 'orthogonal':
            s2 = ortho(s)
        elif kind == 'dealiased':
            pf = cfg['pf']
        elif kind == 'testspace_pg':
            for b in s2['bases']:
                # Phi functions: as many quadrature points as coefficients
                # (of Jacobi polynomials only: others have no test functions of their own)
                if gen.numbc(b) and b['f'] not in ('La', 'H'):
                    b['N'] += gen.numbc(b)
        elif kind == 'homogeneous':
            for b in s2['bases']:
                b.pop('v', None)
        what = f'{kind} space' + (f' of component {comp}' if comp else '')
        for nm, rec, pp in (('derived', der, pf),) + ((('derived twice', r[('der2', comp)], None if cfg['again'] == 2 else pf),) if cfg.get('again') else ()):
            q = s2 if nm == 'derived' or cfg['again'] == 1 else ortho(s2)
            if nm == 'derived twice' and kind == 'dealiased':
                pp = cfg['pf']
            if pp is None and any(b.get('pf') for b in s['bases']):
                pp = [b.get('pf', 1) for b in s['bases']]
            self.layouts(rec, q, who, f'{what}, {nm}', pf=pp)
            for k in who:
                b0, d = base[k], rec[k]
                need(d['axes'] == b0['axes'], 'axes', lambda: f'{what}, {nm}: order of the axes {d["axes"]} instead of {b0["axes"]}')
                need(d['subs'] == b0['subs'], 'decomposition', lambda: f'{what}, {nm}: process grid {d["subs"]} instead of {b0["subs"]}')
                need(d['dt'] == b0['dt'] and d['sdt'] == b0['sdt'], 'dtype', lambda: f'{what}, {nm}: data types {d["dt"]}, {d["sdt"]} instead of {b0["dt"]}, {b0["sdt"]}')
                need(d['dom'] == b0['dom'], 'domain', lambda: f'{what}, {nm}: domain {d["dom"]} instead of {b0["dom"]}')
                need(d['fam'] == b0['fam'], 'family', lambda: f'{what}, {nm}: families {d["fam"]} instead of {b0["fam"]}')
                if gen.spec_size and q is s2 and kind not in ('refined', 'orthogonal', 'testspace_pg') or kind == 'homogeneous' and nm == 'derived':
                    need(d['nb'] == b0['nb'], 'bcs', lambda: f'{what}, {nm}: {d["nb"]} boundary conditions instead of {b0["nb"]}')
                if kind in ('testspace', 'refined', 'dealiased', 'unplanned') and q is s2:
                    need(d['bcs'] == b0['bcs'], 'bcs', lambda: f'{what}, {nm}: boundary values {d["bcs"]} instead of {b0["bcs"]}')
                if kind == 'homogeneous':
                    need(all(v == 0 for x in d['bcs'] for v in x), 'bcs', lambda: f'{what}: boundary values {d["bcs"]}')
                if kind == 'testspace_pg':
                    continue
                m = Model(q)
                tg = m.tgrid(pp)
                cart = gen.cart(s, np.meshgrid(*[x[slice(*l)] for x, l in zip(tg, d['ls'])], indexing='ij'))
                for a in range(nd):
                    close(d['cart'][a], cart[a], f'{what}, {nm}: Cartesian mesh of axis {a} on rank {k}', 'mesh', tol=1e-9)
                if s.get('cm'):
                    env.probe('mapped')
                for a in range(nd):
                    x = tg[a][slice(*d['ls'][a])]
                    y = np.broadcast_to(d['mesh'][a], tuple(l[1] - l[0] for l in d['ls'])) if d['mesh'][a].ndim == nd else d['mesh'][a]
                    y = np.unique(np.asarray(y).ravel())
                    close(np.sort(y), np.unique(np.sort(x)), f'{what}, {nm}: mesh of axis {a} on rank {k}', 'mesh', tol=1e-9)
        one = oracle.assemble(r[('one', comp)], tuple(gen.phys_size(b, p) for b, p in zip(s2['bases'], pf or [None] * nd)), f'{what}: backward')
        need(np.any(one), 'zero', lambda: f'{what}: backward of a basis function is zero')
        env.probe('derive_' + kind)

    def probes_expected(self):
        return ['refine', 'assign', 'to_ortho', 'mask', 'coarser', 'finer', 'adaptive', 'vector_or_tensor', 'mapped', 'mixed', 'vector_derived'] + ['derive_' + k for k in DERIVED]


PROPERTY = C09
