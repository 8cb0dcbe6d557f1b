"""C02: transforms are what they are defined to be, however the data are spread"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need

KINDS = (None, None, None, 'fast', 'vandermonde', 'recursive')


def fams(s):
    return {b['f'] for b in s['bases']}


def kindarg(s, k):
    """The kind argument for a transform, restricted to what the families implement"""
    if k is None:
        return None
    full = {'C': 'chebyshev', 'U': 'chebyshevu', 'L': 'legendre', 'Q': 'ultraspherical', 'J': 'jacobi', 'La': 'laguerre',
            'H': 'hermite', 'F': 'fourier'}
    d = {}
    for b in s['bases']:
        f = b['f']
        if f == 'F':
            v = 'fast'
        elif k == 'fast':
            v = 'fast' if f in ('C', 'U') or f == 'L' and b.get('q') != 'GL' else 'vandermonde'
        elif k == 'recursive':
            v = 'recursive' if f in ('C', 'U', 'L', 'J', 'Q') and not b.get('bc') else 'vandermonde'
        else:
            v = 'vandermonde'
        # one entry per family: the most general one wins
        if d.get(full[f], v) != v:
            v = 'vandermonde'
        d[full[f]] = v
    return d


def meshspec(s, j):
    """A space of the same arrays with other points on its non-periodic axes"""
    q = gen.alt(s) if j % 2 else copy.deepcopy(s)
    for b in q['bases']:
        if b['f'] in ('C', 'L', 'U', 'Q', 'J'):
            for k in ('bc', 'v', 'alpha', 'beta'):
                b.pop(k, None)
            b['f'] = 'CLU'['CLUQJ'.index(b['f']) % 3 - (1 + j % 2)]
            b.pop('q', None)
            if j % 3 == 0:
                b['q'] = gen.QUADS[b['f']][-1]
    return q


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    T = gen.build(sf, ctx.comm, s)
    progs.rec_stencils(ctx, T)
    ctx.rec('shapes', (tuple(T.global_shape(False)), tuple(T.global_shape(True))))
    m = Model(s)
    V = None
    T2 = None
    for i, op in enumerate(cfg['ops']):
        kind = kindarg(s, op.get('kind'))
        kw = {} if kind is None else {'kind': kind}
        n = op.get('n', 0)
        if n:
            if op.get('mix'):
                # spaces of different kinds
                if T2 is None:
                    T2 = gen.build(sf, ctx.comm, gen.alt(s))
                    m2 = Model(gen.alt(s))
                    progs.rec_stencils(ctx, T2, 'stencils2')
                if op.get('tensor'):
                    n2 = n * n
                    q = [T if k % 2 == 0 else T2 for k in range(n2)]
                    V = sf.TensorSpace([sf.VectorSpace(q[k:k + n]) for k in range(0, n2, n)])
                    n = n2
                else:
                    q = [T if k % 2 == 0 else T2 for k in range(n)]
                    V = sf.CompositeSpace(q) if op.get('comp') else sf.VectorSpace(q)
            elif op.get('tensor'):
                V = sf.VectorSpace([sf.VectorSpace([T] * n) for _ in range(n)]) if op['tensor'] == 2 else sf.TensorSpace(T)
                n = len(V.flatten())
            else:
                V = sf.CompositeSpace([T] * n) if op.get('comp') else sf.VectorSpace([T] * n)
            S, sh = V, (n,)
        else:
            S, sh = T, ()
        if op['op'] in ('bwd', 'round'):
            uh = sf.Function(S)
            if n:
                flat = uh.v.reshape((n,) + T.shape(True)) if hasattr(uh, 'v') else uh.reshape((n,) + T.shape(True))
                for k in range(n):
                    progs.put(T, flat[k], (m2 if op.get('mix') and k % 2 else m).random_coefs(op['seed'] + 101 * k))
            else:
                progs.put(T, uh, m.random_coefs(op['seed']))
            keep = np.array(uh)
            how = op['how']
            if op.get('mesh') == 1:
                kw['mesh'] = 'uniform'
            elif op.get('mesh'):
                M = [gen.build(sf, ctx.comm, meshspec(s, j)) for j in range(2)]
                if not n or op['mesh'] == 2:
                    kw['mesh'] = M[0]
                elif op.get('tensor'):
                    d = T.dimensions
                    q = [M[k % 2] for k in range(n)]
                    kw['mesh'] = sf.TensorSpace([sf.VectorSpace(q[k:k + d]) for k in range(0, n, d)])
                else:
                    kw['mesh'] = sf.CompositeSpace([M[k % 2] for k in range(n)])
            if how == 0:
                u = sf.Array(S)
                u = S.backward(uh, u, **kw)
            elif how == 1 and not n:
                u = T.backward(uh, **kw)
            elif how == 2:
                u = sf.Array(S)
                u = uh.backward(u, **kw)
            elif how == 3:
                u = np.zeros_like(np.array(sf.Array(S)))
                u = S.backward(uh, u, **kw)
            else:
                u = uh.backward(**kw)
            if not np.array_equal(keep, np.array(uh)):
                ctx.fail('input-changed', f'backward (how={how}) changed its input')
            ctx.rec(('bwd', i), (oracle.sl2(T.local_slice(False)), np.array(u).reshape(sh + T.shape(False))))
            if op['op'] == 'round' and not op.get('mesh'):
                u = sf.Array(S, buffer=np.array(u)) if not isinstance(u, sf.Array) else u
                keep = np.array(u)
                vh = sf.Function(S)
                if op.get('how2', 0) == 0:
                    vh = S.forward(u, vh, **kw)
                elif op['how2'] == 1:
                    vh = u.forward(vh, **kw)
                else:
                    vh = u.forward(**kw)
                if not np.array_equal(keep, np.array(u)):
                    ctx.fail('input-changed', 'forward changed its input')
                ctx.rec(('fwd', i), (oracle.sl2(T.local_slice(True)), np.array(vh).reshape(sh + T.shape(True))))
        elif op['op'] == 'scal':
            u = sf.Array(S)
            ul = np.asarray(u).view(np.ndarray).reshape((max(n, 1),) + T.shape(False))
            for k in range(max(n, 1)):
                g = physdata(s, op['seed'] + 101 * k)
                progs.put(T, ul[k], g, False)
            keep = np.array(u)
            vh = sf.Function(S)
            vh = S.scalar_product(u, vh, **kw)
            if not np.array_equal(keep, np.array(u)):
                ctx.fail('input-changed', 'scalar_product changed its input')
            ctx.rec(('scal', i), (oracle.sl2(T.local_slice(True)), np.array(vh).reshape(sh + T.shape(True))))
        elif op['op'] == 'proj':
            u = sf.Array(T)
            progs.put(T, u, physdata(s, op['seed']), False)
            vh = sf.Function(T)
            vh = T.forward(u, vh, **kw)
            ctx.rec(('proj', i), (oracle.sl2(T.local_slice(True)), np.array(vh)))
            w = np.array(vh.backward(**kw))
            ctx.rec(('projb', i), (oracle.sl2(T.local_slice(False)), w))
            wh = T.forward(w, sf.Function(T), **kw)
            ctx.rec(('proj2', i), (oracle.sl2(T.local_slice(True)), np.array(wh)))
        elif op['op'] == 'buffer':
            # interpolation of a function given analytically
            import sympy as sp
            sy = T.coors.psi
            f = analytic(s, sy, op['seed'])
            u = sf.Array(T, buffer=f)
            ctx.rec(('buf', i), (oracle.sl2(T.local_slice(False)), np.array(u)))


def analytic(s, sy, seed):
    import sympy as sp
    import random
    r = random.Random(seed)
    out = sp.S(1)
    for b, x in zip(s['bases'], sy):
        lo, hi = gen.dom(b)
        if b['f'] == 'F':
            out *= sp.cos(x * 2 * sp.pi / sp.Float(hi - lo)) + r.choice((0, 1, 2))
        elif b['f'] in ('La', 'H'):
            out *= (1 + r.choice((0, 1)) * x) * sp.exp(-x**2 / 4)
        else:
            out *= r.choice((1, 2)) + x * r.choice((1, -1, 2)) + x**2
    return out


def physdata(s, seed):
    rs = np.random.RandomState((seed * 7919 + 13) % 2**32)
    sh = tuple(gen.phys_size(b) for b in s['bases'])
    u = rs.uniform(-1, 1, sh)
    if gen.is_complex(s):
        u = u + 1j * rs.uniform(-1, 1, sh)
    return u


class C02(Property):
    id = 'C02'
    quick_runs = 560
    thorough_runs = 30000
    rule = ('a run counts as non-trivial when it spreads the data over at least 2 ranks; two runs are distinct when their '
            'configuration or their event log (calls, interleaving, results) differ')
    real = ('shenfun (all of it, one private copy per rank)', 'mpi4py-fft (Pencil, Subcomm, transfers, FFTW wrappers)', 'FFTW', 'numpy', 'scipy', 'sympy')
    stub = ('MPI library (communicators, collectives, datatypes: simulated)',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',)

    def corners(self):
        out = []
        for bases, extra in (
                ([dict(f='F', N=8, cx=1), dict(f='F', N=8, cx=0)], {}),
                ([dict(f='F', N=8, cx=1), dict(f='F', N=7, cx=1), dict(f='F', N=9, cx=0)], {}),
                ([dict(f='F', N=8, cx=1), dict(f='F', N=8, cx=0), dict(f='C', N=9, bc='DD', v=[1, 2], q='GL')], {'axes': [2, 0, 1]}),
                ([dict(f='L', N=8, bc='DD'), dict(f='L', N=9, bc='NN')], {}),
                ([dict(f='L', N=9, bc='DNDN', v=[1, 0, 2, 1]), dict(f='F', N=8, cx=0)], {'axes': [0, 1]}),
                ([dict(f='F', N=8, cx=1), dict(f='F', N=8, cx=1), dict(f='F', N=8, cx=0)], {'collapse': 1, 'slab': 1}),
        ):
            for P in (1, 2, 4):
                s = dict(bases=bases, **extra)
                if gen.fits(s, P):
                    out.append(dict(P=P, policy='random', space=s, ops=[
                        dict(op='round', seed=1, how=0), dict(op='round', seed=2, how=2, n=len(bases)), dict(op='scal', seed=3),
                        dict(op='proj', seed=4), dict(op='buffer', seed=5)]))
                    if any(b['f'] != 'F' for b in bases):
                        out.append(dict(P=P, policy='random', space=copy.deepcopy(s), ops=[
                            dict(op='bwd', seed=1, how=h, n=n, mix=1, mesh=me, **kw) for h, me in ((0, 1), (0, 2), (2, 3), (4, 3))
                            for n, kw in ((len(bases), {}), (3, dict(comp=1)), (len(bases), dict(tensor=1)))]))
        for P in (1, 2):
            out.append(dict(P=P, policy='random', tag='jacobi-half', ops=[dict(op='round', seed=1, how=0)],
                            space=dict(bases=[dict(f='J', N=8, alpha=-0.5, beta=-0.5), dict(f='F', N=8, cx=0)])))
        # long enough for the multilevel Legendre transforms
        for i, (P, bases, ax) in enumerate(((1, [dict(f='L', N=1030), dict(f='F', N=4, cx=0)], None), (2, [dict(f='F', N=4, cx=0), dict(f='L', N=1101, bc='DD', dom=1)], [1, 0]),
                                            (2, [dict(f='L', N=1206, bc='NN'), dict(f='F', N=3, cx=0)], [0, 1]))):
            s = dict(bases=bases)
            if ax:
                s['axes'] = ax
            out.append(dict(P=P, policy='random', space=s, ops=[dict(op='round', seed=i, how=0, kind='fast'), dict(op='scal', seed=1, how=0, kind='fast'), dict(op='bwd', seed=2, how=0, kind='fast'),
                                                                dict(op='round', seed=3, how=2, n=2, kind='fast')]))
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        s = gen.space(rng, P=P)
        if rng.random() < 0.2:
            gen.rcm(rng, s)
        ops = []
        for _ in range(rng.randint(2, 6)):
            o = dict(op=rng.choice(('bwd', 'round', 'round', 'scal', 'scal', 'proj', 'buffer')), seed=rng.randrange(10**6),
                     how=rng.randrange(5), how2=rng.randrange(3), kind=rng.choice(KINDS))
            if o['op'] in ('bwd', 'round', 'scal') and rng.random() < 0.3:
                o['n'] = len(s['bases'])
                if rng.random() < 0.3:
                    o['comp'] = 1
                    o['n'] = rng.choice((1, 2, 3))
                elif rng.random() < 0.2:
                    o['tensor'] = 1
                if rng.random() < 0.4 and not all(b['f'] in ('F', 'La', 'H') for b in s['bases']):
                    o['mix'] = 1
            if o['op'] == 'bwd' and rng.random() < 0.5:
                o['mesh'] = rng.choice((1, 2, 3))
                if o['mesh'] == 1 and any(b['f'] in ('La', 'H') for b in s['bases']):
                    o['mesh'] = 2
                if o['mesh'] == 2 and o.get('n') and o['how'] in (1, 4):
                    o['how'] = 0
            ops.append(o)
        return gen.sched(rng, dict(P=P, space=s, ops=ops))

    def run(self, env, cfg):
        s = cfg['space']
        if not gen.fits(s, cfg['P']):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st = r['stencils'][0]
        oracle.check_stencils(s, st)
        m = Model(s, st)
        psh = tuple(gen.phys_size(b) for b in s['bases'])
        ds = m.dofslice()
        mm = [m, m]
        if 'stencils2' in r:
            oracle.check_stencils(gen.alt(s), r['stencils2'][0])
            mm[1] = Model(gen.alt(s), r['stencils2'][0])
            env.probe('mixed')
        dd = [q.dofslice() for q in mm]
        ms = gen.measure(s, m.tgrid())
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])
        for rk, (a, b) in r['shapes'].items():
            need(a == psh and b == m.spec_shape(), 'layout', f'rank {rk}: global shapes {a} {b}')
        for i, op in enumerate(cfg['ops']):
            n = op.get('n', 0)
            if op.get('tensor'):
                n = len(s['bases'])**2
            if op['op'] in ('bwd', 'round'):
                lead = 1 if n else 0
                u = oracle.assemble(r[('bwd', i)], psh, f'op {i} backward', lead)
                mk = [mm[k % 2 if op.get('mix') else 0] for k in range(max(n, 1))]
                c = np.array([mk[k].random_coefs(op['seed'] + 101 * k) for k in range(max(n, 1))])
                u = u if n else u[None]
                for k in range(len(c)):
                    if op.get('mesh'):
                        xs = [np.linspace(-1, 1, b['N']) if b['f'] != 'F' else None for b in s['bases']] if op['mesh'] == 1 else \
                            Model(meshspec(s, k % 2 if op['mesh'] == 3 and n else 0)).grid()
                        xs = [y if x is None else x for x, y in zip(xs, m.grid())]
                        close(u[k], mk[k].expand(c[k], xs), f'op {i} backward to another mesh, component {k}')
                        env.probe('mesh')
                        continue
                    close(u[k], mk[k].backward(c[k]), f'op {i} backward component {k}')
                if op['op'] == 'round' and not op.get('mesh'):
                    w = oracle.assemble(r[('fwd', i)], m.spec_shape(), f'op {i} forward', lead)
                    w = w if n else w[None]
                    for k in range(len(c)):
                        close(w[k], c[k], f'op {i} forward of backward, component {k}', tol=1e-7)
                env.probe('round' if op['op'] == 'round' else 'bwd')
            elif op['op'] == 'scal':
                lead = 1 if n else 0
                v = oracle.assemble(r[('scal', i)], m.spec_shape(), f'op {i} scalar product', lead)
                v = v if n else v[None]
                for k in range(max(n, 1)):
                    j = k % 2 if op.get('mix') else 0
                    close(v[k][dd[j]], mm[j].scalar_product(ms * physdata(s, op['seed'] + 101 * k))[dd[j]], f'op {i} scalar product component {k}')
                env.probe('scal')
            elif op['op'] == 'proj':
                v = oracle.assemble(r[('proj', i)], m.spec_shape(), f'op {i} forward')
                v2 = oracle.assemble(r[('proj2', i)], m.spec_shape(), f'op {i} second forward')
                w = oracle.assemble(r[('projb', i)], psh, f'op {i} backward of forward')
                close(w, m.backward(v), f'op {i} backward of forward')
                close(v2, v, f'op {i} forward is not idempotent', tol=1e-6)
                # residual orthogonal to the space: (u - Pu, phi_k) = 0
                u = physdata(s, op['seed'])
                res = m.scalar_product(ms * (u - w))
                close(res, np.zeros_like(res), f'op {i} residual of the projection', tol=1e-7, sc=oracle.scale(m.scalar_product(ms * u), v))
                env.probe('proj')
            elif op['op'] == 'buffer':
                import sympy as sp
                sy = sp.symbols('x,y,z', real=True)[:len(psh)]
                f = sp.lambdify(sy, analytic(s, sy, op['seed']))
                X = np.meshgrid(*m.tgrid(), indexing='ij')
                close(oracle.assemble(r[('buf', i)], psh, f'op {i} array from expression'),
                      np.broadcast_to(f(*X), psh), f'op {i} array from expression')
                env.probe('buffer')

    def shrink(self, cfg):
        yield from super().shrink(cfg)
        for k in ('collapse', 'slab', 'axes'):
            if cfg['space'].get(k):
                import copy
                c = copy.deepcopy(cfg)
                del c['space'][k]
                if k != 'axes':
                    yield c

    def probes_expected(self):
        return ['bwd', 'round', 'scal', 'proj', 'buffer', 'map_sep', 'map_pol', 'mixed', 'mesh']


PROPERTY = C02
