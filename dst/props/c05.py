"""C05: integrals, norms and energies over the whole domain"""
import copy

import numpy as np
from numpy.polynomial import legendre as npl
import scipy.special as ss

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close


def uweights(b, M):
    """Weights of the unweighted integral over the reference domain"""
    f = b['f']
    if f == 'F':
        return np.full(M, 2 * np.pi / M)
    x = oracle.nodes(b, M)[0]
    if f == 'La':
        return ss.roots_laguerre(M)[1]
    if f == 'H':
        return ss.roots_hermite(M)[1]
    rhs = np.zeros(M)
    rhs[0] = 2.0
    return np.linalg.solve(npl.legvander(x, M - 1).T, rhs)


def phys(s, seed, pf=None):
    """A random global array of the physical grid"""
    rs = np.random.RandomState(seed % 2**32)
    sh = [gen.phys_size(b, p) for b, p in zip(s['bases'], pf)] if pf else [gen.phys_size(b) for b in s['bases']]
    u = rs.uniform(-1, 1, sh)
    if gen.is_complex(s):
        u = u + 1j * rs.uniform(-1, 1, sh)
    return u


def energy(s, c):
    ax = Model(s).r2c()
    w = np.abs(c)**2
    if ax is not None:
        N = s['bases'][ax]['N']
        d = np.full(gen.spec_size(s['bases'][ax]), 2.0)
        d[0] = 1
        if N % 2 == 0:
            d[-1] = 1
        sh = [1] * len(s['bases'])
        sh[ax] = -1
        w = w * d.reshape(sh)
    return w.sum()


def derived(sf, T, s, kind):
    """A relative of T and its description"""
    if not kind:
        return T, s
    d = copy.deepcopy(s)
    if kind == 'ortho':
        for b in d['bases']:
            b.pop('bc', None)
            b.pop('v', None)
        return T.get_orthogonal(), d
    if kind == 'refined':
        for b in d['bases']:
            b['N'] += 4
        return T.get_refined([b['N'] for b in d['bases']]), d
    raise KeyError(kind)


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank < cfg['sub'] else 1, -ctx.rank)
        if ctx.rank >= cfg['sub']:
            return
    nd = len(s['bases'])
    over = {}
    if s.get('coors'):
        over['coordinates'] = coordinates(s)
    T0 = gen.build(sf, comm, s, **over)
    cache = {}
    for i, op in enumerate(cfg['ops']):
        if op['op'] == 'oned':
            b = s['bases'][op['axis']]
            B = gen.base(sf, b)
            m = Model(dict(bases=[b]))
            u = sf.Array(B)
            u[:] = phys(dict(bases=[b]), op['seed'])
            if op['e'] and b['f'] == 'F':
                uh = sf.Function(B)
                uh[:] = m.random_coefs(op['seed'], nyquist=True)
                sys_e = __import__('sys').modules['shenfun.fourier'].energy_fourier
                ctx.rec(('v', i), np.array(sys_e(uh, B)))
            else:
                ctx.rec(('v', i), np.array(sf.inner(op['c'], u)))
            continue
        key = op.get('der')
        if key not in cache:
            cache[key] = derived(sf, T0, s, key)
        T, d = cache[key]
        n = op.get('n', 0)
        pf = op.get('pf')
        if pf:
            Tp = T.get_dealiased(padding_factor=tuple(pf))
        else:
            Tp = T
        if op['op'] == 'energy':
            m = Model(d)
            S = T if not n else sf.CompositeSpace([T] * n)
            uh = sf.Function(S)
            flat = np.asarray(uh).reshape((max(n, 1),) + T.shape(True))
            for k in range(max(n, 1)):
                progs.put(T, flat[k], m.random_coefs(op['seed'] + k, nyquist=True))
            keep = np.array(uh)
            e = __import__('sys').modules['shenfun.fourier'].energy_fourier
            v = e(uh if op.get('asf') else np.array(uh), T)
            if not np.array_equal(keep, np.array(uh)):
                ctx.fail('input-changed', 'energy_fourier changed its argument')
            ctx.rec(('v', i), np.array(v))
            continue
        S = Tp if not n else sf.CompositeSpace([Tp] * n)
        c = op['c']
        if op['op'] == 'func':
            m = Model(d)
            u = sf.Function(S)
            flat = np.asarray(u).reshape((max(n, 1),) + Tp.shape(True))
            for k in range(max(n, 1)):
                progs.put(Tp, flat[k], m.random_coefs(op['seed'] + k, nyquist=True))
        else:
            u = sf.Array(S)
            flat = np.asarray(u).reshape((max(n, 1),) + Tp.shape(False))
            for k in range(max(n, 1)):
                progs.put(Tp, flat[k], phys(d, op['seed'] + k, pf), spectral=False)
        keep = np.array(u)
        sl = Tp.local_slice(False)
        if op['op'] == 'dx':
            v = sf.dx(u if not n else u[op['comp'] % n], weighted=bool(op.get('w')))
        elif n:
            t = tuple(c + k for k in range(n))
            v = sf.inner(t, u) if op.get('first') else sf.inner(u, t)
        else:
            v = sf.inner(c, u) if op.get('first') else sf.inner(u, c)
        if op.get('later'):
            # the space is as usable as before
            r = u.forward() if op['op'] != 'func' else u.backward()
            r2 = sf.Array(S)
            r2 = r.backward() if op['op'] != 'func' else r
            if op['op'] != 'func' and not n and not any(b.get('bc') for b in d['bases']) \
               and not pf and not any(b['f'] == 'H' or b.get('dd') for b in d['bases']):
                e = np.max(np.abs(np.array(r2) - keep)) if keep.size else 0
                if e > 1e-6:
                    ctx.fail('later', f'forward and backward after an integral return something else (difference {e:.3g})')
        if not np.array_equal(keep, np.array(u)):
            ctx.fail('input-changed', f'{op["op"]} changed its argument')
        if sl != Tp.local_slice(False):
            ctx.fail('later', 'the local slice of the space changed')
        ctx.rec(('v', i), np.array(v))


def coordinates(s):
    import sympy as sp
    if s['coors'] == 'polar':       # (theta, r)
        th, r = sp.symbols('x,y', real=True, positive=True)
        return (th, r), (r * sp.cos(th), r * sp.sin(th))
    th, r, z = sp.symbols('x,y,z', real=True, positive=True)
    return (th, r, z), (r * sp.cos(th), r * sp.sin(th), z)


class C05(Property):
    id = 'C05'
    quick_runs = 800
    thorough_runs = 40000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy')
    stub = ('MPI library',)
    assumptions = ('the unweighted rule of a polynomial family is the interpolatory rule on its quadrature points',)

    def corners(self):
        out = []
        R, C, L = dict(f='F', N=8, cx=0), dict(f='F', N=8, cx=1), dict(f='L', N=8)
        R2, C2 = dict(f='F', N=7, cx=0), dict(f='F', N=6, cx=1)
        for P in (1, 2, 3, 4, 5, 6):
            for bases, ex in (([C, R], {}), ([R, C], {'axes': [1, 0]}), ([C2, R2], {}), ([R2, C], {'axes': [1, 0]}), ([C, C, R], {}),
                              ([R, C, C2], {'axes': [1, 2, 0], 'slab': 1}), ([C, C2], {'dtype': 'D'}), ([L, R], {}),
                              ([R, L], {'axes': [1, 0]}), ([L, dict(f='C', N=8)], {}),
                              ([dict(f='F', N=8, cx=0), dict(f='L', N=8, dom=3)], {'axes': [1, 0], 'coors': 'polar'}),
                              ([dict(f='F', N=8, cx=0), dict(f='C', N=8, dom=3), C2], {'axes': [1, 2, 0], 'coors': 'cyl'})):
                s = dict(bases=copy.deepcopy(bases), **ex)
                if not gen.fits(s, P):
                    continue
                nd = len(bases)
                ops = [dict(op='arr', seed=1, c=1, first=1), dict(op='arr', seed=2, c=2, n=nd), dict(op='func', seed=3, c=1),
                       dict(op='dx', seed=4, c=1, later=1)]
                if all(b['f'] == 'F' for b in bases):
                    ops += [dict(op='energy', seed=5), dict(op='energy', seed=6, n=nd, asf=1),
                            dict(op='energy', seed=7, der='ortho'), dict(op='energy', seed=7, der='refined')]
                if not s.get('coors'):
                    ops += [dict(op='arr', seed=8, c=1, der='ortho', pf=[1.5] * nd)]
                c = dict(P=P, policy='random', space=s, ops=ops)
                out.append(c)
                if P > 1 and not s.get('coors'):
                    out.append(dict(copy.deepcopy(c), P=P + 1, sub=P))
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        sub = rng.randint(1, P - 1) if P > 1 and rng.random() < 0.2 else 0
        fourier = rng.random() < 0.4
        kw = dict(fams=(('F', 1),)) if fourier else {}
        # many ranks on few lines: one line of the real-to-complex axis each
        if fourier and rng.random() < 0.5:
            kw['nmax'] = 6
        s = gen.space(rng, P=sub or P, values=False, **kw)
        nd = len(s['bases'])
        if not fourier and rng.random() < 0.15 and not sub:
            R = dict(f='F', N=rng.choice((6, 8)), cx=0)
            Q = dict(f=rng.choice('CL'), N=rng.choice((6, 7)), dom=rng.choice((1, 3)))
            s = dict(bases=[R, Q], axes=[1, 0], coors='polar')
            if not gen.fits(s, P) or rng.random() < 0.4:
                s = dict(bases=[R, Q, dict(f='F', N=6, cx=1, dom=rng.randrange(4))], axes=rng.choice(([1, 2, 0], [2, 1, 0])), coors='cyl')
            if not gen.fits(s, P):
                s['bases'] = [dict(b, N=8) for b in s['bases']]
            nd = len(s['bases'])
        elif rng.random() < 0.2:
            gen.rcm(rng, s)
        ops = []
        for _ in range(rng.randint(2, 6)):
            o = dict(op=rng.choice(('arr', 'arr', 'func', 'dx', 'oned')), seed=rng.randrange(10**6), c=rng.choice((1, 1, 2, -0.5)))
            if rng.random() < 0.4 and fourier:
                o['op'] = 'energy'
            if o['op'] == 'oned':
                o['axis'] = rng.randrange(nd)
                o['e'] = rng.randrange(2)
                ops.append(o)
                continue
            if rng.random() < 0.3:
                o['n'] = rng.choice((nd, nd, 1, 2))
                o['comp'] = rng.randrange(3)
            o['first'] = rng.randrange(2)
            o['w'] = int(rng.random() < 0.3)
            o['later'] = int(rng.random() < 0.4)
            o['asf'] = rng.randrange(2)
            if rng.random() < 0.35 and not s.get('coors'):
                o['der'] = rng.choice(('ortho', 'refined'))
            if rng.random() < 0.2 and o['op'] in ('arr', 'dx') and not s.get('coors'):
                o['pf'] = [rng.choice((1, 1.5, 2, 1.4)) for _ in range(nd)]
            ops.append(o)
        cfg = dict(P=P, space=s, ops=ops)
        if sub:
            cfg['sub'] = sub
        return gen.sched(rng, cfg)

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= c['sub']:
                c.pop('sub')
            yield c

    def run(self, env, cfg):
        s = cfg['space']
        P = cfg.get('sub') or cfg['P']
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        for i, op in enumerate(cfg['ops']):
            what = f'op {i} {op["op"]}' + (' of a vector' if op.get('n') else '') + (' of a %s space' % op['der'] if op.get('der') else '')
            v = np.asarray(oracle.same_everywhere(r[('v', i)], what, P))
            if op['op'] == 'oned':
                b = s['bases'][op['axis']]
                d = dict(bases=[b])
                if op['e'] and b['f'] == 'F':
                    ref = energy(d, Model(d).random_coefs(op['seed'], nyquist=True))
                    env.probe('energy_1d')
                else:
                    ref = (phys(d, op['seed']) * uweights(b, gen.phys_size(b))).sum() * op['c'] / oracle.dfac(b)
                    env.probe('integral_1d')
                close(v, np.asarray(ref), what, tol=1e-8)
                continue
            d = copy.deepcopy(s)
            if op.get('der') == 'refined':
                for b in d['bases']:
                    b['N'] += 4
            if op.get('der') == 'ortho':
                for b in d['bases']:
                    b.pop('bc', None)
            n = op.get('n', 0)
            m = Model(d, None)
            if op['op'] == 'energy':
                ref = sum(energy(d, m.random_coefs(op['seed'] + k, nyquist=True)) for k in range(max(n, 1)))
                close(v, np.asarray(ref), what, tol=1e-10)
                env.probe('energy')
                if P >= min(gen.spec_size(b) for b in d['bases']) - 1:
                    env.probe('few_lines')
                continue
            pf = op.get('pf')
            sizes = [gen.phys_size(b, p) for b, p in zip(d['bases'], pf or [1] * len(d['bases']))]
            ws = [uweights(b, M) for b, M in zip(d['bases'], sizes)]
            if op['op'] == 'dx' and op.get('w'):
                ws = [oracle.nodes(b, M)[1] * (1 if b['f'] == 'F' else 1) for b, M in zip(d['bases'], sizes)]
            tot = []
            for k in range(max(n, 1)):
                if op['op'] == 'func':
                    c = m.random_coefs(op['seed'] + k, nyquist=True)
                    if any(b.get('bc') for b in d['bases']):
                        m = Model(d, None)
                        tot = None
                        break
                    u = m.backward(c)
                else:
                    u = phys(d, op['seed'] + k, pf)
                if s.get('coors') and op['op'] != 'dx':
                    x = m.tgrid()[1]
                    u = u * x.reshape([-1 if a == 1 else 1 for a in range(u.ndim)])
                    env.probe('curvilinear')
                if s.get('cm') and op['op'] != 'dx':
                    u = u * gen.measure(d, m.tgrid(pf))
                    env.probe('mapped')
                sc = np.abs(u)
                for w in ws:
                    u = np.tensordot(w, u, (0, 0))
                    sc = np.tensordot(np.abs(w), sc, (0, 0))
                tot.append((u, sc))
            if tot is None:
                continue
            if op['op'] == 'dx':
                ref, sc = tot[op.get('comp', 0) % n] if n else tot[0]
                # the weighted rule of Fourier axes includes the length of the domain
                if op.get('w'):
                    env.probe('dx_weighted')
                    f = np.prod([oracle.dfac(b) for b in d['bases'] if b['f'] == 'F'] or [1])
                    ref, sc = ref * f, sc * f
            else:
                f = 1 / np.prod([oracle.dfac(b) for b in d['bases']])
                ref = sum((op['c'] + (k if n else 0)) * t[0] for k, t in enumerate(tot)) * f
                sc = sum(abs(op['c'] + (k if n else 0)) * t[1] for k, t in enumerate(tot)) * f
            close(v, np.asarray(ref), what, tol=1e-10, sc=sc)
            env.probe('padded' if pf else op['op'])
        if cfg.get('sub'):
            env.probe('subcomm')

    def probes_expected(self):
        return ['arr', 'func', 'dx', 'dx_weighted', 'energy', 'energy_1d', 'integral_1d', 'few_lines', 'curvilinear', 'mapped', 'padded', 'subcomm']


PROPERTY = C05
