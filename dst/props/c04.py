"""C04: evaluation of functions and of their derivatives at points"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close


def points(s, op):
    """Points in the true domain, shape (nd, n): random, corners and quadrature points"""
    rs = np.random.RandomState(op['seed'] % 2**32)
    m = Model(s)
    grids = m.tgrid()
    cols = []
    for j in range(op['npts']):
        kind = op['pts'][j % len(op['pts'])]
        c = []
        for a, b in enumerate(s['bases']):
            lo, hi = gen.dom(b)
            if b['f'] == 'La':
                lo, hi = 0.0, 4.0
            elif b['f'] == 'H':
                lo, hi = -2.5, 2.5
            if kind == 'r':
                c.append(lo + (hi - lo) * rs.uniform())
            elif kind == 'e':
                c.append(rs.choice([lo, hi]))
            else:
                g = grids[a]
                c.append(g[rs.randint(len(g))])
        cols.append(c)
    return np.array(cols).T.reshape(len(s['bases']), op['npts'])


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    comm = ctx.comm
    if cfg.get('sub'):
        # only the first `sub` processes take part (in reverse order of rank, to make them different from the world's)
        comm = comm.Split(0 if ctx.rank < cfg['sub'] else 1, -ctx.rank)
        if ctx.rank >= cfg['sub']:
            return
    nd = len(s['bases'])
    T = gen.build(sf, comm, s)
    progs.rec_stencils(ctx, T)
    m = Model(s)
    fs = {}
    T2 = None
    for i, op in enumerate(cfg['ops']):
        n = op.get('n', 0)
        key = (op['fseed'], n, op.get('nyq', 0))
        if key not in fs:
            S = T if not n else (sf.VectorSpace(T) if n == nd else sf.CompositeSpace([T] * n))
            mk = [m] * max(n, 1)
            if n and cfg.get('mix'):
                if T2 is None:
                    T2 = gen.build(sf, comm, gen.alt(s))
                    m2 = Model(gen.alt(s))
                    progs.rec_stencils(ctx, T2, 'stencils2')
                q = [T if k % 2 == 0 else T2 for k in range(n)]
                mk = [m if k % 2 == 0 else m2 for k in range(n)]
                S = sf.VectorSpace(q) if n == nd else sf.CompositeSpace(q)
            uh = sf.Function(S)
            flat = np.asarray(uh).reshape((max(n, 1),) + T.shape(True))
            for k in range(max(n, 1)):
                progs.put(T, flat[k], mk[k].random_coefs(op['fseed'] + 101 * k, nyquist=bool(op.get('nyq'))))
            fs[key] = (S, uh)
        S, uh = fs[key]
        keep = np.array(uh)
        pts = points(s, op)
        kp = pts.copy()
        out = None
        if op['op'] == 'eval':
            if op.get('out'):
                shp = (n, pts.shape[1]) if n else (pts.shape[1],)
                out = np.full(shp, 7.0, dtype=T.forward.input_array.dtype)
            if op.get('method') is None:
                v = uh.eval(pts) if out is None else uh.eval(pts, output_array=out)
            else:
                v = S.eval(pts, uh, method=op['method']) if out is None else S.eval(pts, uh, output_array=out, method=op['method'])
            if out is not None and op.get('inplace'):
                v = out
        else:
            u = uh[op['comp']] if n else uh
            e = u
            for a, d in enumerate(op['der']):
                if d:
                    e = sf.Dx(e, a, d)
            if op.get('scale'):
                e = e * op['scale']
            v = e.eval(pts)
        if not np.array_equal(keep, np.array(uh)):
            ctx.fail('input-changed', 'eval changed the function')
        if not np.array_equal(kp, pts):
            ctx.fail('input-changed', 'eval changed the points')
        ctx.rec(('v', i), np.array(v))


class C04(Property):
    id = 'C04'
    quick_runs = 1000
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'compiled evaluation kernels')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=8, cx=1)
        for P in (1, 2, 4, 6):
            for bases, ex in (([C, R], {}), ([R, C], {'axes': [1, 0]}), ([C, C, R], {}), ([R, C, C], {'axes': [1, 2, 0], 'slab': 1}),
                              ([dict(f='C', N=8, bc='DD', v=[1, 2]), R], {}), ([R, dict(f='L', N=8, bc='DD', v=[1, 2])], {'axes': [1, 0]}),
                              ([dict(f='L', N=8, bc='DD'), C], {'dtype': 'D'}), ([C, C, C], {}), ([C, C], {}),
                              ([C, dict(f='L', N=8, bc='DD'), C], {'dtype': 'D'}), ([dict(f='L', N=8), dict(f='C', N=8)], {}),
                              ([C, dict(f='C', N=8, bc='NN'), R], {}), ([dict(f='L', N=7), dict(f='C', N=8), R], {})):
                s = dict(bases=copy.deepcopy(bases), **ex)
                if not gen.fits(s, P):
                    continue
                nd = len(bases)
                for nyq in (0, 1):
                    ops = [dict(op='eval', seed=1, npts=3, pts='req', fseed=1, method=mm, nyq=nyq) for mm in (None, 0, 1, 2)]
                    ops += [dict(op='eval', seed=2, npts=1, pts='r', fseed=2, n=nd, nyq=nyq),
                            dict(op='expr', seed=3, npts=2, pts='re', fseed=1, der=[0] * nd, nyq=nyq),
                            dict(op='expr', seed=3, npts=2, pts='re', fseed=1, der=[1] + [0] * (nd - 1), nyq=0)]
                    out.append(dict(P=P, policy='random', space=s, ops=ops))
                    if P > 1:
                        out.append(dict(P=P + 1, sub=P, policy='random', space=s, ops=ops))
        return [self.clean(c) for c in out]

    def clean(self, cfg):
        """Drop what the library does not offer"""
        s = cfg['space']
        bases = s['bases']
        nd = len(bases)
        np_ = sum(b['f'] != 'F' for b in bases)
        for o in cfg['ops']:
            if o['op'] == 'expr':
                if any(b['f'] == 'F' and b['N'] % 2 == 0 and d for b, d in zip(bases, o['der'])):
                    o['nyq'] = 0
                if o.get('n', 0):
                    o['comp'] = o.get('comp', 0) % o['n']
        return cfg

    def gen(self, rng):
        P = gen.ranks(rng)
        sub = 0
        if P > 1 and rng.random() < 0.25:
            sub = rng.randint(1, P - 1)
        while True:
            s = gen.space(rng, P=sub or P)
            nd = len(s['bases'])
            np_ = sum(b['f'] != 'F' for b in s['bases'])
            # not implemented: complex functions with several non-periodic axes in 3D or without any Fourier axis
            if gen.is_complex(s) and (np_ == nd or (nd == 3 and np_ == 2)):
                continue
            break
        ops = []
        for _ in range(rng.randint(1, 5)):
            o = dict(op=rng.choice(('eval', 'eval', 'eval', 'expr')), seed=rng.randrange(10**6), npts=rng.choice((1, 1, 2, 3, 5)),
                     pts=rng.choice(('r', 'r', 'req', 'e', 'q', 'rq')), fseed=rng.randrange(3), nyq=int(rng.random() < 0.3))
            if rng.random() < 0.35:
                o['n'] = nd if rng.random() < 0.7 else rng.choice((1, 2, 4))
            if o['op'] == 'eval':
                o['method'] = rng.choice((None, 0, 1, 2))
                if rng.random() < 0.3:
                    o['out'] = 1
                    if o.get('n'):
                        o['inplace'] = rng.randrange(2)
            else:
                o['der'] = [rng.choice((0, 0, 1, 2)) for _ in range(nd)]
                o['comp'] = rng.randrange(4)
                o['scale'] = rng.choice((None, 2, -0.5))
            ops.append(o)
        cfg = dict(P=P, space=s, ops=ops)
        if sub:
            cfg['sub'] = sub
        if any(o.get('n') for o in ops) and rng.random() < 0.5 and not all(b['f'] in ('F', 'La', 'H') for b in s['bases']):
            cfg['mix'] = 1
        return gen.sched(rng, self.clean(cfg))

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= c['sub']:
                c.pop('sub')
            yield c

    def run(self, env, cfg):
        s = cfg['space']
        P = cfg.get('sub') or cfg['P']
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        st = r['stencils'][0]
        oracle.check_stencils(s, st)
        mm = [Model(s, st)] * 2
        if 'stencils2' in r:
            oracle.check_stencils(gen.alt(s), r['stencils2'][0])
            mm[1] = Model(gen.alt(s), r['stencils2'][0])
            env.probe('mixed')
        for i, op in enumerate(cfg['ops']):
            n = op.get('n', 0)
            mk = [mm[k % 2 if n else 0] for k in range(max(n, 1))]
            what = f'op {i} {op["op"]}' + (f' method {op["method"]}' if op.get('method') is not None else '')
            v = oracle.same_everywhere(r[('v', i)], what, P)
            pts = points(s, op)
            if op['op'] == 'eval':
                ref = np.array([mk[k].eval(mk[k].random_coefs(op['fseed'] + 101 * k, nyquist=bool(op.get('nyq'))), pts)
                                for k in range(max(n, 1))])
                close(np.asarray(v).reshape(ref.shape), ref, what)
                env.probe('method%s' % op.get('method'))
                if op.get('nyq'):
                    env.probe('nyquist')
            else:
                k = op['comp'] if n else 0
                ref = mk[k].eval(mk[k].random_coefs(op['fseed'] + 101 * k, nyquist=bool(op.get('nyq'))), pts, op['der'])
                ref = ref * (op.get('scale') or 1)
                v = np.asarray(v)
                close(v.reshape(ref.shape), ref, what, tol=1e-8)
                env.probe('expr')
            env.probe('boundary_points' if 'e' in op['pts'] else 'inner_points')
        if cfg.get('sub'):
            env.probe('subcomm')

    def probes_expected(self):
        return ['methodNone', 'method0', 'method1', 'method2', 'nyquist', 'expr', 'boundary_points', 'subcomm', 'mixed']


PROPERTY = C04
