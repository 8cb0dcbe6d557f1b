"""C03: padded and dealiased transforms"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need
from .c02 import physdata

PFS = (1.5, 1.5, 1.5, 2, 1.25, 3, 1.4, 1.3)
FAMS = (('F', 10), ('C', 4), ('L', 3), ('U', 1), ('Q', 1), ('J', 1))


def padded_spec(s, pf):
    q = copy.deepcopy(s)
    for b, p in zip(q['bases'], pf):
        b['pf'] = p
    return q


def finedata(s, pf, seed):
    return physdata(padded_spec(s, pf), seed)


def fill(T, f, m, seed, n):
    """m is one model, or one for every component"""
    flat = np.asarray(f).reshape((max(n, 1),) + T.shape(True))
    for k in range(max(n, 1)):
        progs.put(T, flat[k], (m[k] if isinstance(m, list) else m).random_coefs(seed + 101 * k))
    return f


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    nd = len(s['bases'])
    T = gen.build(sf, ctx.comm, s)
    progs.rec_stencils(ctx, T)
    m = Model(s)
    fs = {}
    T2 = None
    for i, op in enumerate(cfg['ops']):
        pf = tuple(op.get('pf', ()))
        o = op['op']
        n = op.get('n', 0)
        S = T if not n else (sf.VectorSpace(T) if n == nd else sf.TensorSpace(T))
        mk = m
        if n and cfg.get('mix'):
            # spaces of different kinds
            if T2 is None:
                T2 = gen.build(sf, ctx.comm, gen.alt(s))
                progs.rec_stencils(ctx, T2, 'stencils2')
            q = [T if k % 2 == 0 else T2 for k in range(n)]
            mk = [m if k % 2 == 0 else Model(gen.alt(s)) for k in range(n)]
            S = sf.VectorSpace(q) if n == nd else sf.TensorSpace([sf.VectorSpace(q[k:k + nd]) for k in range(0, n, nd)])
        if o in ('bwd', 'round'):
            uh = fs.setdefault((op['seed'], n), sf.Function(S))
            fill(T, uh, mk, op['seed'], n)
            keep = np.array(uh)
            arg = pf[0] if op.get('num') and len(set(pf)) == 1 else pf
            if op.get('direct') and not n:
                Tp = gen.build(sf, ctx.comm, padded_spec(s, pf))
                ub = sf.Function(Tp)
                progs.put(Tp, ub, m.random_coefs(op['seed']))
                u = Tp.backward(ub, sf.Array(Tp))
                sp, uh2, keep = Tp, ub, np.array(ub)
            else:
                sp = S.get_dealiased(arg)
                uh2 = uh
                if op.get('how', 0) == 0:
                    u = sp.backward(uh, sf.Array(sp))
                elif op['how'] == 1:
                    u = uh.backward(padding_factor=arg)
                else:
                    u = uh.backward(sf.Array(sp), padding_factor=arg)
            if not np.array_equal(keep, np.array(uh2)):
                ctx.fail('input-changed', 'padded backward changed its input')
            sc = sp.flatten()[0] if n else sp
            ctx.rec(('b', i), (oracle.sl2(sc.local_slice(False)), np.array(u).reshape((max(n, 1),) + sc.shape(False))))
            if o == 'round':
                w = np.array(u)
                vh = sf.Function(sp if op.get('direct') else S)
                if op.get('how2', 0) == 1 and not n:
                    vh = u.forward(vh)
                else:
                    vh = sp.forward(u, vh)
                if not np.array_equal(w, np.array(u)):
                    ctx.fail('input-changed', 'padded forward changed its input')
                ctx.rec(('f', i), (clip(sc), np.array(vh).reshape((max(n, 1),) + sc.shape(True))))
        elif o in ('scal', 'proj'):
            Tp = gen.build(sf, ctx.comm, padded_spec(s, pf)) if op.get('direct') else T.get_dealiased(pf)
            u = sf.Array(Tp)
            progs.put(Tp, u, finedata(s, pf, op['seed']), False)
            keep = np.array(u)
            vh = sf.Function(Tp if op.get('direct') else T)
            vh = (Tp.scalar_product if o == 'scal' else Tp.forward)(u, vh)
            if not np.array_equal(keep, np.array(u)):
                ctx.fail('input-changed', 'padded transform changed its input')
            ctx.rec(('v', i), (clip(Tp), np.array(vh)))
        elif o == 'conv':
            Tp = gen.build(sf, ctx.comm, padded_spec(s, pf)) if op.get('direct') else S.get_dealiased(pf)
            if op.get('direct'):
                S = Tp
                n = 0
            a, b = sf.Function(S), sf.Function(S)
            sc = Tp.flatten()[0] if n else Tp
            fill(sc, a, mk if n else m, op['seed'], n)
            fill(sc, b, mk if n else m, op['seed'] + 7, n)
            ka, kb = np.array(a), np.array(b)
            ab = Tp.convolve(a, b, sf.Function(S))
            if not (np.array_equal(ka, np.array(a)) and np.array_equal(kb, np.array(b))):
                ctx.fail('input-changed', 'convolve changed its input')
            ctx.rec(('v', i), (clip(sc), np.array(ab).reshape((max(n, 1),) + sc.shape(True))))
        elif o == 'Convolve':
            Tp = gen.build(sf, ctx.comm, padded_spec(s, pf))
            C = sf.Convolve(Tp)
            a, b = sf.Function(Tp), sf.Function(Tp)
            fill(Tp, a, m, op['seed'], 0)
            fill(Tp, b, m, op['seed'] + 7, 0)
            ab = C(a, b) if op.get('how', 0) else C(a, b, sf.Function(C.newspace))
            ctx.rec(('v', i), (oracle.sl2(C.newspace.local_slice(True)), np.array(ab)))
            ctx.rec(('dom', i), [(float(q.domain[0]), float(q.domain[1])) for q in ab.function_space().bases])
        elif o == 'dot':
            V = sf.VectorSpace(T)
            rk = op['ranks']
            Su = V if rk[0] == 1 else sf.TensorSpace(T)
            Sv = V if rk[1] == 1 else sf.TensorSpace(T)
            a, b = sf.Function(Su), sf.Function(Sv)
            fill(T, a, m, op['seed'], nd**rk[0])
            fill(T, b, m, op['seed'] + 7, nd**rk[1])
            no = nd**(rk[0] + rk[1] - 2)
            sf.config['basisvectors'] = 'covariant' if op.get('cov') else 'normal'
            if op['how'] == 0:
                ab = sf.dot(a, b)
                sp = ab.function_space()
                sc = sp.flatten()[0] if no > 1 else sp
                ctx.rec(('v', i), (clip(sc), np.array(ab).reshape((no,) + sc.shape(True))))
            elif op['how'] == 1:
                ab = sf.dot(a, b, forward_output=False)
                sp = ab.function_space()
                sc = sp.flatten()[0] if no > 1 else sp
                ctx.rec(('p', i), (oracle.sl2(sc.local_slice(False)), np.array(ab).reshape((no,) + sc.shape(False))))
            else:
                To = T.get_orthogonal() if not all(q['f'] == 'F' for q in s['bases']) else T
                sp = To if no == 1 else (sf.VectorSpace(To) if no == nd else sf.TensorSpace(To))
                ab = sf.dot(a, b, sf.Function(sp))
                ctx.rec(('v', i), (clip(To), np.array(ab).reshape((no,) + To.shape(True))))
        elif o == 'outer':
            Tp = T.get_dealiased(pf)
            V = sf.VectorSpace(Tp)
            a, b = sf.Array(V), sf.Array(V)
            for x, e in ((a, 0), (b, 7)):
                for k in range(nd):
                    progs.put(Tp, x[k], finedata(s, pf, op['seed'] + e + 101 * k), False)
            n = nd * nd
            if op['how'] == 2:
                c = sf.Array(V if nd == 3 else Tp)
                n = nd if nd == 3 else 1
                sf.utilities.cross(c, a, b) if nd == 3 else sf.utilities.cross2D(np.asarray(c).view(np.ndarray), a.v, b.v)
            else:
                c = sf.Array(sf.TensorSpace(Tp))
                c[...] = 7
                c = sf.utilities.outer(a, a if op['how'] == 1 else b, c)
            ctx.rec(('o', i), (oracle.sl2(Tp.local_slice(False)), np.array(c).reshape((n,) + Tp.shape(False))))
        elif o == 'dd':
            nv = op.get('nv', 0)
            S = T
            if nv:
                S = sf.VectorSpace(T if op.get('same') else [T] + [gen.build(sf, ctx.comm, s) for _ in range(nd - 1)])
            if op.get('more') == 3:
                S.get_dealiased((1,) * nd)
            Td = S.get_dealiased(1, dealias_direct=True) if not op.get('pad1') else S.get_dealiased((1,) * nd, True)
            uh = sf.Function(S)
            fill(T, uh, m, op['seed'], nv)
            keep = np.array(uh)
            u = Td.backward(uh, sf.Array(Td))
            if not np.array_equal(keep, np.array(uh)):
                ctx.fail('input-changed', 'dealiased backward changed its input')
            sc = Td.flatten()[0] if nv else Td
            ctx.rec(('b', i), (oracle.sl2(sc.local_slice(False)), np.array(u).reshape((max(nv, 1),) + sc.shape(False))))
            if op.get('more'):
                # and the original space is what it was
                uh = sf.Function(T)
                progs.put(T, uh, m.random_coefs(op['seed']))
                T1 = T
                if op['more'] > 1:
                    # as well as the companion that does not drop anything
                    T1 = S.get_dealiased((1,) * nd)
                    T1 = T1.flatten()[0] if nv else T1
                ctx.rec(('b2', i), (oracle.sl2(T1.local_slice(False)), np.array(T1.backward(uh, sf.Array(T1)))[None]))


def clip(T):
    return tuple((a, min(b, n)) for (a, b), n in zip(oracle.sl2(T.local_slice(True)), T.global_shape(True)))


def no_nyquist(s, c):
    """Zero the highest modes of even Fourier axes"""
    c = np.array(c)
    for a, b in enumerate(s['bases']):
        if b['f'] == 'F' and b['N'] % 2 == 0:
            sl = [slice(None)] * c.ndim
            sl[a] = b['N'] // 2
            c[tuple(sl)] = 0
    return c


def orthospec(s):
    q = copy.deepcopy(s)
    for b in q['bases']:
        for k in ('bc', 'v'):
            b.pop(k, None)
    return q


class C03(Property):
    id = 'C03'
    quick_runs = 330
    thorough_runs = 20000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',
                   'highest (Nyquist) modes are excluded where padding splits them')

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=8, cx=1)
        for P in (1, 2, 4, 6):
            for bases, ex in (([C, R], {}), ([R, C], {'axes': [1, 0]}), ([C, C, R], {}), ([C, C, R], {'slab': 1}),
                              ([C, dict(f='C', N=8, bc='DD', v=[1, 2]), R], {}), ([dict(f='L', N=8, bc='DD'), R], {}),
                              ([dict(f='L', N=8), dict(f='C', N=8, q='GL')], {})):
                s = dict(bases=copy.deepcopy(bases), **ex)
                if not gen.fits(s, P):
                    continue
                nd = len(bases)
                out.append(dict(P=P, policy='random', space=s, ops=[
                    dict(op='round', seed=1, pf=[1.5] * nd, how=0), dict(op='scal', seed=2, pf=[1.5] * nd),
                    dict(op='conv', seed=3, pf=[1.5] * nd), dict(op='conv', seed=3, pf=[1.5] * nd, n=nd),
                    dict(op='dot', seed=4, ranks=[1, 1], how=0), dict(op='dot', seed=5, ranks=[1, 1], how=1),
                    dict(op='dot', seed=6, ranks=[1, 1], how=0),
                    dict(op='bwd', seed=1, pf=[1.5] * nd, how=1), dict(op='bwd', seed=1, pf=[2] * nd, how=1), dict(op='dd', seed=2)]))
        # products of vectors and tensors in curvilinear coordinates
        for i, (cm, bases, ax) in enumerate(((dict(k='skw', c=0.5), [dict(f='F', N=6, cx=1), dict(f='F', N=8, cx=0)], None),
                                             (dict(k='pol', t=0, q=1), [dict(f='F', N=8, cx=0), dict(f='L', N=8, dom=1)], [1, 0]),
                                             (dict(k='sep', m=[['lin', 2], ['quad']]), [dict(f='F', N=8, cx=0), dict(f='C', N=8)], [1, 0]))):
            for cov in (0, 1):
                s = dict(bases=bases, cm=cm)
                if ax:
                    s['axes'] = ax
                out.append(dict(P=1 + i, policy='random', space=copy.deepcopy(s), ops=[
                    dict(op='dot', seed=k, ranks=rk, how=h, cov=cov, pf=[1.5] * 2) for k, (rk, h) in enumerate((([1, 1], 0), ([1, 2], 1), ([2, 1], 1), ([2, 2], 1), ([1, 2], 0)))]
                    + [dict(op='outer', seed=k, how=k, pf=[1.5] * 2) for k in range(3)]))
        return [self.clean(c) for c in out]

    def clean(self, cfg):
        """Drop what the library does not offer"""
        s = cfg['space']
        bases = s['bases']
        allf = all(b['f'] == 'F' for b in bases)
        ops = []
        for o in cfg['ops']:
            if o['op'] == 'outer' and len(bases) not in (2, 3):
                continue
            if o['op'] == 'Convolve' and not (allf):
                continue
            if o['op'] == 'dd' and any(b.get('bc') for b in bases):
                continue
            if o['op'] == 'dot' and any(b.get('bc') for b in bases) and o['how'] == 2:
                o['how'] = 0
            if o.get('pf') and all(p == 1 for p in o['pf']):
                o['pf'][0] = 1.5
            if o['op'] in ('conv', 'dot') and o.get('n', 0) == len(bases)**2:
                o.pop('n')
            if o.get('direct') and o['op'] != 'Convolve' and s.get('collapse'):
                o.pop('direct')
            ops.append(o)
        cfg['ops'] = ops or [dict(op='round', seed=1, pf=[1.5] * len(bases), how=0)]
        return cfg

    def gen(self, rng):
        P = gen.ranks(rng)
        s = gen.space(rng, P=P, fams=FAMS, nmin=4, nmax=None)
        nd = len(s['bases'])
        if rng.random() < 0.25:
            gen.rcm(rng, s)
            if rng.random() < 0.25:
                s['cm'] = dict(k='skw', c=rng.choice((0.5, 1, -2)))
        ops = []
        for _ in range(rng.randint(2, 6)):
            o = dict(op=rng.choice(('bwd', 'round', 'round', 'scal', 'scal', 'proj', 'conv', 'conv', 'dot', 'outer', 'dd', 'Convolve')),
                     seed=rng.randrange(3) if rng.random() < 0.5 else rng.randrange(10**6), how=rng.randrange(3), how2=rng.randrange(2),
                     num=rng.randrange(2))
            o['pf'] = [rng.choice(PFS)] * nd if rng.random() < 0.5 else [rng.choice(PFS + (1,)) for _ in range(nd)]
            if o['op'] in ('bwd', 'round', 'conv') and rng.random() < 0.35:
                o['n'] = nd if rng.random() < 0.8 else nd * nd
            if o['op'] in ('bwd', 'round', 'scal', 'proj', 'conv') and not o.get('n') and rng.random() < 0.3:
                o['direct'] = 1
            if o['op'] == 'dot':
                o['ranks'] = rng.choice(([1, 1], [1, 1], [1, 2], [2, 1], [2, 2] if nd == 2 else [1, 1]))
                o['pf'] = [1.5] * nd
                if rng.random() < 0.5:
                    o['cov'] = 1
            if o['op'] == 'Convolve':
                o['pf'] = [1.5] * nd
            if o['op'] == 'dd':
                o.pop('pf')
                o['more'] = rng.choice((0, 1, 2, 2, 3))
                o['nv'] = rng.choice((0, 0, nd))
                o['same'] = rng.randrange(2)
                o['pad1'] = rng.randrange(2)
            ops.append(o)
            if o['op'] in ('bwd', 'round') and not o.get('direct') and rng.random() < 0.35:
                # the same function again, padded differently
                q = dict(o, how=1, op='bwd', pf=rng.choice((o['pf'][::-1], o['pf'][1:] + o['pf'][:1], [rng.choice(PFS) for _ in range(nd)], list(o['pf']))))
                if rng.random() < 0.7:
                    o['how'] = 1
                ops.append(q)
        cfg = dict(P=P, space=s, ops=ops)
        if any(o.get('n') for o in ops) and rng.random() < 0.5 and not all(b['f'] == 'F' for b in s['bases']):
            cfg['mix'] = 1
        return gen.sched(rng, self.clean(cfg))

    def run(self, env, cfg):
        s = cfg['space']
        P = cfg['P']
        nd = len(s['bases'])
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(P, prog, cfg, **gen.jobkw(cfg)).records
        st = r['stencils'][0]
        oracle.check_stencils(s, st)
        m = Model(s, st)
        mm = [m, m]
        if 'stencils2' in r:
            oracle.check_stencils(gen.alt(s), r['stencils2'][0])
            mm[1] = Model(gen.alt(s), r['stencils2'][0])
            env.probe('mixed')
        ds = m.dofslice()
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])
        for i, op in enumerate(cfg['ops']):
            o = op['op']
            n = op.get('n', 0)
            what = f'op {i} {o}'
            pf = op.get('pf')
            mk = [mm[k % 2 if n else 0] for k in range(max(n, 1))]
            if o in ('bwd', 'round'):
                u = oracle.assemble(r[('b', i)], tuple(gen.phys_size(b, p) for b, p in zip(s['bases'], pf)), what, 1)
                for k in range(max(n, 1)):
                    c = mk[k].random_coefs(op['seed'] + 101 * k)
                    close(u[k], mk[k].backward(c, pf), f'{what}: padded backward, component {k}')
                if o == 'round':
                    w = oracle.assemble(r[('f', i)], m.spec_shape(), what, 1)
                    for k in range(max(n, 1)):
                        close(w[k], mk[k].random_coefs(op['seed'] + 101 * k), f'{what}: padded forward of backward, component {k}', tol=1e-7)
                env.probe('padded')
            elif o == 'scal':
                v = oracle.assemble(r[('v', i)], m.spec_shape(), what)
                ref = m.scalar_product(measure(s, m, pf) * finedata(s, pf, op['seed']), pf)
                close(no_nyquist(s, v)[ds], no_nyquist(s, ref)[ds], f'{what}: padded scalar product')
                env.probe('scal')
            elif o == 'proj':
                v = oracle.assemble(r[('v', i)], m.spec_shape(), what)
                u = finedata(s, pf, op['seed'])
                # the projection is defined through the mass matrix of exact (or the space's own) quadrature
                v = no_nyquist(s, v)
                if not gl(s):
                    ms = measure(s, m, pf)
                    res = m.scalar_product(ms * (u - m.backward(v, pf)), pf)
                    if all(b['f'] == 'F' or p >= 1 for b, p in zip(s['bases'], pf)):
                        close(no_nyquist(s, res)[ds], np.zeros_like(res[ds]), f'{what}: residual of the padded projection', tol=1e-7,
                              sc=oracle.scale(m.scalar_product(ms * u, pf), v))
                env.probe('proj')
            elif o == 'conv':
                v = oracle.assemble(r[('v', i)], m.spec_shape(), what, 1)
                for k in range(max(n, 1)):
                    m = mk[k]
                    a, b = m.random_coefs(op['seed'] + 101 * k), m.random_coefs(op['seed'] + 7 + 101 * k)
                    self.product(m, s, v[k], m.backward(a, pf) * m.backward(b, pf), pf, f'{what}: component {k}')
                    if all(p >= 1.5 for p in pf) and all(b['f'] == 'F' for b in s['bases']):
                        big = [3] * nd
                        self.product(m, s, v[k], m.backward(a, big) * m.backward(b, big), big, f'{what}: aliasing, component {k}')
                        env.probe('alias_free')
                m = mm[0]
                env.probe('conv')
            elif o == 'Convolve':
                # all modes of the product
                q = copy.deepcopy(s)
                for b, p in zip(q['bases'], pf):
                    b['N'] = gen.phys_size(b, p)
                mq = Model(q)
                v = oracle.assemble(r[('v', i)], mq.spec_shape(), what)
                for rk, d in r[('dom', i)].items():
                    close(np.array(d), np.array([gen.dom(b) for b in s['bases']], dtype=float), f'{what}: domains of the space of the convolution', 'domain')
                a, b = m.random_coefs(op['seed']), m.random_coefs(op['seed'] + 7)
                close(v, mq.scalar_product(m.backward(a, pf) * m.backward(b, pf)), f'{what}: untruncated convolution')
                env.probe('Convolve')
            elif o == 'dot':
                rk = op['ranks']
                no = nd**(rk[0] + rk[1] - 2)
                p15 = [1.5] * nd if not (op['how'] == 2) else [1] * nd
                A = np.array([m.backward(m.random_coefs(op['seed'] + 101 * k), p15) for k in range(nd**rk[0])])
                B = np.array([m.backward(m.random_coefs(op['seed'] + 7 + 101 * k), p15) for k in range(nd**rk[1])])
                A = A.reshape((nd,) * rk[0] + A.shape[1:])
                B = B.reshape((nd,) * rk[1] + B.shape[1:])
                ss = 'xyz'[:nd]
                la = ('i' if rk[0] == 2 else '') + 'k'
                lb = 'k' + ('j' if rk[1] == 2 else '')
                lo = ('i' if rk[0] == 2 else '') + ('j' if rk[1] == 2 else '')
                g = gen.metric(s, np.meshgrid(*m.tgrid(p15), indexing='ij'), op.get('cov'))
                gB = np.array([sum(g(a, b) * B[b] for b in range(nd)) for a in range(nd)])
                ref = np.einsum(f'{la}{ss},{lb}{ss}->{lo}{ss}', A, gB).reshape((no,) + A.shape[rk[0]:])
                if s.get('cm'):
                    env.probe('dot_curvilinear')
                if op['how'] == 1:
                    v = oracle.assemble(r[('p', i)], ref.shape[1:], what, 1)
                    close(v, ref, what)
                else:
                    qs = orthospec(s)
                    mo = Model(qs)
                    v = oracle.assemble(r[('v', i)], mo.spec_shape(), what, 1)
                    for k in range(no):
                        self.product(mo, qs, v[k], ref[k], p15, f'{what}: component {k}')
                env.probe('dot')
            elif o == 'outer':
                A, B = (np.array([finedata(s, pf, op['seed'] + e + 101 * k) for k in range(nd)]) for e in (0, 7))
                if op['how'] == 2:
                    ref = np.cross(A, B, axis=0) if nd == 3 else (A[0] * B[1] - A[1] * B[0])[None]
                else:
                    ref = np.einsum('i...,j...->ij...', A, A if op['how'] == 1 else B).reshape((nd * nd,) + A.shape[1:])
                close(oracle.assemble(r[('o', i)], ref.shape[1:], what, 1), ref, what)
                env.probe('outer')
            elif o == 'dd':
                u = oracle.assemble(r[('b', i)], tuple(gen.phys_size(b) for b in s['bases']), what, 1)
                for k in range(len(u)):
                    c = m.random_coefs(op['seed'] + 101 * k)
                    cut = c.copy()
                    for a, b in enumerate(s['bases']):
                        N = b['N']
                        sl = [slice(None)] * nd
                        if b['f'] == 'F':
                            sl[a] = slice(N // 3, None) if not b.get('cx') else slice(N // 3, -(N // 3) + 1)
                        else:
                            sl[a] = slice(2 * N // 3, None)
                        cut[tuple(sl)] = 0
                    close(u[k], m.backward(cut), f'{what}: backward with direct dealiasing, component {k}')
                c = m.random_coefs(op['seed'])
                if op.get('more'):
                    w = oracle.assemble(r[('b2', i)], tuple(gen.phys_size(b) for b in s['bases']), what, 1)
                    close(w[0], m.backward(c), f'{what}: backward of the original space after direct dealiasing')
                env.probe('dd')

    def product(self, m, s, v, ab, pf, what):
        """v are the coefficients of the projection of ab"""
        v = no_nyquist(s, v)
        ds = m.dofslice()
        if all(b['f'] == 'F' for b in s['bases']):
            ref = no_nyquist(s, m.scalar_product(ab, pf))
            close(v, ref, what)
            return
        if gl(s):
            return
        ms = measure(s, m, pf)
        res = no_nyquist(s, m.scalar_product(ms * (ab - m.backward(v, pf)), pf))
        close(res[ds], np.zeros_like(res[ds]), what + ' residual', tol=1e-7, sc=oracle.scale(m.scalar_product(ms * ab, pf), v))

    def probes_expected(self):
        return ['padded', 'scal', 'proj', 'conv', 'alias_free', 'Convolve', 'dot', 'dd', 'map_sep', 'map_pol', 'map_skw', 'dot_curvilinear', 'outer', 'mixed']


def measure(s, m, pf):
    return gen.measure(s, m.tgrid(pf))


def gl(s):
    """Quadrature for which the discrete mass matrix of the padded space is not exact"""
    return False


PROPERTY = C03
