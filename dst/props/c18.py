"""C18: communicators and plans are released once and only when unused"""
import copy
import os

import numpy as np

from .. import gen, ops, oracle
from ..oracle import Model, need
from ..runner import Property

KINDS = ('refined', 'dealiased', 'orthogonal', 'homogeneous', 'testspace', 'unplanned')
# operations after which nothing remains but what is handed out
CLEAN = ('bwd', 'fwd', 'pad', 'conv', 'cross', 'eval', 'dxeval', 'lin', 'mat', 'prj', 'inn', 'slv', 'int', 'mesh', 'msk', 'h5', 'chk', 'etd', 'algebra',
         'outer', 'dot', 'ref', 'ort', 'der', 'new')


def live(ctx):
    return int(ctx.sim.comms_live.get(ctx.rank, 0)), int(ctx.sim.types_live.get(ctx.rank, 0))


def use(ctx, sf, V, seed):
    """Transforms of known data: forward of backward of what was expanded, and that what was expanded"""
    T = V.flatten()[0] if hasattr(V, 'flatten') else V
    u = sf.Function(V)
    rs = np.random.RandomState(seed)
    u0 = sf.Array(V)
    g = rs.uniform(-1, 1, tuple(int(n) for n in T.global_shape(False)))
    flat = np.asarray(u0).view(np.ndarray).reshape((-1,) + tuple(T.shape(False)))
    flat[...] = g[tuple(slice(*x) for x in oracle.sl2(T.local_slice(False)))]
    uh = V.forward(u0, u)
    b = V.backward(uh, sf.Array(V))
    return np.array(uh), np.array(b)


def derive(sf, T, kind, n, s):
    if kind == 'refined':
        return T.get_refined([b['N'] + n + 1 for b in s['bases']])
    if kind == 'dealiased':
        return T.get_dealiased((1.5, 2, (1.5,) + (1,) * (len(s['bases']) - 1))[n % 3])
    if kind == 'unplanned':
        return T.get_unplanned(tensorproductspace=True)
    if kind == 'testspace':
        return T.get_testspace(kind=('G', 'PG')[n % 2] if all(b['f'] in 'CLFUJ' for b in s['bases']) else 'G')
    return getattr(T, 'get_' + kind)()


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun.utilities import cleanup
    base = live(ctx)
    first = {}
    after = []
    for c in range(cfg.get('cycles', 2)):
        obj, root, killed = {}, {}, set()
        for k, a in enumerate(cfg['script']):
            if a['do'] == 'new':
                obj[a['id']] = gen.build(sf, ctx.comm, cfg['spaces'][a['sp']])
                root[a['id']] = a['id']
            elif a['do'] == 'adaptive':
                # a space without resolution, from which one with resolution is made
                import sympy as sp
                x, y = sp.symbols('x,y', real=True)
                T0 = sf.TensorProductSpace(ctx.comm, (sf.FunctionSpace(0, 'C'), sf.FunctionSpace(0, 'F', dtype='d')))
                obj[a['id']] = T0.get_adaptive((2 - x**2) * sp.cos(2 * y))
                root[a['id']] = a['id']
            elif a['do'] == 'derive':
                obj[a['id']] = derive(sf, obj[a['src']], a['kind'], a['n'], cfg['spaces'][a['sp']])
                root[a['id']] = root[a['src']]
            elif a['do'] == 'vec':
                obj[a['id']] = sf.VectorSpace(obj[a['src']]) if a['n'] == 0 else sf.CompositeSpace([obj[a['src']]] * 2)
                root[a['id']] = root[a['src']]
            elif a['do'] == 'use':
                T = obj[a['id']]
                Tt = T.flatten()[0] if hasattr(T, 'flatten') else T
                if a.get('padded'):
                    v = [np.array(T.backward(sf.Function(T), sf.Array(T)))]
                else:
                    v = use(ctx, sf, T, a['seed'])
                key = (a.get('like', a['id']), a['seed'])
                if key in first:
                    for p, q in zip(first[key], v):
                        if not np.allclose(p, q, rtol=1e-10, atol=1e-12):
                            ctx.fail('result-differs', f'space {a["id"]}: transform differs by {np.max(abs(p - q)):.3g} from before (action {k}, cycle {c})')
                else:
                    first[key] = v
            elif a['do'] == 'destroy':
                T = obj[a['id']]
                if a['how'] == 0:
                    T.destroy(destroy_subcomm=bool(a['sub']))
                elif a['how'] == 1:
                    cleanup((T,), destroy_subcomm=bool(a['sub']))
                elif a['how'] == 2:
                    cleanup({'T': T}, destroy_subcomm=bool(a['sub']))
                else:
                    cleanup({'u': sf.Function(T), 'x': 1}, destroy_subcomm=bool(a['sub']))
        after.append(live(ctx))
    ctx.rec('live', [base] + after)


def repeat(ctx, cfg):
    """The same operation again and again"""
    p = ops.Pool(ctx, cfg, ctx.comm, 'o')
    counts = []
    sf = ctx.sf
    out = []
    loc = p.loc

    def spy(sp, u, spectral):
        out.append((sp, u))
        loc(sp, u, spectral)
    p.loc = spy
    for i in range(4):
        del out[:]
        p.kept = []
        p.one(i, cfg['op'])
        mine = [p.space(0)] + [v for k, v in p.obj.items() if k[0] in ('V', 'O', 'VO')]
        ids = {id(t) for V in mine for t in (V.flatten() if hasattr(V, 'flatten') else [V])}
        seen = set()
        if not cfg['op'].get('destroy'):
            for sp, u in out:
                # what was handed out together with a space of its own is given back
                for V in (sp.flatten() if hasattr(sp, 'flatten') else [sp]):
                    if id(V) not in ids and id(V) not in seen and id(V) not in {id(x) for t in p.space(0)._padded_space.values() for x in [t]}:
                        seen.add(id(V))
                        V.destroy()
        counts.append(live(ctx))
    ctx.rec('counts', counts)


class C18(Property):
    id = 'C18'
    quick_runs = 320
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'scipy.sparse (SuperLU)', 'h5py (files of the simulated parallel HDF5)')
    stub = ('MPI library (counts communicators and datatypes that are alive)', 'parallel HDF5 driver')
    assumptions = ('communicators and datatypes have to be freed explicitly: nothing is released by garbage collection, as in MPI',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        D, O = dict(f='L', N=8, bc='DD'), dict(f='C', N=9)
        D2 = dict(f='C', N=8, bc='DD', v=[1, 2])
        for P in (2, 4, 1):
            for bases, ax in (([C, R], None), ([D, R], None), ([C, C, R], None), ([R, O], [1, 0]), ([C, D, R], [1, 0, 2]), ([D2, R], None)):
                s = dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}))
                nd = len(bases)
                if not gen.fits(s, P):
                    continue
                for kind in KINDS:
                    if P > 1 or kind == 'refined':
                        out.append(dict(P=P, policy='random', spaces=[s], cycles=2, script=[
                            dict(do='new', id=0, sp=0), dict(do='derive', id=1, src=0, kind=kind, n=0, sp=0), dict(do='use', id=0, seed=1),
                            dict(do='use', id=1, seed=2, **({'padded': 1} if kind == 'dealiased' else {})), dict(do='destroy', id=1, how=0, sub=1),
                            dict(do='use', id=0, seed=1), dict(do='derive', id=2, src=0, kind=kind, n=0, sp=0),
                            dict(do='use', id=2, seed=2, **({'padded': 1} if kind == 'dealiased' else {})),
                            dict(do='destroy', id=2, how=1, sub=1), dict(do='destroy', id=0, how=2, sub=1)]))
                if P > 1:
                    for k in CLEAN:
                        for n, h in ((0, 0), (1, 1), (1, 2), (0, 2)):
                            o = dict(op=k, sp=0, n=n, how=h, seed=1, ax=0, out=0, npts=2, kind='refined', dN=[1] * nd, pf=[1.5] * nd, same=1, destroy=1)
                            if (nd == 2 or P == 2 and n != h) and ops.usable(o, s) and (k not in ('mesh', 'msk', 'bwd', 'fwd', 'algebra', 'outer', 'cross', 'eval', 'dxeval') or n == h == 0):
                                if k not in ('ref', 'der', 'new'):
                                    o.pop('destroy')
                                out.append(dict(P=P, policy='random', spaces=[s], op=ops.clean(o, s)))
        return out[::6]

    def gen(self, rng):
        P = gen.ranks(rng)
        sp = ops.rspaces(rng, P)
        if rng.random() < 0.25:
            w = {k: v for k, v in ops.OPS.items() if k in CLEAN}
            while True:
                o = ops.rop(rng, sp, w)
                if o['op'] not in ('new', 'der', 'ref') or o.get('destroy'):
                    break
            o['same'] = 1
            sp = [sp[o['sp']]]
            o['sp'] = 0
            return gen.sched(rng, dict(P=P, spaces=sp, op=o))
        script, info, nid = [], {}, 0
        # info: id -> dict(sp, root, parents that die with it, alive, padded, usable)
        for _ in range(rng.randint(6, 22)):
            alive = [i for i, x in info.items() if x['alive']]
            k = rng.random()
            if not alive or k < 0.12 and len(alive) < 5:
                i = rng.randrange(len(sp))
                if rng.random() < 0.12 and P <= 2:
                    script.append(dict(do='adaptive', id=nid))
                    info[nid] = dict(sp=None, root=nid, alive=1, kind='new', comps=[nid])
                else:
                    script.append(dict(do='new', id=nid, sp=i))
                    info[nid] = dict(sp=i, root=nid, alive=1, kind='new', comps=[nid])
                nid += 1
            elif k < 0.42:
                src = rng.choice(alive)
                x = info[src]
                bases = sp[x['sp']]['bases'] if x['sp'] is not None else []
                if x['kind'] in ('vec', 'dealiased') or x['sp'] is None:
                    continue
                if rng.random() < 0.2:
                    script.append(dict(do='vec', id=nid, src=src, n=rng.randrange(2)))
                    info[nid] = dict(sp=x['sp'], root=x['root'], alive=1, kind='vec', comps=[src])
                else:
                    kind = rng.choice(KINDS)
                    if any(any(b.get('v') or ()) for b in bases) and kind not in ('dealiased', 'homogeneous'):
                        kind = 'dealiased'
                    if kind == 'dealiased' and (any(b['f'] not in 'FCL' for b in bases) or x['kind'] not in ('new',)):
                        continue
                    n = rng.randrange(3)
                    script.append(dict(do='derive', id=nid, src=src, kind=kind, n=n, sp=x['sp']))
                    info[nid] = dict(sp=x['sp'], root=x['root'], alive=1, kind=kind, comps=[nid], src=src, n=n)
                    if kind == 'dealiased':
                        # the same padding gives the same space
                        for j, y in info.items():
                            if j != nid and y['kind'] == 'dealiased' and y.get('src') == src and y['n'] == n and y['alive']:
                                info[nid]['comps'] = y['comps']
                nid += 1
            elif k < 0.75:
                i = rng.choice(alive)
                a = dict(do='use', id=i, seed=info[i]['sp'] or 0)
                if info[i]['kind'] == 'dealiased':
                    a['padded'] = 1
                elif info[i]['kind'] == 'new' and info[i]['sp'] is not None:
                    a['like'] = f"space {info[i]['sp']}"
                script.append(a)
            else:
                i = rng.choice(alive)
                x = info[i]
                sub = rng.randrange(2)
                how = rng.randrange(4)
                script.append(dict(do='destroy', id=i, how=how, sub=sub))
                self.dead(info, i, sub, how)
        # in the end everything goes
        left = [i for i in info if not info[i].get('gone')]
        rng.shuffle(left)
        left.sort(key=lambda i: info[i]['kind'] == 'new')
        for i in left:
            how = rng.randrange(4) if info[i]['alive'] else 0
            script.append(dict(do='destroy', id=i, how=how, sub=1))
            self.dead(info, i, 1, how)
        return gen.sched(rng, dict(P=P, spaces=sp, script=script, cycles=2))

    @staticmethod
    def dead(info, i, sub, how):
        x = info[i]
        comps = set(x['comps'])
        if how == 2:
            # cleanup of a dictionary includes padded spaces of its members
            comps |= {c for y in info.values() if y['kind'] == 'dealiased' and y.get('src') in x['comps'] for c in y['comps']}
        for j, y in info.items():
            if set(y['comps']) & comps:
                y['alive'] = 0
                if sub:
                    y['gone'] = 1
        owners = [c for c in comps if info[c]['root'] == c]
        if sub:
            for j, y in info.items():
                if y['root'] in owners:
                    y['alive'] = 0

    def shrink(self, cfg):
        if cfg.get('cycles', 1) > 1:
            yield dict(cfg, cycles=1)
        for k in range(len(cfg.get('script', ()))):
            if cfg['script'][k]['do'] in ('use',):
                c = copy.deepcopy(cfg)
                del c['script'][k]
                yield c
        # an object and everything that is done with it or derived from it
        for i in sorted({a['id'] for a in cfg.get('script', ())}):
            ids = {i}
            while True:
                more = {a['id'] for a in cfg['script'] if a.get('src') in ids} - ids
                if not more:
                    break
                ids |= more
            c = copy.deepcopy(cfg)
            c['script'] = [a for a in c['script'] if a['id'] not in ids]
            if c['script']:
                yield c
        yield from super().shrink(cfg)

    def run(self, env, cfg):
        if not all(gen.fits(s, cfg['P']) for s in cfg['spaces']):
            return
        kw = dict(gen.jobkw(cfg), step_cap=400000)
        w = os.path.join(env.dir(), 'w')
        os.mkdir(w)
        if 'op' in cfg:
            r = env.job(cfg['P'], repeat, cfg, cwd=w, **kw).records
            for rank, c in r['counts'].items():
                need(c[1] == c[2] == c[3], 'accumulates', lambda: f'{cfg["op"]["op"]}: communicators and datatypes alive on process {rank} after every repetition: {c}')
            env.probe('repeated ' + cfg['op']['op'])
            return
        r = env.job(cfg['P'], prog, cfg, cwd=w, **kw).records
        for rank, c in r['live'].items():
            need(all(x == c[0] for x in c), 'leak', lambda: f'communicators and datatypes alive on process {rank} before and after every cycle: {c}')
        for a in cfg['script']:
            env.probe(a['do'] + (' ' + a['kind'] if 'kind' in a else ''))

    def probes_expected(self):
        return ['repeated ' + k for k in CLEAN] + ['new', 'adaptive', 'vec', 'use', 'destroy'] + ['derive ' + k for k in KINDS]


PROPERTY = C18
