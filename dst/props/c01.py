"""C01: local parts tile the global arrays"""
import copy

import numpy as np

from .. import gen, oracle
from ..runner import Property
from ..oracle import close, need, sl2


def wraps(sf, T, w):
    """A composite space built from T"""
    k = w['k']
    if k == 'vector':
        return sf.VectorSpace(T)
    if k == 'tensor':
        return sf.TensorSpace(T)
    if k == 'comp':
        return sf.CompositeSpace([T] * w['n'])
    V = sf.VectorSpace(T)
    return sf.CompositeSpace([V, T] if w['n'] < 2 else [T, V, T])


def ncomp(w, nd):
    return {'vector': nd, 'tensor': nd * nd, 'comp': w.get('n'), 'mixed': nd + (1 if w.get('n', 1) < 2 else 2)}[w['k']]


def layout(ctx, key, sf, T):
    d = {}
    for sp in (False, True):
        arr = sf.Function(T) if sp else sf.Array(T)
        d[sp] = dict(shape=tuple(T.shape(sp)), sl=sl2(T.local_slice(sp)), glob=tuple(T.global_shape(sp)), arr=arr.shape,
                     dt=np.dtype(arr.dtype).char, size=int(T.size(sp)), asl=sl2(arr.local_slice()), aglob=tuple(arr.global_shape),
                     inp=tuple((T.forward.output_array if sp else T.forward.input_array).shape),
                     out=tuple((T.backward.input_array if sp else T.backward.output_array).shape),
                     arr0=not np.any(arr), rank=arr.rank)
    ctx.rec((key, 'layout'), d)


def prog(ctx, cfg):
    sf = ctx.sf
    s = cfg['space']
    T = gen.build(sf, ctx.comm, s)
    nd = len(s['bases'])
    layout(ctx, 'T', sf, T)
    ctx.rec('meta', dict(dims=tuple(int(i) for i in T.dims()), dim=int(T.dim()), n=len(T), ncomp=T.num_components(),
                         dimensions=T.dimensions, bases=[b.N for b in T.bases], slices=sl2(T.slice()),
                         np_axes=[int(i) for i in T.get_nonperiodic_axes()], volume=float(T.volume),
                         domains=[(float(a), float(b)) for a, b in T.domains]))
    for b in (False, True):
        for kind in ('quadrature', 'uniform'):
            ctx.rec(('mesh', b, kind), [np.array(x) for x in T.local_mesh(bcast=b, kind=kind)])
    ctx.rec('refmesh', [np.array(x) for x in T.local_mesh(map_true_domain=False)])
    ctx.rec('gmesh', [np.array(x) for x in T.mesh()])
    ctx.rec('gmeshu', [np.array(x) for x in T.mesh(kind='uniform')])
    for kind in ('quadrature', 'uniform'):
        ctx.rec(('cart', kind), [np.array(np.broadcast_to(x, T.shape(False))) for x in T.local_cartesian_mesh(kind=kind)])
        ctx.rec(('gcart', kind), [np.array(np.broadcast_to(x, T.global_shape(False))) for x in T.cartesian_mesh(kind=kind)])
    for b in (False, True)[:1 if any(q.get('bc') for q in s['bases']) else 2]:
        for sc in (False, True):
            for el in (False, True):
                ctx.rec(('wn', b, sc, el), [np.array(k) for k in T.local_wavenumbers(broadcast=b, scaled=sc, eliminate_highest_freq=el)])
    ctx.rec('gwn', [np.array(k) for k in T.wavenumbers()])
    for i, w in enumerate(cfg.get('wraps', ())):
        W = wraps(sf, T, w)
        d = {}
        for sp in (False, True):
            arr = sf.Function(W) if sp else sf.Array(W)
            sh = W.shape(sp)
            d[sp] = dict(shape=sh, sl=[(x.start, x.stop) for x in W.local_slice(sp)], glob=tuple(W.global_shape(sp)), arr=arr.shape,
                         n=W.num_components(), flat=len(W.flatten()), comp=[arr[j].shape for j in range(len(W.spaces))],
                         tshape=T.shape(sp))
        ctx.rec(('wrap', i), d)
        # components are views of the right part
        f = sf.Function(W) if not (w.get('arr')) else sf.Array(W)
        flat = np.asarray(f)
        flat[...] = np.arange(flat.size).reshape(flat.shape)
        ok = True
        pos = 0
        for j, Wj in enumerate(W.spaces):
            n = len(Wj.flatten()) if hasattr(Wj, 'flatten') else 1
            ref = flat[pos:pos + n].reshape(np.asarray(f[j]).shape)
            ok = ok and np.array_equal(np.asarray(f[j]), ref)
            pos += n
        ctx.rec(('view', i), ok)
    for i, pf in enumerate(cfg.get('pads', ())):
        Tp = T.get_dealiased(tuple(pf))
        layout(ctx, ('pad', i), sf, Tp)
        ctx.rec(('padmesh', i), [np.array(x) for x in Tp.local_mesh()])
        if cfg.get('padwrap'):
            Vp = sf.VectorSpace(T).get_dealiased(tuple(pf))
            ctx.rec(('padvec', i), (tuple(Vp.shape(False)), tuple(Vp.shape(True)), tuple(Tp.shape(False)), tuple(Tp.shape(True))))


class C01(Property):
    id = 'C01'
    quick_runs = 480
    thorough_runs = 20000
    rule = ('a run counts as non-trivial when the space is spread over at least 2 ranks; runs are distinct when configuration or '
            'event log differ')
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft (Pencil, Subcomm, transfers)', 'numpy')
    stub = ('MPI library: Cartesian topology (with seeded rank reordering), sub-communicators',)

    def corners(self):
        F, R = dict(f='F', N=9, cx=1), dict(f='F', N=9, cx=0)
        out = []
        for P in (1, 2, 3, 4, 5, 6, 8):
            for bases, ex in (([F, R], {}), ([R, F], {'axes': [1, 0]}), ([dict(f='L', N=8, bc='DD'), dict(f='C', N=9)], {}),
                              ([F, dict(f='C', N=9, bc='DN'), R], {}), ([F, F, R], {'slab': 1}), ([dict(f='F', N=5, cx=1)] * 3 + [dict(f='F', N=8, cx=0)], {})):
                s = dict(bases=copy.deepcopy(bases), **ex)
                if gen.fits(s, P):
                    nd = len(bases)
                    out.append(dict(P=P, policy='random', space=s, wraps=[dict(k='vector'), dict(k='mixed', n=1), dict(k='comp', n=3)],
                                    pads=[[1.5] * nd], padwrap=1))
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        nd = rng.choice((2, 2, 3, 3, 4))
        s = gen.space(rng, ndim=nd, P=P)
        if nd < 4 and rng.random() < 0.25:
            gen.rcm(rng, s)
        cfg = dict(P=P, space=s)
        cfg['wraps'] = [dict(k=rng.choice(('vector', 'tensor', 'comp', 'mixed')), n=rng.choice((1, 2, 3)), arr=rng.choice((0, 1)))
                        for _ in range(rng.randint(0, 2))]
        if rng.random() < 0.6 and all(b['f'] not in ('La', 'H') for b in s['bases']):
            cfg['pads'] = [[rng.choice((1, 1.5, 1.5, 2)) for _ in range(nd)] for _ in range(rng.randint(1, 2))]
            cfg['pads'] = [p for p in cfg['pads'] if any(x != 1 for x in p)]
            cfg['padwrap'] = rng.choice((0, 1))
        return gen.sched(rng, cfg)

    def run(self, env, cfg):
        s = cfg['space']
        P = cfg['P']
        if not gen.fits(s, P):
            env.probe('does_not_fit')
            return
        r = env.job(P, prog, cfg, **gen.jobkw(cfg)).records
        m = oracle.Model(s)
        nd = len(s['bases'])
        psh, ssh = tuple(gen.phys_size(b) for b in s['bases']), m.spec_shape()
        lay = self.layout(r[('T', 'layout')], P, psh, ssh, 'space')
        fam_np = [a for a, b in enumerate(s['bases']) if b['f'] != 'F']
        dims = tuple(gen.spec_size(b) - gen.numbc(b) for b in s['bases'])
        for rk, d in r['meta'].items():
            need(d['dims'] == dims and d['dim'] == int(np.prod(dims)), 'layout', f'rank {rk}: dimensions {d["dims"]} not {dims}')
            need(d['n'] == nd and d['ncomp'] == 1 and d['dimensions'] == nd, 'layout', f'rank {rk}: {d}')
            if all(b['f'] not in ('La', 'H') for b in s['bases']):
                doms = [gen.dom(b) for b in s['bases']]
                close(np.array(d['domains']), np.array(doms, dtype=float), f'rank {rk}: domains', 'layout')
                close(d['volume'], np.prod([b - a for a, b in doms]), f'rank {rk}: volume', 'layout')
            need(d['np_axes'] == fam_np, 'layout', f'rank {rk}: non-periodic axes {d["np_axes"]}')
            need(d['slices'] == tuple((0, n) for n in dims), 'layout', f'rank {rk}: dof slices {d["slices"]}')
        for ph in ('complex' if gen.is_complex(s) else 'real',):
            for rk, d in r[('T', 'layout')].items():
                need((d[False]['dt'] in 'FDG') == (ph == 'complex'), 'layout', f'rank {rk}: physical arrays have type {d[False]["dt"]}')
                need((d[True]['dt'] in 'FDG') == gen.spec_complex(s), 'layout', f'rank {rk}: spectral arrays have type {d[True]["dt"]}')
        # meshes
        tg, rg = m.tgrid(), m.grid()
        for rk in range(P):
            sl = lay[rk][False]['sl']
            for a in range(nd):
                shp = [1] * nd
                shp[a] = -1
                ref = tg[a][slice(*sl[a])].reshape(shp)
                close(r[('mesh', False, 'quadrature')][rk][a], ref, f'rank {rk}: local mesh of axis {a}', 'mesh')
                close(r[('mesh', True, 'quadrature')][rk][a], np.broadcast_to(ref, lay[rk][False]['shape']),
                      f'rank {rk}: broadcast local mesh of axis {a}', 'mesh')
                close(r['refmesh'][rk][a], rg[a][slice(*sl[a])].reshape(shp), f'rank {rk}: reference mesh of axis {a}', 'mesh')
                close(r['gmesh'][rk][a].ravel(), tg[a], f'rank {rk}: global mesh of axis {a}', 'mesh')
                if s['bases'][a]['f'] not in ('La', 'H'):
                    g = r['gmeshu'][rk][a].ravel()
                    lo, hi = gen.dom(s['bases'][a])
                    n = psh[a]
                    e = lo + (hi - lo) * np.arange(n) / (n if s['bases'][a]['f'] == 'F' else n - 1)
                    close(g, e, f'rank {rk}: uniform mesh of axis {a}', 'mesh')
                    close(r[('mesh', False, 'uniform')][rk][a], e[slice(*sl[a])].reshape(shp), f'rank {rk}: local uniform mesh of axis {a}', 'mesh')
                    close(r[('mesh', True, 'uniform')][rk][a], np.broadcast_to(e[slice(*sl[a])].reshape(shp), lay[rk][False]['shape']),
                          f'rank {rk}: broadcast uniform mesh of axis {a}', 'mesh')
        ut = []
        for a, b in enumerate(s['bases']):
            if b['f'] not in ('La', 'H'):
                lo, hi = gen.dom(b)
                ut.append(lo + (hi - lo) * np.arange(psh[a]) / (psh[a] if b['f'] == 'F' else psh[a] - 1))
        for kind, x in (('quadrature', tg),) + ((('uniform', ut),) if len(ut) == nd else ()):
            cart = gen.cart(s, np.meshgrid(*x, indexing='ij'))
            for rk in range(P):
                for a in range(nd):
                    close(r[('cart', kind)][rk][a], cart[a][tuple(slice(*q) for q in lay[rk][False]['sl'])], f'rank {rk}: Cartesian {kind} mesh of axis {a}', 'mesh')
                    close(r[('gcart', kind)][rk][a], cart[a], f'rank {rk}: global Cartesian {kind} mesh of axis {a}', 'mesh')
        if s.get('cm'):
            env.probe('map_' + s['cm']['k'])
        # wavenumbers
        for rk in range(P):
            sl = lay[rk][True]['sl']
            for a, b in enumerate(s['bases']):
                for br in (False, True)[:1 if any(q.get('bc') for q in s['bases']) else 2]:
                    for sc in (False, True):
                        for el in (False, True):
                            k = oracle.wavenumbers(b).copy() if b['f'] == 'F' else np.arange(b['N'] - gen.numbc(b)).astype(float)
                            if b['f'] == 'F':
                                if el and b['N'] % 2 == 0:
                                    k[b['N'] // 2] = 0
                                if sc:
                                    k = k * oracle.dfac(b)
                            elif sc:
                                continue
                            shp = [1] * nd
                            shp[a] = -1
                            ref = k[slice(*sl[a])].reshape(shp)
                            if br:
                                ref = np.broadcast_to(ref, lay[rk][True]['shape'])
                            close(r[('wn', br, sc, el)][rk][a], ref, f'rank {rk}: local wavenumbers of axis {a} (broadcast={br} scaled={sc} '
                                  f'without highest={el})', 'wavenumbers')
        env.probe('mesh')
        for i, w in enumerate(cfg.get('wraps', ())):
            n = ncomp(w, nd)
            for rk, d in r[('wrap', i)].items():
                for sp in (False, True):
                    e, q = d[sp], lay[rk][sp]
                    g = ssh if sp else psh
                    need(e['n'] == n and e['flat'] == n, 'layout', f'rank {rk}: {w} has {e["n"]} components instead of {n}')
                    if not sp:
                        need(tuple(e['shape']) == (n,) + tuple(q['shape']), 'layout', f'rank {rk}: {w} has shape {e["shape"]}, {n} components of {q["shape"]}')
                    else:
                        need(int(np.sum([np.prod(x) for x in e['shape']]) if isinstance(e['shape'], list) else np.prod(e['shape'])) == n * int(np.prod(q['shape'])), 'layout',
                             f'rank {rk}: {w} has spectral shape {e["shape"]}, {n} components of {q["shape"]}')
                    need(int(np.prod(e['arr'])) == n * int(np.prod(q['shape'])) and tuple(e['arr'])[-nd:] == tuple(q['shape']), 'layout',
                         f'rank {rk}: array of {w} has shape {e["arr"]}, scalar part {q["shape"]}')
                    need(tuple(e['sl'][-nd:]) == tuple(q['sl']), 'layout', f'rank {rk}: local slice of {w} is {e["sl"]}, scalar {q["sl"]}')
                    need(tuple(e['glob'])[-nd:] == tuple(g), 'layout', f'rank {rk}: global shape of {w} is {e["glob"]}, scalar {g}')
                need(r[('view', i)][rk], 'layout', f'rank {rk}: components of {w} are not consecutive parts of its data')
            env.probe('composite')
        for i, pf in enumerate(cfg.get('pads', ())):
            pp = tuple(gen.phys_size(b, f) for b, f in zip(s['bases'], pf))
            
            for d in r[(('pad', i), 'layout')].values():
                # along its transformed axis a padded space reports the padded extent; slicing clips it
                d[True]['sl'] = tuple((a, min(b, n)) for (a, b), n in zip(d[True]['sl'], ssh))
            lp = self.layout(r[(('pad', i), 'layout')], P, pp, ssh, f'space padded by {pf}')
            for rk in range(P):
                need(lp[rk][True]['sl'] == lay[rk][True]['sl'], 'layout',
                     f'rank {rk}: padded space has spectral slice {lp[rk][True]["sl"]}, original {lay[rk][True]["sl"]}')
                for a, x in enumerate(m.tgrid(pf)):
                    shp = [1] * nd
                    shp[a] = -1
                    close(r[('padmesh', i)][rk][a], x[slice(*lp[rk][False]['sl'][a])].reshape(shp), f'rank {rk}: padded mesh of axis {a}', 'mesh')
                if cfg.get('padwrap'):
                    a, b, c, d = r[('padvec', i)][rk]
                    need(a == (nd,) + c and b == (nd,) + d, 'layout', f'rank {rk}: padded vector space has shapes {a}, {b}; scalar {c}, {d}')
            env.probe('padded')

    def layout(self, rec, P, psh, ssh, what):
        need(set(rec) == set(range(P)), 'layout', f'{what}: only ranks {sorted(rec)} reported')
        for sp, g in ((False, psh), (True, ssh)):
            name = f'{what}, {"spectral" if sp else "physical"}'
            parts = {}
            for rk, d in rec.items():
                e = d[sp]
                need(e['glob'] == g and tuple(e['aglob']) == g, 'layout', f'{name}: global shape {e["glob"]}/{e["aglob"]} on rank {rk} instead of {g}')
                sh = tuple(b - a for a, b in e['sl'])
                need(e['shape'] == sh and e['arr'] == sh and e['inp'] == sh and e['out'] == sh and e['asl'] == e['sl'], 'layout',
                     f'{name}: rank {rk} says shape {e["shape"]}, slice {e["sl"]}/{e["asl"]}, arrays {e["arr"]}, work arrays {e["inp"]} {e["out"]}')
                need(e['size'] == int(np.prod(sh)), 'layout', f'{name}: size {e["size"]} for {sh} on rank {rk}')
                need(e['arr0'], 'layout', f'{name}: a new array is not zero on rank {rk}')
                parts[rk] = (e['sl'], np.zeros(sh))
            oracle.assemble(parts, g, name)
        return rec

    def probes_expected(self):
        return ['mesh', 'composite', 'padded', 'map_sep', 'map_pol']


PROPERTY = C01
