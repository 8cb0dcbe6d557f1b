"""C10: data files hold the global arrays and can be read on any number of processes"""
import copy
import os
import re
import xml.etree.ElementTree as ET

import numpy as np

from .. import gen, oracle
from ..runner import Property
from ..oracle import Model, close, need

NAMES = ('u', 'v', 'omega', 'T')


def sh(cfg, spec):
    f = gen.spec_size if spec else gen.phys_size
    return tuple(f(b) for b in cfg['space']['bases'])


def ncomp(cfg, rank):
    return len(cfg['space']['bases'])**rank


def is_complex(cfg, spec):
    s = cfg['space']
    return s.get('dtype') == 'D' or bool(any(b['f'] == 'F' for b in s['bases']) and (spec or all(b.get('cx') for b in s['bases'] if b['f'] == 'F')))


def data(cfg, i, step, w, cx):
    """Global values of field i as written by write number w"""
    f = cfg['fields'][i]
    rs = np.random.RandomState((cfg['seed'] + 101 * i + 1009 * step + 10007 * w) % 2**31)
    s = ((ncomp(cfg, f['rank']),) if f['rank'] else ()) + sh(cfg, f['spec'])
    a = rs.uniform(-1, 1, s)
    return a + 1j * rs.uniform(-1, 1, s) if cx else a


def sl(x):
    return [slice(None) if i is None else i for i in x]


def make(sf, T, f):
    V = T if not f['rank'] else sf.VectorSpace(T) if f['rank'] == 1 else sf.TensorSpace(T)
    return (sf.Function if f['spec'] else sf.Array)(V)


def fill(T, u, glob, f):
    ls = tuple(slice(*x) for x in oracle.sl2(T.local_slice(bool(f['spec']))))
    u[...] = glob[((slice(None),) if f['rank'] else ()) + ls]


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun.io import ShenfunFile, generate_xdmf
    s = dict(cfg['space'])
    if cfg['phase'] and cfg.get('axes2'):
        s['axes'] = cfg['axes2']
    T = gen.build(sf, ctx.comm, s)
    us = [make(sf, T, f) for f in cfg['fields']]
    cx = {bool(f['spec']): np.iscomplexobj(u) for f, u in zip(cfg['fields'], us)}
    if ctx.comm.Get_rank() == 0:
        ctx.rec('cx', [bool(np.iscomplexobj(u)) for u in us])
        ctx.rec('mesh', [np.squeeze(np.array(x)) for x in T.mesh(kind=cfg['mesh'])])
    if not cfg['phase']:
        files = {}
        for k in sorted({f['file'] for f in cfg['fields']}):
            files[k] = ShenfunFile(k, T, backend='hdf5', mode='w', mesh=cfg['mesh'])
        for w, (fi, step) in enumerate(cfg['writes']):
            d = {}
            for i, f in enumerate(cfg['fields']):
                if f['file'] != fi:
                    continue
                fill(T, us[i], data(cfg, i, step, w, np.iscomplexobj(us[i])), f)
                ll = [us[i]] if f.get('whole', 1) else []
                for x in f['slices']:
                    ll.append((us[i], sl(x)))
                d[f['name']] = ll
            if cfg.get('via') and all(f.get('whole', 1) and not f['slices'] for f in cfg['fields'] if f['file'] == fi):
                for i, f in enumerate(cfg['fields']):
                    if f['file'] == fi:
                        us[i].write(files[fi], f['name'], step, as_scalar=bool(f['sc']))
            else:
                files[fi].write(step, d, **({'as_scalar': True} if cfg['sc'][fi] else {}))
            for i, f in enumerate(cfg['fields']):
                # arrays are not changed by writing
                if f['file'] == fi:
                    ref = data(cfg, i, step, w, np.iscomplexobj(us[i]))
                    v = np.array(us[i])
                    fill(T, us[i], ref, f)
                    if not np.array_equal(v, np.array(us[i])):
                        ctx.fail('array-changed', f'writing changed field {f["name"]}')
        for n, (i, x) in enumerate(cfg.get('gets', ())):
            f = cfg['fields'][i]
            fill(T, us[i], data(cfg, i, 99, n, np.iscomplexobj(us[i])), f)
            g = us[i].get(tuple([slice(None)] * bool(f['rank']) + sl(x)))
            if ctx.comm.Get_rank() == 0:
                ctx.rec(('get', n), np.array(g))
    else:
        files = {k: ShenfunFile(k, T, backend='hdf5', mode='r', mesh=cfg['mesh']) for k in sorted({f['file'] for f in cfg['fields']})}
        for n, (i, step) in enumerate(cfg['reads']):
            f = cfg['fields'][i]
            us[i][...] = 7
            if f['sc'] and f['rank']:
                for k in range(ncomp(cfg, f['rank'])):
                    files[f['file']].read(us[i][k], f['name'] + str(k), step=step)
            elif cfg.get('via'):
                us[i].read(files[f['file']], f['name'], step=step)
            else:
                files[f['file']].read(us[i], f['name'], step=step)
            ctx.rec(('read', n), (oracle.sl2(T.local_slice(bool(f['spec']))), np.array(us[i])))
        ctx.comm.Barrier()
        if cfg.get('xdmf') and ctx.comm.Get_rank() == 0:
            generate_xdmf('a.h5', order=cfg['xdmf'])


class C10(Property):
    id = 'C10'
    quick_runs = 250
    thorough_runs = 50000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'HDF5 library (serial)', 'files in a scratch directory')
    stub = ('MPI library', 'parallel access to HDF5 files')
    assumptions = ('NetCDF4 is not installed, its files are not covered',)

    def corners(self):
        out = []
        for P, Q in ((1, 3), (2, 1), (3, 2), (4, 4), (6, 2)):
            for s in (dict(bases=[dict(f='F', N=6, cx=1), dict(f='C', N=8, bc='DD', v=[1, 2]), dict(f='F', N=7, cx=0)], axes=[1, 0, 2]),
                      dict(bases=[dict(f='F', N=8, cx=1), dict(f='L', N=9)], axes=[1, 0], dtype='D'), dict(bases=[dict(f='L', N=8, dom=1), dict(f='F', N=9, cx=0)])):
                nd = len(s['bases'])
                for sc in (0, 1):
                    for mesh in ('quadrature', 'uniform'):
                        c = dict(P=P, Q=Q, policy='random', space=copy.deepcopy(s), mesh=mesh, seed=len(out), sc={'a': sc, 'b': 0}, writes=[['a', 0], ['a', 2], ['a', 1], ['b', 0]],
                                 fields=[dict(name='u', rank=0, spec=0, file='a', sc=sc, slices=[[None] * (nd - 1) + [4]]), dict(name='v', rank=1, spec=0, file='a', sc=sc, slices=[]),
                                         dict(name='T', rank=1, spec=1, file='b', sc=0, slices=[[2] + [None] * (nd - 1)])],
                                 reads=[[0, 1], [1, 0], [2, 0], [0, 0]], gets=[[0, [3] + [None] * (nd - 1)]], axes2=list(range(nd))[::-1] if all(b['f'] != 'F' for b in s['bases']) else None)
                        if not is_complex(c, 0):
                            c['xdmf'] = 'paraview'
                        out.append(c)
        return [c for c in out if self.ok(c)]

    def ok(self, cfg):
        if not gen.fits(cfg['space'], cfg['P']):
            return False
        s = dict(cfg['space'])
        if cfg.get('axes2'):
            s['axes'] = cfg['axes2']
        return gen.fits(s, cfg['Q'])

    def gen(self, rng):
        while True:
            P, Q = gen.ranks(rng), gen.ranks(rng)
            s = gen.space(rng, P=P)
            nd = len(s['bases'])
            cfg = dict(P=P, Q=Q, space=s, mesh=rng.choice(('quadrature', 'uniform')), seed=rng.randrange(10**6))
            if any(b['f'] in ('La', 'H') for b in s['bases']):
                cfg['mesh'] = 'quadrature'
            sc = {'a': rng.choice((0, 0, 1)), 'b': rng.choice((0, 1))}
            cfg['sc'] = sc
            fields = []
            files = ['a'] if rng.random() < 0.6 else ['a', 'b']
            for i, name in enumerate(rng.sample(NAMES, rng.choice((1, 2, 2, 3)))):
                f = dict(name=name, rank=rng.choice((0, 0, 1, 1, 2)) if nd == 2 else rng.choice((0, 0, 1)), spec=rng.choice((0, 0, 0, 1)),
                         file=files[i % len(files)], slices=[])
                # the file records one mesh and is for one kind of array
                if any(g['file'] == f['file'] for g in fields):
                    f['spec'] = next(g['spec'] for g in fields if g['file'] == f['file'])
                f['sc'] = sc[f['file']]
                if f['sc'] and f['rank'] == 2:
                    # tensors are one vector of components in shenfun, mpi4py-fft asks for two indices
                    f['rank'] = 1
                n = [gen.spec_size(b) if f['spec'] else gen.phys_size(b) for b in s['bases']]
                for _ in range(rng.choice((0, 0, 1, 2))):
                    x = [None if rng.random() < 0.6 else rng.randrange(m) for m in n]
                    if x not in f['slices'] and not all(v is None for v in x) and not all(v is not None for v in x):
                        f['slices'].append(x)
                if f['slices'] and rng.random() < 0.3:
                    f['whole'] = 0
                fields.append(f)
            cfg['fields'] = fields
            files = sorted({f['file'] for f in fields})
            steps = rng.sample(range(5), rng.randint(1, 3))
            cfg['writes'] = [[k, n] for n in steps for k in files]
            if rng.random() < 0.3:
                cfg['writes'].append(rng.choice(cfg['writes']))
            whole = [i for i, f in enumerate(fields) if f.get('whole', 1)]
            cfg['reads'] = [[rng.choice(whole), rng.choice(steps)] for _ in range(rng.randint(1, 4))] if whole else []
            if rng.random() < 0.3:
                cfg['via'] = 1
            if rng.random() < 0.3:
                i = rng.randrange(len(fields))
                n = [gen.spec_size(b) if fields[i]['spec'] else gen.phys_size(b) for b in s['bases']]
                cfg['gets'] = [[i, [None if rng.random() < 0.5 else rng.randrange(m) for m in n]]]
                if all(v is not None for v in cfg['gets'][0][1]):
                    cfg['gets'][0][1][0] = None
            if rng.random() < 0.3:
                ax = list(range(nd))
                rng.shuffle(ax)
                if all(b['f'] != 'F' for b in s['bases']):
                    cfg['axes2'] = ax
            if rng.random() < 0.4 and not is_complex(cfg, 0) and not any(f['spec'] for f in fields if f['file'] == 'a'):
                cfg['xdmf'] = rng.choice(('visit', 'paraview'))
            if self.ok(cfg):
                break
        return gen.sched(rng, cfg)

    def shrink(self, cfg):
        if cfg['Q'] > 1:
            c = copy.deepcopy(cfg)
            c['Q'] -= 1
            yield c
        for k in ('writes', 'reads', 'gets'):
            for i in range(len(cfg.get(k, ()))):
                c = copy.deepcopy(cfg)
                del c[k][i]
                c['reads'] = [x for x in c['reads'] if [c['fields'][x[0]]['file'], x[1]] in c['writes']]
                yield c
        if len(cfg['fields']) > 1:
            for i in range(len(cfg['fields'])):
                c = copy.deepcopy(cfg)
                del c['fields'][i]
                for k in ('reads', 'gets'):
                    c[k] = [[x[0] - (x[0] > i), x[1]] for x in c.get(k, ()) if x[0] != i]
                c['writes'] = [x for x in c['writes'] if x[0] in {f['file'] for f in c['fields']}]
                if not any(f['file'] == 'a' for f in c['fields']):
                    c.pop('xdmf', None)
                yield c
        for i, f in enumerate(cfg['fields']):
            for j in range(len(f['slices'])):
                c = copy.deepcopy(cfg)
                del c['fields'][i]['slices'][j]
                c['fields'][i].pop('whole', None)
                yield c
        for k in ('via', 'axes2', 'xdmf'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c
        for c in super().shrink(cfg):
            if c['space'] == cfg['space']:
                yield c

    def run(self, env, cfg):
        import h5py
        if not self.ok(cfg):
            env.probe('does_not_fit')
            return
        d = env.dir()
        c = dict(copy.deepcopy(cfg), phase=0)
        r = env.job(cfg['P'], prog, c, cwd=d, **gen.jobkw(cfg)).records
        cx = next(iter(r['cx'].values()))
        mesh = next(iter(r['mesh'].values()))
        nd = len(cfg['space']['bases'])
        m = Model(cfg['space'])
        tg = m.tgrid()
        for a in range(nd):
            if cfg['mesh'] == 'quadrature':
                close(np.sort(mesh[a]), np.sort(tg[a]), f'mesh of axis {a}', 'mesh', tol=1e-9)
        for n, (i, x) in enumerate(cfg.get('gets', ())):
            f = cfg['fields'][i]
            ref = data(cfg, i, 99, n, cx[i])[tuple([slice(None)] * bool(f['rank']) + sl(x))]
            got = next(iter(r[('get', n)].values()))
            need(got.shape == ref.shape and np.array_equal(got, ref), 'get', lambda: f'global slice {x} of field {f["name"]} is not that of the array')
            env.probe('get')
        latest = {}
        for w, (fi, step) in enumerate(cfg['writes']):
            latest[(fi, step)] = w
        expected = {k: set() for k in ('a', 'b')}
        full = {}
        for i, f in enumerate(cfg['fields']):
            for (fi, step), w in latest.items():
                if fi != f['file']:
                    continue
                g = data(cfg, i, step, w, cx[i])
                parts = [(f['name'], g, 0 if not f['rank'] else 1)] if not (f['sc'] and f['rank']) else [(f['name'] + str(k), g[k], 0) for k in range(len(g))]
                if f.get('whole', 1):
                    full[(i, step)] = g
                for nm, arr, lead in parts:
                    if f.get('whole', 1):
                        expected[fi].add((f'{nm}/{nd}D/{step}'))
                        full[(fi, f'{nm}/{nd}D/{step}')] = arr
                    for x in f['slices']:
                        key = f"{nm}/{sum(v is None for v in x)}D/{'_'.join('slice' if v is None else str(v) for v in x)}/{step}"
                        expected[fi].add(key)
                        full[(fi, key)] = arr[tuple([slice(None)] * lead + sl(x))]
        for fi in sorted({f['file'] for f in cfg['fields']}):
            with h5py.File(os.path.join(d, fi + '.h5'), 'r') as h:
                found = []
                h.visititems(lambda n, o: found.append(n) if isinstance(o, h5py.Dataset) and '/mesh/' not in n and '/domain/' not in n else None)
                need(set(found) == expected[fi], 'file-contents', lambda: f'{fi}.h5 has {sorted(set(found) - expected[fi])} too much and lacks {sorted(expected[fi] - set(found))}')
                for n in found:
                    ref = full[(fi, n)]
                    v = h[n][...]
                    need(v.shape == ref.shape, 'file-shape', lambda: f'{fi}.h5:{n} has shape {v.shape} instead of {ref.shape}')
                    need(np.array_equal(v, ref), 'file-data', lambda: f'{fi}.h5:{n} differs from the global array in {int(np.sum(v != ref))} of {v.size} values, first at {tuple(np.argwhere(v != ref)[0])}')
                    grp = n.split('/')[0]
                    for a in range(nd):
                        need(np.array_equal(h[f'{grp}/mesh/x{a}'][...], mesh[a]), 'file-mesh', lambda: f'{fi}.h5: mesh of axis {a} of {grp} is not that of the space')
        env.probe('written')
        c['phase'] = 1
        r = env.job(cfg['Q'], prog, c, cwd=d, **gen.jobkw(cfg)).records
        for n, (i, step) in enumerate(cfg['reads']):
            f = cfg['fields'][i]
            ref = full[(i, step)]
            rec = r[('read', n)]
            for k in range(len(ref) if f['rank'] else 1):
                got = oracle.assemble({q: (v[0], v[1][k] if f['rank'] else v[1]) for q, v in rec.items()}, sh(cfg, f['spec']), f['name'])
                need(np.array_equal(got, ref[k] if f['rank'] else ref), 'read-data', lambda: f'field {f["name"]} of step {step}, component {k}, read on {cfg["Q"]} processes differs from what was written on {cfg["P"]}')
            env.probe('read')
        if cfg.get('xdmf'):
            self.xdmf(env, cfg, d, expected['a'], full)

    def xdmf(self, env, cfg, d, names, full):
        """What the XML files refer to exists, has the stated size, and nothing is left out"""
        import h5py
        seen = []
        with h5py.File(os.path.join(d, 'a.h5'), 'r') as h:
            for fn in sorted(os.listdir(d)):
                if not fn.endswith('.xdmf'):
                    continue
                root = ET.parse(os.path.join(d, fn)).getroot()
                for kind in ('Attribute', 'Geometry'):
                    for el in root.iter(kind):
                        for it in el.iter('DataItem'):
                            if it.get('Format') != 'HDF':
                                continue
                            file, path = it.text.strip().split(':')
                            need(file == 'a.h5' and path.strip('/') in h, 'xdmf', lambda: f'{fn} refers to {it.text.strip()} which does not exist')
                            size = np.prod([int(x) for x in it.get('Dimensions').split()])
                            need(size == h[path].size, 'xdmf', lambda: f'{fn}: {path} has {h[path].size} values, not {size}')
                            if kind == 'Attribute':
                                seen.append(path.strip('/'))
            want = [n for n in names if h[n.split('/')[0]].attrs['rank'] == 0 and int(n.split('/')[1][0]) in (2, 3)]
        need(sorted(seen) == sorted(want), 'xdmf', lambda: f'the XDMF files show {sorted(seen)} instead of {sorted(want)}')
        env.probe('xdmf')

    def probes_expected(self):
        return ['written', 'read', 'get', 'xdmf']


PROPERTY = C10
