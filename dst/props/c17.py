"""C17: spaces on separate communicators do not interfere"""
import copy
import os

from .. import gen, ops
from ..runner import Property


def prog(ctx, cfg):
    from mpi4py import MPI
    W = MPI.COMM_WORLD
    comms = {}
    # all groups of one division are made by one collective call
    for d in sorted({p['div'] for p in cfg['pools'].values() if 'div' in p}):
        mine = [n for n, p in cfg['pools'].items() if p.get('div') == d and ctx.rank in p['ranks']]
        key = cfg['pools'][mine[0]]['ranks'].index(ctx.rank) if mine else 0
        names = sorted(n for n, p in cfg['pools'].items() if p.get('div') == d)
        c = W.Split(names.index(mine[0]) if mine else MPI.UNDEFINED, key)
        if mine:
            comms[mine[0]] = c
    pools = {}
    for name, p in cfg['pools'].items():
        if ctx.rank not in p['ranks']:
            continue
        comm = W if p['how'] == 'world' else MPI.COMM_SELF if p['how'] == 'self' else comms[name]
        pools[name] = ops.Pool(ctx, dict(cfg, spaces=p['spaces']), comm, name)
    for name, i in cfg['plan']:
        if name in pools:
            with ctx.fence(cfg['pools'][name]['ranks']):
                pools[name].one(i, cfg['pools'][name]['ops'][i])
            for q in pools.values():
                q.check_kept()


def alone(ctx, cfg):
    p = ops.Pool(ctx, cfg, ctx.comm, cfg['name'])
    for i, op in enumerate(cfg['ops']):
        p.one(i, op)


W = {k: v for k, v in ops.OPS.items() if k not in ('h5', 'chk')}


class C17(Property):
    id = 'C17'
    quick_runs = 240
    thorough_runs = 20000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'scipy.sparse (SuperLU)', 'h5py (files of the simulated parallel HDF5)')
    stub = ('MPI library', 'parallel HDF5 driver')
    assumptions = ('the same program on a world of just that many processes is the reference of a group',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        D, O = dict(f='L', N=8, bc='DD'), dict(f='C', N=9)
        for P, groups in ((2, [[0], [1]]), (3, [[0, 1], [2]]), (4, [[0, 1], [3, 2]]), (4, [[1, 2], [0, 3]]), (3, [[2, 0]]), (4, [[2, 1, 3], [0]])):
            for bases, ax in (([C, R], None), ([D, R], None), ([C, C, R], None), ([R, O], [1, 0]), ([C, D, R], [1, 0, 2])):
                s = dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}))
                nd = len(bases)
                for names in (('lin', 'mat', 'slv', 'prj', 'inn', 'int'), ('eval', 'dxeval', 'ref', 'ort', 'der', 'mesh', 'msk'),
                              ('etd', 'new', 'dot', 'conv', 'pad', 'bwd', 'fwd')):
                    pools, plan = {}, []
                    for g, ranks in enumerate(groups):
                        seq = [dict(op=k, sp=0, n=n, how=h, seed=10 * h + n + g, ax=0, out=0, npts=2, kind='refined', dN=[1] * nd, pf=[1.5] * nd)
                               for k in names for h, n in ((0, 0), (1, 1), (2, 0))]
                        seq = [ops.clean(dict(o), s) for o in seq if ops.usable(o, s)]
                        # different groups do different amounts of work
                        seq = seq[g:len(seq) - g] if len(seq) > 2 * g else seq
                        pools[f'g{g}'] = dict(how='split' if len(ranks) > 1 or g % 2 == 0 else 'self', div=0, ranks=ranks, spaces=[s], ops=seq)
                        if pools[f'g{g}']['how'] == 'self':
                            pools[f'g{g}'].pop('div')
                        plan += [[f'g{g}', i] for i in range(len(seq))]
                    if all(p['ops'] and gen.fits(s, len(p['ranks'])) for p in pools.values()):
                        out.append(dict(P=P, pools=pools, plan=plan, policy='random'))
        out = out[::2]
        # files are opened by the whole world: see known_findings.json
        for k in ('h5', 'chk'):
            s = dict(bases=[dict(C), dict(R)])
            out.insert(1, dict(P=2, pools={'g0': dict(how='split', div=0, ranks=[0], spaces=[s], ops=[dict(op=k, sp=0, n=0, how=0, seed=1)])},
                               plan=[['g0', 0]], policy='random'))
        return out

    def gen(self, rng):
        P = max(2, gen.ranks(rng))
        pools = {}
        for d in range(rng.choice((1, 1, 1, 2))):
            ranks = list(range(P))
            if rng.random() < 0.6:
                rng.shuffle(ranks)
            if rng.random() < 0.25:
                ranks = ranks[:max(1, P - rng.randint(1, 2))]
            g = 0
            while ranks:
                n = rng.randint(1, len(ranks)) if g or len(ranks) == 1 else rng.randint(1, len(ranks) - 1)
                pools[f'g{d}{g}'] = dict(how='split', div=d, ranks=ranks[:n])
                ranks = ranks[n:]
                g += 1
        for r in range(P):
            if rng.random() < 0.3:
                pools[f's{r}'] = dict(how='self', ranks=[r])
        if rng.random() < 0.4:
            pools['w'] = dict(how='world', ranks=list(range(P)))
        names = list(pools)
        if len(names) > 4:
            for n in rng.sample(names, len(names) - 4):
                del pools[n]
        common = None
        for n, p in pools.items():
            q = len(p['ranks'])
            if common is not None and rng.random() < 0.5 and all(gen.fits(s, q) for s in common):
                p['spaces'] = copy.deepcopy(common)
            else:
                p['spaces'] = ops.rspaces(rng, q)
            common = p['spaces']
            p['ops'] = [ops.rop(rng, p['spaces'], W if n != 'w' and P > 1 else ops.OPS) for _ in range(rng.randint(1, 4))]
        plan = []
        todo = {n: 0 for n in pools}
        while todo:
            n = rng.choice(sorted(todo))
            plan.append([n, todo[n]])
            todo[n] += 1
            if todo[n] == len(pools[n]['ops']):
                del todo[n]
        return gen.sched(rng, dict(P=P, pools=pools, plan=plan))

    def shrink(self, cfg):
        for n in list(cfg['pools']):
            if len(cfg['pools']) > 1:
                c = copy.deepcopy(cfg)
                del c['pools'][n]
                c['plan'] = [x for x in c['plan'] if x[0] != n]
                yield c
        if len(cfg['plan']) > 1:
            for k in range(len(cfg['plan'])):
                c = copy.deepcopy(cfg)
                n, i = c['plan'].pop(k)
                del c['pools'][n]['ops'][i]
                c['plan'] = [[m, j - (m == n and j > i)] for m, j in c['plan']]
                if c['pools'][n]['ops']:
                    yield c
        if cfg.get('policy', 'serial') != 'serial':
            yield dict(cfg, policy='serial')
        if cfg.get('faults'):
            yield dict(cfg, faults={})

    def run(self, env, cfg):
        if not all(gen.fits(s, len(p['ranks'])) for p in cfg['pools'].values() for s in p['spaces']):
            return
        d = env.dir()

        def job(k, P, f, c, **kw):
            w = os.path.join(d, k)
            os.mkdir(w)
            return env.job(P, f, c, cwd=w, step_cap=400000, **kw).records
        a = job('all', cfg['P'], prog, cfg, **gen.jobkw(cfg))
        for n, p in cfg['pools'].items():
            b = job(n, len(p['ranks']), alone, dict(spaces=p['spaces'], ops=p['ops'], name=n), cart_reorder=False, shuffle=False)
            for i, o in enumerate(p['ops']):
                if ops.compare(a, b, n, i, f'operation {i} ({o["op"]}) of {n} on processes {p["ranks"]} and alone'):
                    env.probe(o['op'])
            env.probe(p['how'])

    def probes_expected(self):
        return [k for k in ops.OPS] + ['split', 'self', 'world']


PROPERTY = C17
