"""C15: results do not depend on what happened before"""
import copy
import os

from .. import gen, ops
from ..runner import Property
from ..oracle import need


def prog(ctx, cfg):
    p = ops.Pool(ctx, cfg, ctx.comm, 'o')
    p.run(cfg['ops'], cfg.get('only'))
    if cfg.get('only') is None:
        p.check_kept()


class C15(Property):
    id = 'C15'
    quick_runs = 170
    thorough_runs = 20000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'scipy.sparse (SuperLU)', 'h5py (files of the simulated parallel HDF5)')
    stub = ('MPI library', 'parallel HDF5 driver')
    assumptions = ('an operation performed alone in a new process is the reference for the same operation after others',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        D, O = dict(f='L', N=8, bc='DD'), dict(f='C', N=9)
        for P in (1, 2, 4):
            for bases, ax in (([C, R], None), ([D, R], None), ([C, C, R], None), ([R, O], [1, 0]), ([C, D, R], [1, 0, 2])):
                s = dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}))
                nd = len(bases)
                pad = dict(op='pad', sp=0, n=0, how=0, pf=[1.5] * nd)
                for seq in ([dict(pad, seed=1), dict(pad, seed=2, pf=[2] * nd), dict(pad, seed=1), dict(op='bwd', sp=0, n=0, how=0, seed=4), dict(pad, seed=5, n=1)],
                            [dict(op='dot', sp=0, n=1, how=0, seed=1), dict(op='dot', sp=0, n=1, how=0, seed=2), dict(op='der', sp=0, n=0, how=0, seed=3, kind='orthogonal'),
                             dict(pad, seed=3), dict(op='conv', sp=0, n=1, how=0, seed=2, pf=[1.5] * nd)],
                            [dict(op=k, sp=0, n=n, how=h, seed=10 * h + n, ax=0, out=0, kind='refined') for n in (0, 1) for h in (0, 2) for k in ('lin', 'mat', 'slv', 'prj')],
                            [dict(op=k, sp=0, n=0, how=h, seed=h, ax=0, out=0, kind='refined', npts=2, dN=[1] * nd) for h in (0, 2) for k in
                             ('inn', 'prj', 'eval', 'ref', 'int', 'etd', 'h5', 'der')]):
                    c = dict(P=P, spaces=[s], policy='random', ops=[ops.clean(dict(o), s) for o in seq if ops.usable(o, s)])
                    c['ref'] = list(range(len(c['ops'])))[-4:]
                    if c['ops'] and gen.fits(s, P):
                        out.append(c)
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        sp = ops.rspaces(rng, P)
        n = rng.randint(3, 9)
        seq = []
        focus = rng.sample(sorted(ops.OPS), 4) if rng.random() < 0.5 else None
        for _ in range(n):
            w = {k: (v + (12 if focus and k in focus else 0)) for k, v in ops.OPS.items()}
            o = ops.rop(rng, sp, w)
            if seq and rng.random() < 0.35:
                # the same again, with other data
                q = copy.deepcopy(rng.choice(seq))
                q['seed'] = rng.choice((q['seed'], rng.randrange(10**5)))
                if rng.random() < 0.3:
                    q['sp'] = rng.randrange(len(sp))
                if rng.random() < 0.3:
                    q['n'] = rng.choice((0, 1))
                if len(sp[q['sp']]['bases']) == len(sp[seq[0]['sp']]['bases']) and ops.usable(q, sp[q['sp']]) and self.fits(q, sp):
                    o = ops.clean(q, sp[q['sp']])
            seq.append(o)
        cfg = dict(P=P, spaces=sp, ops=seq)
        k = list(range(n))
        rng.shuffle(k)
        cfg['ref'] = sorted(k[:3])
        return gen.sched(rng, cfg)

    @staticmethod
    def fits(q, sp):
        nd = len(sp[q['sp']]['bases'])
        return all(len(q[k]) == nd for k in ('pf', 'dN') if k in q) and q.get('ax', 0) < nd

    def shrink(self, cfg):
        n = len(cfg['ops'])
        for i in range(n):
            if n > 1 and cfg['ref'] != [i]:
                c = copy.deepcopy(cfg)
                del c['ops'][i]
                c['ref'] = [r - (r > i) for r in c['ref'] if r != i]
                yield c
        for r in cfg['ref']:
            if len(cfg['ref']) > 1:
                c = copy.deepcopy(cfg)
                c['ref'] = [r]
                yield c
        for c in super().shrink(dict(cfg, ops=None)):
            c['ops'] = copy.deepcopy(cfg['ops'])
            yield c

    def run(self, env, cfg):
        if not all(gen.fits(s, cfg['P']) for s in cfg['spaces']):
            return
        kw = dict(gen.jobkw(cfg), shuffle=False, step_cap=300000)
        d = env.dir()

        def job(k, c):
            w = os.path.join(d, str(k))
            os.mkdir(w)
            return env.job(cfg['P'], prog, c, cwd=w, **kw).records
        a = job('a', cfg)
        for i in cfg['ref']:
            if i >= len(cfg['ops']):
                continue
            c = dict(cfg, only=[i])
            b = job(i, c)
            n = ops.compare(a, b, 'o', i, f'operation {i} ({cfg["ops"][i]["op"]})')
            if n:
                env.probe(cfg['ops'][i]['op'])
        env.probe('programs')

    def probes_expected(self):
        return [k for k in ops.OPS]


PROPERTY = C15
