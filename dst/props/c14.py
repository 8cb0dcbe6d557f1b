"""C14: every process takes part in every collective step, under every schedule"""
import copy
import os

from .. import gen, ops
from ..runner import Property
from .c15 import prog

POLICIES = ('serial', 'rr', 'reverse', 'random', 'pct')


class C14(Property):
    id = 'C14'
    quick_runs = 220
    thorough_runs = 20000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'scipy.sparse (SuperLU)', 'h5py (files of the simulated parallel HDF5)')
    stub = ('MPI library', 'parallel HDF5 driver')
    assumptions = ('processes run the same program; what differs is when each of them runs')

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        D, O = dict(f='L', N=8, bc='DD'), dict(f='C', N=9)
        D2 = dict(f='C', N=8, bc='DD', v=[1, 2])
        for P in (2, 3, 4, 6):
            for bases, ax in (([C, R], None), ([D, R], None), ([C, C, R], None), ([R, O], [1, 0]), ([C, D, R], [1, 0, 2]), ([D2, R], None), ([D, D, R], [0, 1, 2])):
                s = dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}))
                nd = len(bases)
                for names in (('lin', 'mat', 'slv', 'prj', 'inn', 'int'), ('eval', 'dxeval', 'ref', 'ort', 'der', 'mesh', 'msk'),
                              ('h5', 'chk', 'etd', 'new', 'dot', 'conv', 'pad', 'bwd', 'fwd')):
                    seq = [dict(op=k, sp=0, n=n, how=h, seed=10 * h + n, ax=0, out=0, npts=2, kind='refined', dN=[1] * nd, pf=[1.5] * nd)
                           for k in names for h, n in ((0, 0), (1, 1), (2, 0))]
                    seq = [ops.clean(dict(o), s) for o in seq if ops.usable(o, s)]
                    if seq and gen.fits(s, P):
                        out.append(dict(P=P, spaces=[s], policy='rr', policy2='pct', ops=seq))
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        if P == 1:
            P = 2
        sp = ops.rspaces(rng, P)
        seq = [ops.rop(rng, sp) for _ in range(rng.randint(2, 8))]
        cfg = dict(P=P, spaces=sp, ops=seq)
        if rng.random() < 0.3:
            cfg['share'] = 0
        cfg = gen.sched(rng, cfg)
        cfg['policy2'] = rng.choice([p for p in POLICIES if p != cfg['policy']])
        cfg['stall'] = rng.choice((0, 0.02, 0.1))
        return cfg

    def shrink(self, cfg):
        for c in super().shrink(cfg):
            yield c
        for k in ('stall', 'share', 'faults'):
            if cfg.get(k) not in (None, {}):
                yield {a: b for a, b in cfg.items() if a != k}

    def run(self, env, cfg):
        if not all(gen.fits(s, cfg['P']) for s in cfg['spaces']):
            return
        d = env.dir()

        def job(k, **kw):
            w = os.path.join(d, k)
            os.mkdir(w)
            return env.job(cfg['P'], prog, cfg, cwd=w, step_cap=400000, **kw).records
        a = job('a', policy=cfg['policy'], cart_reorder=False, shuffle=False)
        c = job('c', policy=cfg.get('policy2', 'pct'), faults={'stall_p': cfg.get('stall', 0)}, cart_reorder=not cfg.get('noreorder'))
        for i, o in enumerate(cfg['ops']):
            if ops.compare(a, c, 'o', i, f'operation {i} ({o["op"]}), other schedule', tol=1e-10):
                env.probe(o['op'])
        env.probe('programs')

    def probes_expected(self):
        return [k for k in ops.OPS]


PROPERTY = C14
