"""C12: asking a running simulation to stop stops all processes together"""
import copy
import os

from .. import gen, oracle
from ..oracle import Model, close, need
from . import c11

STOP = 'killshenfun'


class C12(c11.C11):
    id = 'C12'
    quick_runs = 450
    thorough_runs = 50000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = c11.C11.real
    stub = ('MPI library', 'parallel access to HDF5 files', 'the user who creates the stop file', 'the launcher that ends all processes when one fails')
    assumptions = ('each process looks at the directory itself, so the file may appear between any two of these looks',)

    def corners(self):
        out = []
        s = dict(bases=[dict(f='C', N=8), dict(f='F', N=8, cx=0)])
        for P in (1, 2, 3, 4):
            for n in range(0, 3 * P + 1):
                for pol in ('random', 'serial', 'reverse'):
                    out.append(dict(P=P, policy=pol, space=copy.deepcopy(s), fields=[['U', 0, 0]], every=2, end=4, seed=n,
                                    phases=[dict(P=P, touch=n), dict(P=max(1, P - 1))]))
            out.append(dict(P=P, policy='random', space=copy.deepcopy(s), fields=[['U', 0, 0]], every=5, end=4, seed=n, phases=[dict(P=P, touch=P, vanish=1), dict(P=P)]))
        return [c for c in out if self.ok(c)]

    def ok(self, cfg):
        return all(gen.fits(cfg['space'], p['P']) for p in cfg['phases'])

    def gen(self, rng):
        while True:
            P = gen.ranks(rng)
            s = gen.space(rng, P=P)
            fields = [[n, rng.choice((0, 0, 1)), rng.choice((0, 0, 1))] for n in rng.sample(['U', 'phi', 'T'], rng.choice((1, 1, 2)))]
            every = rng.choice((1, 2, 3, 5, 100))
            end = rng.randint(1, 8)
            phases = []
            for i in range(rng.choice((1, 1, 2, 3))):
                Q = P if i == 0 else gen.ranks(rng)
                phases.append(dict(P=Q, touch=rng.randint(0, Q * end)))
                if rng.random() < 0.15:
                    phases[-1]['vanish'] = 1
            phases.append(dict(P=gen.ranks(rng)))
            cfg = dict(P=max(p['P'] for p in phases), space=s, fields=fields, every=every, end=end, seed=rng.randrange(10**6), phases=phases)
            if self.ok(cfg):
                break
        return gen.sched(rng, cfg)

    def run(self, env, cfg):
        if not self.ok(cfg):
            env.probe('does_not_fit')
            return
        d = env.dir()
        chk = os.path.join(d, 'sim.chk.h5')
        have = None
        for i, p in enumerate(cfg['phases']):
            c = copy.deepcopy(cfg)
            c.update(phase=i, have=have is not None)
            kw = gen.jobkw(cfg)
            kw['faults'] = dict(kw.get('faults') or {}, **({'touch': (p['touch'], STOP, p.get('vanish', 0))} if 'touch' in p else {}))
            res = env.job(p['P'], c11.prog, c, cwd=d, **kw)
            r = res.records
            appeared = res.stats.get('stop_file', 0)
            tries = {}
            for key, v in r.items():
                if isinstance(key, tuple) and key[0] == 'try':
                    for k in v:
                        tries[k] = max(tries.get(k, 0), key[1])
            if 'exit' in r:
                need(appeared, 'stopped', lambda: f'processes {sorted(r["exit"])} leave without having been asked to')
                steps = {v[0] for v in r['exit'].values()}
                need(len(steps) == 1, 'stop-disagree', lambda: f'processes leave at different steps: { {k: v[0] for k, v in r["exit"].items()} }')
                n = steps.pop()
                need(max(tries.values()) == n, 'stop-disagree', lambda: f'processes {sorted(r["exit"])} leave at step {n}, but others have got to {tries}')
                n1, why = c11.look(cfg, chk, {n})
                need(n1 == n, 'stop-checkpoint', lambda: f'the processes left at step {n}, but the checkpoint {why}')
                need(not os.path.exists(os.path.join(d, STOP)), 'stop-file', 'the stop file is still there, a restart would stop at once')
                need('end' not in r, 'stop-disagree', lambda: f'processes {sorted(r["end"])} go on to the end, {sorted(r["exit"])} leave')
                env.probe('stopped')
                have = n
            else:
                need(res.status == 'ok', 'harness', lambda: f'job ended as {res.status}')
                need(not appeared, 'not-stopped', 'the stop file appeared before a process looked for it, but no process left')
                for k, v in r['end'].items():
                    need(v[0] == cfg['end'], 'result', lambda: f'rank {k} ends at step {v[0]}')
                m = Model(cfg['space'])
                for a, (name, rank, keep) in enumerate(cfg['fields']):
                    ref = c11.state(cfg, a, cfg['end']).reshape((-1,) + m.spec_shape())
                    for k in range(c11.comps(cfg, rank)):
                        close(oracle.assemble(r[('u', a, k)], m.spec_shape(), name), ref[k], f'field {name} at the end of the run', 'result', tol=1e-12)
                env.probe('restarted' if i else 'never_asked')
                return

    def probes_expected(self):
        return ['stopped', 'restarted', 'never_asked']


PROPERTY = C12
