"""C11: a checkpoint on disk survives a crash and restarts the same simulation"""
import copy
import os
import shutil

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need
from ..errors import Violation

DT = 0.125


def factor(name, n):
    """What field `name` is multiplied with by step n"""
    return 1 + 0.1 * np.sin(n + len(name) + ord(name[0]))


def comps(cfg, rank):
    return len(cfg['space']['bases'])**rank


def initial(cfg, i, k):
    return Model(cfg['space']).random_coefs(cfg['seed'] + 31 * i + 7 * k, nyquist=True)


def state(cfg, i, n):
    """Field i after step n, all components, on one process"""
    name, rank = cfg['fields'][i][:2]
    g = np.prod([factor(name, j) for j in range(1, n + 1)]) if n else 1.0
    a = np.array([initial(cfg, i, k) * g for k in range(comps(cfg, rank))])
    return a if rank else a[0]


def make(sf, T, rank):
    return T if not rank else sf.VectorSpace(T) if rank == 1 else sf.TensorSpace(T)


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun.io import Checkpoint
    T = gen.build(sf, ctx.comm, cfg['space'])
    nd = T.dimensions
    us, olds = [], []
    data = {'0': {}}
    for i, (name, rank, keep) in enumerate(cfg['fields']):
        V = make(sf, T, rank)
        u = sf.Function(V)
        us.append(u)
        data['0'][name] = [u]
        if keep:
            o = sf.Function(V)
            olds.append(o)
            data.setdefault('1', {})[name] = [o]
        else:
            olds.append(None)
    chk = Checkpoint('sim', checkevery=cfg['every'], data=data)
    n, t = 0, 0.0
    try:
        if cfg['phase'] and cfg['have']:
            rd = Checkpoint('sim') if cfg.get('other') else chk
            for i, (name, rank, keep) in enumerate(cfg['fields']):
                rd.read(us[i], name)
                if keep:
                    rd.read(olds[i], name, step=1)
            rd.open()
            n, t = int(rd.f.attrs['tstep']), float(rd.f.attrs['t'])
            rd.close()
            ctx.rec('start', (n, t))
        else:
            for i, (name, rank, keep) in enumerate(cfg['fields']):
                flat = np.asarray(us[i]).view(np.ndarray).reshape((-1,) + T.shape(True))
                for k in range(len(flat)):
                    progs.put(T, flat[k], initial(cfg, i, k))
        while n < cfg['end']:
            n += 1
            t += DT
            for i, (name, rank, keep) in enumerate(cfg['fields']):
                if keep:
                    olds[i][:] = us[i]
                us[i] *= factor(name, n)
            if cfg.get('work'):
                us[0].backward()
            ctx.rec(('try', n), 1)
            chk.update(t, n)
            ctx.rec(('done', n), 1)
    except OSError:
        if not cfg['phases'][cfg['phase']].get('enospc'):
            raise
        ctx.rec('oserror', 1)
        ctx.sim.die()
    except SystemExit as e:
        # the launcher ends the other processes when one leaves with an error
        ctx.rec('exit', (n, e.code))
        ctx.sim.leave(e.code)
        return
    ctx.rec('end', (n, t))
    for i in range(len(us)):
        for k, f in enumerate(np.array(us[i]).reshape((-1,) + T.shape(True))):
            progs.rec_local(ctx, ('u', i, k), T, f, True)


def look(cfg, path, wanted):
    """Step of the complete checkpoint in a file, or None and why it is not"""
    import h5py
    if not os.path.exists(path):
        return None, 'missing'
    try:
        f = h5py.File(path, 'r')
    except OSError as e:
        return None, f'unreadable: {e}'
    with f:
        try:
            n, t = int(f.attrs['tstep']), float(f.attrs['t'])
            if n not in wanted:
                return None, f'of step {n}'
            if abs(t - n * DT) > 1e-10:
                return None, f'of step {n} has time {t}'
            for i, (name, rank, keep) in enumerate(cfg['fields']):
                for j in range(2 if keep else 1):
                    d = f[f'{name}/{j}'][...]
                    ref = state(cfg, i, n - j)
                    if d.shape != ref.shape or np.max(abs(d - ref)) > 1e-12 * max(1, np.max(abs(ref))):
                        return None, f'has step {n}, but field {name}/{j} is not of that step'
        except KeyError as e:
            return None, f'incomplete: {e}'
    return n, 'complete'


class C11(Property):
    id = 'C11'
    quick_runs = 450
    thorough_runs = 50000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'HDF5 library (serial)', 'files in a scratch directory')
    stub = ('MPI library', 'parallel access to HDF5 files', 'shell commands', 'crash of a file that is being written')
    assumptions = ('a crash ends the processes but not the operating system: what was handed to the system before survives',
                   'an HDF5 file that was not closed is left as it was, with all, with some of the changes, or unreadable',
                   'the user restarts from X.chk.h5 or, if that is missing or unreadable, from X.old.chk.h5')

    def corners(self):
        out = []
        s = dict(bases=[dict(f='F', N=6, cx=1), dict(f='C', N=8, bc='DD', v=[1, 2]), dict(f='F', N=6, cx=0)], axes=[1, 0, 2])
        s2 = dict(bases=[dict(f='C', N=8), dict(f='F', N=8, cx=0)])
        for P, Q in ((1, 2), (2, 1), (2, 4), (3, 2)):
            for n in range(4, 60, 5):
                out.append(dict(P=P, policy='random', space=copy.deepcopy(s2), fields=[['U', 1, 0], ['T', 0, 1]], every=2, end=6, seed=n,
                                phases=[dict(P=P, io_kill=n * P, torn=n % 4), dict(P=Q, io_kill=(n // 2) * Q), dict(P=P)]))
            for n in range(0, 12, 2):
                out.append(dict(P=P, policy='random', space=copy.deepcopy(s), fields=[['U', 0, 0]], every=1, end=4, seed=n,
                                phases=[dict(P=P, enospc=[n, 3], torn=2), dict(P=Q)]))
        return [self.clean(c) for c in out if self.ok(c)]

    def clean(self, cfg):
        cfg['P'] = max(p['P'] for p in cfg['phases'])
        return cfg

    def ok(self, cfg):
        return all(gen.fits(cfg['space'], p['P']) for p in cfg['phases'])

    def gen(self, rng):
        while True:
            P = gen.ranks(rng)
            s = gen.space(rng, P=P)
            fields = []
            for name in rng.sample(['U', 'phi', 'T', 'W'], rng.choice((1, 1, 2, 3))):
                fields.append([name, rng.choice((0, 0, 1, 1, 2)) if len(s['bases']) == 2 else rng.choice((0, 0, 1)), rng.choice((0, 0, 1))])
            every = rng.choice((1, 1, 2, 3))
            end = every * rng.randint(1, 4) + rng.randint(0, 2)
            cfg = dict(P=P, space=s, fields=fields, every=every, end=end, seed=rng.randrange(10**6))
            if rng.random() < 0.3:
                cfg['other'] = 1
            if rng.random() < 0.2:
                cfg['work'] = 1
            # I/O points of one process in one checkpoint
            one = 9 + sum((2 + 3) * (1 + f[2]) for f in fields)
            phases = []
            for i in range(rng.choice((1, 2, 2, 3, 4))):
                p = dict(P=P if i == 0 or rng.random() < 0.3 else gen.ranks(rng))
                x = rng.random()
                if x < 0.75:
                    p['io_kill'] = rng.randint(0, p['P'] * (one * (end // every) + end))
                elif x < 0.9:
                    p['enospc'] = [rng.randint(0, 2 * p['P'] * sum(1 + f[2] for f in fields) * (end // every)), rng.choice((1, 2, 5, 100))]
                else:
                    p['kill_at'] = [rng.randint(5, 400), rng.randrange(p['P']), rng.randint(0, 30)]
                p['torn'] = rng.choice((0, 1, 2, 2, 3))
                phases.append(p)
            phases.append(dict(P=P if rng.random() < 0.3 else gen.ranks(rng)))
            cfg['phases'] = phases
            self.clean(cfg)
            if self.ok(cfg):
                break
        return gen.sched(rng, cfg)

    def shrink(self, cfg):
        for i in range(len(cfg['phases'])):
            if len(cfg['phases']) > 1:
                c = copy.deepcopy(cfg)
                del c['phases'][i]
                yield self.clean(c)
            c = copy.deepcopy(cfg)
            if c['phases'][i]['P'] > 1:
                c['phases'][i]['P'] -= 1
                yield self.clean(c)
        if len(cfg['fields']) > 1:
            for i in range(len(cfg['fields'])):
                c = copy.deepcopy(cfg)
                del c['fields'][i]
                yield c
        for i, f in enumerate(cfg['fields']):
            for j in (1, 2):
                if f[j]:
                    c = copy.deepcopy(cfg)
                    c['fields'][i][j] = 0
                    yield c
        for k in ('other', 'work'):
            if cfg.get(k):
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c
        if cfg['end'] > cfg['every']:
            c = copy.deepcopy(cfg)
            c['end'] -= 1
            yield c
        for c in super().shrink(cfg):
            if len(c['space']['bases']) == len(cfg['space']['bases']) and c['P'] == cfg['P']:
                yield c

    def run(self, env, cfg):
        if not self.ok(cfg):
            env.probe('does_not_fit')
            return
        d = env.dir()
        chk, old = os.path.join(d, 'sim.chk.h5'), os.path.join(d, 'sim.old.chk.h5')
        last, have, started, tried = 0, None, 0, set()
        for i, p in enumerate(cfg['phases']):
            c = copy.deepcopy(cfg)
            c.update(phase=i, have=have is not None)
            kw = gen.jobkw(cfg)
            kw['faults'] = dict(kw.get('faults') or {}, **{k: p[k] for k in ('io_kill', 'enospc', 'kill_at', 'torn') if k in p})
            res = env.job(p['P'], prog, c, cwd=d, **kw)
            r = res.records
            if have is not None and 'start' in r:
                for k, v in r['start'].items():
                    need(v == (have, have * DT), 'restart', lambda: f'rank {k} restarts at step and time {v}, the checkpoint is of step {have}')
            steps = {n for key in r if isinstance(key, tuple) and key[0] == 'try' for n in (key[1],)}
            tried |= {n for n in steps if n % cfg['every'] == 0}
            done = [n for key, v in r.items() if isinstance(key, tuple) and key[0] == 'done' and len(v) == p['P'] for n in (key[1],)]
            done = max([n for n in done if n % cfg['every'] == 0], default=None)
            if done is not None:
                last = max(last, done) if have is not None or not i else done
            if res.status == 'ok':
                need('oserror' not in r, 'harness', 'finished after an error')
                for k, v in r['end'].items():
                    need(v == (cfg['end'], cfg['end'] * DT), 'result', lambda: f'rank {k} ends at step and time {v}')
                m = Model(cfg['space'])
                for a, (name, rank, keep) in enumerate(cfg['fields']):
                    ref = state(cfg, a, cfg['end']).reshape((-1,) + m.spec_shape())
                    for k in range(comps(cfg, rank)):
                        close(oracle.assemble(r[('u', a, k)], m.spec_shape(), name), ref[k], f'field {name} at the end of the run, after {i} crashes', 'result', tol=1e-12)
                env.probe('finished_after_%d_crashes' % min(i, 3))
            else:
                env.probe('crashed')
            # what is on disk
            ok = {n for n in tried if n >= last}
            if last > cfg['every']:
                ok.add(last - cfg['every'])
            n1, why1 = look(cfg, chk, ok)
            n2, why2 = look(cfg, old, ok)
            if last:
                need(n1 is not None or n2 is not None, 'lost', lambda: f'no complete checkpoint left of step {last} or later (or the one before): sim.chk.h5 {why1}; sim.old.chk.h5 {why2}')
            fits = n1 is not None or why1 == 'missing' or why1.startswith('unreadable')
            if last or n2 is not None:
                need(fits, 'mixed', lambda: f'sim.chk.h5 can be read, but {why1}; complete is sim.old.chk.h5 of step {n2}')
            if res.status == 'ok':
                need(last == 0 or n1 == last, 'lost', lambda: f'after the end of the run sim.chk.h5 {why1}, the last checkpoint was of step {last}')
            if n1 is not None:
                have = n1
                env.probe('restart_from_chk')
            elif n2 is not None:
                shutil.copyfile(old, chk)
                have = n2
                env.probe('restart_from_old')
            else:
                have = None
                for f in os.listdir(d):
                    os.remove(os.path.join(d, f))
                last, tried = 0, set()
            last = have or 0
            if res.status == 'ok':
                break

    def probes_expected(self):
        return ['finished_after_0_crashes', 'finished_after_1_crashes', 'finished_after_2_crashes', 'crashed', 'restart_from_chk']


PROPERTY = C11
