"""Batches of simulated runs: workers, jobs, verdicts, minimisation, replay, evidence."""
import contextlib
import copy
import hashlib
import io
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from .errors import Violation, HarnessError

CPU_LIMIT = 240          # seconds of CPU one job may use before it counts as hung
WALL_LIMIT = 420         # seconds of wall time before the harness gives up on a job


class JobResult:
    def __init__(self, d):
        self.__dict__.update(d)


class Ctx:
    """What a simulated rank's program sees of the simulator"""

    def __init__(self, sim, rank, recs, probes):
        self.sim = sim
        self.rank = rank
        self.size = sim.P
        self._recs = recs
        self._probes = probes

    @property
    def comm(self):
        from mpi4py import MPI
        return MPI.COMM_WORLD

    @property
    def sf(self):
        import shenfun
        return shenfun

    def rec(self, key, value):
        """Hand a value to the oracle, outside the simulated network"""
        import numpy as np
        if isinstance(value, np.ndarray):
            value = np.array(value.view(np.ndarray) if type(value) is not np.ndarray else value)
        else:
            value = pickle.loads(pickle.dumps(value))
        self._recs.setdefault(key, {})[self.rank] = value

    def probe(self, name, n=1):
        self._probes[name] = self._probes.get(name, 0) + n

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    @contextlib.contextmanager
    def fence(self, members):
        """Until the end of the block this process may only communicate with these processes"""
        self.sim.fences[self.rank] = frozenset(members)
        try:
            yield
        finally:
            self.sim.fences[self.rank] = None

    def point(self, what='user'):
        """A point where other ranks may overtake"""
        self.sim.point(what, io=True)


class Env:
    """One run: hands out jobs and collects what happened in them"""

    def __init__(self, world, seed, traces=None, keep_log=False):
        self.world = world
        self.seed = seed
        self.given = traces
        self.traces = []
        self.stats = {}
        self.probes = {}
        self.digest = hashlib.sha256()
        self.sched = hashlib.sha256()
        self.steps = 0
        self.simtime = 0.0
        self.jobs = 0
        self.keep_log = keep_log
        self.logs = []
        self.scratch = None
        self.outcomes = {}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def dir(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='dst-run-', dir=SCRATCH)
        return self.scratch

    def cleanup(self):
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None

    def job(self, P, fn, cfg, policy='random', faults=None, allow=(), cwd=None, step_cap=60000,
            cart_reorder=True, setup=None, config=None, shuffle=True, hashorder=None):
        """Run fn(ctx, cfg) on P simulated ranks in a forked child; returns a JobResult.

        A violation or crash is raised here unless its kind is listed in `allow`.
        """
        idx = self.jobs
        self.jobs += 1
        trace = None
        if self.given is not None:
            trace = self.given[idx] if idx < len(self.given) else []
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0 and os.environ.get("DST_FH"):  # for debugging crashes
            import faulthandler
            faulthandler.enable(open("/tmp/fh.txt", "w"))
        if pid == 0:
            try:
                os.close(r)
                self._child(w, idx, trace, P, fn, cfg, policy, faults, cwd, step_cap, cart_reorder, setup, config, shuffle,
                            hashorder)
            finally:
                os._exit(0)
        os.close(w)
        data = self._read(r, pid)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if data is None or len(data) < 8:
            self.traces.append(trace or [])
            if os.WIFSIGNALED(status):
                s = os.WTERMSIG(status)
                kind = 'hang' if s == signal.SIGXCPU else 'crash'
                raise Violation(kind, f'the process running the ranks died of signal {s}')
            raise HarnessError(f'job child gave no result (status {status})')
        d = pickle.loads(data)
        self.traces.append(d['trace'])
        self.digest.update(d['log'].encode())
        self.sched.update(d['sched'].encode())
        for k, v in d['stats'].items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in d['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.steps += d['steps']
        self.simtime += d['clock']
        if self.keep_log:
            self.logs.append(d['keep_log'])
        res = JobResult(d)
        self.outcomes[d['status']] = self.outcomes.get(d['status'], 0) + 1
        if d['status'] == 'harness':
            raise HarnessError(d['message'])
        if d['status'] == 'violation' and d['kind'] not in allow:
            v = Violation(d['kind'], d['message'])
            v.tb = d.get('tb')
            raise v
        return res

    @staticmethod
    def _read(fd, pid):
        buf = io.BytesIO()
        t0 = time.monotonic()
        while True:
            rl, _, _ = select.select([fd], [], [], 5)
            if rl:
                b = os.read(fd, 1 << 20)
                if not b:
                    break
                buf.write(b)
            if time.monotonic() - t0 > WALL_LIMIT:
                os.kill(pid, signal.SIGKILL)
                raise HarnessError('a job exceeded its wall-time limit')
        return buf.getvalue()

    def _child(self, w, idx, trace, P, fn, cfg, policy, faults, cwd, step_cap, cart_reorder, setup, config, shuffle, hashorder):
        from . import simmpi, simio
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        devnull = os.open(os.devnull, os.O_WRONLY)
        if not os.environ.get('DST_SHOW'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        recs, probes = {}, {}
        d = dict(status='ok', message='', records=recs, probes=probes, trace=[], stats={}, log='', sched='', steps=0, clock=0.0,
                 kind=None)
        try:
            import numpy as np
            h = int.from_bytes(hashlib.sha256(f'{self.seed}:{idx}'.encode()).digest()[:8], 'big')
            ch = simmpi.Chooser(h, trace)
            os.chdir(cwd or self.dir_ro())
            sim = self.world.start(P, ch, policy=policy, faults=faults, step_cap=step_cap,
                                   cart_reorder=cart_reorder, reduction_shuffle=shuffle)
            self.world.entropy(h)
            self.world.state.hashorder = hashorder
            if self.keep_log:
                sim.keep_log = []
            sim.io = simio.install(sim, faults or {})
            if config:
                for r in range(P):
                    c = self.world.mods[r]['shenfun'].config
                    for path, val in config.items():
                        node = c
                        keys = path.split('.')
                        for k in keys[:-1]:
                            node = node[k]
                        node[keys[-1]] = val
            if setup:
                setup(sim)

            def main(r):
                fn(Ctx(sim, r, recs, probes), cfg)
            sim.run(main)
            sim.io.finish()
            sim.stats['hash_order'] = self.world.state.hash_shuffles
            d.update(trace=ch.trace, stats=dict(sim.stats), log=sim.log.hexdigest() + self._recdigest(recs),
                     sched=sim.sched.hexdigest(),
                     steps=sim.steps, clock=sim.state_.clock, keep_log=sim.keep_log,
                     comms_live=dict(sim.comms_live), types_live=dict(sim.types_live),
                     errors={rk.r: repr(rk.error) for rk in sim.ranks if rk.error is not None},
                     done=[rk.state == 'done' and rk.error is None for rk in sim.ranks])
            if sim.harness:
                d.update(status='harness', message=str(sim.harness) + '\n' + getattr(sim.harness, 'tb', ''))
            elif sim.violation:
                d.update(status='violation', kind=sim.violation.kind, message=sim.violation.msg,
                         tb=getattr(sim.violation, 'tb', ''))
            elif sim.killed:
                d.update(status='killed')
        except Exception as e:
            d.update(status='harness', message=f'{e!r}\n{traceback.format_exc()}')
        data = pickle.dumps(d, -1)
        while data:
            n = os.write(w, data)
            data = data[n:]
        os.close(w)
        os._exit(0)

    @staticmethod
    def _recdigest(recs):
        return hashlib.sha256(repr(sorted((str(k), sorted(v)) for k, v in recs.items())).encode()).hexdigest()[:8] + \
            hashlib.sha256(pickle.dumps([recs[k] for k in recs], 4)).hexdigest()[:8]

    def dir_ro(self):
        return EMPTY


SCRATCH = None
EMPTY = None


def init_scratch():
    global SCRATCH, EMPTY
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    SCRATCH = tempfile.mkdtemp(prefix='dst-', dir=base)
    EMPTY = os.path.join(SCRATCH, 'empty')
    os.mkdir(EMPTY)
    return SCRATCH


# --------------------------------------------------------------------------


class Property:
    """Base of every check"""
    id = None
    quick_runs = 200
    thorough_runs = 4000
    rule = ''
    real = ()
    stub = ()
    assumptions = ()
    level = 'exploration'

    def corners(self):
        return []

    def gen(self, rng):
        raise NotImplementedError

    def run(self, env, cfg):
        raise NotImplementedError

    def shrink(self, cfg):
        """Smaller configurations, most drastic first"""
        if isinstance(cfg.get('ops'), list) and len(cfg['ops']) > 1:
            n = len(cfg['ops'])
            k = n // 2
            while k >= 1:
                for i in range(0, n, k):
                    c = copy.deepcopy(cfg)
                    del c['ops'][i:i + k]
                    if c['ops']:
                        yield c
                k //= 2
        if cfg.get('faults'):
            for k in list(cfg['faults']):
                c = copy.deepcopy(cfg)
                del c['faults'][k]
                yield c
        if cfg.get('P', 1) > 1:
            for p in sorted({1, 2, cfg['P'] // 2, cfg['P'] - 1}):
                if 0 < p < cfg['P']:
                    c = copy.deepcopy(cfg)
                    c['P'] = p
                    yield c
        if cfg.get('policy', 'serial') != 'serial':
            c = copy.deepcopy(cfg)
            c['policy'] = 'serial'
            yield c
        if cfg.get('hashorder'):
            c = copy.deepcopy(cfg)
            del c['hashorder']
            yield c

    def nontrivial(self, cfg, env):
        return cfg.get('P', 2) > 1 or bool(cfg.get('faults'))

    def sample(self, cfg):
        return cfg

    def probes_expected(self):
        return []


def one_run(world, prop, seed, cfg, traces=None, keep_log=False):
    """Execute one run; returns a plain dict"""
    env = Env(world, seed, traces, keep_log)
    out = dict(seed=seed, status='ok')
    t0 = time.monotonic()
    try:
        prop.run(env, copy.deepcopy(cfg))
    except Violation as e:
        out.update(status='violation', kind=e.kind, message=e.msg[:2000], tb=(getattr(e, 'tb', None) or '')[-3000:])
    except (HarnessError, MemoryError) as e:
        out.update(status='harness', message=(str(e) or repr(e))[:4000])
    except Exception as e:
        # the oracle could not make sense of what the ranks reported
        out.update(status='violation', kind='oracle', message=f'{type(e).__name__}: {e}'[:2000], tb=traceback.format_exc()[-3000:])
    finally:
        env.cleanup()
    out.update(wall=time.monotonic() - t0, traces=env.traces, stats=env.stats, probes=env.probes,
               digest=env.digest.hexdigest(), sched=env.sched.hexdigest(), steps=env.steps, simtime=env.simtime,
               jobs=env.jobs, outcomes=env.outcomes, nontrivial=bool(prop.nontrivial(cfg, env)), logs=env.logs)
    return out


def cfg_for(prop, seed, index):
    corners = prop.corners()
    if index < len(corners):
        return corners[index]
    rng = random.Random(f'{prop.id}:{seed}:{index}')
    return prop.gen(rng)


def minimise(world, prop, seed, cfg, first, budget=60.0):
    """Shrink configuration, then schedule, while the same kind of violation persists"""
    t_end = time.monotonic() + budget
    kind = first['kind']
    tries = 0

    def fails(c, traces=None):
        nonlocal tries
        tries += 1
        o = one_run(world, prop, seed, c, traces)
        return o if o['status'] == 'violation' and o['kind'] == kind else None
    best, bo = cfg, first
    progress = True
    while progress and time.monotonic() < t_end:
        progress = False
        for c in prop.shrink(best):
            if time.monotonic() > t_end:
                break
            o = fails(c)
            if o:
                best, bo, progress = c, o, True
                break
    # schedule: zero choices, largest chunks first
    traces = [list(t) for t in bo['traces']]
    zero = [[] for _ in traces]
    if time.monotonic() < t_end:
        o = fails(best, zero)
        if o:
            return best, zero, o, tries
    for j in range(len(traces)):
        n = len(traces[j])
        k = max(n // 2, 1)
        while k >= 1 and time.monotonic() < t_end and n:
            i = 0
            while i < n and time.monotonic() < t_end:
                if any(traces[j][i:i + k]):
                    t = [list(x) for x in traces]
                    t[j][i:i + k] = [0] * len(t[j][i:i + k])
                    o = fails(best, t)
                    if o:
                        traces, bo = t, o
                i += k
            if k == 1:
                break
            k //= 4
            k = max(k, 1)
            if n // k > 64:
                break
        while traces[j] and traces[j][-1] == 0:
            traces[j].pop()
    o = fails(best, traces)
    if not o:
        return best, bo['traces'], bo, tries
    return best, traces, o, tries


def jdump(obj):
    import numpy as np

    def default(o):
        if isinstance(o, np.integer):
            return int(o)
        if isinstance(o, np.floating):
            return float(o)
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, complex):
            return [o.real, o.imag]
        return str(o)
    return json.dumps(obj, default=default, sort_keys=True)


def worker_main(prop, root, seed, indices, pipe_w, wid, deadline, stop_after=2):
    """A zygote: imports the packages P_MAX times, then forks one child per job"""
    from .world import World

    def send(o):
        b = pickle.dumps(o, -1)
        b = struct.pack('<Q', len(b)) + b
        while b:
            n = os.write(pipe_w, b)
            b = b[n:]
    try:
        # a lot of output of the code under test is of no interest here
        if not os.environ.get('DST_SHOW'):
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
        world = World(root)
    except BaseException:
        send(dict(index=-1, status='import', message=traceback.format_exc()[-4000:]))
        return
    from .main import load_known, matches
    known = load_known(prop.id)
    nv = 0
    stop_after = int(os.environ.get('DST_STOP', stop_after))
    for i in indices:
        if time.monotonic() > deadline:
            send(dict(index=i, status='skipped'))
            continue
        try:
            cfg = cfg_for(prop, seed, i)
        except Exception:
            send(dict(index=i, status='harness', message='gen: ' + traceback.format_exc()[-3000:]))
            continue
        rs = f'{prop.id}:{seed}:{i}'
        o = one_run(world, prop, rs, cfg)
        o['index'] = i
        o['cfg'] = cfg
        if o['status'] == 'violation' and matches(known, o):
            pass
        elif o['status'] == 'violation' and nv < stop_after:
            nv += 1
            again = one_run(world, prop, rs, cfg)
            if again['status'] != 'violation' or again['kind'] != o['kind']:
                o.update(status='harness', message=f'not reproducible: {o["kind"]}: {o["message"]} then '
                         f'{again["status"]} {again.get("kind")} {again.get("message")}')
            else:
                b, tr, bo, tries = minimise(world, prop, rs, cfg, o, budget=float(os.environ.get('DST_MINIMISE', '45')))
                o['min'] = dict(cfg=b, traces=tr, kind=bo['kind'], message=bo['message'], tb=bo.get('tb', ''), tries=tries)
        if o['status'] != 'violation':
            o.pop('traces', None)
        send(o)
        if nv >= stop_after:
            break
    send(dict(index=-2, status='end'))
