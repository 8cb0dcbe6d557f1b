"""Command line of the simulator.

  python -m dst.main C02 [--tier quick|thorough] [--runs N]
  python -m dst.main replay FILE
  python -m dst.main determinism [--runs N]
"""
import argparse
import copy
import hashlib
import importlib
import json
import os
import pickle
import re
import select
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NW = int(os.environ.get('DST_WORKERS', '8'))


def get_prop(pid):
    mod = importlib.import_module('dst.props.' + pid.lower())
    return mod.PROPERTY()


def worker_env(seed, wid):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', PYTHONWARNINGS='ignore', OMPI_MCA_btl='self',
               OMPI_MCA_btl_base_warn_component_unused='0',
               PYTHONPATH=VERIF, HOME='/root')
    h = int(hashlib.sha256(f'{seed}:{wid}'.encode()).hexdigest()[:8], 16)
    env['PYTHONHASHSEED'] = str(h % 4294967295)
    env['MALLOC_PERTURB_'] = str((0, 85, 128, 200, 0, 1, 254, 129)[wid % 8])
    return env


class Workers:
    def __init__(self, pid, seed, root, lists, scratch, deadline_s, extra=()):
        self.procs = {}
        for wid, idx in enumerate(lists):
            if not idx:
                continue
            r, w = os.pipe()
            env = worker_env(seed, wid % 8)
            env['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba%d' % wid)
            env['DST_SCRATCH'] = scratch
            spec = json.dumps(dict(pid=pid, seed=seed, root=root, indices=idx, fd=w, wid=wid, deadline=deadline_s))
            p = subprocess.Popen([PY, '-m', 'dst.main', '--worker', spec, *extra], env=env, pass_fds=(w,), cwd=VERIF,
                                 stdout=None if os.environ.get('DST_SHOW') else subprocess.DEVNULL,
                                 stderr=None if os.environ.get('DST_SHOW') else subprocess.DEVNULL)
            os.close(w)
            self.procs[r] = dict(p=p, buf=b'', env=env, wid=wid)

    def results(self):
        live = set(self.procs)
        while live:
            rl, _, _ = select.select(list(live), [], [], 10)
            for fd in rl:
                b = os.read(fd, 1 << 20)
                st = self.procs[fd]
                if not b:
                    live.discard(fd)
                    os.close(fd)
                    st['p'].wait()
                    st['closed'] = True
                    if not st.get('ended'):
                        yield dict(index=-1, status='import', message=f'worker {st["wid"]} died: {st["p"].returncode}', wid=st['wid'])
                    continue
                st['buf'] += b
                while len(st['buf']) >= 8:
                    n = struct.unpack('<Q', st['buf'][:8])[0]
                    if len(st['buf']) < 8 + n:
                        break
                    o = pickle.loads(st['buf'][8:8 + n])
                    st['buf'] = st['buf'][8 + n:]
                    o['wid'] = st['wid']
                    if o['index'] == -2:
                        st['ended'] = True
                        continue
                    yield o

    def kill(self):
        for st in self.procs.values():
            if st['p'].poll() is None:
                st['p'].kill()
                st['p'].wait()


def worker(spec):
    from . import runner
    spec = json.loads(spec)
    runner.SCRATCH = os.environ['DST_SCRATCH']
    runner.EMPTY = os.path.join(runner.SCRATCH, 'empty')
    if spec['pid'] == '@replay':
        return replay_worker(spec)
    prop = get_prop(spec['pid'])
    runner.worker_main(prop, spec['root'], spec['seed'], spec['indices'], spec['fd'], spec['wid'],
                       time.monotonic() + spec['deadline'])
    os._exit(0)


def replay_worker(spec):
    from . import runner
    from .world import World
    with open(spec['indices'][0]) as f:
        rep = json.load(f)
    prop = get_prop(rep['property'])
    world = World(spec['root'])
    o = runner.one_run(world, prop, rep['seed'], rep['cfg'], rep['traces'], keep_log=True)
    o['index'] = 0
    b = pickle.dumps(o, -1)
    b = struct.pack('<Q', len(b)) + b
    while b:
        n = os.write(spec['fd'], b)
        b = b[n:]
    b = pickle.dumps(dict(index=-2, status='end'), -1)
    os.write(spec['fd'], struct.pack('<Q', len(b)) + b)
    os._exit(0)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def matches(known, o):
    for k in known:
        m = k['match']
        if m.get('kind') and m['kind'] != o['kind']:
            continue
        if m.get('message') and not re.search(m['message'], o['message']):
            continue
        ok = True
        for key, val in (m.get('cfg') or {}).items():
            if o['cfg'].get(key) != val:
                ok = False
        if ok:
            return k
    return None


def check(pid, tier, seed, runs=None, only=None):
    from . import runner, build
    t0 = time.monotonic()
    prop = get_prop(pid)
    scratch = runner.init_scratch()
    ws = None
    try:
        root = build.prepare(scratch)
        n = runs or (prop.quick_runs if tier == 'quick' else prop.thorough_runs)
        budget = float(os.environ.get('DST_BUDGET', '540' if tier == 'quick' else '3000'))
        idx = list(range(n)) if only is None else only
        lists = [idx[i::NW] for i in range(NW)]
        ws = Workers(pid, seed, root, lists, scratch, budget)
        known = load_known(pid)
        res, violations, harness, skipped, seen_known = [], [], [], 0, {}
        for o in ws.results():
            if o['status'] == 'skipped':
                skipped += 1
                continue
            if o['status'] in ('harness', 'import'):
                harness.append(o)
                continue
            if o['status'] == 'violation':
                k = matches(known, o)
                if k:
                    seen_known[k['id']] = o
                    res.append(o)
                    continue
                violations.append(o)
            res.append(o)
            if len(violations) >= int(os.environ.get('DST_MAXV', '6')) and tier == 'quick':
                break
        ws.kill()
        wall = time.monotonic() - t0
        write_evidence(prop, tier, seed, res, violations, harness, skipped, seen_known, wall, root)
        for kid, o in sorted(seen_known.items()):
            k = [x for x in known if x['id'] == kid][0]
            print(f'KNOWN-FINDING: property={pid} {k["what"]}')
        if violations:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            shown = set()
            for o in violations:
                m = o.get('min') or dict(cfg=o['cfg'], traces=o['traces'], kind=o['kind'], message=o['message'], tries=0)
                sig = (m['kind'], re.sub(r'[-+0-9.e]+', '#', m['message'])[:80])
                if sig in shown:
                    continue
                shown.add(sig)
                path = os.path.join(rdir, f'{pid}-{seed}-{o["index"]}.json')
                env = worker_env(seed, o['wid'] % 8)
                with open(path, 'w') as f:
                    f.write(runner.jdump(dict(property=pid, seed=o['seed'], cfg=m['cfg'], traces=m['traces'],
                                              kind=m['kind'], message=m['message'],
                                              env={k: env[k] for k in ('PYTHONHASHSEED', 'MALLOC_PERTURB_')},
                                              minimiser_runs=m.get('tries', 0), original_cfg=o['cfg'])))
                print(f'VIOLATION property={pid} replay={path}')
                print(f'  {m["kind"]}: {m["message"][:1200]}')
                print(f'  cfg: {runner.jdump(m["cfg"])[:1500]}')
                if m.get('tb'):
                    print('  ' + '\n  '.join(m['tb'].strip().splitlines()[-8:]))
        if harness:
            for o in harness[:3]:
                print(f'HARNESS {o["status"]} index={o["index"]}: {o["message"][-2500:]}')
                if 'cfg' in o:
                    print('  cfg', runner.jdump(o['cfg'])[:1500])
        nruns = len(res)
        print(f'{pid} {tier} seed={seed} runs={nruns} violations={len(violations)} harness={len(harness)} '
              f'skipped={skipped} wall={wall:.1f}s')
        if violations:
            return 1
        if harness:
            return 3
        if skipped:
            print('not all runs fitted into the time budget')
        return 0
    finally:
        if ws:
            ws.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def write_evidence(prop, tier, seed, res, violations, harness, skipped, seen_known, wall, root):
    stats, probes, outcomes = {}, {}, {}
    steps = simtime = 0
    scheds, cfgs = set(), set()
    distinct = set()
    from .runner import jdump
    jobs = 0
    for o in res:
        for k, v in o['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in o['probes'].items():
            probes[k] = probes.get(k, 0) + v
        for k, v in o['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
        steps += o['steps']
        simtime += o['simtime']
        jobs += o['jobs']
        c = jdump(o['cfg'])
        cfgs.add(c)
        scheds.add(o['sched'])
        if o['nontrivial']:
            distinct.add((c, o['digest']))
    for p in prop.probes_expected():
        probes.setdefault(p, 0)
    samples = [dict(index=o['index'], seed=o['seed'], cfg=prop.sample(o['cfg']), steps=o['steps'],
                    interleaving=o['sched'][:16], outcome=o['status']) for o in res[:3]]
    faults = {k: v for k, v in stats.items() if k in (
        'stall', 'kill_rank', 'kill_job', 'early_exit', 'reduction_reordered', 'cart_reordered', 'hash_order',
        'enospc', 'eio', 'torn_write', 'crash_io', 'torn_copy', 'partial_flush', 'late_file', 'copy_fail')}
    cpu = wall
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level,
              coverage=dict(
                  evaluations=len(res), distinct_nontrivial=len(distinct), rule=prop.rule, samples=samples,
                  jobs=jobs, job_outcomes=outcomes, distinct_configurations=len(cfgs), distinct_interleavings=len(scheds),
                  interleaving_measure='hash of the sequence of ranks chosen by the scheduler over all jobs of a run',
                  scheduler_steps=steps, simulated_seconds=round(simtime, 3),
                  runs_per_hour=int(len(res) / max(cpu, 1e-9) * 3600), seeds_per_hour=int(len(res) / max(cpu, 1e-9) * 3600),
                  faults_injected=faults, events=stats, probes=probes,
                  real_components=list(prop.real), stubbed_components=list(prop.stub),
                  harness_errors=len(harness), skipped_for_time=skipped,
                  known_findings_seen=sorted(seen_known), source=root),
              assumptions=list(prop.assumptions), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        f.write(json.dumps(json.loads(jdump(ev)), indent=1, sort_keys=True))


def replay(path):
    from . import runner, build
    with open(path) as f:
        rep = json.load(f)
    scratch = runner.init_scratch()
    try:
        root = build.prepare(scratch)
        os.environ.update(rep.get('env', {}))
        r, w = os.pipe()
        env = worker_env(0, 0)
        env.update(rep.get('env', {}))
        env['DST_SCRATCH'] = scratch
        env['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
        spec = json.dumps(dict(pid='@replay', seed=0, root=root, indices=[os.path.abspath(path)], fd=w, wid=0, deadline=0))
        p = subprocess.Popen([PY, '-m', 'dst.main', '--worker', spec], env=env, pass_fds=(w,), cwd=VERIF)
        os.close(w)
        ws = Workers.__new__(Workers)
        ws.procs = {r: dict(p=p, buf=b'', env=env, wid=0)}
        for o in ws.results():
            print(f'status={o["status"]} kind={o.get("kind")} steps={o.get("steps")} digest={o.get("digest", "")[:16]}')
            print(o.get('message', ''))
            if o.get('tb'):
                print(o['tb'])
            if os.environ.get('DST_LOG'):
                for log in o['logs']:
                    for e in log or ():
                        print('   ', e)
            if o['status'] == 'violation':
                print(f'VIOLATION property={rep["property"]} replay={path}')
                same = o['kind'] == rep['kind'] and o['message'] == rep['message'][:2000]
                print('reproduced exactly' if same else f'differs from the recorded violation: {rep["kind"]}: {rep["message"]}')
                return 1
            return 0 if o['status'] == 'ok' else 3
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(props, runs, seed):
    """Run the same seeds twice with different worker counts and compare the event logs"""
    from . import runner, build
    scratch = runner.init_scratch()
    bad = 0
    try:
        root = build.prepare(scratch)
        for pid in props:
            prop = get_prop(pid)
            outs = []
            for variant, nw in ((0, 8), (1, 5), (2, 8)):
                idx = list(range(runs))
                # keep the environment of a run (hash seed, malloc fill) tied to its index except in variant 2
                if variant == 0:
                    lists = [idx[i::8] for i in range(8)]
                elif variant == 1:
                    lists = [list(reversed(idx[i::8])) for i in range(8)]
                else:
                    lists = [idx[(i + 3) % 8::8] for i in range(8)]
                ws = Workers(pid, seed, root, lists, scratch, 3000)
                outs.append({o['index']: (o['status'], o.get('digest')) for o in ws.results() if o['index'] >= 0})
                ws.kill()
            d01 = [i for i in outs[0] if outs[0][i] != outs[1].get(i)]
            d02 = [i for i in outs[0] if outs[0][i] != outs[2].get(i)]
            print(f'{pid}: runs={len(outs[0])} differ(reordered)={d01[:10]} differ(other hash seed)={d02[:10]}', flush=True)
            bad += len(d01)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


def main():
    if len(sys.argv) > 2 and sys.argv[1] == '--worker':
        return worker(sys.argv[2])
    ap = argparse.ArgumentParser()
    ap.add_argument('what')
    ap.add_argument('arg', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--only', type=int, nargs='*')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    if a.what == 'replay':
        return replay(a.arg[0])
    if a.what == 'determinism':
        return determinism(a.arg, a.runs or 64, a.seed)
    return check(a.what, a.tier, a.seed, a.runs, a.only)


if __name__ == '__main__':
    sys.exit(main())
