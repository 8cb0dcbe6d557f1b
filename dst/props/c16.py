"""C16: Lagrangian particles move with the velocity of the global field"""
import copy

import numpy as np

from .. import gen, oracle, progs
from ..runner import Property
from ..oracle import Model, close, need


def spaces(cfg):
    """One description per component of the velocity"""
    s = cfg['space']
    out = []
    for i in range(len(s['bases'])):
        q = copy.deepcopy(s)
        if cfg.get('mixed') is not None and i % 2:
            b = q['bases'][cfg['mixed']]
            b.pop('bc', None)
            b.pop('v', None)
        for b in q['bases']:
            if b.get('v'):
                b['v'] = [0.05 * v for v in b['v']]
        out.append(q)
    return out


def start(cfg, j):
    """Initial positions of swarm j"""
    s = cfg['space']
    g = cfg['swarms'][j]
    rs = np.random.RandomState(g['seed'])
    x = np.zeros((len(s['bases']), g['n']))
    for a, b in enumerate(s['bases']):
        lo, hi = gen.dom(b)
        x[a] = lo + (hi - lo) * (rs.uniform(0.2, 0.8, g['n']) if b['f'] != 'F' else rs.uniform(-0.2, 1.2, g['n']))
    if g.get('dup') and g['n'] > 1:
        x[:, -1] = x[:, 0]
    return x


def velocity(cfg, i, k):
    """Coefficients of component i in epoch k"""
    q = spaces(cfg)[i]
    c = Model(q).random_coefs(cfg['seed'] + 13 * i + 97 * k, bc=False, nyquist=bool(cfg.get('nyq')))
    sp = min((gen.dom(b)[1] - gen.dom(b)[0]) for b in q['bases'])
    c = c * (0.1 * sp / max(1.0, np.abs(c).sum() * 0.1))
    m = Model(q)
    for a, b in enumerate(q['bases']):
        if b.get('bc') and any(b.get('v') or ()):
            m.set_bc(c, a)
    return c


def prog(ctx, cfg):
    sf = ctx.sf
    from shenfun.utilities.lagrangian_particles import LagrangianParticles
    comm = ctx.comm
    if cfg.get('sub'):
        comm = comm.Split(0 if ctx.rank < cfg['sub'] else 1, -ctx.rank)
        if ctx.rank >= cfg['sub']:
            return
    sp = spaces(cfg)
    if cfg.get('mixed') is not None:
        Ts = [gen.build(sf, comm, q) for q in sp[:2]]
        Ts = [Ts[i % 2] for i in range(len(sp))]
        V = sf.VectorSpace(Ts)
    else:
        T = gen.build(sf, comm, sp[0])
        Ts = [T] * len(sp)
        V = sf.VectorSpace(T)
    for k in range(2):
        progs.rec_stencils(ctx, Ts[k], ('st', k))
    uh = sf.Function(V)

    def fill(k):
        for i, T in enumerate(Ts):
            progs.put(T, uh.v[i], velocity(cfg, i, k))
    fill(0)
    tr = []
    for j, g in enumerate(cfg['swarms']):
        x = start(cfg, j)
        if g.get('fort'):
            x = np.asfortranarray(x)
        tr.append(LagrangianParticles(x, g['dt'], uh))
    epoch = 0
    for n, op in enumerate(cfg['ops']):
        if op['op'] == 'step':
            p = tr[op['j'] % len(tr)]
            for _ in range(op.get('k', 1)):
                p.step()
        elif op['op'] == 'rhs':
            p = tr[op['j'] % len(tr)]
            ctx.rec(('rhs', n), np.array(p.rhs()))
        elif op['op'] == 'dt':
            tr[op['j'] % len(tr)].dt *= op['f']
        elif op['op'] == 'vel':
            epoch += 1
            fill(epoch)
        elif op['op'] == 'transform':
            # other use of the velocity
            u = uh.backward()
            uh[:] = V.forward(u, uh)
        for j, p in enumerate(tr):
            ctx.rec(('x', n, j), np.array(p.x))


class C16(Property):
    id = 'C16'
    quick_runs = 700
    thorough_runs = 30000
    rule = 'non-trivial: at least 2 ranks; distinct: configuration or event log differ'
    real = ('shenfun (one private copy per rank)', 'mpi4py-fft', 'FFTW', 'numpy', 'compiled evaluation kernels')
    stub = ('MPI library',)
    assumptions = ('stencils of composite bases are taken from the code after checking that they satisfy the boundary conditions',)

    def corners(self):
        out = []
        R, C = dict(f='F', N=8, cx=0), dict(f='F', N=6, cx=1, dom=1)
        D = dict(f='L', N=8, bc='DD', dom=1)
        for P in (1, 2, 3, 4, 6):
            for bases, ax in (([C, R], None), ([R, C], [1, 0]), ([C, C, R], None), ([D, R], None), ([D, dict(f='C', N=8, bc='DD')], None),
                              ([dict(f='C', N=9), R], None), ([R, dict(f='L', N=8, bc='DD', v=[1, 2])], [1, 0]), ([C, D, R], [1, 0, 2])):
                s = dict(bases=copy.deepcopy(bases), **({'axes': ax} if ax else {}))
                if not gen.fits(s, P):
                    continue
                out.append(dict(P=P, space=s, seed=len(out), policy='random', swarms=[dict(n=(3, 1)[len(out) % 2], seed=len(out), dt=0.1)],
                                ops=[dict(op='step', j=0), dict(op='step', j=0, k=2), dict(op='vel'), dict(op='step', j=0), dict(op='dt', j=0, f=-1),
                                     dict(op='step', j=0)]))
        return out

    def gen(self, rng):
        P = gen.ranks(rng)
        sub = rng.randint(1, P - 1) if P > 1 and rng.random() < 0.2 else 0
        while True:
            s = gen.space(rng, P=sub or P, fams=(('F', 8), ('C', 4), ('L', 4), ('U', 1), ('Q', 1)), ndim=rng.choice((2, 2, 3)))
            if not gen.is_complex(s):
                break
        cfg = dict(P=P, space=s, seed=rng.randrange(10**6))
        if sub:
            cfg['sub'] = sub
        bc = [a for a, b in enumerate(s['bases']) if b.get('bc')]
        if bc and rng.random() < 0.3:
            cfg['mixed'] = rng.choice(bc)
        elif rng.random() < 0.3:
            cfg['nyq'] = 1
        cfg['swarms'] = [dict(n=rng.choice((1, 2, 3, 5, 8)), seed=rng.randrange(1000), dt=rng.choice((0.1, 0.3, -0.2)), dup=rng.randrange(2), fort=int(rng.random() < 0.2))
                         for _ in range(rng.choice((1, 1, 2)))]
        cfg['ops'] = []
        for _ in range(rng.randint(1, 6)):
            o = dict(op=rng.choice(('step', 'step', 'step', 'rhs', 'dt', 'vel', 'transform')), j=rng.randrange(2))
            if o['op'] == 'step':
                o['k'] = rng.choice((1, 1, 2, 3))
            if o['op'] == 'dt':
                o['f'] = rng.choice((-1, 0.5))
            cfg['ops'].append(o)
        cfg['ops'].append(dict(op='step', j=0))
        return gen.sched(rng, self.clean(cfg))

    def clean(self, cfg):
        if cfg.get('nyq'):
            # going there and back may drop what a real function does not have
            for o in cfg['ops']:
                if o['op'] == 'transform':
                    o['op'] = 'rhs'
        return cfg

    def shrink(self, cfg):
        if len(cfg['swarms']) > 1:
            c = copy.deepcopy(cfg)
            c['swarms'].pop()
            yield c
        for j, g in enumerate(cfg['swarms']):
            if g['n'] > 1:
                c = copy.deepcopy(cfg)
                c['swarms'][j]['n'] = g['n'] // 2
                yield c
        for k in ('mixed', 'nyq'):
            if cfg.get(k) is not None:
                c = copy.deepcopy(cfg)
                c.pop(k)
                yield c
        for c in super().shrink(cfg):
            if c.get('sub') and c['P'] <= c['sub']:
                c.pop('sub')
            yield c

    def run(self, env, cfg):
        P = cfg.get('sub') or cfg['P']
        sp = spaces(cfg)
        if not all(gen.fits(q, P) for q in sp):
            env.probe('does_not_fit')
            return
        r = env.job(cfg['P'], prog, cfg, **gen.jobkw(cfg)).records
        ms = []
        for i, q in enumerate(sp):
            st = next(iter(r[('st', i % 2)].values()))
            oracle.check_stencils(q, st)
            ms.append(Model(q, st))
        xs = [start(cfg, j) for j in range(len(cfg['swarms']))]
        dts = [g['dt'] for g in cfg['swarms']]
        epoch = 0
        lost = set()
        amp = 1.0

        def vel(x):
            return np.array([ms[i].eval(velocity(cfg, i, epoch), x) for i in range(len(sp))]).real.reshape(x.shape)

        def mark(j):
            for a, b in enumerate(cfg['space']['bases']):
                if b['f'] != 'F' and not np.all(np.abs(oracle.to_ref(b, xs[j][a])) < 1):
                    lost.add(j)
        for n, op in enumerate(cfg['ops']):
            j = op.get('j', 0) % len(xs)
            if op['op'] == 'step':
                for _ in range(op.get('k', 1)):
                    if j not in lost:
                        xs[j] = xs[j] + dts[j] * vel(xs[j])
                        mark(j)
            elif op['op'] == 'rhs':
                if j not in lost:
                    v = oracle.same_everywhere(r[('rhs', n)], 'velocity of the particles', P, tol=1e-9)
                    close(v, vel(xs[j]), f'op {n}: velocity of the particles', 'velocity', tol=1e-8)
            elif op['op'] == 'dt':
                dts[j] *= op['f']
            elif op['op'] == 'vel':
                epoch += 1
            for j, x in enumerate(xs):
                if j in lost:
                    env.probe('left')
                    continue
                v = oracle.same_everywhere(r[('x', n, j)], 'positions of the particles', P, tol=1e-9)
                need(np.shape(v) == x.shape, 'particles', lambda: f'{np.shape(v)} instead of {x.shape}')
                close(v, x, f'op {n}: positions of swarm {j}', 'positions', tol=1e-8)
            env.probe(op['op'])
        if cfg.get('sub'):
            env.probe('subcomm')
        if cfg.get('mixed') is not None:
            env.probe('mixed')

    def probes_expected(self):
        return ['step', 'rhs', 'dt', 'vel', 'transform', 'subcomm', 'mixed']


PROPERTY = C16
