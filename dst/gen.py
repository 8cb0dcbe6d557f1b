"""Random but valid tensor product spaces, and how to build them with shenfun.

A space is plain data, so that a run is replayable from its configuration:

  {'bases': [{'f': 'F', 'N': 8, 'cx': 0, 'dom': 1}, {'f': 'L', 'N': 9, 'bc': 'DD', 'v': [1.0, 0.0], 'q': 'GL', 'dom': 0}],
   'axes': [1, 0], 'slab': 0, 'collapse': 0, 'dtype': None}
"""
import copy

import numpy as np

# boundary conditions: name -> ordered list of (side, kind)
BCS = {
    'DD': (('left', 'D'), ('right', 'D')),
    'NN': (('left', 'N'), ('right', 'N')),
    'DN': (('left', 'D'), ('right', 'N')),
    'ND': (('left', 'N'), ('right', 'D')),
    'D_': (('left', 'D'),),
    '_D': (('right', 'D'),),
    'DNDN': (('left', 'D'), ('left', 'N'), ('right', 'D'), ('right', 'N')),
    '_DN': (('right', 'D'), ('right', 'N')),
    'DN_': (('left', 'D'), ('left', 'N')),
    'D6': (('left', 'D'), ('left', 'N'), ('left', 'N2'), ('right', 'D'), ('right', 'N'), ('right', 'N2')),
    'DN23': (('left', 'D'), ('left', 'N'), ('right', 'N2'), ('right', 'N3')),
    'RR': (('left', 'R'), ('right', 'R')),
    'RD': (('left', 'R'), ('right', 'D')),
    'NR': (('left', 'N'), ('right', 'R')),
    'DW': (('left', 'D'), ('right', 'W')),
}
RC = 0.35       # R is u + RC u', W is u' + RC u''
ROBIN = ('RR', 'RD', 'NR', 'DW')


def orders(kind):
    """The derivatives, with their coefficients, that a boundary condition is for"""
    if kind in 'RW':
        return [(0, 1.0), (1, RC)] if kind == 'R' else [(1, 1.0), (2, RC)]
    return [(0 if kind == 'D' else (1 if kind == 'N' else int(kind[1:])), 1.0)]


# what each family implements explicitly plus a few through its generic composite basis
FAM_BCS = {
    'C': ('DD', 'NN', 'DN', 'ND', 'D_', '_D', 'DNDN', '_DN', 'DN_'),
    'L': ('DD', 'NN', 'DN', 'ND', 'D_', '_D', 'DNDN', '_DN', 'DN_', 'DN23'),
    'U': ('DD', 'NN', 'D_', '_D', 'DNDN'),
    'Q': ('DD', 'NN', 'D_', '_D', 'DNDN'),
    'J': ('DD', 'NN', 'D_', 'DNDN'),
    'La': ('D_', ),
    'H': (),
}
QUADS = {'C': ('GC', 'GL'), 'L': ('LG', 'GL'), 'U': ('GU', 'GC'), 'Q': ('QG',), 'J': ('JG',), 'La': ('LG',), 'H': ('HG',)}
F_DOMS = (None, (0.0, 4.0), (-1.0, 1.0), (0.0, 12.566370614359172))
P_DOMS = (None, (0.0, 1.0), (-2.0, 3.0), (1.0, 4.0))


def numbc(b):
    return len(BCS[b['bc']]) if b.get('bc') else 0


def dom(b):
    """Physical domain of a base"""
    f = b['f']
    if f == 'F':
        d = F_DOMS[b.get('dom', 0)]
        return (0.0, 2 * np.pi) if d is None else d
    if f == 'La':
        return (0.0, np.inf)
    if f == 'H':
        return (-np.inf, np.inf)
    d = P_DOMS[b.get('dom', 0)]
    return (-1.0, 1.0) if d is None else d


def spec_size(b):
    return b['N'] // 2 + 1 if b['f'] == 'F' and not b.get('cx') else b['N']


def phys_size(b, pf=None):
    pf = b.get('pf', 1) if pf is None else pf
    return int(np.floor(b['N'] * pf))


def kwargs(b):
    """Arguments of FunctionSpace for one base"""
    kw = {}
    f = b['f']
    if f == 'F':
        kw['dtype'] = 'D' if b.get('cx') else 'd'
        if b.get('dom'):
            kw['domain'] = F_DOMS[b['dom']]
    else:
        if b.get('q'):
            kw['quad'] = b['q']
        if b.get('dom') and f not in ('La', 'H'):
            kw['domain'] = P_DOMS[b['dom']]
        if b.get('bc'):
            vals = b.get('v') or [0] * numbc(b)
            d = {'left': {}, 'right': {}}
            for (side, kind), val in zip(BCS[b['bc']], vals):
                d[side][kind] = (RC, val) if kind in 'RW' else val
            kw['bc'] = {s: v for s, v in d.items() if v}
        if b.get('scaled'):
            kw['scaled'] = True
        for k in ('alpha', 'beta'):
            if k in b:
                kw[k] = b[k]
    if b.get('pf', 1) != 1:
        kw['padding_factor'] = b['pf']
    if b.get('dd'):
        kw['dealias_direct'] = True
    return kw


def base(sf, b, **over):
    kw = kwargs(b)
    kw.update(over)
    return sf.FunctionSpace(b['N'], {'F': 'F', 'La': 'La'}.get(b['f'], b['f']), **kw)


def build(sf, comm, s, bases=None, **over):
    if bases is None:
        bases = [base(sf, b) for b in s['bases']]
    kw = {}
    if s.get('axes') is not None:
        kw['axes'] = tuple(s['axes'])
    if s.get('dtype'):
        kw['dtype'] = s['dtype']
    if s.get('slab'):
        kw['slab'] = True
    if s.get('collapse'):
        kw['collapse_fourier'] = True
    if s.get('cm'):
        kw['coordinates'] = coordinates(s)
    kw.update(over)
    return sf.TensorProductSpace(comm, bases, **kw)


# Coordinate maps.  s['cm'] is {'k': 'sep', 'm': [per axis None, ['lin', c] or ['quad']]} for X_a = c x_a or (x_a + 3)**2,
# or {'k': 'pol', 't': axis of the angle, 'q': axis of the radius}, or {'k': 'skw', 'c': c} for X_0 = x_0 + c x_1

def coordinates(s):
    import sympy as sp
    nd = len(s['bases'])
    cm = s['cm']
    names = 'xyzr'[:nd]
    psi = [sp.Symbol(n, real=True) for n in names]
    if cm['k'] == 'pol':
        psi[cm['q']] = r = sp.Symbol(names[cm['q']], real=True, positive=True)
        th = psi[cm['t']]
        rv = list(psi)
        a, b = sorted((cm['t'], cm['q']))
        rv[a], rv[b] = r * sp.cos(th), r * sp.sin(th)
        return tuple(psi), tuple(rv)
    if cm['k'] == 'skw':
        return tuple(psi), (psi[0] + sp.Rational(cm['c']) * psi[1],) + tuple(psi[1:])
    rv, ass = [], sp.true
    for x, m in zip(psi, cm['m']):
        if not m:
            rv.append(x)
        elif m[0] == 'lin':
            rv.append((sp.Integer(m[1]) if m[1] == int(m[1]) else sp.Rational(m[1])) * x)
        else:
            rv.append((x + 3)**2)
            ass = ass & sp.Q.positive(x + 3)
    return (tuple(psi), tuple(rv)) + ((ass,) if ass is not sp.true else ())


def hscale(s, a):
    """Scale factor of axis a in a separable map: (constant, whether times (x + 3))"""
    m = s['cm']['m'][a] if s.get('cm') else None
    return (1, 0) if not m else (abs(m[1]), 0) if m[0] == 'lin' else (2, 1)


def measure(s, xs):
    """Square root of the metric determinant on the tensor grid of true coordinates"""
    if not s.get('cm'):
        return 1.0
    X = np.meshgrid(*xs, indexing='ij')
    if s['cm']['k'] == 'pol':
        return X[s['cm']['q']]
    if s['cm']['k'] == 'skw':
        return np.ones(np.broadcast(*X).shape)
    out = 1.0
    for a in range(len(s['bases'])):
        c, q = hscale(s, a)
        out = out * (c * (X[a] + 3)**q)
    return out


def metric(s, X, cov):
    """Products of the basis vectors (covariant, or unit vectors) at points with true coordinates X, as a function of two indices"""
    cm = s.get('cm')
    if cm and cm['k'] == 'skw':
        g = np.eye(len(s['bases']))
        n = 1 if cov else np.sqrt(1 + cm['c']**2)
        g[0, 1] = g[1, 0] = cm['c'] / n
        g[1, 1] = 1 + cm['c']**2 if cov else 1
        return lambda i, j: g[i, j]
    if not cm or not cov:
        return lambda i, j: float(i == j)
    if cm['k'] == 'pol':
        return lambda i, j: 0.0 if i != j else X[cm['q']]**2 if i == cm['t'] else 1.0

    def f(i, j):
        c, q = hscale(s, i)
        return 0.0 if i != j else (c * (X[i] + 3)**q)**2
    return f


def cart(s, X):
    """Cartesian coordinates of points with true coordinates X"""
    cm = s.get('cm')
    out = list(X)
    if not cm:
        return out
    if cm['k'] == 'pol':
        th, r = X[cm['t']], X[cm['q']]
        a, b = sorted((cm['t'], cm['q']))
        out[a], out[b] = r * np.cos(th), r * np.sin(th)
        return out
    if cm['k'] == 'skw':
        out[0] = X[0] + cm['c'] * X[1]
        return out
    for a, m in enumerate(cm['m']):
        if m:
            out[a] = m[1] * X[a] if m[0] == 'lin' else (X[a] + 3)**2
    return out


def rcm(rng, s):
    """Perhaps a random coordinate map"""
    nd = len(s['bases'])
    for b in s['bases']:
        # measured matrices are not those of Lobatto quadrature
        if b.get('q') == 'GL':
            b.pop('q')
    fs = [a for a in range(nd) if s['bases'][a]['f'] == 'F' and not s['bases'][a].get('dom')]
    ps = [a for a in range(nd) if s['bases'][a]['f'] in ('C', 'L') and s['bases'][a].get('dom') in (1, 3)]
    if fs and ps and rng.random() < 0.5:
        s['cm'] = dict(k='pol', t=rng.choice(fs), q=rng.choice(ps))
        return
    s['cm'] = dict(k='sep', m=[rng.choice((None, ['lin', rng.choice((2, 3, 0.5))],
                                           ['quad'] if b['f'] in ('C', 'L') else ['lin', 2])) for b in s['bases']])


def alt(s):
    """Another space of the same arrays: other boundary conditions on the non-periodic axes"""
    q = copy.deepcopy(s)
    for b in q['bases']:
        if b.get('bc'):
            b.pop('bc')
            b.pop('v', None)
        elif 'DD' in FAM_BCS.get(b['f'], ()) and b['N'] >= 6 and not any(k in b for k in ('alpha', 'beta')):
            b['bc'] = 'DD'
    return q


def axes_of(s):
    return list(s['axes']) if s.get('axes') is not None else list(range(len(s['bases'])))


def is_complex(s):
    """Whether physical data are complex"""
    fs = [b for b in s['bases'] if b['f'] == 'F']
    if s.get('dtype') == 'D':
        return True
    return bool(fs) and all(b.get('cx') for b in fs)


def spec_complex(s):
    return any(b['f'] == 'F' for b in s['bases']) or s.get('dtype') == 'D'


def fdims(P, ndim, slab=False):
    """Largest number of ranks along one axis"""
    from .simmpi import compute_dims
    if slab or ndim == 2:
        return P
    return max(compute_dims(P, [0] * (ndim - 1)))


def max_ranks(s, pf=1.0):
    """The largest P this space can be spread over (Pencil needs one item per rank and axis)"""
    m = min(min(spec_size(b), phys_size(b, min(1, pf) * b.get('pf', 1))) for b in s['bases'])
    nd = len(s['bases'])
    out = 1
    for P in range(1, 9):
        if fdims(P, nd, s.get('slab')) <= m:
            out = P
    return out


def fits(s, P, pf=1.0):
    m = min(min(spec_size(b), phys_size(b, min(1, pf))) for b in s['bases'])
    return fdims(P, len(s['bases']), s.get('slab')) <= m


def rbase(rng, fam, nmin=4, nmax=12, bcs=True, values=True, cx=0, doms=True, quads=True, spectral_min=1, params=True):
    """One random base"""
    b = {'f': fam}
    nb = 0
    if fam == 'F':
        b['cx'] = cx
        if not cx:
            nmin = max(nmin, 2 * (spectral_min - 1))
        else:
            nmin = max(nmin, spectral_min)
        b['N'] = rng.randint(nmin, max(nmin, nmax))
        if rng.random() < 0.6 and b['N'] % 2:
            b['N'] += 1
    else:
        if bcs and FAM_BCS[fam] and rng.random() < (bcs if isinstance(bcs, float) else 0.65):
            b['bc'] = rng.choice(FAM_BCS[fam])
            nb = numbc(b)
        lo = max(nmin, 2 * nb + 2 + (nb & 1), spectral_min)
        b['N'] = rng.randint(lo, max(lo, nmax))
        if quads and rng.random() < 0.7:
            b['q'] = rng.choice(QUADS[fam])
        if fam == 'J' and params and rng.random() < 0.5 and not b.get('bc'):
            b['alpha'], b['beta'] = rng.choice(((0, 0), (1, 1), (0, 1)))
        if fam == 'Q' and params and rng.random() < 0.5 and not b.get('bc'):
            b['alpha'] = rng.choice((0, 1, 2))
        if nb and values and rng.random() < 0.6:
            b['v'] = [rng.choice((0, 1, -1, 0.5, 2, 3)) for _ in range(nb)]
    if doms and fam not in ('La', 'H') and rng.random() < 0.5:
        b['dom'] = rng.randrange(4)
    return b


FAMS = (('F', 8), ('C', 5), ('L', 5), ('U', 2), ('Q', 1), ('J', 1), ('La', 1), ('H', 1))


def space(rng, ndim=None, P=1, slab=None, min_f=0, max_nonp=None, fams=FAMS, bcs=True, values=True, nmax=None,
          one_inhom=True, doms=True, complex_ok=True, collapse=True, axes=True, nmin=4, params=True, quads=True,
          allc=0.12):
    """A random valid tensor product space for P ranks"""
    if ndim is None:
        ndim = rng.choice((2, 2, 2, 3, 3))
    if slab is None:
        slab = rng.random() < 0.3
    m = fdims(P, ndim, slab)
    if nmax is None:
        nmax = {2: 14, 3: 9, 4: 6}[ndim]
    nmax = max(nmax, m + 2)
    names, weights = zip(*fams)
    while True:
        pick = rng.choices(names, weights, k=ndim)
        nf = pick.count('F')
        if nf < min_f:
            continue
        if max_nonp is not None and ndim - nf > max_nonp:
            continue
        break
    # at most one real-to-complex axis, first of the Fourier axes to be transformed
    order = list(range(ndim))
    if axes and rng.random() < 0.6:
        rng.shuffle(order)
    s = {'bases': [None] * ndim}
    fs = [a for a in order if pick[a] == 'F']
    real = bool(fs) and not (complex_ok and rng.random() < 0.25)
    r2c = fs[-1] if real else None
    for a in range(ndim):
        s['bases'][a] = rbase(rng, pick[a], nmin=nmin, nmax=nmax, bcs=bcs, values=values, cx=0 if a == r2c else 1,
                              doms=doms, spectral_min=m, params=params, quads=quads)
    if one_inhom:
        ih = [a for a in range(ndim) if any(s['bases'][a].get('v') or ())]
        for a in ih[1:]:
            del s['bases'][a]['v']
        if ih:
            for a in range(ndim):
                if a != ih[0]:
                    b = s['bases'][a]
                    b.pop('bc', None)
                    b.pop('v', None)
                    if b['f'] in ('La', 'H'):
                        s['bases'][ih[0]].pop('v', None)
    if order != list(range(ndim)) or rng.random() < 0.3:
        s['axes'] = order
    if fs and r2c is None:
        if order[-1] not in fs or rng.random() < 0.3:
            s['dtype'] = 'D'
    elif not fs and complex_ok and rng.random() < allc:
        s['dtype'] = 'D'
    if slab:
        s['slab'] = 1
    if collapse and rng.random() < 0.35:
        s['collapse'] = 1
    return s


POLICIES = ('random', 'random', 'pct', 'rr', 'reverse', 'serial')


def ranks(rng, lo=1, hi=8):
    return min(hi, max(lo, rng.choices((1, 2, 3, 4, 5, 6, 7, 8), (2, 6, 5, 7, 2, 5, 1, 3))[0]))


def sched(rng, cfg):
    """The schedule and network part of a run"""
    cfg['policy'] = rng.choice(POLICIES)
    if cfg.get('P', 1) > 1 and rng.random() < 0.4:
        cfg['faults'] = {'stall_p': rng.choice((0.02, 0.1))}
    if rng.random() < 0.3:
        cfg['noreorder'] = 1
    if cfg.get('P', 1) > 1 and rng.random() < 0.5:
        cfg['hashorder'] = rng.randrange(1, 1000)
    return cfg


def jobkw(cfg):
    return dict(policy=cfg.get('policy', 'serial'), faults=cfg.get('faults'), cart_reorder=not cfg.get('noreorder'),
                hashorder=cfg.get('hashorder'))
