"""Independent reference model: dense, global, one process, no shenfun.

A function in a tensor product space is sum_k c_k prod_a phi^a_{k_a}(x_a).  Orthogonal polynomials come from
scipy/numpy.  Composite bases and the functions lifting boundary values are given by stencils recorded from the
code under test, but only after checking that they satisfy their boundary conditions.
"""
import numpy as np
import scipy.special as ss
from numpy.polynomial import chebyshev as npc, legendre as npl

from .errors import Violation
from . import gen

TOL = 1e-9


def need(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def scale(*arrs):
    m = 1.0
    for a in arrs:
        a = np.asarray(a)
        if a.size and np.all(np.isfinite(a)):
            m = max(m, float(np.max(np.abs(a))))
    return m


def close(a, b, what, kind='wrong-value', tol=TOL, sc=None):
    """Both arrays agree up to rounding"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(kind, f'{what}: shape {a.shape} instead of {b.shape}')
    if a.size == 0:
        return
    d = np.abs(a - b)
    s = scale(b) if sc is None else max(1.0, sc)
    if not np.all(np.isfinite(d)) or d.max() > tol * s:
        i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape)
        raise Violation(kind, f'{what}: got {a[i]} instead of {b[i]} at index {tuple(int(j) for j in i)} '
                              f'(max difference {float(d[i]):.3g}, {int((~(d <= tol * s)).sum())} of {d.size} entries)')


# -- one dimension --------------------------------------------------------


def nodes(b, M):
    """Quadrature points (reference domain) and weights"""
    f, q = b['f'], b.get('q')
    if f == 'F':
        return 2 * np.pi * np.arange(M) / M, np.full(M, 1.0 / M)
    if f == 'C':
        if q in (None, 'GC'):
            return np.cos(np.pi * (2 * np.arange(M) + 1) / (2 * M)), np.full(M, np.pi / M)
        x = np.cos(np.pi * np.arange(M) / (M - 1))
        w = np.full(M, np.pi / (M - 1))
        w[0] *= 0.5
        w[-1] *= 0.5
        return x, w
    if f == 'U':
        if q in (None, 'GU'):
            t = np.pi * (np.arange(M) + 1) / (M + 1)
            return np.cos(t), np.pi / (M + 1) * np.sin(t)**2
        t = np.pi * (2 * np.arange(M) + 1) / (2 * M)
        return np.cos(t), np.pi / M * np.sin(t)**2
    if f == 'L':
        if q in (None, 'LG'):
            return npl.leggauss(M)
        # Gauss-Lobatto: end points and the roots of P'_{M-1}
        c = np.zeros(M)
        c[-1] = 1
        x = np.sort(np.concatenate(([-1.0], npl.legroots(npl.legder(c)).real, [1.0])))
        for _ in range(3):      # polish the interior
            xi = x[1:-1]
            p, dp, d2 = npl.legval(xi, c), npl.legval(xi, npl.legder(c)), npl.legval(xi, npl.legder(c, 2))
            x[1:-1] = xi - dp / d2
        return x, 2.0 / (M * (M - 1) * npl.legval(x, c)**2)
    if f in ('Q', 'J'):
        al = b.get('alpha', 0)
        be = b.get('beta', 0) if f == 'J' else al
        return ss.roots_jacobi(M, al, be)
    if f == 'La':
        x, w = ss.roots_laguerre(M)
        return x, w * np.exp(x)
    if f == 'H':
        x, w = ss.roots_hermite(M)
        return x, w * np.exp(x**2)
    raise KeyError(f)


def ortho(b, x, n=None):
    """Values of the orthogonal functions, shape (len(x), n)"""
    f = b['f']
    x = np.asarray(x, float)
    n = b['N'] if n is None else n
    k = np.arange(n)
    X, K = x[:, None], k[None, :]
    if f == 'C':
        return npc.chebvander(x, n - 1)
    if f == 'L':
        return npl.legvander(x, n - 1)
    if f == 'U':
        return ss.eval_chebyu(K, X)
    if f == 'J':
        return ss.eval_jacobi(K, b.get('alpha', 0), b.get('beta', 0), X)
    if f == 'Q':
        a = b.get('alpha', 0)
        return ss.eval_jacobi(K, a, a, X) / ss.eval_jacobi(k, a, a, 1.0)[None, :]
    if f == 'La':
        return ss.eval_laguerre(K, X) * np.exp(-X / 2)
    if f == 'H':
        return ss.eval_hermite(K, X) * np.exp(-X**2 / 2) / (np.pi**.25 * np.sqrt(2.**K * ss.factorial(K)))
    raise KeyError(f)


def orthoder(b, x, d, n=None):
    """d-th derivative (reference domain) of the orthogonal functions"""
    if d == 0:
        return ortho(b, x, n)
    n = b['N'] if n is None else n
    if b['f'] in ('La', 'H'):
        # derivative of poly(x) exp(-x/2) or poly(x) exp(-x^2/2): through the recurrences
        V = ortho(b, x, n + d)
        if b['f'] == 'H':
            for _ in range(d):
                m = V.shape[1] - 1
                W = np.zeros((len(x), m))
                for k in range(m):
                    W[:, k] = -np.sqrt((k + 1) / 2) * V[:, k + 1] + (np.sqrt(k / 2) * V[:, k - 1] if k else 0)
                V = W
            return V[:, :n]
        for _ in range(d):
            # L_k' = -sum_{j<k} L_j
            W = -0.5 * V
            W[:, 1:] -= np.cumsum(V, axis=1)[:, :-1]
            V = W
        return V[:, :n]
    # polynomials: exact interpolation in Chebyshev form, then differentiate
    t = np.cos(np.pi * (2 * np.arange(n) + 1) / (2 * n))
    A = np.linalg.solve(npc.chebvander(t, n - 1), ortho(b, t, n))       # coefficients by column
    return np.stack([npc.chebval(np.asarray(x, float), npc.chebder(A[:, k], d)) for k in range(n)], axis=1)


def to_ref(b, x):
    lo, hi = gen.dom(b)
    if b['f'] in ('La', 'H'):
        return np.asarray(x, float)
    if b['f'] == 'F':
        return (np.asarray(x, float) - lo) * 2 * np.pi / (hi - lo)
    return -1 + 2 * (np.asarray(x, float) - lo) / (hi - lo)


def to_true(b, x):
    lo, hi = gen.dom(b)
    if b['f'] in ('La', 'H'):
        return np.asarray(x, float)
    if b['f'] == 'F':
        return lo + np.asarray(x, float) * (hi - lo) / (2 * np.pi)
    return lo + (np.asarray(x, float) + 1) * (hi - lo) / 2


def dfac(b):
    """d(reference)/d(true)"""
    lo, hi = gen.dom(b)
    if b['f'] in ('La', 'H'):
        return 1.0
    return (2 * np.pi if b['f'] == 'F' else 2.0) / (hi - lo)


def wavenumbers(b):
    N = b['N']
    if b.get('cx'):
        return np.fft.fftfreq(N, 1. / N)
    return np.arange(N // 2 + 1).astype(float)


def check_stencils(s, rec):
    """The recorded stencils describe functions that obey the boundary conditions.

    rec[a] = (S, B): S (N, N) rows = basis functions, B (nb, m) rows = lifting functions or None
    """
    for a, b in enumerate(s['bases']):
        if not b.get('bc'):
            continue
        S, B = rec[a]
        N, nb = b['N'], gen.numbc(b)
        need(S.shape == (N, N), 'stencil', lambda: f'stencil of shape {S.shape}')
        dim = N - nb
        Q = S[:dim]
        need(np.linalg.matrix_rank(Q) == dim, 'stencil', f'axis {a}: composite functions are linearly dependent')
        for i in range(dim):
            nz = np.nonzero(Q[i])[0]
            need(nz.min() >= i and nz.max() <= i + nb, 'stencil', f'axis {a}: composite function {i} uses {nz}')
        n = max(N, B.shape[1]) if B is not None else N
        for j, (side, kind) in enumerate(gen.BCS[b['bc']]):
            x = {'left': -1.0, 'right': 1.0}[side] if b['f'] not in ('La', 'H') else 0.0
            od = gen.orders(kind)
            row = sum(c * dfac(b)**(d - od[0][0]) * orthoder(b, np.array([x]), d, n)[0] for d, c in od)
            v = Q @ row[:N]
            sc = np.abs(Q) @ np.abs(row[:N])
            need(np.all(np.abs(v) <= 1e-9 * (1 + sc)), 'stencil',
                 f'axis {a}: a composite function violates {side} {kind}')
            if B is not None:
                v = B @ row[:B.shape[1]]
                e = np.zeros(nb)
                e[bcorder(b).index((side, kind))] = 1.0
                need(np.all(np.abs(v - e) <= 1e-8 * (1 + np.abs(B) @ np.abs(row[:B.shape[1]]))), 'stencil',
                     lambda: f'axis {a}: boundary functions evaluate to {v} for {side} {kind}')


def bcorder(b):
    """Order of boundary conditions in the last coefficients: left then right, as given"""
    conds = gen.BCS[b['bc']]
    return [c for c in conds if c[0] == 'left'] + [c for c in conds if c[0] == 'right']


def bcvals(b):
    """Boundary values in reference-domain units, in the order of the last coefficients"""
    vals = b.get('v') or [0] * gen.numbc(b)
    m = dict(zip(gen.BCS[b['bc']], vals))
    out = []
    for c in bcorder(b):
        out.append(m[c] / dfac(b)**gen.orders(c[1])[0][0])
    return out


class Model:
    """Dense reference for one space"""

    def __init__(self, s, stencils=None):
        self.s = s
        self.st = stencils or {}
        self.nd = len(s['bases'])

    def stencil(self, a):
        """(nfun, n) rows: functions 0..N-1 of axis a in orthogonal functions; boundary functions last"""
        b = self.s['bases'][a]
        N = b['N']
        if not b.get('bc'):
            return np.eye(N)
        S, B = self.st[a]
        n = max(N, B.shape[1] if B is not None else 0)
        out = np.zeros((N, n))
        nb = gen.numbc(b)
        out[:N - nb, :N] = S[:N - nb]
        if B is not None:
            out[N - nb:, :B.shape[1]] = B
        return out

    def fmat(self, a, x, d=0):
        """Matrix (len(x), number of coefficients) of basis functions (d-th true derivative) at reference x"""
        b = self.s['bases'][a]
        if b['f'] == 'F':
            k = wavenumbers(b)
            return (1j * k * dfac(b))**d * np.exp(1j * np.outer(x, k))
        st = self.stencil(a)
        return dfac(b)**d * orthoder(b, x, d, st.shape[1]) @ st.T

    def r2c(self):
        for a, b in enumerate(self.s['bases']):
            if b['f'] == 'F' and not b.get('cx'):
                return a
        return None

    def spec_shape(self):
        return tuple(gen.spec_size(b) for b in self.s['bases'])

    def expand(self, c, xs, der=None):
        """Value of the expansion on the tensor grid xs (reference coordinates)"""
        der = der or [0] * self.nd
        u = np.asarray(c)
        ax = self.r2c()
        for a in range(self.nd):
            if a == ax:
                continue
            u = np.moveaxis(np.tensordot(self.fmat(a, xs[a], der[a]), u, (1, a)), 0, a)
        if ax is not None:
            b = self.s['bases'][ax]
            V = self.fmat(ax, xs[ax], der[ax])
            w = np.full(V.shape[1], 2.0)
            w[0] = 1.0
            if b['N'] % 2 == 0:
                w[-1] = 1.0
            u = np.moveaxis(np.tensordot(V * w, u, (1, ax)), 0, ax).real
        return u

    def grid(self, pf=None):
        pf = pf or [b.get('pf', 1) for b in self.s['bases']]
        return [nodes(b, gen.phys_size(b, p))[0] for b, p in zip(self.s['bases'], pf)]

    def weights(self, pf=None, true=True):
        """Quadrature weights per axis as used in weighted inner products"""
        pf = pf or [b.get('pf', 1) for b in self.s['bases']]
        out = []
        for b, p in zip(self.s['bases'], pf):
            w = nodes(b, gen.phys_size(b, p))[1]
            if b['f'] == 'F':
                out.append(w)
            else:
                out.append(w / dfac(b))
        return out

    def tgrid(self, pf=None):
        return [to_true(b, x) for b, x in zip(self.s['bases'], self.grid(pf))]

    def backward(self, c, pf=None):
        return self.expand(c, self.grid(pf))

    def scalar_product(self, u, pf=None):
        """(u, phi_k)_w for all k; zero in the slots of boundary functions"""
        u = np.asarray(u)
        xs, ws = self.grid(pf), self.weights(pf)
        for a, b in enumerate(self.s['bases']):
            V = self.fmat(a, xs[a])
            if b.get('bc'):
                V = V.copy()
                V[:, b['N'] - gen.numbc(b):] = 0
            u = np.moveaxis(np.tensordot(np.conj(V) * ws[a][:, None], u, (0, a)), 0, a)
        return u

    def eval(self, c, pts, der=None):
        """Values at a list of true points, shape (nd, n)"""
        der = der or [0] * self.nd
        out = []
        for j in range(pts.shape[1]):
            xs = [to_ref(b, pts[a, j:j + 1]) for a, b in enumerate(self.s['bases'])]
            out.append(self.expand(c, xs, der).reshape(-1)[0])
        return np.array(out)

    def project_real(self, c):
        """Make coefficients of a real-to-complex space those of a real function with no Nyquist content"""
        return c

    def dofslice(self):
        return tuple(slice(0, gen.spec_size(b) - gen.numbc(b)) for b in self.s['bases'])

    def random_coefs(self, seed, decay=0.0, nyquist=False, bc=True):
        """Coefficients of a random member of the space, reproducible from `seed`"""
        rs = np.random.RandomState(seed % 2**32)
        sh = self.spec_shape()
        c = rs.uniform(-1, 1, sh)
        if gen.spec_complex(self.s):
            c = c + 1j * rs.uniform(-1, 1, sh)
        for a, b in enumerate(self.s['bases']):
            sl = [slice(None)] * self.nd
            if b.get('bc'):
                sl[a] = slice(b['N'] - gen.numbc(b), None)
                c[tuple(sl)] = 0
            if b['f'] == 'F' and b['N'] % 2 == 0 and not nyquist:
                sl[a] = b['N'] // 2
                c[tuple(sl)] = 0
            if b['f'] == 'U' or b['f'] == 'Q' or b['f'] == 'J':
                sh1 = [1] * self.nd
                sh1[a] = -1
                c = c / (1 + np.arange(c.shape[a])).reshape(sh1)
        ax = self.r2c()
        if ax is not None:
            # Hermitian symmetry of the plane k=0 (and of Nyquist): keep what a real function has
            c = hermitian(self, c, ax, nyquist)
        for a, b in enumerate(self.s['bases']):
            if b.get('bc') and bc and any(b.get('v') or ()):
                self.set_bc(c, a)
        return c

    def set_bc(self, c, a, vals=None):
        """Constant boundary values along axis a"""
        b = self.s['bases'][a]
        vals = bcvals(b) if vals is None else vals
        for i, v in enumerate(vals):
            cv = self.const_coefs(a) * v
            sl = [slice(None)] * self.nd
            sl[a] = b['N'] - gen.numbc(b) + i
            c[tuple(sl)] = cv

    def const_coefs(self, skip):
        """Coefficients of the function 1 over all axes but `skip` (None entries if not representable)"""
        out = np.ones(())
        for a, b in enumerate(self.s['bases']):
            if a == skip:
                continue
            n = gen.spec_size(b)
            v = np.zeros(n)
            if b.get('bc'):
                # weighted projection is what the code does; exact only if 1 is in the space
                raise NotImplementedError
            if b['f'] in ('La', 'H'):
                raise NotImplementedError
            v[0] = 1.0
            out = np.multiply.outer(out, v)
        return out


def hermitian(m, c, ax, nyquist):
    s = m.s
    cf = [a for a, b in enumerate(s['bases']) if b['f'] == 'F' and a != ax]
    planes = [0]
    if s['bases'][ax]['N'] % 2 == 0:
        planes.append(s['bases'][ax]['N'] // 2)
    for p in planes:
        sl = [slice(None)] * m.nd
        sl[ax] = p
        q = c[tuple(sl)].copy()
        r = np.conj(q)
        for a in cf:
            aa = a - (1 if a > ax else 0)
            n = r.shape[aa]
            r = np.take(r, (-np.arange(n)) % n, axis=aa)
        c[tuple(sl)] = 0.5 * (q + r)
    return c


# -- assembling distributed data ------------------------------------------


def assemble(rec, shape, what, lead=0):
    """rec: {rank: (slices, array)}; every entry of the global array exactly once"""
    cover = np.zeros(shape, int)
    out = None
    for r in sorted(rec):
        sl, arr = rec[r]
        arr = np.asarray(arr)
        need(len(sl) == len(shape), 'layout', f'{what}: local slice of rank {r} has {len(sl)} axes, global shape {shape}')
        view = cover[tuple(slice(*x) for x in sl)]
        need(arr.shape[lead:] == view.shape, 'layout',
             f'{what}: rank {r} holds {arr.shape[lead:]} for slice {sl} of {shape}')
        view += 1
        if out is None:
            out = np.zeros(arr.shape[:lead] + tuple(shape), arr.dtype)
        out[(slice(None),) * lead + tuple(slice(*x) for x in sl)] = arr
    need(np.all(cover == 1), 'layout', f'{what}: the local parts do not tile the global array '
         f'({int((cover == 0).sum())} entries missing, {int((cover > 1).sum())} duplicated)')
    return out


def sl2(t):
    """Slices as plain tuples"""
    return tuple((int(s.start or 0), int(s.stop)) for s in t)


def same_everywhere(rec, what, P, tol=1e-12, kind='ranks-disagree'):
    """All ranks report the same value"""
    need(set(rec) == set(range(P)), 'missing', lambda: f'{what}: reported by ranks {sorted(rec)} only')
    v0 = np.asarray(rec[0])
    for r in range(1, P):
        v = np.asarray(rec[r])
        need(v.shape == v0.shape, kind, lambda: f'{what}: rank {r} has shape {v.shape}, rank 0 {v0.shape}')
        d = np.abs(v - v0)
        need(np.all(d <= tol * (1 + np.abs(v0))), kind, lambda: f'{what}: rank {r} has {v.ravel()[:4]}, rank 0 {v0.ravel()[:4]}')
    return rec[0]
