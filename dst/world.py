"""One Python process that holds P_MAX private copies of the modules under test.

Every MPI rank is its own process in reality, so every module-level object
(communicators, caches, configuration) exists once per rank.  Here each rank
has its own copy of all shenfun and mpi4py_fft modules; the scheduler swaps
sys.modules on every switch, together with the state of the random number generators.  Compiled extension modules are shared.
"""
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

P_MAX = 8
PREFIXES = ('shenfun', 'mpi4py_fft')


def _mine(name):
    return name.split('.', 1)[0] in PREFIXES


class _SharedExt(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Hands every copy of a package the same compiled extension modules"""

    def __init__(self):
        self.cache = {}

    def find_spec(self, name, path=None, target=None):
        if not _mine(name):
            return None
        if name in self.cache:
            spec = importlib.machinery.ModuleSpec(name, self, origin=self.cache[name].__file__)
            return spec
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.ExtensionFileLoader):
            return None
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        self.cache[name] = mod
        return importlib.machinery.ModuleSpec(name, self, origin=mod.__file__)

    def create_module(self, spec):
        return self.cache[spec.name]

    def exec_module(self, module):
        pass


def hash_seam(state):
    """The order in which a set of symbols is walked

    Strings hash differently in every process, so on every rank of a real job
    a set of symbols has its own order.  The ranks share one interpreter here, so the
    order is decided by the rank and the run, if the run asks for it.
    """
    from sympy.core.basic import Basic
    plain = Basic.free_symbols.fget
    orders = {}

    def key(e):
        k = (state.hashorder, state.current, str(e))
        v = orders.get(k)
        if v is None:
            v = orders[k] = hashlib.sha256(repr(k).encode()).digest()
        return v

    class SymbolSet(set):
        def __iter__(self):
            items = list(set.__iter__(self))
            if len(items) > 1 and state.hashorder is not None:
                items.sort(key=key)
                state.hash_shuffles += 1
            return iter(items)

        def pop(self):
            if not len(self):
                raise KeyError('pop from an empty set')
            x = next(iter(self))
            self.discard(x)
            return x

        def __reduce__(self):
            return set, (list(set.__iter__(self)),)

    Basic.free_symbols = property(lambda self: SymbolSet(plain(self)), doc=Basic.free_symbols.__doc__)


class World:
    def __init__(self, root, pmax=P_MAX):
        """Import pmax copies of the packages; `root` holds the shenfun package"""
        from . import simmpi
        import mpi4py
        import h5py              # noqa  before the fake MPI module is in place
        import numpy, scipy, sympy, scipy.linalg, scipy.sparse.linalg, scipy.fft, scipy.special   # noqa
        self.simmpi = simmpi
        self.pmax = pmax
        sys.path.insert(0, root)
        self.state = simmpi.SimState()
        self.state.typedict = {}
        hash_seam(self.state)
        self.worlds = [simmpi.SimComm(None, None, r) for r in range(pmax)]
        self.selfs = [simmpi.SimComm(None, None, r) for r in range(pmax)]
        for c in self.worlds + self.selfs:
            c._permanent = True
        self.mpi = simmpi.SimMPIModule(self.worlds, self.selfs, self.state)
        mpi4py.MPI = self.mpi
        sys.modules['mpi4py.MPI'] = self.mpi
        self.ext = _SharedExt()
        sys.meta_path.insert(0, self.ext)
        self.mods = []
        for r in range(pmax):
            self.state.current = r
            importlib.import_module('shenfun')
            importlib.import_module('shenfun.utilities.integrators')
            importlib.import_module('shenfun.utilities.lagrangian_particles')
            importlib.import_module('shenfun.legendre.la')
            importlib.import_module('shenfun.fourier')
            importlib.import_module('shenfun.io.generate_xdmf')
            self._configure(sys.modules['shenfun'])
            self.mods.append(self._strip())
        self.state.current = 0
        self.rand = None
        sys.modules.update(self.mods[0])

    @staticmethod
    def _configure(sf):
        cfg = sf.config
        for k in cfg['fftw']:
            try:
                cfg['fftw'][k]['planner_effort'] = 'FFTW_ESTIMATE'
            except Exception:
                pass

    @staticmethod
    def _strip():
        mine = {k: v for k, v in sys.modules.items() if _mine(k)}
        for k in mine:
            del sys.modules[k]
        return mine

    def entropy(self, h):
        """Each process has its own state of the global random number generators"""
        import random
        import numpy as np
        self.rand = []
        for r in range(self.pmax):
            random.seed(h + r)
            self.rand.append((np.random.RandomState((h + 7919 * r) % 2**32).get_state(legacy=False), random.getstate()))
        np.random.set_state(self.rand[0][0])
        random.setstate(self.rand[0][1])

    def switch(self, a, b):
        if self.rand:
            import random
            import numpy as np
            self.rand[a] = np.random.get_state(legacy=False), random.getstate()
            np.random.set_state(self.rand[b][0])
            random.setstate(self.rand[b][1])
        self.mods[a] = self._strip()
        sys.modules.update(self.mods[b])

    def start(self, P, chooser, **kw):
        """A fresh job of P ranks"""
        sim = self.simmpi.Sim(self.state, P, chooser, switch=self.switch, **kw)
        wctx = self.simmpi.CommCtx(sim, range(P))
        for r in range(self.pmax):
            c = self.worlds[r]
            c._sim, c._ctx, c._seq = (sim, wctx, 0) if r < P else (None, None, 0)
            s = self.selfs[r]
            s._sim, s._ctx, s._seq = (sim, self.simmpi.CommCtx(sim, [r]), 0) if r < P else (None, None, 0)
        sim.switch_to(0)
        return sim
