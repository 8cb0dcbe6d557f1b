"""Simulated file system calls: parallel HDF5 files, shell copies, renames, listings.

Files are real files in the scratch directory of the run, written by the real
(serial) HDF5 library; what is simulated is that several processes share them,
that every call is a point where other processes may run, that the disk may
fill up, and that the program may be killed inside of any call.  A file that is
open for writing when the program is killed is left as a crash may leave it:
as it was, with all, or with some of the changes, or unreadable.
"""
import errno
import hashlib
import os
import shlex
import shutil
import threading

import numpy as np

from .errors import Violation, HarnessError

try:
    import h5py
    REAL_FILE = h5py.File
except ImportError:                        # pragma: no cover
    h5py = None
CHUNKS = 4
_os = {k: getattr(os, k) for k in ('system', 'replace', 'rename', 'remove', 'unlink', 'link', 'listdir', 'scandir', 'access', 'stat')}
_path = {k: getattr(os.path, k) for k in ('exists', 'isfile', 'lexists')}


def _sel(sel):
    sel = sel if isinstance(sel, tuple) else (sel,)
    return tuple(sel)


class Shared:
    """A file opened by all processes of a communicator"""

    def __init__(self, io, path, mode, comm):
        self.io, self.path, self.mode, self.size = io, path, mode, comm.Get_size()
        self.snapshot = None
        if mode != 'w' and _path['exists'](path):
            with open(path, 'rb') as f:
                self.snapshot = f.read()
        self.real = REAL_FILE(path, mode)
        self.ops, self.results = [], []
        self.cursor = {}
        self.written = {}
        self.journal = []
        self.made = {}          # object or attribute -> [(number of the change, what was there before)]
        self.closed = False
        self.left = self.size

    # Every process sees the structure of the file as of its own sequence of
    # changes: a change is done when the first process arrives at it.
    def note(self, sig):
        k, f = len(self.ops) - 1, self.real
        if sig[0] == 'attr':
            at = f[sig[1]].attrs if sig[1] in f else {}
            old = (True, at[sig[2]]) if sig[2] in at else (False, None)
            self.made.setdefault((sig[1], sig[2]), []).append((k, old))
        elif sig[0] in ('require_group', 'create_group', 'require_dataset', 'create_dataset', 'delete'):
            p = sig[1]
            while p not in ('', '/'):
                if (p in f) == (sig[0] == 'delete'):
                    self.made.setdefault(p, []).append((k, (p in f, None)))
                if sig[0] == 'delete':
                    break
                p = p.rsplit('/', 1)[0]

    def seen(self, rank, key, now):
        for k, old in self.made.get(key, ()):
            if k >= self.cursor[rank]:
                return old
        return now

    def torn(self, how, ch):
        """The file after a crash"""
        self.real.close()
        journal = self.journal
        if how == 1 or not journal and self.snapshot is not None:
            return
        if how == 0 or self.snapshot is None and how == 3:
            with open(self.path, 'wb') as f:
                f.write(self.snapshot or b'')
            return
        if how == 3:
            with open(self.path, 'rb') as f:
                data = f.read()
            with open(self.path, 'wb') as f:
                f.write(b'\0' * 8 + data[8:len(data) // 2])
            return
        with open(self.path, 'wb') as f:
            f.write(self.snapshot or b'')
        f = REAL_FILE(self.path, 'w' if self.snapshot is None else 'r+')
        n = ch.choose(len(journal) + 1)
        for i, (meta, fn) in enumerate(journal):
            if i >= n if meta else ch.choose(2):
                continue
            try:
                fn(f)
            except (KeyError, ValueError):
                pass
        f.close()


class Attrs:
    def __init__(self, node):
        self._n = node

    def _get(self, f):
        return f[self._n._path].attrs

    def _one(self, f, k):
        at = self._get(f)
        n = self._n
        return n._sh.seen(n._rank, (n._path, k), (True, at[k]) if k in at else (False, None))

    def __getitem__(self, k):
        ok, v = self._n._read(lambda f: self._one(f, k), f'attr {k}')
        if not ok:
            raise KeyError(f"Can't open attribute (can't locate attribute: '{k}')")
        return v

    def get(self, k, default=None):
        ok, v = self._n._read(lambda f: self._one(f, k), f'attr {k}')
        return v if ok else default

    def __contains__(self, k):
        return self._n._read(lambda f: self._one(f, k)[0], f'attr {k}')

    def keys(self):
        return self._n._read(lambda f: [k for k in self._get(f).keys() if self._one(f, k)[0]], 'attrs')

    def __setitem__(self, k, v):
        v = np.array(v)
        self._n._coll(('attr', self._n._path, k, v.tobytes(), v.dtype.str), lambda f: self._get(f).__setitem__(k, v))

    def create(self, k, v, **kw):
        w = np.array(v)
        self._n._coll(('attr', self._n._path, k, w.tobytes(), w.dtype.str), lambda f: self._get(f).create(k, w, **kw))

    def modify(self, k, v):
        w = np.array(v)
        self._n._coll(('attr', self._n._path, k, w.tobytes(), w.dtype.str), lambda f: self._get(f).modify(k, w))


class Node:
    def __init__(self, sh, rank, path):
        self._sh, self._rank, self._path = sh, rank, path
        self.attrs = Attrs(self)

    def _coll(self, sig, do, space=True):
        sh = self._sh
        io = sh.io
        if sh.mode == 'r':
            raise OSError('file is opened for reading')
        if self._rank not in sh.cursor:
            raise ValueError('file is not open')
        io.point(f'h5 {sig[0]} {sig[1]}')
        k = sh.cursor[self._rank]
        sh.cursor[self._rank] += 1
        if k < len(sh.ops):
            if sh.ops[k] != sig:
                raise Violation('io-mismatch', f'rank {self._rank} does {sig[:3]} where another did {sh.ops[k][:3]} as change number {k} of {os.path.basename(sh.path)}')
        else:
            sh.ops.append(sig)
            sh.note(sig)
            try:
                if space:
                    io.space()
                do(sh.real)
                sh.journal.append((True, do))
                sh.results.append(None)
            except (Violation, HarnessError):
                raise
            except Exception as e:       # noqa
                sh.results.append(e)
        if sh.results[k] is not None:
            raise sh.results[k]

    def _read(self, do, what):
        sh = self._sh
        if self._rank not in sh.cursor:
            raise ValueError('file is not open')
        sh.io.point(f'h5 read {what}')
        return do(sh.real)

    def _join(self, name):
        return name if name.startswith('/') else self._path.rstrip('/') + '/' + name

    @property
    def name(self):
        return self._path

    @property
    def file(self):
        return Node(self._sh, self._rank, '/')


class Group(Node):
    def __getitem__(self, name):
        p = self._join(name)
        if not self._has(p):
            raise KeyError(f"Unable to synchronously open object (object '{name}' doesn't exist)")
        isds = self._read(lambda f: isinstance(f[p], h5py.Dataset), p)
        return (Dataset if isds else Group)(self._sh, self._rank, p)

    def _has(self, p):
        return self._read(lambda f: self._sh.seen(self._rank, p, (p in f, None))[0], p)

    def __contains__(self, name):
        return self._has(self._join(name))

    def keys(self):
        return [k for k in self._read(lambda f: list(f[self._path].keys()), self._path) if self._sh.seen(self._rank, self._join(k), (True, None))[0]]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def visit(self, fn):
        ks = []
        self._read(lambda f: f[self._path].visit(ks.append), self._path)
        for k in ks:
            if not self._sh.seen(self._rank, self._join(k), (True, None))[0]:
                continue
            r = fn(k)
            if r is not None:
                return r

    def require_group(self, name):
        p = self._join(name)
        self._coll(('require_group', p), lambda f: f.require_group(p) and None)
        return Group(self._sh, self._rank, p)

    def create_group(self, name):
        p = self._join(name)
        self._coll(('create_group', p), lambda f: f.create_group(p) and None)
        return Group(self._sh, self._rank, p)

    @staticmethod
    def _dsig(p, kw):
        data = kw.get('data')
        return (p, str(kw.get('shape')), str(np.dtype(kw['dtype'])) if kw.get('dtype') is not None else '', b'' if data is None else np.asarray(data).tobytes())

    def require_dataset(self, name, shape=None, dtype=None, exact=False, **kw):
        p = self._join(name)
        shape = (int(shape),) if np.ndim(shape) == 0 else tuple(int(s) for s in shape)
        if kw.get('data') is not None:
            kw['data'] = np.array(kw['data'])
        self._coll(('require_dataset',) + self._dsig(p, dict(kw, shape=shape, dtype=dtype)),
                   lambda f: f.require_dataset(p, shape, dtype, exact, **kw) and None)
        return Dataset(self._sh, self._rank, p)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        p = self._join(name)
        if data is not None:
            data = np.array(data)
        self._coll(('create_dataset',) + self._dsig(p, dict(kw, shape=shape, dtype=dtype, data=data)),
                   lambda f: f.create_dataset(p, shape, dtype, data, **kw) and None)
        return Dataset(self._sh, self._rank, p)

    def __setitem__(self, name, value):
        self.create_dataset(name, data=value)

    def __delitem__(self, name):
        p = self._join(name)
        self._coll(('delete', p), lambda f: f.__delitem__(p), space=False)


class Dataset(Node):
    def _info(self, what):
        return self._read(lambda f: getattr(f[self._path], what), self._path)

    shape = property(lambda self: self._info('shape'))
    dtype = property(lambda self: self._info('dtype'))
    ndim = property(lambda self: len(self._info('shape')))
    size = property(lambda self: self._info('size'))

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, sel):
        return self._read(lambda f: f[self._path][sel], self._path)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self[...], dtype)

    def __setitem__(self, sel, value):
        sh = self._sh
        if sh.mode == 'r':
            raise OSError("Can't write data (no write intent on file)")
        if self._rank not in sh.cursor:
            raise ValueError('file is not open')
        sh.io.point(f'h5 write {self._path}')
        sh.io.space()
        value = np.array(value)
        ds = sh.real[self._path]
        own = sh.written.setdefault(self._path, np.zeros(ds.shape, int))
        before = ds[sel] if np.any((own[sel] != 0) & (own[sel] != self._rank + 1)) else None
        mask = None if before is None else (own[sel] != 0) & (own[sel] != self._rank + 1)
        ds[sel] = value
        if before is not None and not np.array_equal(before[mask], ds[sel][mask], equal_nan=True):
            raise Violation('write-race', f'rank {self._rank} writes another value where a process has written already, in {self._path}')
        own[sel] = self._rank + 1
        p = self._path
        sh.journal.append((False, lambda f: f[p].__setitem__(sel, value)))
        sh.io.stats['h5_writes'] += 1


class File(Group):
    def __init__(self, sh, rank, comm):
        Group.__init__(self, sh, rank, '/')
        self._comm = comm
        self.filename, self.mode = sh.path, 'r' if sh.mode == 'r' else 'r+'

    def __bool__(self):
        return self._rank in self._sh.cursor

    def flush(self):
        if self:
            self._coll(('flush', '/'), lambda f: None)

    def close(self):
        sh = self._sh
        if self._rank not in sh.cursor:
            return
        sh.io.point('h5 close')
        n = sh.cursor.pop(self._rank)
        self._comm.Barrier()
        if n != len(sh.ops):
            raise Violation('io-mismatch', f'rank {self._rank} closes {os.path.basename(sh.path)} after {n} changes of its structure, another after {len(sh.ops)}')
        sh.io.close(sh)
        self._comm.Barrier()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class IO:
    def __init__(self, sim, faults):
        self.sim = sim
        self.cwd = os.path.realpath(os.getcwd())
        self.n = 0
        self.nspace = 0
        self.nlist = 0
        self.kill = faults.get('io_kill')
        self.enospc = faults.get('enospc')           # (first, how many)
        self.touch = faults.get('touch')             # (number of the listing before which the file appears, name)
        self.stop = self.touch[1] if self.touch else None
        self.vanish = self.touch and self.touch[2]
        self.torn = faults.get('torn')
        self.open_files = {}
        self.pending = {}
        self.serial = {}
        self.stats = sim.stats
        for k in ('h5_open', 'h5_writes', 'copies', 'renames', 'io_kill', 'enospc', 'torn_file', 'torn_copy', 'stop_file', 'stop_file_vanished'):
            self.stats.setdefault(k, 0)

    # --------------------------------------------------------------------
    def mine(self, *paths):
        """Only calls of the simulated ranks on files of the run are simulated"""
        if not any(rk.thread is threading.current_thread() for rk in self.sim.ranks):
            return False
        for p in paths:
            if not isinstance(p, (str, os.PathLike)):
                return False
            q = os.path.realpath(os.fspath(p))
            if q != self.cwd and not q.startswith(self.cwd + os.sep):
                return False
        return True

    def guard(self, *paths):
        for p in paths:
            if not self.mine(p):
                raise HarnessError(f'file operation outside of the scratch directory: {p}')

    def point(self, what):
        self.sim.point('io ' + what, io=True)
        self.n += 1
        if self.kill is not None and self.n > self.kill:
            self.stats['io_kill'] += 1
            self.sim.die()

    def space(self):
        self.nspace += 1
        if self.enospc and self.enospc[0] < self.nspace <= self.enospc[0] + self.enospc[1]:
            self.stats['enospc'] += 1
            raise OSError(errno.ENOSPC, 'No space left on device')

    # --------------------------------------------------------------------
    def h5(self, name, mode='r', driver=None, comm=None, **kw):
        mode = {'w-': 'x'}.get(mode, mode)
        self.guard(name)
        path = os.path.realpath(os.fspath(name))
        if driver != 'mpio':
            self.point(f'h5open {mode}')
            old = self.serial.get(path)
            if old is not None and old and (mode != 'r' or old.mode != 'r') or path in self.open_files:
                raise BlockingIOError(11, 'Unable to lock file')
            f = REAL_FILE(path, mode, **{k: v for k, v in kw.items() if k in ('libver',)})
            self.serial[path] = f
            return f
        rank = comm.Get_rank()
        self.point(f'h5open {mode}')
        comm.Barrier()
        self.stats['h5_open'] += 1
        p = self.pending.get(path)
        if p is None:
            try:
                if path in self.open_files:
                    raise OSError('unable to open file: it is open already')
                if mode == 'a':
                    m = 'r+' if _path['exists'](path) else 'w'
                else:
                    m = mode
                if m == 'w':
                    self.space()
                sh = Shared(self, path, m, comm)
                self.open_files[path] = sh
                p = [sh, None, comm.Get_size(), mode]
            except (OSError, ValueError) as e:
                p = [None, e, comm.Get_size(), mode]
            self.pending[path] = p
        elif p[3] != mode:
            raise Violation('io-mismatch', f'processes open {os.path.basename(path)} in modes {p[3]} and {mode}')
        p[2] -= 1
        if p[2] == 0:
            del self.pending[path]
        sh, e = p[0], p[1]
        if sh is not None:
            sh.cursor[self.sim.current] = 0
        comm.Barrier()
        if e is not None:
            raise e
        return File(sh, self.sim.current, comm)

    def close(self, sh):
        if not sh.closed:
            sh.closed = True
            sh.real.close()
            self.open_files.pop(sh.path, None)

    # --------------------------------------------------------------------
    def copy(self, a, b):
        self.guard(a, b)
        self.point('copy')
        self.stats['copies'] += 1
        with open(a, 'rb') as f:
            data = f.read()
        if os.path.isdir(b):
            b = os.path.join(b, os.path.basename(a))
        g = open(b, 'wb')
        try:
            n = len(data) // CHUNKS + 1
            for i in range(CHUNKS):
                try:
                    self.point('copying')
                    self.space()
                except OSError:
                    self.stats['torn_copy'] += 1
                    raise
                g.write(data[i * n:(i + 1) * n])
                g.flush()
        finally:
            g.close()
        return b

    def system(self, cmd):
        try:
            rc = 0
            for part in cmd.split('&&'):
                words = [w for w in shlex.split(part.replace(';', ' ')) if w not in ('-f', '-p', '-a', '--')]
                if words[0] == 'cp' and len(words) == 3:
                    self.copy(*words[1:])
                elif words[0] == 'mv' and len(words) == 3:
                    self.rename(*words[1:])
                elif words[0] == 'rm':
                    for w in words[1:]:
                        self.remove(w)
                elif words[0] in ('sync', 'true'):
                    self.point('sync')
                else:
                    raise HarnessError(f'shell command {cmd!r} is not simulated')
        except OSError:
            rc = 256
        return rc

    def rename(self, a, b, **kw):
        self.guard(a, b)
        self.point('rename')
        _os['replace'](a, b)
        self.stats['renames'] += 1
        self.point('renamed')

    def link(self, a, b, **kw):
        self.guard(a, b)
        self.point('link')
        _os['link'](a, b)

    def remove(self, a, **kw):
        self.guard(a)
        self.point('remove')
        if self.vanish and os.path.basename(a) == self.stop:
            # another program has seen the file and was faster
            self.stats['stop_file_vanished'] += 1
            _os['remove'](a)
        _os['remove'](a)

    def poll(self):
        """A process looks at the directory; the file may just have appeared"""
        self.nlist += 1
        if self.touch and self.nlist > self.touch[0]:
            with open(os.path.join(self.cwd, self.touch[1]), 'w'):
                pass
            self.touch = None
            self.stats['stop_file'] += 1
            self.sim.event('stop file appears')

    def listdir(self, path='.'):
        self.point('listdir')
        self.poll()
        return sorted(_os['listdir'](path))

    # --------------------------------------------------------------------
    def finish(self):
        for f in self.serial.values():
            try:
                f.close()
            except Exception:     # noqa
                pass
        for sh in list(self.open_files.values()):
            if self.sim.killed:
                how = self.torn if self.torn is not None else self.sim.chooser.choose(4)
                self.stats['torn_file'] += 1
                sh.torn(how, self.sim.chooser)
            else:
                sh.real.close()


def install(sim, faults):
    io = IO(sim, faults)
    if h5py is None:
        return io
    h5py.File = io.h5

    def wrap(new, old, npaths):
        def f(*a, **kw):
            if io.mine(*a[:npaths]):
                return new(*a, **kw)
            return old(*a, **kw)
        return f
    os.system = lambda cmd: io.system(cmd) if io.mine() else _os['system'](cmd)
    os.replace = wrap(io.rename, _os['replace'], 2)
    os.rename = wrap(io.rename, _os['rename'], 2)
    os.link = wrap(io.link, _os['link'], 2)
    os.remove = wrap(io.remove, _os['remove'], 1)
    os.unlink = wrap(io.remove, _os['unlink'], 1)
    os.listdir = lambda path='.': io.listdir(path) if io.mine(path) else _os['listdir'](path)
    for k in ('exists', 'isfile', 'lexists'):
        def test(p, k=k):
            if io.mine(p):
                io.point(k)
                if io.stop and os.path.basename(p) == io.stop:
                    io.poll()
            return _path[k](p)
        setattr(os.path, k, test)

    def scandir(path='.'):
        if io.mine(path):
            io.point('scandir')
            io.poll()
        return _os['scandir'](path)
    os.scandir = scandir
    if io.stop:
        def access(p, *a, **kw):
            if io.mine(p) and os.path.basename(p) == io.stop:
                io.point('access')
                io.poll()
            return _os['access'](p, *a, **kw)
        os.access = access

        def stat(p, *a, **kw):
            if io.mine(p) and os.path.basename(p) == io.stop:
                io.point('stat')
                io.poll()
            return _os['stat'](p, *a, **kw)
        os.stat = stat

    def run(cmd, *a, **kw):
        import subprocess
        rc = io.system(cmd if isinstance(cmd, str) else ' '.join(shlex.quote(str(c)) for c in cmd))
        if rc and kw.get('check'):
            raise subprocess.CalledProcessError(rc, cmd)
        return subprocess.CompletedProcess(cmd, rc >> 8, b'', b'')
    import subprocess
    real = {k: getattr(subprocess, k) for k in ('run', 'call', 'check_call')}
    subprocess.run = lambda cmd, **kw: run(cmd, **kw) if io.mine() else real['run'](cmd, **kw)
    subprocess.call = lambda cmd, **kw: run(cmd).returncode if io.mine() else real['call'](cmd, **kw)
    subprocess.check_call = lambda cmd, **kw: run(cmd, check=True).returncode if io.mine() else real['check_call'](cmd, **kw)
    for k in ('copy', 'copy2', 'copyfile'):
        old = getattr(shutil, k)
        setattr(shutil, k, wrap(lambda a, b, **kw: io.copy(a, b), old, 2))
    shutil.move = wrap(io.rename, shutil.move, 2)
    return io
