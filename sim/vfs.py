"""
Virtual files, pipes and byte streams with injected faults.

Everything the code under test reads or writes (stdin, stdout, stderr, named
files below the virtual working directory, pipes to helper programs) ends up in
one of the raw streams below; the buffering and text layers on top are CPython's
real ones.
"""

import errno
import io
import os

from .kernel import Sim, SimKilled
from . import threads

PIPE_CAPACITY = 65536

def oserr (name):
    code = getattr (errno, name)
    return OSError (code, os.strerror (code))

class ReadPlan:
    """ How reads of one stream behave: chunking and an optional error """
    __slots__ = ('chunk', 'errAt', 'err', 'fired')

    def __init__ (self, chunk=None, errAt=None, err='EIO'):
        # None: as much as asked for; int: at most n; 'line': up to and
        # including the next newline; list: cycle of maximum lengths
        self.chunk = chunk
        self.errAt = errAt
        self.err = err
        self.fired = False

class WritePlan:
    __slots__ = ('chunk', 'errAt', 'err', 'fired', 'closeErr')

    def __init__ (self, chunk=None, errAt=None, err='ENOSPC', closeErr=None):
        self.chunk = chunk
        self.errAt = errAt
        self.err = err
        self.fired = False
        self.closeErr = closeErr

class Inode:
    """ Contents of a virtual file """
    __slots__ = ('data', 'readPlan', 'writePlan', 'openErr', 'opened', 'written')

    def __init__ (self, data=b'', readPlan=None, writePlan=None, openErr=None):
        self.data = bytearray (data)
        self.readPlan = readPlan
        self.writePlan = writePlan
        self.openErr = openErr
        self.opened = 0
        self.written = 0

class SimPipe:
    """ Unidirectional byte pipe with bounded capacity """
    def __init__ (self, sim, name, capacity=PIPE_CAPACITY):
        self.sim = sim
        self.name = name
        self.capacity = capacity
        self.buf = bytearray ()
        self.readers = 0
        self.writers = 0
        self.total = 0

class RawBase (io.RawIOBase):
    def __init__ (self, proc, name):
        super ().__init__ ()
        self.proc = proc
        self.name = name
        proc.openFiles.append (self)
        self.gone = False
        self.fd = None
        # os.dup2
        self.target = None

    def procGone (self, proc):
        """ The owning process vanished """
        if not self.gone:
            self.gone = True
            self.release ()

    def release (self):
        pass

    def fileno (self):
        """ Descriptors only mean something to the seams around os.* """
        if self.closed:
            raise ValueError ('I/O operation on closed file')
        sim = self._sim ()
        if self.fd is None:
            sim.lastFd += 1
            self.fd = sim.lastFd
        self.proc.fds[self.fd] = self
        return self.fd

    def isatty (self):
        return False

    def sync (self):
        pass

    def close (self):
        if self.closed:
            return
        self.proc.fds.pop (self.fd, None)
        try:
            super ().close ()
        finally:
            if not self.gone:
                self.gone = True
                try:
                    self.proc.openFiles.remove (self)
                except ValueError:
                    pass
                self.release ()

    def _sim (self):
        sim = Sim.current
        if sim is None or self.gone or not sim.inTask () or sim.cur.proc is not self.proc:
            # left-over object of a simulated process that's gone
            raise SimKilled ()
        return sim

class FileReader (RawBase):
    """ Seekable file, read only """
    def __init__ (self, proc, name, inode, quiet=False):
        super ().__init__ (proc, name)
        self.inode = inode
        self.pos = 0
        self.n = 0
        self.quiet = quiet

    def readable (self):
        return True

    def seekable (self):
        return True

    def seek (self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: len (self.inode.data)}[whence]
        if base+off < 0:
            raise oserr ('EINVAL')
        self.pos = base+off
        return self.pos

    def tell (self):
        return self.pos

    def readinto (self, b):
        sim = self._sim ()
        if not self.quiet:
            sim.point ('read')
        data = self.inode.data
        want = min (len (b), max (0, len (data)-self.pos))
        plan = self.inode.readPlan
        if plan is not None:
            if plan.errAt is not None:
                if self.pos >= plan.errAt and len (b) > 0:
                    if not plan.fired:
                        sim.fault (f'read_{plan.err}', at=plan.errAt)
                    plan.fired = True
                    raise oserr (plan.err)
                want = min (want, plan.errAt-self.pos)
            c = plan.chunk
            if c == 'line':
                i = data.find (b'\n', self.pos)
                if i >= 0:
                    want = min (want, i+1-self.pos)
            elif isinstance (c, list):
                want = min (want, c[self.n % len (c)])
            elif c is not None:
                want = min (want, c)
            if want < min (len (b), max (0, len (data)-self.pos)):
                sim.probe ('short_read')
        self.n += 1
        b[:want] = data[self.pos:self.pos+want]
        self.pos += want
        return want

class FileWriter (RawBase):
    def __init__ (self, proc, name, inode, append=False):
        super ().__init__ (proc, name)
        self.inode = inode
        self.n = 0

    def writable (self):
        return True

    def seekable (self):
        return False

    def sync (self):
        """ fsync: the last chance to tell """
        self._sim ().point ('fsync')
        self._late ()

    def truncate (self, size=None):
        self._sim ().point ('truncate')
        if size is None:
            size = len (self.inode.data)
        del self.inode.data[size:]
        return size

    def write (self, b):
        if self.target is not None:
            return self.target.write (b)
        sim = self._sim ()
        sim.point ('write', keep=True)
        b = bytes (b)
        want = len (b)
        inode = self.inode
        plan = inode.writePlan
        if plan is not None:
            if plan.errAt is not None:
                if inode.written+want > plan.errAt:
                    want = plan.errAt-inode.written
                    if want <= 0:
                        if not plan.fired:
                            sim.fault (f'write_{plan.err}', at=plan.errAt)
                        plan.fired = True
                        raise oserr (plan.err)
                    sim.fault ('short_write')
            c = plan.chunk
            if isinstance (c, list):
                c = c[self.n % len (c)]
            if c is not None and want > c:
                want = c
                sim.fault ('short_write')
        self.n += 1
        inode.data += b[:want]
        inode.written += want
        return want

    def close (self):
        if self.closed:
            return
        super ().close ()
        self._late ()

    def _late (self):
        plan = self.inode.writePlan
        if plan is not None and plan.closeErr and not plan.fired:
            plan.fired = True
            sim = Sim.current
            if sim is not None:
                sim.fault (f'close_{plan.closeErr}', at='close')
            raise oserr (plan.closeErr)

class PipeReader (RawBase):
    def __init__ (self, proc, pipe, plan=None):
        super ().__init__ (proc, pipe.name)
        self.pipe = pipe
        pipe.readers += 1
        self.plan = plan
        self.off = 0
        self.n = 0

    def release (self):
        self.pipe.readers -= 1

    def readable (self):
        return True

    def readinto (self, b):
        sim = self._sim ()
        sim.point ('read')
        plan = self.plan
        pipe = self.pipe
        if plan is not None and plan.errAt is not None and self.off >= plan.errAt:
            if not plan.fired:
                sim.fault (f'read_{plan.err}', at=plan.errAt)
            plan.fired = True
            raise oserr (plan.err)
        sim.block (lambda: pipe.buf or pipe.writers <= 0)
        want = min (len (b), len (pipe.buf))
        if plan is not None and want:
            if plan.errAt is not None:
                want = min (want, plan.errAt-self.off)
            c = plan.chunk
            if c == 'line':
                i = pipe.buf.find (b'\n')
                if i >= 0:
                    want = min (want, i+1)
            elif isinstance (c, list):
                want = min (want, c[self.n % len (c)])
            elif c is not None:
                want = min (want, c)
        self.n += 1
        b[:want] = pipe.buf[:want]
        del pipe.buf[:want]
        self.off += want
        return want

class PipeWriter (RawBase):
    def __init__ (self, proc, pipe, plan=None):
        super ().__init__ (proc, pipe.name)
        self.pipe = pipe
        pipe.writers += 1
        self.plan = plan

    def release (self):
        self.pipe.writers -= 1

    def writable (self):
        return True

    def write (self, b):
        if self.target is not None:
            return self.target.write (b)
        sim = self._sim ()
        sim.point ('write', keep=True)
        pipe = self.pipe
        b = bytes (b)
        if not b:
            return 0
        # blocking write(2): returns once everything is in the pipe
        done = 0
        while done < len (b):
            sim.block (lambda: len (pipe.buf) < pipe.capacity or pipe.readers <= 0)
            if pipe.readers <= 0:
                sim.fault ('write_EPIPE')
                raise oserr ('EPIPE')
            n = min (len (b)-done, pipe.capacity-len (pipe.buf))
            pipe.buf += b[done:done+n]
            pipe.total += n
            done += n
        return done

class NullReader (RawBase):
    def readable (self):
        return True

    def readinto (self, b):
        return 0

class NullWriter (RawBase):
    def writable (self):
        return True

    def write (self, b):
        return len (b)

def textReader (raw, encoding='utf-8', errors='strict'):
    return io.TextIOWrapper (io.BufferedReader (raw), encoding=encoding, errors=errors)

class StdWriter (io.BufferedWriter):
    """ Standard streams are used by all threads of a process, which have to wait for each other """
    def __init__ (self, raw):
        super ().__init__ (raw)
        self._cs = threads.SimRLock ()

    def write (self, b):
        if not threads.busy ():
            return super ().write (b)
        with self._cs:
            return super ().write (b)

    def flush (self):
        if not threads.busy ():
            return super ().flush ()
        with self._cs:
            return super ().flush ()

def textWriter (raw, encoding='utf-8', errors='strict', line_buffering=False):
    return io.TextIOWrapper (StdWriter (raw), encoding=encoding, errors=errors,
            line_buffering=line_buffering)

def wrap (raw, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    """ What open () puts on top of a file """
    if buffering == 0:
        if 'b' not in mode:
            raise ValueError ("can't have unbuffered text I/O")
        return raw
    cls = io.BufferedWriter if raw.writable () else io.BufferedReader
    buf = cls (raw, buffering) if buffering > 1 else cls (raw)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper (buf, encoding=encoding or 'utf-8', errors=errors, newline=newline,
            line_buffering=buffering == 1)
    t.mode = mode
    return t

class FS:
    """ Namespace of virtual files """
    CWD = '/simfs/cwd'

    def __init__ (self):
        self.files = {}
        self.dirs = set ()
        # faults of files that do not exist yet
        self.newPlan = None
        # error of the next rename
        self.renameErr = None
        self.denied = []
        # files of the package itself that were read
        self.real = []

    def resolve (self, path):
        """ Virtual path or None """
        path = os.fspath (path)
        if isinstance (path, bytes):
            path = os.fsdecode (path)
        if not os.path.isabs (path):
            path = self.CWD + '/' + path
        path = os.path.normpath (path)
        if path.startswith ('/simfs/') or path == '/simfs' or path in self.files:
            return path
        return None

    def add (self, path, data=b'', **kw):
        if isinstance (data, str):
            data = data.encode ('utf-8')
        ino = Inode (data, **kw)
        self.files[self.resolve (path)] = ino
        return ino

    def isdir (self, vpath):
        return vpath in self.dirs or self.CWD.startswith (vpath) or any (f.startswith (vpath + '/') for f in self.files)

    def get (self, path):
        return self.files.get (self.resolve (path))

    def open (self, proc, path, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        sim = Sim.current
        vpath = self.resolve (path)
        kind = set (mode)
        if len (kind & set ('rwax')) != 1:
            raise ValueError (f'invalid mode: {mode!r}')
        sim.point ('open')
        ino = self.files.get (vpath)
        if 'r' in kind:
            if ino is None:
                raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), os.fspath (path))
            if ino.openErr:
                sim.fault (f'open_{ino.openErr}', at=self.resolve (path))
                code = getattr (errno, ino.openErr)
                raise OSError (code, os.strerror (code), os.fspath (path))
            if '+' in kind:
                raise NotImplementedError ('virtual r+')
            ino.opened += 1
            raw = FileReader (proc, os.fspath (path), ino)
        else:
            if 'x' in kind and ino is not None:
                raise FileExistsError (errno.EEXIST, os.strerror (errno.EEXIST), os.fspath (path))
            if ino is None:
                ino = self.files[vpath] = Inode (writePlan=self.newPlan)
            if ino.openErr:
                sim.fault (f'open_{ino.openErr}', at=self.resolve (path))
                code = getattr (errno, ino.openErr)
                raise OSError (code, os.strerror (code), os.fspath (path))
            if 'a' not in kind:
                ino.data = bytearray ()
                ino.written = 0
            ino.opened += 1
            raw = FileWriter (proc, os.fspath (path), ino)
        return wrap (raw, mode, buffering, encoding, errors, newline)
