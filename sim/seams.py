"""
Everything nondeterministic the code under test can reach is replaced here, once
per host process. The replacements only act for code running inside a simulated
process and fall through to the real thing otherwise.
"""

import atexit as _atexit
import builtins
import bz2
import datetime as _datetime
import errno
import gc
import io
import logging
import os
import random as _random
import signal as _signal
import subprocess as _subprocess
import sys
import time as _time
import warnings
import hashlib
import pickle

from .kernel import Sim, SimKilled, Actor, HarnessError, derive
from . import mp, vfs, modset, threads

real = dict (open=builtins.open, time=_time.time, monotonic=_time.monotonic, perf=_time.perf_counter,
        sleep=_time.sleep, Popen=_subprocess.Popen, exists=os.path.exists, isfile=os.path.isfile,
        getsize=os.path.getsize, signal=_signal.signal, getsignal=_signal.getsignal, getpid=os.getpid,
        kill=os.kill, isdir=os.path.isdir, mkdir=os.mkdir, makedirs=os.makedirs, listdir=os.listdir, remove=os.remove, unlink=os.unlink, rename=os.rename, replace=os.replace,
        datetime=_datetime.datetime, stat=os.stat, fork=os.fork, atexit=_atexit.register, unregister=_atexit.unregister, urandom=os.urandom, _exit=os._exit)

for _n in ('open', 'write', 'read', 'close', 'fsync', 'fdatasync', 'fstat', 'isatty', 'dup2', 'ftruncate'):
    real['os.' + _n] = getattr (os, _n)

def inside ():
    s = Sim.current
    return s if s is not None and s.inTask () else None

# -- files ------------------------------------------------------------------
def simOpen (file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = inside ()
    if s is None:
        return real['open'] (file, mode, buffering, encoding, errors, newline, closefd, opener)
    if opener is not None and not isinstance (file, int):
        flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
                'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND}[(set (mode) & set ('rwxa')).pop ()]
        file = opener (file, flags)
    if isinstance (file, int):
        raw = _raw (s, file)
        if raw is None:
            return real['open'] (file, mode, buffering, encoding, errors, newline, closefd)
        return vfs.wrap (raw, mode, buffering, encoding, errors, newline)
    if os.fspath (file) == os.devnull:
        return vfs.wrap ((vfs.NullReader if 'r' in mode and '+' not in mode else vfs.NullWriter) (s.curProc, os.devnull), mode, buffering,
                encoding, errors, newline)
    if s.fs.resolve (file) is not None:
        return s.fs.open (s.curProc, file, mode, buffering, encoding, errors, newline)
    if set (mode) & set ('wax+'):
        # nothing below may ever touch the real file system
        s.fs.denied.append (os.fspath (file))
        raise PermissionError (errno.EACCES, os.strerror (errno.EACCES), os.fspath (file))
    s.fs.real.append (os.path.abspath (os.fspath (file)))
    return real['open'] (file, mode, buffering, encoding or (None if 'b' in mode else 'utf-8'), errors, newline)

def _virtual (name, f, destructive=False):
    r = real[name]
    def g (path='.', *args, **kwargs):
        s = inside ()
        if s is not None and not isinstance (path, int):
            v = s.fs.resolve (path)
            if v is not None:
                return f (s, v, *args, **kwargs)
            if destructive:
                s.fs.denied.append (os.fspath (path))
                raise PermissionError (errno.EACCES, os.strerror (errno.EACCES), os.fspath (path))
        return r (path, *args, **kwargs)
    g.__name__ = name
    return g

def _vremove (s, v):
    s.point ('unlink')
    if v not in s.fs.files:
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), v)
    del s.fs.files[v]

def _vrename (s, v, dst, **kw):
    s.point ('rename')
    d = s.fs.resolve (dst)
    if d is None:
        raise PermissionError (errno.EACCES, os.strerror (errno.EACCES), dst)
    if v not in s.fs.files:
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), v)
    if s.fs.renameErr is not None:
        err, s.fs.renameErr = s.fs.renameErr, None
        s.fault (f'rename_{err}', at=v)
        raise vfs.oserr (err)
    s.fs.files[d] = s.fs.files.pop (v)

def _vsize (s, v):
    if v not in s.fs.files:
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), v)
    return len (s.fs.files[v].data)

def _vstat (s, v, **kw):
    if v in s.fs.files:
        mode, size = 0o100644, len (s.fs.files[v].data)
    elif s.fs.isdir (v):
        mode, size = 0o040755, 0
    else:
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), v)
    t = int (s.wallClock ())
    return os.stat_result ((mode, 1, 1, 1, 0, 0, size, t, t, t))

def _vmkdir (s, v, *args, **kw):
    if v in s.fs.files or s.fs.isdir (v) and not kw.get ('exist_ok'):
        raise FileExistsError (errno.EEXIST, os.strerror (errno.EEXIST), v)
    s.fs.dirs.add (v)

def _vlistdir (s, v):
    if not s.fs.isdir (v):
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), v)
    return sorted ({x[len (v)+1:].split ('/')[0] for x in list (s.fs.files) + list (s.fs.dirs) if x.startswith (v + '/')})

# -- descriptors --------------------------------------------------------------
def _raw (s, fd):
    """ Simulated file behind a descriptor, None: a real one """
    p = s.curProc
    if fd in p.fds:
        return p.fds[fd]
    if fd in (0, 1, 2) or fd >= FIRSTFD:
        raise vfs.oserr ('EBADF')
    return None

FIRSTFD = 1 << 20

def simOsOpen (path, flags, mode=0o777, *, dir_fd=None):
    s = inside ()
    if s is None:
        return real['os.open'] (path, flags, mode, dir_fd=dir_fd)
    if os.fspath (path) == os.devnull:
        return (vfs.NullWriter if flags & 3 else vfs.NullReader) (s.curProc, os.devnull).fileno ()
    v = s.fs.resolve (path)
    write = flags & 3
    if v is None:
        if write:
            s.fs.denied.append (os.fspath (path))
            raise PermissionError (errno.EACCES, os.strerror (errno.EACCES), os.fspath (path))
        return real['os.open'] (path, flags, mode, dir_fd=dir_fd)
    if not write:
        return s.fs.open (s.curProc, path, 'rb', 0).fileno ()
    if v not in s.fs.files and not flags & os.O_CREAT:
        raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), os.fspath (path))
    return s.fs.open (s.curProc, path, 'xb' if flags & os.O_EXCL else ('wb' if flags & os.O_TRUNC else 'ab'), 0).fileno ()

def _fdcall (name, f):
    r = real['os.' + name]
    def g (fd, *args, **kwargs):
        s = inside ()
        if s is not None:
            raw = _raw (s, fd)
            if raw is not None:
                return f (s, raw, *args, **kwargs)
        return r (fd, *args, **kwargs)
    g.__name__ = name
    return g

def _fdwrite (s, raw, data):
    return raw.write (data)

def _fdread (s, raw, n):
    b = bytearray (n)
    return bytes (b[:raw.readinto (b)])

def _fdstat (s, raw):
    t = int (s.wallClock ())
    ino = getattr (raw, 'inode', None)
    mode = 0o100644 if ino is not None else (0o010600 if hasattr (raw, 'pipe') else 0o020666)
    return os.stat_result ((mode, 1, 1, 1, 0, 0, 0 if ino is None else len (ino.data), t, t, t))

def simDup2 (fd, fd2, inheritable=True):
    s = inside ()
    if s is None:
        return real['os.dup2'] (fd, fd2, inheritable)
    a, b = _raw (s, fd), _raw (s, fd2)
    if a is None or b is None or not hasattr (b, 'write'):
        raise HarnessError (f'dup2 ({fd}, {fd2}) is not modelled')
    s.point ('dup2')
    if a is not b:
        b.target = a
    return fd2

def simUrandom (n):
    s = inside ()
    if s is None:
        return real['urandom'] (n)
    return s.stream ('urandom', s.curProc.name).randbytes (n)

# -- time -------------------------------------------------------------------
def simTime ():
    s = inside ()
    if s is None:
        return real['time'] ()
    s.probe ('clock_read')
    return s.wallClock ()

def simMonotonic ():
    s = inside ()
    return real['monotonic'] () if s is None else s.now-s.t0+1000

def simSleep (d):
    s = inside ()
    if s is None:
        return real['sleep'] (d)
    s.point ('sleep')
    s.block (lambda: False, d)

class SimDatetime (_datetime.datetime):
    @classmethod
    def now (cls, tz=None):
        s = inside ()
        if s is None:
            return real['datetime'].now (tz)
        return real['datetime'].fromtimestamp (s.wallClock (), tz or _datetime.timezone.utc).replace (tzinfo=tz)

    @classmethod
    def utcnow (cls):
        return cls.now (None)

    @classmethod
    def today (cls):
        return cls.now (None)

# -- randomness -------------------------------------------------------------
_RandomFns = ('random', 'uniform', 'randint', 'choice', 'randrange', 'sample', 'shuffle', 'choices',
        'normalvariate', 'gauss', 'getrandbits', 'expovariate', 'betavariate', 'triangular', 'randbytes')

class AdversarialRandom (_random.Random):
    """
    Random numbers as a simulator wants them: some runs get honest ones, some
    repeat themselves, some only ever see a small set of values.
    """
    def __init__ (self, seed, mode):
        self.mode = mode
        self.pool = None
        self.last = 0
        super ().__init__ (seed)
        r = _random.Random (seed ^ 0x5bd1e995)
        self.pool = [r.getrandbits (64) for i in range (mode.get ('pool', 4))]
        self.aux = r
        self.log = hashlib.blake2b (digest_size=8)
        self.draws = 0

    def getrandbits (self, k):
        self.draws += 1
        if self.draws == self.mode.get ('sigint'):
            s = inside ()
            if s is not None:
                s.fault ('sigint')
                s.signal (s.curProc, _signal.SIGINT, self.mode.get ('lines', 0))
                s.point ('random')
        kind = self.mode['kind']
        if kind == 'repeat' and self.aux.random () < self.mode['p']:
            return self.last & ((1 << k)-1) if self.aux.random () < 0.7 else super ().getrandbits (k)
        if kind == 'pool' and self.aux.random () < self.mode['p']:
            return self.aux.choice (self.pool) & ((1 << k)-1) if self.aux.random () < 0.9 else super ().getrandbits (k)
        self.last = super ().getrandbits (k)
        return self.last

class _RandomDispatch:
    def __init__ (self, name):
        self.name = name
        self.real = getattr (_random, name)

    def __call__ (self, *args, **kwargs):
        s = inside ()
        if s is None:
            return self.real (*args, **kwargs)
        return getattr (s.sutRandom (), self.name) (*args, **kwargs)

_realSeed = _random.seed

def simSeed (a=None, version=2):
    """ The simulator provides the entropy, but whoever wants something else gets it """
    s = inside ()
    if s is None:
        _realSeed (a, version)
    elif a is not None:
        s.sutRandom ().seed (a, version)

class SutRandom (_random.Random):
    """ random.Random() as seen by the code under test: unseeded means simulator-seeded """
    def __init__ (self, x=None):
        s = inside ()
        if x is None and s is not None:
            x = derive (s.seed, 'Random()', s.curProc.name)
        super ().__init__ (x)

# -- signals, pids ----------------------------------------------------------
def simSignal (signum, handler):
    s = inside ()
    if s is None:
        return real['signal'] (signum, handler)
    if s.cur is not s.curProc.task:
        raise ValueError ('signal only works in main thread of the main interpreter')
    s.point ('sigaction')
    p = s.curProc
    old = p.handler (signum)
    p.handlers[signum] = handler
    return old

def simGetsignal (signum):
    s = inside ()
    return real['getsignal'] (signum) if s is None else s.curProc.handler (signum)

def simGetpid ():
    s = inside ()
    return real['getpid'] () if s is None else s.curProc.pid

def simKill (pid, sig):
    s = inside ()
    if s is None:
        return real['kill'] (pid, sig)
    s.point ('kill')
    for p in s.procs:
        if p.pid == pid and (p.alive or not p.reaped):
            if p.alive and sig:
                s.killProc (p, 9) if sig == 9 else s.signal (p, sig)
            return
    raise ProcessLookupError (errno.ESRCH, os.strerror (errno.ESRCH))

def simAtexit (fn, *args, **kwargs):
    s = inside ()
    if s is None:
        return real['atexit'] (fn, *args, **kwargs)
    s.curProc.atexit.append ((fn, args, kwargs))
    return fn

def simUnregister (fn):
    s = inside ()
    if s is None:
        return real['unregister'] (fn)
    s.curProc.atexit = [x for x in s.curProc.atexit if x[0] != fn]

def simExit (code):
    s = inside ()
    if s is None:
        return real['_exit'] (code)
    s.point ('_exit')
    p = s.curProc
    if p.alive:
        s.exitProc (p, code & 0xff)
        p.task.dead = s.cur.dead = True
    raise SimKilled ()

def simFork ():
    if inside () is None:
        return real['fork'] ()
    raise HarnessError ('os.fork is not modelled')

# -- helper programs --------------------------------------------------------
class Program (Actor):
    """
    External filter program. Reads its stdin to the end, then writes its result
    and exits; `behave` (input bytes) -> dict (out=bytes, rc=int, readMax=int or
    None, dieAfter=int or None, closeEarly=bool) decides how it goes.
    """
    def __init__ (self, sim, proc, name, stdin, stdout, behave, stderr=None):
        self.sim = sim
        self.stderr = stderr
        self.warned = 0
        self.proc = None
        self.owner = proc
        self.name = name
        self.stdin = stdin
        self.stdout = stdout
        self.behave = behave
        self.state = 'read'
        self.data = bytearray ()
        self.plan = None
        self.rc = None
        self.out = 0
        self.readMax = behave.readMax (name)
        self.wake = behave.wake (sim, name)
        self.reaped = False
        self.pauses = 0
        if stdin is not None:
            stdin.readers += 1
        if stdout is not None:
            stdout.writers += 1
        if stderr is not None:
            stderr.writers += 1

    def _next (self):
        """ What is written next: warnings (pipe, data) or the result """
        warn = self.plan.get ('warn') or b''
        if self.warned < len (warn) and self.stderr is not None:
            if not self.plan.get ('warnLate') or self.out >= self._end ():
                return self.stderr, warn
        return self.stdout, None

    def _end (self):
        out, die = self.plan['out'], self.plan.get ('dieAfter')
        return len (out) if die is None else min (die, len (out))

    def runnable (self):
        if self.rc is not None:
            return False
        if self.state == 'read':
            if self.readMax is not None and len (self.data) >= self.readMax:
                return True
            return self.stdin is None or bool (self.stdin.buf) or self.stdin.writers <= 0
        if self.state == 'write':
            to = self._next ()[0]
            return to is None or to.readers <= 0 or len (to.buf) < to.capacity
        return True

    def exit (self, rc):
        """ The kernel closes all files before the process can be waited for """
        self._close ()
        self._rc = rc
        self.state = 'exit'

    def _close (self):
        if self.state == 'exit':
            return
        if self.stdin is not None:
            self.stdin.readers -= 1
        if self.stdout is not None:
            self.stdout.writers -= 1
        if self.stderr is not None:
            self.stderr.writers -= 1

    def step (self):
        sim = self.sim
        if self.state == 'exit':
            self.rc = self._rc
            return
        if self.state == 'read':
            if self.readMax is not None and len (self.data) >= self.readMax:
                # gives up early without reading everything
                sim.fault ('helper_early_exit')
                return self.exit (self.behave.earlyRc (self.name))
            if self.stdin is not None and self.stdin.buf:
                n = len (self.stdin.buf)
                if self.readMax is not None:
                    n = min (n, self.readMax-len (self.data))
                n = min (n, 4096) if sim.stream ('program').random () < 0.3 else n
                self.data += self.stdin.buf[:n]
                del self.stdin.buf[:n]
                return
            self.plan = self.behave.plan (self.name, bytes (self.data))
            self.state = 'write'
            if self.plan.get ('think'):
                sim.fault ('helper_slow')
                self.wake = sim.now+self.plan['think']
            return
        p = self.plan
        out = p['out']
        die = p.get ('dieAfter')
        end = self._end ()
        to, warn = self._next ()
        if warn is not None:
            if self.warned == 0:
                sim.fault ('helper_warns')
            if to.readers <= 0:
                sim.fault ('helper_sigpipe')
                return self.exit (-13)
            n = min (len (warn)-self.warned, to.capacity-len (to.buf))
            to.buf += warn[self.warned:self.warned+n]
            self.warned += n
            return
        if self.stdout is not None and self.stdout.readers <= 0 and self.out < end:
            sim.fault ('helper_sigpipe')
            return self.exit (-13)
        if self.out < end and self.stdout is not None:
            n = min (end-self.out, self.stdout.capacity-len (self.stdout.buf))
            r = sim.stream ('program')
            if n > 1 and r.random () < 0.4:
                n = r.randint (1, n)
            self.stdout.buf += out[self.out:self.out+n]
            self.out += n
            if p.get ('pause') and self.pauses < 3 and r.random () < 0.3:
                self.pauses += 1
                sim.fault ('helper_slow')
                self.wake = sim.now+p['pause']
            return
        if die is not None:
            sim.fault ('helper_killed')
            return self.exit (p['rc'])
        if p['rc'] != 0:
            sim.fault ('helper_rejects')
        self.exit (p['rc'])

class SimPopen:
    _simShared = True

    def __init__ (self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
            preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None,
            startupinfo=None, creationflags=0, restore_signals=True, start_new_session=False,
            pass_fds=(), *, text=None, encoding=None, errors=None, **kw):
        s = inside ()
        if s is None:
            raise HarnessError ('Popen outside of the simulation')
        s.point ('spawn')
        self.args = args
        argv = args.split () if isinstance (args, str) else list (args)
        prog = os.path.basename (os.fspath (argv[0]))
        if prog not in s.programs:
            s.fault ('helper_missing')
            raise FileNotFoundError (errno.ENOENT, os.strerror (errno.ENOENT), argv[0])
        if s.spawnErr is not None and s.spawnErr[0] == len (s.spawned):
            s.fault ('spawn_fails')
            s.spawned.append (None)
            raise vfs.oserr (s.spawnErr[1])
        name = f'{prog}-{len (s.spawned)}'
        proc = s.curProc
        PIPE, DEVNULL = _subprocess.PIPE, _subprocess.DEVNULL
        pin = vfs.SimPipe (s, name + '.in', s.pipeCapacity) if stdin == PIPE else None
        pout = vfs.SimPipe (s, name + '.out', s.pipeCapacity) if stdout == PIPE else None
        self._text = bool (text or universal_newlines or encoding or errors)
        self._enc = encoding or 'utf-8'
        self._errors = errors or 'strict'
        self.stdin = self.stdout = self.stderr = None
        if hasattr (stdin, 'read') :
            raise HarnessError ('Popen (stdin=file) is not modelled')
        if pin is not None:
            raw = vfs.PipeWriter (proc, pin)
            self.stdin = raw if bufsize == 0 else io.BufferedWriter (raw)
            if self._text:
                self.stdin = io.TextIOWrapper (self.stdin, encoding=self._enc, errors=self._errors, write_through=True)
        if pout is not None:
            raw = vfs.PipeReader (proc, pout)
            self.stdout = raw if bufsize == 0 else io.BufferedReader (raw)
            if self._text:
                self.stdout = io.TextIOWrapper (self.stdout, encoding=self._enc, errors=self._errors)
        perr = None
        if stderr == PIPE:
            perr = vfs.SimPipe (s, name + '.err', s.pipeCapacity)
            raw = vfs.PipeReader (proc, perr)
            self.stderr = raw if bufsize == 0 else io.BufferedReader (raw)
            if self._text:
                self.stderr = io.TextIOWrapper (self.stderr, encoding=self._enc, errors=self._errors)
        elif stderr == _subprocess.STDOUT:
            perr = pout
        self._prog = Program (s, proc, name, pin, pout, s.programs[prog], perr)
        self._prog.argv = argv
        self.pid = next (s.pids)
        self.returncode = None
        self._comm = None
        s.spawned.append (self._prog)
        s.actors.append (self._prog)

    def poll (self):
        s = inside ()
        s.point ('waitpid')
        if self._prog.rc is not None and self.returncode is None:
            self.returncode = self._prog.rc
            self._prog.reaped = True
        return self.returncode

    def wait (self, timeout=None):
        s = inside ()
        s.point ('waitpid')
        if not s.block (lambda: self._prog.rc is not None, timeout):
            raise _subprocess.TimeoutExpired (self.args, timeout)
        self.returncode = self._prog.rc
        self._prog.reaped = True
        return self.returncode

    def communicate (self, input=None, timeout=None):
        s = inside ()
        s.point ('communicate')
        prog = self._prog
        if self._text and input is not None:
            input = input.encode (self._enc, self._errors)
        # calling again after a timeout continues where it left off
        if self._comm is None:
            self._comm = [bytearray (), input or b'', 0, bytearray ()]
        out, data, done, errs = self._comm
        perr = prog.stderr if self.stderr is not None else None
        deadline = None if timeout is None else s.now+timeout
        pin, pout = prog.stdin, prog.stdout
        if self.stdin is not None and not self.stdin.closed:
            try:
                self.stdin.flush ()
            except BrokenPipeError:
                pass
        while True:
            if pin is not None and self.stdin is not None and not self.stdin.closed:
                if prog.rc is not None or done >= len (data):
                    try:
                        self.stdin.close ()
                    except BrokenPipeError:
                        pass
                elif len (pin.buf) < pin.capacity:
                    n = min (len (data)-done, pin.capacity-len (pin.buf))
                    pin.buf += data[done:done+n]
                    done += n
                    self._comm[2] = done
            if pout is not None and pout.buf:
                out += pout.buf
                pout.buf.clear ()
            if perr is not None and perr.buf:
                errs += perr.buf
                perr.buf.clear ()
            if (pout is None or (pout.writers <= 0 and not pout.buf)) and \
                    (perr is None or (perr.writers <= 0 and not perr.buf)) and \
                    (self.stdin is None or self.stdin.closed):
                break
            if not s.block (lambda: prog.rc is not None or (pout is not None and pout.buf) or (perr is not None and perr.buf) or
                    (pin is not None and self.stdin is not None and not self.stdin.closed and
                        len (pin.buf) < pin.capacity), None if deadline is None else max (0, deadline-s.now)):
                raise _subprocess.TimeoutExpired (self.args, timeout, bytes (out) if out else None)
        if self.stdout is not None:
            self.stdout.close ()
        self.wait (None if deadline is None else max (0, deadline-s.now))
        res = bytes (out) if self.stdout is not None else None
        warn = None
        if self.stderr is not None:
            self.stderr.close ()
            warn = bytes (errs)
        if self._text:
            res, warn = (x if x is None else x.decode (self._enc, self._errors).replace ('\r\n', '\n').replace ('\r', '\n') for x in (res, warn))
        return res, warn

    def send_signal (self, sig):
        s = inside ()
        s.point ('kill')
        if self._prog.rc is None and self._prog.state != 'exit':
            self._prog.exit (-sig)

    def terminate (self):
        self.send_signal (15)

    def kill (self):
        self.send_signal (9)

    def __enter__ (self):
        return self

    def __exit__ (self, exc_type, value, tb):
        if self.stdout:
            self.stdout.close ()
        if self.stderr:
            self.stderr.close ()
        try:
            if self.stdin:
                self.stdin.close ()
        finally:
            self.wait ()

# -- logging ----------------------------------------------------------------
class LogCapture (logging.Handler):
    def emit (self, record):
        s = inside ()
        if s is not None:
            try:
                msg = record.getMessage ()
            except Exception as e:
                msg = f'unformattable log record: {e!r}'
            s.logs.append ((s.curProc.name, record.levelno, msg))

class DummyLock:
    locks = []
    def acquire (self, *args, **kwargs):
        return True
    def release (self, *args):
        pass
    def __enter__ (self):
        return self
    def __exit__ (self, *args):
        pass

_yamlCache = {}

_installed = False

def install (root):
    global _installed
    if _installed:
        return
    _installed = True
    import yaml, tqdm, tqdm.std
    # heavy third-party modules are shared; import them before time stands still
    import brotli, html5lib, ebooklib, ebooklib.epub, pygtrie, svgwrite, jinja2, numpy
    import bokeh.resources, pkg_resources, lxml.etree, multiprocessing.queues, xml.dom.minidom, zipfile
    import xml.etree.ElementTree, fnmatch, argparse, gettext, decimal, fractions, encodings.utf_16, encodings.utf_8

    for k in [k for k in sys.modules if modset.isSut (k)]:
        del sys.modules[k]
    modset.scan (root)
    sys.meta_path.insert (0, modset.Finder (root))
    Sim.sutPrefix = os.path.join (root, 'lulua')

    mp.install ()
    threads.install (simMonotonic)
    builtins.open = simOpen
    io.open = simOpen
    bz2._builtin_open = simOpen
    import gzip, lzma
    gzip.builtins.open = simOpen
    os.path.exists = _virtual ('exists', lambda s, v: v in s.fs.files)
    os.path.isfile = _virtual ('isfile', lambda s, v: v in s.fs.files)
    os.path.isdir = _virtual ('isdir', lambda s, v: s.fs.isdir (v))
    os.mkdir = _virtual ('mkdir', _vmkdir, True)
    os.makedirs = _virtual ('makedirs', _vmkdir, True)
    os.listdir = _virtual ('listdir', _vlistdir)
    os.open = simOsOpen
    os.write = _fdcall ('write', _fdwrite)
    os.read = _fdcall ('read', _fdread)
    os.close = _fdcall ('close', lambda s, raw: raw.close ())
    os.fsync = _fdcall ('fsync', lambda s, raw: raw.sync ())
    os.fdatasync = _fdcall ('fdatasync', lambda s, raw: raw.sync ())
    os.fstat = _fdcall ('fstat', _fdstat)
    os.isatty = _fdcall ('isatty', lambda s, raw: False)
    os.ftruncate = _fdcall ('ftruncate', lambda s, raw, n: raw.truncate (n))
    os.dup2 = simDup2
    import shutil
    shutil._USE_CP_SENDFILE = False
    os.path.getsize = _virtual ('getsize', _vsize)
    os.stat = _virtual ('stat', _vstat)
    os.urandom = _random._urandom = simUrandom
    os.remove = _virtual ('remove', _vremove, True)
    os.unlink = _virtual ('unlink', _vremove, True)
    os.rename = _virtual ('rename', _vrename, True)
    os.replace = _virtual ('replace', _vrename, True)
    _time.time = simTime
    _time.monotonic = simMonotonic
    _time.perf_counter = simMonotonic
    _time.sleep = simSleep
    tqdm.std.time = simTime
    tqdm.tqdm.monitor_interval = 0
    tqdm.tqdm.set_lock (DummyLock ())
    _datetime.datetime = SimDatetime
    for n in _RandomFns:
        if hasattr (_random, n):
            setattr (_random, n, _RandomDispatch (n))
    _random.Random = SutRandom
    _random.seed = simSeed
    _signal.signal = simSignal
    _signal.getsignal = simGetsignal
    os.getpid = simGetpid
    os.kill = simKill
    os.fork = simFork
    os._exit = simExit
    _atexit.register = simAtexit
    _atexit.unregister = simUnregister
    _subprocess.Popen = SimPopen

    realSafeLoad = yaml.safe_load
    def safe_load (stream):
        data = stream if isinstance (stream, (str, bytes)) else stream.read ()
        c = _yamlCache.get (data)
        if c is None:
            r = realSafeLoad (data)
            if len (_yamlCache) > 300:
                _yamlCache.clear ()
            try:
                _yamlCache[data] = pickle.dumps (r, 5)
            except Exception:
                pass
            return r
        return pickle.loads (c)
    yaml.safe_load = safe_load

    root_ = logging.getLogger ()
    for h in list (root_.handlers):
        root_.removeHandler (h)
    root_.addHandler (LogCapture ())
    root_.setLevel (logging.INFO)
    logging.raiseExceptions = False
    warnings.simplefilter ('ignore')
    sys.unraisablehook = lambda *args: None
