"""
multiprocessing under simulation: Process, Queue and friends with the semantics
of CPython's fork start method, including the parts that bite: process-local
queue buffers, a feeder thread per queue and process that pickles and transfers
asynchronously, pipes of 64 KiB that fill up with half-written messages, locks
that stay taken when their owner dies, unpicklable objects that vanish, and the
exit protocol (terminate daemons, join children, join feeder threads).
"""

import itertools
import pickle
import queue as _queue
import traceback
import multiprocessing as _mp
from multiprocessing import ProcessError, TimeoutError, AuthenticationError, BufferTooShort
from multiprocessing.reduction import ForkingPickler

from .kernel import Sim, Actor, SimKilled, HarnessError
from . import modset
from .vfs import PIPE_CAPACITY, oserr

def _sim ():
    s = Sim.current
    if s is None or not s.inTask ():
        raise SimKilled ()
    return s

class SharedLock:
    """ A semaphore in shared memory """
    _simShared = True

    def __init__ (self, value=1, maxvalue=None):
        self.value = value
        self.maxvalue = maxvalue
        self.owner = None

    def acquire (self, block=True, timeout=None):
        sim = _sim ()
        sim.point ('sem')
        if not block:
            ok = self.value > 0
        else:
            ok = sim.block (lambda: self.value > 0, timeout)
        if ok:
            self.value -= 1
            self.owner = sim.curProc
        return ok

    def release (self):
        if self.maxvalue is not None and self.value >= self.maxvalue:
            raise ValueError ('semaphore or lock released too many times')
        self.value += 1
        self.owner = None

    def __enter__ (self):
        self.acquire ()
        return self

    def __exit__ (self, *args):
        self.release ()

    def get_value (self):
        return self.value

class Message:
    __slots__ = ('data', 'size', 'sent', 'taken', 'writer')

    def __init__ (self, data, writer):
        self.data = data
        self.size = len (data)+4
        self.sent = 0
        self.taken = 0
        self.writer = writer

class Channel:
    """ The OS pipe behind a queue """
    def __init__ (self, capacity):
        self.capacity = capacity
        self.used = 0
        self.messages = []
        self.desync = False

    def readable (self):
        return self.used > 0

    def send (self, msg):
        """ Transfer as much as fits, true when complete """
        n = min (msg.size-msg.sent, self.capacity-self.used)
        if n > 0:
            if msg.sent == 0:
                self.messages.append (msg)
            msg.sent += n
            self.used += n
        return msg.sent >= msg.size

    def take (self):
        m = self.messages[0]
        n = m.sent-m.taken
        m.taken += n
        self.used -= n
        if m.taken >= m.size:
            self.messages.pop (0)
            return m
        return None

class Feeder (Actor):
    """ The feeder thread of one queue in one process """
    def __init__ (self, sim, proc, q):
        self.sim = sim
        self.proc = proc
        self.q = q
        self.name = f'{proc.name}/{q.name}'
        self.buffer = []
        self.state = 'wait'
        self.msg = None
        self.joinCancelled = False

    def idle (self):
        return self.state == 'wait' and not self.buffer

    def runnable (self):
        if self.state == 'wait':
            return bool (self.buffer)
        if self.state == 'lock':
            return self.q.wlock.value > 0
        # send
        return self.q.chan.used < self.q.chan.capacity

    def step (self):
        q = self.q
        if self.state == 'wait':
            obj = self.buffer.pop (0)
            try:
                data = bytes (ForkingPickler.dumps (obj))
            except Exception as e:
                # what multiprocessing does: complain, forget the object
                self.sim.fault ('unpicklable')
                self.sim.stderrLog.append ((self.proc.name, ''.join (traceback.format_exception (e))))
                if q.sem is not None:
                    q.sem.release ()
                return
            self.msg = Message (data, self.proc)
            self.state = 'lock'
        elif self.state == 'lock':
            q.wlock.value -= 1
            q.wlock.owner = self.proc
            self.state = 'send'
            self._send ()
        else:
            self._send ()

    def _send (self):
        if self.q.chan.send (self.msg):
            self.q.wlock.release ()
            self.msg = None
            self.state = 'wait'
        else:
            self.sim.probe ('pipe_full')

class Queue:
    _simShared = True

    def __init__ (self, maxsize=0, *, ctx=None):
        sim = _sim ()
        sim.point ('mkqueue')
        if maxsize <= 0:
            maxsize = 2**31-1
        self.maxsize = maxsize
        self.sem = SharedLock (maxsize, maxsize)
        self.rlock = SharedLock ()
        self.wlock = SharedLock ()
        self.chan = Channel (sim.pipeCapacity)
        self.name = f'q{len (sim.queues)}'
        self.closedIn = set ()
        self.cancelled = set ()
        sim.queues.append (self)

    # -- pickling: only while spawning, which our fork does not do
    def __reduce__ (self):
        raise RuntimeError ('Queue objects should only be shared between processes through inheritance')

    def _feeder (self, sim):
        proc = sim.curProc
        f = proc.feeders.get (self)
        if f is None:
            f = proc.feeders[self] = Feeder (sim, proc, self)
            # which processes may start feeding is part of the program
            f.joinCancelled = proc in self.cancelled
            sim.actors.append (f)
        return f

    def put (self, obj, block=True, timeout=None):
        sim = _sim ()
        if sim.curProc in self.closedIn:
            raise ValueError (f'Queue {self!r} is closed')
        sim.point ('put')
        if not block:
            if self.sem.value <= 0:
                raise _queue.Full
        else:
            if self.sem.value <= 0:
                sim.probe ('queue_full')
            if not sim.block (lambda: self.sem.value > 0, timeout):
                raise _queue.Full
        self.sem.value -= 1
        self._feeder (sim).buffer.append (obj)
        sim.onPut (self, obj)

    def put_nowait (self, obj):
        self.put (obj, False)

    def get (self, block=True, timeout=None):
        sim = _sim ()
        if sim.curProc in self.closedIn:
            raise ValueError (f'Queue {self!r} is closed')
        sim.point ('get')
        chan = self.chan
        deadline = None if timeout is None or not block else sim.now+max (0, timeout)
        if block:
            if not sim.block (lambda: self.rlock.value > 0, timeout):
                raise _queue.Empty
        elif self.rlock.value <= 0:
            raise _queue.Empty
        self.rlock.value -= 1
        self.rlock.owner = sim.curProc
        started = False
        done = False
        try:
            if not block:
                if not chan.readable ():
                    raise _queue.Empty
            elif deadline is not None:
                if not sim.block (chan.readable, deadline-sim.now):
                    raise _queue.Empty
            # from here on it's a blocking recv_bytes()
            if chan.desync:
                raise oserr ('EIO')
            while True:
                sim.block (chan.readable)
                started = True
                m = chan.take ()
                if m is not None:
                    break
                sim.probe ('partial_recv')
            self.sem.release ()
            done = True
        except SimKilled:
            # killed while holding the lock: nobody releases it
            if sim.curProc is not None:
                sim.probe ('killed_in_get')
            self.rlock.value -= 1
            raise
        except BaseException:
            if started and not done:
                chan.desync = True
            raise
        finally:
            self.rlock.release ()
        return pickle.loads (m.data)

    def get_nowait (self):
        return self.get (False)

    def qsize (self):
        _sim ().point ('qsize')
        return self.maxsize-self.sem.value

    def empty (self):
        _sim ().point ('empty')
        return not self.chan.readable ()

    def full (self):
        _sim ().point ('full')
        return self.sem.value <= 0

    def close (self):
        self.closedIn.add (_sim ().curProc)

    def join_thread (self):
        sim = _sim ()
        f = sim.curProc.feeders.get (self)
        if f is not None and not f.joinCancelled:
            sim.point ('joinfeeder')
            sim.block (f.idle)

    def cancel_join_thread (self):
        proc = _sim ().curProc
        self.cancelled.add (proc)
        f = proc.feeders.get (self)
        if f is not None:
            f.joinCancelled = True

class SimpleQueue (Queue):
    """ Synchronous: put() transfers before it returns """
    def put (self, obj):
        sim = _sim ()
        sim.point ('put')
        data = bytes (ForkingPickler.dumps (obj))
        sim.block (lambda: self.wlock.value > 0)
        self.wlock.value -= 1
        m = Message (data, sim.curProc)
        try:
            while not self.chan.send (m):
                sim.block (lambda: self.chan.used < self.chan.capacity)
        finally:
            self.wlock.release ()
        self.sem.value -= 1

class JoinableQueue (Queue):
    def __init__ (self, maxsize=0, **kw):
        super ().__init__ (maxsize, **kw)
        self.unfinished = 0

    def put (self, obj, block=True, timeout=None):
        super ().put (obj, block, timeout)
        self.unfinished += 1

    def task_done (self):
        _sim ().point ('task_done')
        if self.unfinished <= 0:
            raise ValueError ('task_done() called too many times')
        self.unfinished -= 1

    def join (self):
        sim = _sim ()
        sim.point ('join')
        sim.block (lambda: self.unfinished == 0)

class Value:
    """ A number in shared memory. Reading and writing are separate operations. """
    _simShared = True

    def __init__ (self, typecode, value=0, lock=True):
        self._value = value
        self._lock = RLock ()

    @property
    def value (self):
        _sim ().point ('shm')
        return self._value

    @value.setter
    def value (self, v):
        _sim ().point ('shm')
        self._value = v

    def get_lock (self):
        return self._lock

    def __enter__ (self):
        return self._lock.__enter__ ()

    def __exit__ (self, *args):
        return self._lock.__exit__ (*args)

class RLock (SharedLock):
    def __init__ (self):
        super ().__init__ (1)
        self.depth = 0
        self.task = None

    def acquire (self, block=True, timeout=None):
        if self.value <= 0 and self.task is _sim ().cur:
            self.depth += 1
            return True
        if not super ().acquire (block, timeout):
            return False
        self.task = _sim ().cur
        self.depth = 1
        return True

    def release (self):
        self.depth -= 1
        if not self.depth:
            self.task = None
            super ().release ()

class Event:
    _simShared = True

    def __init__ (self):
        self.flag = False

    def set (self):
        _sim ().point ('event')
        self.flag = True

    def clear (self):
        self.flag = False

    def is_set (self):
        _sim ().point ('event')
        return self.flag

    def wait (self, timeout=None):
        sim = _sim ()
        sim.point ('event')
        return sim.block (lambda: self.flag, timeout)

class Process:
    _count = itertools.count (1)

    def __init__ (self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        sim = _sim ()
        self._target = target
        self._args = tuple (args)
        self._kwargs = dict (kwargs)
        self._parentProc = sim.curProc
        sim.processCount += 1
        self._name = name or f'Process-{sim.processCount}'
        self._daemonic = bool (daemon) if daemon is not None else sim.curProc.daemon
        self._proc = None

    @property
    def name (self):
        return self._name

    @name.setter
    def name (self, v):
        self._name = v

    @property
    def daemon (self):
        return self._daemonic

    @daemon.setter
    def daemon (self, v):
        assert self._proc is None, 'process has already started'
        self._daemonic = v

    @property
    def pid (self):
        return self._proc.pid if self._proc else None
    ident = pid

    @property
    def exitcode (self):
        if self._proc is None:
            return None
        _sim ().point ('waitpid')
        if self._proc.alive:
            return None
        if _sim ().curProc is not self._proc.parent:
            return None
        self._proc.reaped = True
        return self._proc.exitcode

    @property
    def sentinel (self):
        raise NotImplementedError ('sentinel')

    def is_alive (self):
        return self._proc is not None and self.exitcode is None

    def run (self):
        if self._target:
            self._target (*self._args, **self._kwargs)

    def start (self):
        sim = _sim ()
        assert self._proc is None, 'cannot start a process twice'
        assert not sim.curProc.daemon, 'daemonic processes are not allowed to have children'
        sim.point ('fork')
        n = sim.forks = getattr (sim, 'forks', 0)+1
        if sim.forkErr is not None and sim.forkErr[0] == n:
            sim.fault (f'fork_{sim.forkErr[1]}')
            raise oserr (sim.forkErr[1])
        parent = sim.curProc
        sim.fork (parent, self)

    def join (self, timeout=None):
        sim = _sim ()
        assert self._proc is not None, 'can only join a started process'
        assert sim.curProc is self._proc.parent, 'can only join a child process'
        sim.point ('join')
        sim.block (lambda: not self._proc.alive, timeout)
        if not self._proc.alive:
            self._proc.reaped = True

    def _signal (self, sig):
        sim = _sim ()
        sim.point ('kill')
        if self._proc is not None and self._proc.alive:
            sim.signal (self._proc, sig) if sig != 9 else sim.killProc (self._proc, 9)

    def terminate (self):
        self._signal (15)

    def kill (self):
        self._signal (9)

    def close (self):
        pass

    def __reduce__ (self):
        raise TypeError ('Process objects cannot be pickled')

    _simShared = True

class _Main:
    name = 'MainProcess'
    daemon = False
    _simShared = True

def current_process ():
    return _sim ().curProc.mpHandle or _Main ()

def parent_process ():
    return None

def active_children ():
    sim = _sim ()
    sim.point ('waitpid')
    out = []
    for c in sim.curProc.children:
        if c.alive:
            out.append (c.mpHandle)
        else:
            c.reaped = True
    return out

def cpu_count ():
    return Sim.current.cpus if Sim.current else 8

def exitFunction (sim, proc):
    """ multiprocessing.util._exit_function """
    for c in list (proc.children):
        if c.alive and c.daemon:
            sim.point ('kill')
            sim.signal (c, 15)
    for c in list (proc.children):
        sim.point ('join')
        sim.block (lambda: not c.alive)
        c.reaped = True
    for q, f in list (proc.feeders.items ()):
        if not f.joinCancelled:
            sim.point ('joinfeeder')
            sim.block (f.idle)

class Context:
    """ Return value of get_context() """
    Process = Process
    Queue = Queue
    SimpleQueue = SimpleQueue
    JoinableQueue = JoinableQueue
    Event = Event
    Value = Value
    RLock = RLock
    _simShared = True
    def cpu_count (self):
        return cpu_count ()
    def current_process (self):
        return current_process ()
    def active_children (self):
        return active_children ()
    def Lock (self):
        return SharedLock (1)
    def Semaphore (self, value=1):
        return SharedLock (value)
    def get_start_method (self):
        return 'fork'

def get_context (method=None):
    if method not in (None, 'fork'):
        raise HarnessError (f'start method {method} is not modelled')
    return Context ()

def Lock ():
    return SharedLock (1)

def Semaphore (value=1):
    return SharedLock (value)

def unsupported (name):
    def f (*args, **kwargs):
        raise HarnessError (f'multiprocessing.{name} is not modelled')
    return f

_names = dict (Process=Process, Queue=Queue, SimpleQueue=SimpleQueue, JoinableQueue=JoinableQueue, Value=Value, RLock=RLock,
        Event=Event, cpu_count=cpu_count, current_process=current_process, parent_process=parent_process,
        active_children=active_children, get_context=get_context, Lock=Lock, Semaphore=Semaphore,
        Pool=unsupported ('Pool'), Pipe=unsupported ('Pipe'), Manager=unsupported ('Manager'))
_real = {k: getattr (_mp, k) for k in _names}

def install ():
    for k, v in _names.items ():
        setattr (_mp, k, v)
