"""
Threads of a simulated process: one more task sharing the process' memory. The
baton moves between them at the same scheduling points, and additionally when a
multi-threaded process uses a lock. Signals are handled by the main thread only.
"""

import queue as _queue
import sys
import threading as _threading
import traceback

from .kernel import Sim, SimKilled, HarnessError

RealThread = _threading.Thread
_realLock = _threading.Lock
_realRLock = _threading.RLock
_realAllocate = _threading._allocate_lock
_realSimpleQueue = _queue.SimpleQueue

def inside ():
    s = Sim.current
    return s if s is not None and not s.hostMode and s.inTask () else None

def busy ():
    """ Is there more than one thread in this process? """
    s = inside ()
    return s is not None and not s.inActor and bool (s.cur.proc.liveThreads)

class SimLock:
    """ threading.Lock; one that is left over from another simulation is free """
    _simShared = True
    reentrant = False

    def __init__ (self):
        self.sim = None
        self.owner = None
        self.count = 0

    def _mine (self, s):
        if self.sim is not s:
            self.sim = s
            self.owner = None
            self.count = 0

    def acquire (self, blocking=True, timeout=-1):
        s = inside ()
        if s is None:
            return True
        self._mine (s)
        task = s.cur
        if self.reentrant and self.count and self.owner is task:
            self.count += 1
            return True
        if task.proc.liveThreads and not s.inActor:
            s.point ('lock')
        if self.count:
            if not blocking:
                return False
            if not s.block (lambda: not self.count, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = task
        self.count = 1
        return True

    def release (self):
        s = inside ()
        if s is None:
            return
        self._mine (s)
        if not self.count:
            raise RuntimeError ('release unlocked lock')
        if self.reentrant and self.owner is not s.cur:
            raise RuntimeError ('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked (self):
        return self.count > 0

    def __enter__ (self):
        return self.acquire ()

    def __exit__ (self, *args):
        self.release ()

    def _at_fork_reinit (self):
        self.owner = None
        self.count = 0

class SimRLock (SimLock):
    reentrant = True

    def _is_owned (self):
        s = inside ()
        return s is None or self.sim is s and self.count > 0 and self.owner is s.cur

    def _release_save (self):
        c, self.count, self.owner = self.count, 0, None
        return c

    def _acquire_restore (self, c):
        self.acquire ()
        self.count = c

def Lock ():
    return _realLock () if inside () is None else SimLock ()

def RLock ():
    return _realRLock () if inside () is None else SimRLock ()

def allocate ():
    return _realAllocate () if inside () is None else SimLock ()

def SimpleQueue ():
    return _realSimpleQueue () if inside () is None else _queue._PySimpleQueue ()

class Thread (RealThread):
    _simShared = True
    _task = None

    def __init__ (self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        s = inside ()
        if s is not None:
            if daemon is None:
                daemon = s.cur.daemon
            if name is None:
                s.threadCount = getattr (s, 'threadCount', 0)+1
                name = f'Thread-{s.threadCount}'
        super ().__init__ (group=group, target=target, name=name, args=args, kwargs=kwargs, daemon=daemon)

    def start (self):
        s = inside ()
        if s is None:
            return super ().start ()
        if self._task is not None:
            raise RuntimeError ('threads can only be started once')
        s.point ('thread')
        p = s.curProc
        self._task = s.startTask (p, self._life, thread=self, daemon=self.daemon)
        s.preempt ()

    def _life (self):
        inside ().preempt ()
        try:
            self.run ()
        except SimKilled:
            raise
        except HarnessError:
            raise
        except SystemExit:
            pass
        except BaseException as e:
            s = inside ()
            s.stderrLog.append ((s.curProc.name, ''.join (traceback.format_exception (e))))
            try:
                print (f'Exception in thread {self.name}:\n' + ''.join (traceback.format_exception (e)), file=sys.stderr)
            except SimKilled:
                raise
            except Exception:
                pass

    def is_alive (self):
        if self._task is None:
            return super ().is_alive ()
        s = inside ()
        if s is not None:
            s.point ('thread')
        return not (self._task.finished or self._task.dead)

    def join (self, timeout=None):
        if self._task is None:
            return super ().join (timeout)
        s = inside ()
        if s is None:
            return
        if s.cur is self._task:
            raise RuntimeError ('cannot join current thread')
        s.point ('join')
        s.block (lambda: self._task.finished or self._task.dead, timeout)

class Timer (Thread):
    def __init__ (self, interval, function, args=None, kwargs=None):
        Thread.__init__ (self)
        self.interval = interval
        self.function = function
        self.args = args if args is not None else []
        self.kwargs = kwargs if kwargs is not None else {}
        self.finished = _threading.Event ()

    def cancel (self):
        self.finished.set ()

    def run (self):
        self.finished.wait (self.interval)
        if not self.finished.is_set ():
            self.function (*self.args, **self.kwargs)
        self.finished.set ()

def shutdown (s, p):
    """ The interpreter waits for all threads but the daemonic ones before it exits """
    if not p.threads:
        return
    m = sys.modules.get ('concurrent.futures.thread')
    if m is not None:
        for t, q in list (m._threads_queues.items ()):
            if getattr (t, '_task', None) is not None and t._task in p.threads:
                q.put (None)
    for t in list (p.threads):
        if not t.daemon:
            s.block (lambda: t.finished or t.dead)

def install (monotonic):
    _threading.Thread = Thread
    _threading.Timer = Timer
    _threading.Lock = Lock
    _threading.RLock = RLock
    _threading._allocate_lock = allocate
    _threading._time = monotonic
    _queue.time = monotonic
    _queue.SimpleQueue = SimpleQueue
