"""
Deterministic simulation kernel.

One OS process hosts a whole simulated machine: simulated *processes* (each
with its own private copy of every lulua module, see modset.py), the kernel
objects they share (pipes, semaphores, files, signals) and a clock.  Simulated
processes run as real threads, but exactly one of them holds the baton at any
time; the baton only moves inside `schedule()`, and who gets it next is decided
by one seeded PRNG (or by a recorded choice list when replaying).  Nothing else
-- no OS scheduler, clock, pipe or signal -- influences a run.
"""

import hashlib
import random as _random
import threading
import _thread
import signal as _signal
import sys
import traceback
import itertools

_Random = _random.Random

_RealThread = threading.Thread

class SimKilled (BaseException):
    """ Unwinds the thread of a simulated process that no longer exists """

class SimAbort (Exception):
    pass

class HarnessError (Exception):
    """ The harness (not the code under test) got into a state it can't model """

def derive (seed, *label):
    h = hashlib.blake2b (repr ((seed,) + label).encode ('utf-8', 'backslashreplace'), digest_size=8)
    return int.from_bytes (h.digest (), 'big')

class Actor:
    """ A schedulable entity without its own stack (queue feeder, helper program, ...) """
    name = 'actor'
    proc = None
    # asleep until then
    wake = None

    def runnable (self):
        raise NotImplementedError

    def step (self):
        raise NotImplementedError

class Task:
    """ A thread of one simulated process, its main thread in general """
    __slots__ = ('sim', 'proc', 'name', 'fn', 'thread', 'gate', 'state', 'pred',
            'deadline', 'timedOut', 'dead', 'finished', 'ident', 'traceLeft', 'id', 'daemon')

    def __init__ (self, sim, proc, name, fn):
        self.sim = sim
        self.proc = proc
        self.name = name
        self.fn = fn
        self.gate = _thread.allocate_lock ()
        self.gate.acquire ()
        self.state = 'runnable'
        self.pred = None
        self.deadline = None
        self.timedOut = False
        self.dead = False
        self.finished = False
        self.ident = None
        self.traceLeft = None
        # of the thread, not the process
        self.daemon = False
        self.thread = _RealThread (target=self._main, name=name, daemon=True)

    def _main (self):
        self.gate.acquire ()
        self.ident = threading.get_ident ()
        try:
            if not self.dead:
                self.sim._untrace ()
                self.sim._started (self)
                self.fn ()
        except SimKilled:
            pass
        except BaseException as e:
            # must not happen: process bootstrap catches everything
            self.sim.harnessError = ''.join (traceback.format_exception (e))
        finally:
            sys.settrace (None)
            self.finished = True
            self.state = 'done'
            if self is not self.proc.task:
                self.proc.liveThreads -= 1
            self.sim._taskDone (self)

    def isRunnable (self):
        if self.state == 'runnable':
            return True
        if self.state == 'blocked':
            if self is self.proc.task and self.proc.sigPending ():
                return True
            if self.pred ():
                return True
            if self.deadline is not None and self.sim.now >= self.deadline:
                return True
        return False

class Proc:
    """ A simulated process """
    def __init__ (self, sim, name, parent=None, daemon=False):
        self.sim = sim
        self.name = name
        self.parent = parent
        self.daemon = daemon
        self.pid = next (sim.pids)
        self.modules = {}
        self.exitcode = None
        self.reaped = False
        self.alive = True
        self.children = []
        self.feeders = {}
        self.task = None
        # all but the main thread
        self.threads = []
        self.liveThreads = 0
        self.ops = 0
        self.opsByKind = {}
        # pending signals: [signum, lines of code to run before delivery]
        self.pending = []
        # signum -> SIG_DFL, SIG_IGN or callable, as python sees it
        self.handlers = {_signal.SIGINT: _signal.default_int_handler}
        self.inHandler = 0
        self.stdin = self.stdout = self.stderr = None
        self.argv = [name]
        self.mpHandle = None
        self.openFiles = []
        self.fds = {}
        self.held = []
        self.atexit = []
        self.lastOp = None

    def sigPending (self):
        return bool (self.pending)

    def handler (self, signum):
        return self.handlers.get (signum, _signal.SIG_DFL)

class Sim:
    current = None

    def __init__ (self, seed, policy=None, choices=None, maxSteps=20000, lineCap=None, stallRate=0.0):
        self.seed = seed
        self.rng = _Random (derive (seed, 'sched'))
        self.timeRng = _Random (derive (seed, 'time'))
        self.streams = {}
        self.replay = list (choices) if choices is not None else None
        self.choices = []
        self.policy = policy or {'kind': 'uniform'}
        self.maxSteps = maxSteps
        self.stallRate = stallRate
        self.lastFd = 1 << 20
        self.steps = 0
        self.now = 1.5e9
        self.t0 = self.now
        self.pids = itertools.count (100)
        self.tasks = []
        self.actors = []
        self.procs = []
        self.trace = []
        self.cur = None
        self.done = threading.Event ()
        self.aborting = False
        self.outcome = None
        self.harnessError = None
        self.faultsFired = {}
        self.probes = {}
        self.opHooks = []
        self.switchHook = lambda old, new: None
        self.curProc = None
        self.prio = {}
        self.lineCap = lineCap
        self.lines = 0
        # called for every source line of the code under test
        self.lineHook = None
        self.lineStep = -1
        self.hostMode = self.inActor = False
        self.jumps = 0
        self.maxJumps = 100
        self.jumpWoken = set ()
        self.stderrLog = []

    # -- randomness ---------------------------------------------------------
    def stream (self, *label):
        k = tuple (label)
        r = self.streams.get (k)
        if r is None:
            r = self.streams[k] = _Random (derive (self.seed, 'stream', *label))
        return r

    def fault (self, kind, n=1, at=None):
        self.faultsFired[kind] = self.faultsFired.get (kind, 0) + n
        if at is not None:
            self.trace.append (('fault', f'{kind} at {at}'))

    def probe (self, name):
        self.probes[name] = self.probes.get (name, 0) + 1

    # -- scheduling ---------------------------------------------------------
    def _pick (self, cands):
        n = len (cands)
        if n == 1:
            return 0
        if self.replay is not None:
            i = len (self.choices)
            c = self.replay[i] % n if i < len (self.replay) else 0
        else:
            kind = self.policy['kind']
            if kind == 'uniform':
                c = self.rng.randrange (n)
            elif kind == 'sticky':
                c = 0 if self.rng.random () < self.policy['p'] else self.rng.randrange (n)
            elif kind == 'prio':
                # random priorities with occasional change points (PCT-like)
                if self.rng.random () < self.policy['change']:
                    victim = max (cands, key=self._prio)
                    self.prio[victim.name] = -self.rng.random ()
                best = max (cands, key=self._prio)
                c = cands.index (best)
            elif kind == 'starve':
                # one entity only runs if nobody else can (mostly)
                rest = [i for i, x in enumerate (cands) if self.policy['who'] != x.name]
                if rest and self.rng.random () > self.policy.get ('leak', 0.02):
                    c = self.rng.choice (rest)
                else:
                    c = self.rng.randrange (n)
            elif kind == 'first':
                c = 0
            else:
                raise HarnessError (f'unknown policy {kind}')
        self.choices.append (c)
        return c

    def _prio (self, x):
        p = self.prio.get (x.name)
        if p is None:
            p = self.prio[x.name] = _Random (derive (self.seed, 'prio', x.name)).random ()
        return p

    def _advance (self):
        dt = 1e-5 + self.timeRng.random () * 1e-4
        if self.stallRate and self.timeRng.random () < self.stallRate:
            dt += self.timeRng.choice ((0.3, 1.1, 3.0, 45.0))
            self.fault ('stall')
        self.now += dt

    def schedule (self, cur):
        """ Called by the baton holder `cur` (or None); returns once cur runs again """
        while True:
            if self.aborting:
                return self._handOff (cur, None)
            self.steps += 1
            self._advance ()
            if self.steps > self.maxSteps:
                self._abort ('livelock')
                return self._handOff (cur, None)
            cands = []
            if cur is not None and not cur.finished and not cur.dead and cur.isRunnable ():
                cands.append (cur)
            for t in self.tasks:
                if t is not cur and not t.finished and not t.dead and t.isRunnable ():
                    cands.append (t)
            for a in self.actors:
                if (a.wake is None or self.now >= a.wake) and a.runnable ():
                    cands.append (a)
            if not cands:
                dl = [t.deadline for t in self.tasks if t.state == 'blocked' and not t.dead and t.deadline is not None]
                asleep = [a.wake for a in self.actors if a.wake is not None and self.now < a.wake and a.runnable ()]
                dl += asleep
                if dl:
                    self.now = max (self.now, min (dl))
                    self.probe ('clock_jump')
                    self.jumps += not asleep
                    if asleep:
                        # whoever polls meanwhile is not to blame
                        self.maxSteps += 20
                    if self.jumps > self.maxJumps:
                        # everything that still moves is a process polling
                        # with a timeout, and nothing ever comes of it
                        self._abort ('deadlock')
                        return self._handOff (cur, None)
                    self.jumpWoken.update (t.name for t in self.tasks if t.state == 'blocked'
                            and not t.dead and t.deadline is not None and self.now >= t.deadline)
                    continue
                if all (t.finished or t.dead for t in self.tasks):
                    self._abort ('finished')
                else:
                    self._abort ('deadlock')
                return self._handOff (cur, None)
            nxt = cands[self._pick (cands)]
            if self.jumps and nxt.name not in self.jumpWoken:
                self.jumps = 0
                self.jumpWoken.clear ()
            if isinstance (nxt, Actor):
                self.trace.append ((nxt.name, 'step'))
                old = self.curProc
                self.inActor = True
                try:
                    if nxt.proc is not None and nxt.proc is not old:
                        self._switchTo (nxt.proc)
                        try:
                            nxt.step ()
                        finally:
                            self._switchTo (old)
                    else:
                        nxt.step ()
                except Exception as e:
                    self.harnessError = ''.join (traceback.format_exception (e))
                    self._abort ('error')
                self.inActor = False
                continue
            return self._handOff (cur, nxt)

    def _switchTo (self, proc):
        if proc is not self.curProc:
            old, self.curProc = self.curProc, proc
            self.switchHook (old, proc)

    def _handOff (self, cur, nxt):
        if nxt is cur and cur is not None:
            return
        if nxt is None:
            # run is over
            self.done.set ()
        else:
            self.cur = nxt
            self._switchTo (nxt.proc)
            nxt.gate.release ()
        if cur is not None and not cur.finished:
            cur.gate.acquire ()

    def _started (self, task):
        # signals that are already pending are delivered at the first
        # operation of the new process
        if task.dead or self.aborting:
            task.dead = True
            raise SimKilled ()
        self.cur = task
        task.state = 'runnable'

    def _resumed (self, task):
        """ Runs in the task's thread whenever it got the baton back """
        if task.dead or self.aborting:
            task.dead = True
            raise SimKilled ()
        self.cur = task
        task.state = 'runnable'
        proc = task.proc
        while proc.pending and task is proc.task and task.traceLeft is None:
            signum, lines = proc.pending[0]
            if lines <= 0:
                proc.pending.pop (0)
                self._deliver (proc, signum)
            else:
                # deliver after n more source lines of the code under test
                task.traceLeft = lines
                tracer = self._sigTracer (task)
                sys.settrace (tracer)
                f = sys._getframe ()
                while f is not None:
                    if self._isSut (f):
                        f.f_trace = tracer
                    f = f.f_back

    def _deliver (self, proc, signum, frame=None):
        """ Run the handler of the current process, like the interpreter does """
        h = proc.handler (signum)
        if h in (_signal.SIG_IGN, _signal.SIG_DFL):
            return
        self.fault (f'{_signal.Signals (signum).name.lower ()}_handled')
        self.trace.append ((proc.name, f'signal {int (signum)}' + ('' if frame is None else f' in {frame.f_code.co_name}+{frame.f_lineno-frame.f_code.co_firstlineno}')))
        h (signum, None)

    sutPrefix = '/repo/lulua'

    def _isSut (self, frame):
        return frame.f_code.co_filename.startswith (self.sutPrefix)

    def _untrace (self):
        sys.settrace (self.capTracer if self.lineCap or self.lineHook else
                self.preemptTracer if self.cur is not None and self.cur.proc.liveThreads else None)

    def preempt (self):
        """ From now on the running thread may lose the processor at any line """
        if sys.gettrace () is None:
            sys.settrace (self.preemptTracer)
            f = sys._getframe ()
            while f is not None:
                if self._isSut (f):
                    f.f_trace = self._preemptLine
                f = f.f_back

    def preemptTracer (self, frame, event, arg):
        return self._preemptLine if self._isSut (frame) else None

    def _preemptLine (self, frame, event, arg):
        if self.cur is not None and not self.cur.proc.liveThreads:
            # nobody to compete with
            if sys.gettrace () == self.preemptTracer:
                sys.settrace (None)
            return None
        if event == 'line' and not self.inActor and self.inTask () and not self.cur.dead and not self.aborting and \
                self.stream ('preempt').random () < (0.03 if self.probes.get ('preempted', 0) < 2000 else 0.002):
            self.probe ('preempted')
            self.point ('preempt')
        return self._preemptLine

    def _sigTracer (self, task):
        def local (frame, event, arg):
            if event == 'line' and task.traceLeft is not None:
                task.traceLeft -= 1
                if task.traceLeft <= 0:
                    task.traceLeft = None
                    self._untrace ()
                    frame.f_trace = None
                    proc = task.proc
                    if proc.pending and not task.dead and not self.aborting:
                        self.probe ('signal_mid_code')
                        signum, lines = proc.pending.pop (0)
                        self._deliver (proc, signum, frame)
                    return None
            return local
        def both (frame, event, arg):
            if event == 'call':
                if task.traceLeft is None:
                    return None
                return local if self._isSut (frame) else None
            return local (frame, event, arg)
        return both

    def capTracer (self, frame, event, arg):
        """ Deterministic detection of code that spins without ever reaching a seam """
        if not self._isSut (frame):
            return None
        def local (frame, event, arg):
            if event == 'line':
                if self.lineHook is not None and self.cur is not None and not self.cur.dead and not self.aborting:
                    self.lineHook (self, self.cur.proc, frame)
                if not self.lineCap:
                    return local
                if self.lineStep != self.steps:
                    self.lineStep = self.steps
                    self.lines = 0
                self.lines += 1
                if self.lines > self.lineCap:
                    if not self.aborting:
                        self._abort ('spin')
                    if self.cur is not None:
                        self.cur.dead = True
                    raise SimKilled ()
            return local
        return local

    def _abort (self, outcome):
        if not self.aborting:
            self.outcome = outcome
            self.aborting = True

    def _taskDone (self, task):
        if self.aborting:
            self.done.set ()
            return
        try:
            self.schedule (task)
        except BaseException as e:
            self.harnessError = ''.join (traceback.format_exception (e))
            self._abort ('error')
            self.done.set ()

    # -- seam API, used by the fakes ---------------------------------------
    def inTask (self):
        c = self.cur
        return c is not None and c.ident == threading.get_ident ()

    def point (self, op, detail=None, keep=False):
        """ A scheduling (and fault) point of the running process """
        task = self.cur
        if task.dead or self.aborting:
            task.dead = True
            raise SimKilled ()
        proc = task.proc
        proc.ops += 1
        proc.lastOp = op
        proc.opsByKind[op] = proc.opsByKind.get (op, 0) + 1
        self.trace.append ((task.name, op))
        for h in self.opHooks:
            h (self, proc, op, detail)
        if not proc.alive:
            task.dead = True
            raise SimKilled ()
        # the interpreter's own lock of a buffered stream is held during write(); other threads of the process could not be
        # stopped from running into it
        if not (keep and proc.liveThreads):
            self.schedule (task)
        self._resumed (task)

    def block (self, pred, timeout=None):
        """ Block the running process until pred() or timeout; True if pred holds """
        task = self.cur
        if task.dead or self.aborting:
            task.dead = True
            raise SimKilled ()
        if pred ():
            return True
        task.pred = pred
        task.deadline = None if timeout is None else self.now + max (0, timeout)
        while True:
            if task.traceLeft is not None:
                # a signal due in a few lines of code; we won't get that far
                task.traceLeft = None
                self._untrace ()
                if task.proc.pending:
                    task.proc.pending[0] = (task.proc.pending[0][0], 0)
            task.state = 'blocked'
            self.schedule (task)
            self._resumed (task)
            if pred ():
                return True
            if task.deadline is not None and self.now >= task.deadline:
                return False

    # -- processes ----------------------------------------------------------
    def newProc (self, name, parent=None, daemon=False):
        p = Proc (self, name, parent, daemon)
        self.procs.append (p)
        if parent is not None:
            parent.children.append (p)
        return p

    def startTask (self, proc, fn, thread=None, daemon=False):
        # the host's thread is none of the simulation's business
        self.hostMode = True
        if thread is None:
            t = proc.task = Task (self, proc, proc.name, fn)
        else:
            t = Task (self, proc, f'{proc.name}/thread{len (proc.threads)}', fn)
            t.daemon = daemon
            proc.threads.append (t)
            proc.liveThreads += 1
        self.tasks.append (t)
        t.thread.start ()
        self.hostMode = False
        return t

    def killProc (self, proc, sig):
        """ SIGKILL/SIGTERM: the process is gone; locks it held stay held """
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = -sig
        self.procGone (proc)
        if proc.task is not None:
            proc.task.dead = True
            if proc.task is not self.cur:
                proc.task.state = 'dead'

    def exitProc (self, proc, code):
        """ Regular end of a process """
        if proc.alive:
            proc.exitcode = code
            self.procGone (proc)

    def procGone (self, proc):
        """ Release what the operating system releases when a process ends """
        proc.alive = False
        for t in proc.threads:
            t.dead = True
            if t is not self.cur:
                t.state = 'dead'
        if proc.threads and proc.task is not None and proc.task is not self.cur:
            proc.task.dead = True
            proc.task.state = 'dead'
        self.actors = [a for a in self.actors if a.proc is not proc]
        for f in list (proc.openFiles):
            f.procGone (proc)
        proc.openFiles = []
        if proc.parent is not None and proc.parent.alive:
            self.signal (proc.parent, _signal.SIGCHLD)

    def signal (self, proc, signum, lines=0):
        """ Send a signal to a process; decided at generation time like POSIX does """
        if not proc.alive:
            return
        h = proc.handler (signum)
        if h == _signal.SIG_IGN:
            if signum == _signal.SIGINT:
                self.probe ('sigint_ignored')
            return
        if h == _signal.SIG_DFL:
            if signum in (_signal.SIGCHLD, _signal.SIGWINCH, _signal.SIGCONT, _signal.SIGURG):
                return
            self.killProc (proc, signum)
            return
        proc.pending.append ((signum, lines))

    def run (self, wall=30):
        """ Run until nothing is left to do. All root tasks have been started before. """
        Sim.current = self
        if self.lineCap:
            wall = 400
        try:
            self.schedule (None)
            ok = True
            last = -1
            stuckFor = 0
            while not self.done.wait (timeout=1):
                if self.steps == last:
                    stuckFor += 1
                else:
                    stuckFor = 0
                last = self.steps
                if stuckFor >= wall:
                    ok = False
                    break
            self.waiting = [(t.name, t.state, t.proc.lastOp) for t in self.tasks if not t.finished]
            if not ok:
                # spinning without ever reaching a seam; the caller re-runs
                # with a line cap to get a deterministic verdict
                self._abort ('stuck')
                import ctypes
                t = self.cur
                t.dead = True
                for i in range (20):
                    ctypes.pythonapi.PyThreadState_SetAsyncExc (ctypes.c_ulong (t.ident), ctypes.py_object (SimKilled))
                    t.thread.join (1)
                    if not t.thread.is_alive ():
                        break
                else:
                    raise HarnessError (f'cannot stop {t.name}\n' + ''.join (traceback.format_stack (sys._current_frames ().get (t.ident))[-12:]))
            # unwind everything that is still parked
            for t in self.tasks:
                n = 0
                while not t.finished:
                    t.dead = True
                    self.cur = t
                    self._switchTo (t.proc)
                    try:
                        t.gate.release ()
                    except RuntimeError:
                        pass
                    t.thread.join (5)
                    n += 1
                    if n > 4:
                        raise HarnessError (f'cannot unwind {t.name}')
                t.thread.join (5)
        finally:
            self._switchTo (None)
            Sim.current = None
        if self.harnessError:
            raise HarnessError (self.harnessError)
        return self.outcome

    def signature (self):
        h = hashlib.blake2b (digest_size=8)
        for t in self.trace:
            h.update (repr (t).encode ('utf-8', 'backslashreplace'))
        return h.hexdigest ()
