"""
A simulated machine: file system, root processes (command line tools), and what
they did.
"""

import gc
import importlib
import io
import logging
import os
import signal as _signal
import sys
import traceback

from .kernel import Sim, SimKilled, HarnessError, derive
from . import modset, mp, vfs, seams, threads

REPO = os.environ.get ('VERIF_REPO', '/repo')

TOOLS = {
    'write': ('lulua.text', 'write'),
    'analyze': ('lulua.stats', 'main'),
    'render': ('lulua.render', 'render'),
    'report': ('lulua.report', 'render'),
    'import': ('lulua.layout', 'importFrom'),
    'optimize': ('lulua.optimize', 'optimize'),
    'extract-mediawiki': ('lulua.text', 'extractMediawiki'),
    }

_std = (sys.stdin, sys.stdout, sys.stderr, sys.argv)

class World (Sim):
    def __init__ (self, seed, policy=None, choices=None, maxSteps=150000, lineCap=None, stallRate=0.0,
            pipeCapacity=vfs.PIPE_CAPACITY, cpus=2, clock=None, randomMode=None):
        super ().__init__ (seed, policy, choices, maxSteps, lineCap, stallRate)
        seams.install (REPO)
        self.fs = vfs.FS ()
        self.pipeCapacity = pipeCapacity
        self.cpus = cpus
        self.queues = []
        self.processCount = 0
        self.programs = {}
        self.spawned = []
        self.spawnErr = None
        self.forkErr = None
        self.logs = []
        self.putLog = []
        self.clock = clock or {}
        self.randomMode = randomMode or {'kind': 'honest'}
        self._random = None
        self.switchHook = self._switch
        if self.clock.get ('base'):
            self.now = self.t0 = self.clock['base']

    # -- services for the seams
    def onPut (self, q, obj):
        pass

    def wallClock (self):
        """ Wall clock as the code sees it: may jump, also backwards """
        if self.clock.get ('frozen'):
            return self.t0
        off = 0
        for at, d in self.clock.get ('jumps', ()):
            if self.probes.get ('clock_read', 0) >= at:
                off += d
        if off:
            self.probe ('clock_jumped')
        return self.now+off

    def sutRandom (self):
        if self._random is None:
            self._random = seams.AdversarialRandom (derive (self.seed, 'random') if 'seed' not in self.randomMode
                    else self.randomMode['seed'], self.randomMode)
        return self._random

    def _switch (self, old, new):
        modset.save (old)
        if old is not None:
            old.argv = sys.argv
            old.stdin, old.stdout, old.stderr = sys.stdin, sys.stdout, sys.stderr
        if new is not None:
            modset.restore (new)
            sys.argv = new.argv
            sys.stdin, sys.stdout, sys.stderr = new.stdin, new.stdout, new.stderr
        else:
            sys.stdin, sys.stdout, sys.stderr, sys.argv = _std

    # -- processes
    def tool (self, name, args, stdin=b'', stdout=None, stderr=None, stdinPlan=None, stdoutPlan=None,
            stderrPlan=None, pid=None, before=None, label=None):
        """ Add a command as a root process. stdin: bytes or SimPipe; stdout: SimPipe or None (file) """
        p = self.newProc (label or name)
        if pid is not None:
            p.pid = pid
        p.argv = [f'lulua-{name}'] + list (args)
        if isinstance (stdin, vfs.SimPipe):
            raw = vfs.PipeReader (p, stdin, stdinPlan)
        else:
            raw = vfs.FileReader (p, '<stdin>', vfs.Inode (stdin, readPlan=stdinPlan))
        p.stdinRaw = raw
        p.stdin = vfs.textReader (raw)
        p.outInode = vfs.Inode (writePlan=stdoutPlan)
        p.errInode = vfs.Inode (writePlan=stderrPlan)
        if isinstance (stdout, vfs.SimPipe):
            p.stdout = vfs.textWriter (vfs.PipeWriter (p, stdout))
        else:
            p.stdout = vfs.textWriter (vfs.FileWriter (p, '<stdout>', p.outInode))
        p.stderr = vfs.textWriter (vfs.FileWriter (p, '<stderr>', p.errInode), errors='backslashreplace', line_buffering=True)
        self._std (p)
        module, fn = TOOLS[name]
        def entry ():
            f = getattr (importlib.import_module (module), fn)
            if before is not None:
                before ()
            return f ()
        self.startTask (p, lambda: self._main (p, entry))
        return p

    def script (self, label, fn, pid=None):
        """ A process running a function of the harness (API level use of the library) """
        p = self.newProc (label)
        p.result = None
        p.outInode = vfs.Inode ()
        p.errInode = vfs.Inode ()
        p.stdin = vfs.textReader (vfs.FileReader (p, '<stdin>', vfs.Inode (b'')))
        p.stdout = vfs.textWriter (vfs.FileWriter (p, '<stdout>', p.outInode))
        p.stderr = vfs.textWriter (vfs.FileWriter (p, '<stderr>', p.errInode), errors='backslashreplace', line_buffering=True)
        self._std (p)
        def entry ():
            p.result = fn ()
            return 0
        self.startTask (p, lambda: self._main (p, entry))
        return p

    def _main (self, p, entry):
        """ Life of a python process: main module, exit handlers, flushing """
        code = 0
        p.exc = None
        p.finalizing = False
        try:
            rc = entry ()
            code = self._exitCode (rc)
        except SimKilled:
            raise
        except SystemExit as e:
            code = self._exitCode (e.code)
        except KeyboardInterrupt as e:
            p.exc = e
            code = 130
        except HarnessError as e:
            raise
        except BaseException as e:
            p.exc = e
            code = 1
        if p.exc is not None:
            self._printTb (p, p.exc)
        try:
            threads.shutdown (self, p)
        except SimKilled:
            raise
        except BaseException as e:
            self._printTb (p, e)
        # interrupts are not delivered to an interpreter that's shutting down
        p.finalizing = True
        p.handlers[_signal.SIGINT] = _signal.SIG_IGN
        p.pending = [x for x in p.pending if x[0] != _signal.SIGINT]
        # in reverse order; multiprocessing registered first
        for fn, args, kwargs in reversed (p.atexit):
            try:
                fn (*args, **kwargs)
            except SimKilled:
                raise
            except BaseException as e:
                self._printTb (p, e)
        try:
            mp.exitFunction (self, p)
        except SimKilled:
            raise
        except BaseException as e:
            self._printTb (p, e)
        # whatever the code made its standard streams
        bad = False
        for f in (sys.stdout, sys.stderr):
            try:
                if f is not None and not f.closed:
                    f.flush ()
            except SimKilled:
                raise
            except BaseException:
                bad = True
        self._dropStreams (p)
        if bad:
            code = 120
        self.exitProc (p, code)
        self._forget (p)

    @staticmethod
    def _std (p):
        p.streams = (p.stdout, p.stderr)
        for i, f in enumerate ((p.stdin, p.stdout, p.stderr)):
            f.buffer.raw.fd = i
            p.fds[i] = f.buffer.raw

    def _dropStreams (self, p):
        """ Streams which are not sys.stdout any more are flushed by their destructors, errors are lost """
        for f in p.streams:
            if f is sys.stdout or f is sys.stderr:
                continue
            try:
                f.flush ()
            except SimKilled:
                raise
            except BaseException:
                pass

    def _forget (self, p):
        if p.exc is not None:
            p.excText = ''.join (traceback.format_exception_only (p.exc))
            p.excType = type (p.exc).__name__
            p.exc.__traceback__ = None

    @staticmethod
    def _exitCode (rc):
        if rc is None:
            return 0
        if isinstance (rc, bool) or isinstance (rc, int):
            return int (rc) & 0xff
        return 1

    def _printTb (self, p, e):
        try:
            text = ''.join (traceback.format_exception (e))
        except Exception:
            text = repr (type (e))
        self.stderrLog.append ((p.name, text))
        try:
            p.stderr.write (text[-2000:])
            p.stderr.flush ()
        except SimKilled:
            raise
        except BaseException:
            pass

    def fork (self, parent, handle):
        # multiprocessing flushes both before forking
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush ()
            except (AttributeError, ValueError):
                pass
        child = self.newProc (f'{parent.name}.{len (parent.children)}', parent=parent, daemon=handle._daemonic)
        child.argv = list (sys.argv)
        modset.save (parent)
        try:
            target, args, kwargs, handlers = modset.fork (parent.modules,
                    (handle._target, handle._args, handle._kwargs, parent.handlers) if type (handle).run is mp.Process.run
                    else (type (handle), dict (handle.__dict__, _parentProc=None, _proc=None), {}, parent.handlers))
            if isinstance (target, type) and issubclass (target, mp.Process):
                # the child's copy of a process with a run() of its own
                mine = target.__new__ (target)
                mine.__dict__.update (args)
                target, args = mine.run, ()
            modset.save (child)
        finally:
            modset.take ()
            modset.restore (parent)
        child.handlers = dict (handlers)
        # children of multiprocessing don't run these
        child.atexit = []
        child.outInode, child.errInode = parent.outInode, parent.errInode
        child.stdin = vfs.textReader (vfs.NullReader (child, '/dev/null'))
        child.stdout = self._inherit (child, sys.stdout, 'strict')
        child.stderr = self._inherit (child, sys.stderr, 'backslashreplace', True)
        self._std (child)
        child.mpHandle = handle
        handle._proc = child
        # the child's copy of the handle lives in the parent's memory, too
        def run ():
            self._child (child, target, args, kwargs)
        self.startTask (child, run)

    def _inherit (self, child, stream, errors, lb=False):
        raw = stream.buffer.raw
        if isinstance (raw, vfs.PipeWriter):
            n = vfs.PipeWriter (child, raw.pipe, raw.plan)
        else:
            n = vfs.FileWriter (child, raw.name, raw.inode)
        return vfs.textWriter (n, errors=errors, line_buffering=lb)

    def _child (self, p, target, args, kwargs):
        """ multiprocessing.process.BaseProcess._bootstrap """
        p.exc = None
        code = 1
        try:
            try:
                if target is not None:
                    target (*args, **kwargs)
                code = 0
            finally:
                mp.exitFunction (self, p)
        except SimKilled:
            raise
        except SystemExit as e:
            code = self._exitCode (e.code)
        except HarnessError:
            raise
        except BaseException as e:
            p.exc = e
            code = 1
            try:
                self._printTb (p, e)
            except KeyboardInterrupt:
                pass
        p.handlers = {_signal.SIGINT: _signal.SIG_IGN}
        p.pending = []
        threads.shutdown (self, p)
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush ()
            except SimKilled:
                raise
            except (AttributeError, ValueError):
                pass
            except BaseException:
                code = 1
        self.exitProc (p, code)
        self._forget (p)

_runs = 0

def runWorld (w):
    """ Execute and clean up; returns the outcome """
    global _runs
    import tqdm
    gc.disable ()
    tqdm.tqdm._instances.clear ()
    logging.getLogger ().setLevel (logging.INFO)
    try:
        return w.run ()
    finally:
        modset.take ()
        for p in w.procs:
            p.modules = {}
            for f in p.openFiles:
                f.gone = True
        _runs += 1
        if _runs % 20 == 0:
            gc.collect ()

def freshModules (fn):
    """ Run fn with a private, fresh module set (harness side use of the code, e.g. loading results) """
    saved = modset.take ()
    try:
        return fn ()
    finally:
        modset.take ()
        sys.modules.update (saved)
