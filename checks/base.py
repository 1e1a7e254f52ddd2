"""
Common parts of all checks: executing a case, reading results, fault triggers,
shrinking.

A *case* is a JSON document that, together with the code under test, determines
one execution completely: workload, knobs, faults and the seed of the schedule.
"""

import copy
import io
import json
import os
import pickle
import random
import signal
import sys

from sim import kernel, model, workload, world, vfs
from sim.kernel import HarnessError, derive
from sim.world import World, runWorld, freshModules

Rng = kernel._Random

class Violation (Exception):
    def __init__ (self, cls, msg, known=None):
        super ().__init__ (f'{cls}: {msg}')
        self.cls = cls
        self.msg = msg

class Stuck (Exception):
    """ A simulated process ran without reaching any seam for too long """

class Ctx:
    """ One execution of a case: its worlds and what happened in them """
    def __init__ (self, case, choices=None, lineCap=None, keepTrace=False):
        self.case = case
        self.replay = choices
        self.lineCap = lineCap
        self.choices = []
        self.worlds = 0
        self.steps = 0
        self.simTime = 0.0
        self.faults = {}
        self.probes = {}
        self.sigs = []
        self.keepTrace = keepTrace
        self.trace = []
        self.runs = 0
        self.nontrivial = False

    def world (self, **kw):
        i = self.worlds
        self.worlds += 1
        sched = self.case.get ('sched', {})
        choices = None
        if self.replay is not None:
            choices = self.replay[i] if i < len (self.replay) else []
        args = dict (seed=derive (self.case['seed'], 'world', i), policy=sched.get ('policy'),
                stallRate=sched.get ('stall', 0.0), pipeCapacity=sched.get ('pipe', vfs.PIPE_CAPACITY),
                cpus=sched.get ('cpus', 2), clock=self.case.get ('clock'), choices=choices, lineCap=self.lineCap)
        args.update (kw)
        return World (**args)

    def run (self, w):
        self.runs += 1
        try:
            outcome = runWorld (w)
        finally:
            self.choices.append (w.choices)
            self.steps += w.steps
            self.simTime += w.now-w.t0
            for a, b in ((self.faults, w.faultsFired), (self.probes, w.probes)):
                for k, v in b.items ():
                    a[k] = a.get (k, 0)+v
            self.sigs.append (w.signature ())
            if self.keepTrace:
                self.trace.append ([f'{a}: {b}' for a, b in w.trace])
        if w.fs.denied:
            raise HarnessError (f'code under test tried to write {w.fs.denied[0]}')
        if outcome == 'stuck':
            raise Stuck ()
        return outcome

# -- schedules ----------------------------------------------------------------
def randomPolicy (rng, jobs=3):
    r = rng.random ()
    if r < 0.3:
        return {'kind': 'uniform'}
    if r < 0.5:
        return {'kind': 'sticky', 'p': rng.choice ((0.5, 0.8, 0.95, 0.99))}
    if r < 0.75:
        return {'kind': 'prio', 'change': rng.choice ((0.0, 0.02, 0.1, 0.3))}
    if r < 0.97:
        names = ['write', 'write/q0', 'write/q2'] + [f'write.{i+1}{x}' for i in range (jobs+1) for x in ('', '/q1', '/q2')]
        return {'kind': 'starve', 'who': rng.choice (names), 'leak': rng.choice ((0.0, 0.01, 0.1))}
    return {'kind': 'first'}

def randomSched (rng, jobs=3):
    return dict (policy=randomPolicy (rng, jobs), stall=rng.choice ((0, 0, 0.01, 0.1)),
            pipe=rng.choice ((65536, 65536, 65536, 4096, 1000, 200000)), cpus=rng.choice ((1, 2, 4)))

# -- results ------------------------------------------------------------------
def loadRecords (data):
    """ All complete records of a statistics stream, normalized; (records, clean) """
    def f ():
        import lulua.stats, lulua.keyboard
        lulua.keyboard.defaultKeyboards['ibmpc105']
        fd = io.BytesIO (bytes (data))
        out = []
        while fd.tell () < len (data):
            try:
                out.append (model.normalize (pickle.load (fd)))
            except Exception as e:
                return out, f'{type (e).__name__}: {e}'
        return out, None
    return freshModules (f)

def mergeRecords (recs):
    st = model.emptyStats ()
    for r in recs:
        model.addStats (st, r)
    return st

# -- other commands -----------------------------------------------------------
class ToolRun:
    """ One command on its own machine """
    def __init__ (self, ctx, tool, args, stdin=b'', files=None, stdinPlan=None, stdoutPlan=None, stderrPlan=None,
            pid=None, before=None, **kw):
        self.ctx = ctx
        self.name = f'lulua-{tool} {" ".join (args)}'
        w = self.w = ctx.world (**kw)
        for path, v in (files or {}).items ():
            if isinstance (v, vfs.Inode):
                w.fs.files[w.fs.resolve (path)] = v
            else:
                w.fs.add (path, v)
        self.stdinPlan, self.stdoutPlan, self.stderrPlan = stdinPlan, stdoutPlan, stderrPlan
        self.p = w.tool (tool, args, stdin=stdin, stdinPlan=stdinPlan, stdoutPlan=stdoutPlan, stderrPlan=stderrPlan,
                pid=pid, before=before)

    def run (self):
        self.outcome = self.ctx.run (self.w)
        self.out = bytes (self.p.outInode.data)
        self.err = bytes (self.p.errInode.data)
        return self

    @property
    def ok (self):
        return self.outcome == 'finished' and self.p.exitcode == 0

    def file (self, path):
        ino = self.w.fs.get (path)
        return None if ino is None else bytes (ino.data)

    def describe (self):
        p = self.p
        s = f'{self.name}: outcome={self.outcome} exit={p.exitcode}'
        if getattr (p, 'excText', None):
            s += f' exception={p.excText.strip ()[:200]}'
        return s

def makeStats (ctx, layout, texts, jobs=1, args=()):
    """ Statistics of a few texts, written by the code under test without faults """
    files = {}
    arg = layout
    if not isinstance (layout, str):
        arg = 'layout.yaml'
        files[arg] = workload.layoutYaml (layout)
    stdin = ''.join (json.dumps (t) + '\n' for t in texts).encode ()
    r = ToolRun (ctx, 'write', ['-j', str (jobs)] + list (args) + [arg, 'json'], stdin=stdin, files=files,
            policy={'kind': 'first'}).run ()
    return r

def combineStats (ctx, data, args=()):
    return ToolRun (ctx, 'analyze', list (args) + ['combine'], stdin=data, policy={'kind': 'first'}).run ()

# -- lulua-write cases ----------------------------------------------------------
class WriteRun:
    """ Builds the machine for one lulua-write case """
    def __init__ (self, ctx, case, plan=None, stdout=None, **kw):
        """ stdout: function creating a pipe for the output """
        self.ctx = ctx
        self.case = case
        w = self.w = ctx.world (**kw)
        chain = tuple (case['chain'])
        self.layoutData = workload.layoutData (case['layout'])
        self.layout = model.Layout (self.layoutData)
        if isinstance (case['layout'], str):
            layoutArg = case['layout']
        else:
            layoutArg = 'layout.yaml'
            w.fs.add (layoutArg, workload.layoutYaml (case['layout']))
        lines = []
        self.want = []
        self.paths = []
        self.wanted = []
        for i, spec in enumerate (case['items']):
            line, files, texts = workload.buildItem (chain, spec, i)
            path = None
            for path, data in files.items ():
                w.fs.add (path, data)
            self.paths.append (path)
            lines.append (line.encode ('utf-8'))
            self.want.append (texts)
        self.lines = lines
        self.plans = plan (self) if plan is not None else None
        for f in case.get ('faults', ()):
            self.data (f)
        stdin = b''.join (self.lines)
        plan = vfs.ReadPlan (chunk=case.get ('stdinChunk') if len (stdin) < 4000 or case.get ('stdinChunk') == 'line' else None)
        outPlan = vfs.WritePlan (chunk=case.get ('stdoutChunk'))
        errPlan = vfs.WritePlan ()
        for f in case.get ('faults', ()):
            if f['k'] == 'stdin':
                plan.errAt, plan.err = f['at'], f['err']
            elif f['k'] == 'stdout':
                outPlan.errAt, outPlan.err = f['at'], f['err']
            elif f['k'] == 'stderr':
                errPlan.errAt, errPlan.err = f['at'], f['err']
            elif f['k'] == 'fork':
                w.forkErr = (f['n'], f['err'])
            elif f['k'] == 'spawn':
                w.spawnErr = (f['n'], f['err'])
        if 'mediawikimarkdown' in chain:
            w.programs['pandoc'] = Pandoc (case.get ('pandoc', {}))
            if case.get ('noPandoc'):
                del w.programs['pandoc']
        out = None if stdout is None else stdout (w)
        args = ['-j', str (case['jobs'])] + list (case.get ('args', ())) + [layoutArg] + list (chain)
        if case.get ('slowStdin'):
            pipe = vfs.SimPipe (w, 'stdin', 65536)
            feeder = StdinActor (w, pipe, stdin, case['slowStdin'])
            w.actors.append (feeder)
            self.p = w.tool ('write', args, stdin=pipe, stdout=out, stdinPlan=plan, stdoutPlan=outPlan, stderrPlan=errPlan)
        else:
            self.p = w.tool ('write', args, stdin=stdin, stdout=out, stdinPlan=plan, stdoutPlan=outPlan, stderrPlan=errPlan)
        self.plan, self.outPlan, self.errPlan = plan, outPlan, errPlan
        trig = [dict (f) for f in case.get ('faults', ()) if f['k'] in ('sigint', 'kill')]
        if trig:
            w.opHooks.append (Trigger (trig))

    def data (self, f):
        """ Faults that are part of the data """
        k = f['k']
        w = self.w
        if k in ('stdin', 'stdout', 'stderr', 'sigint', 'kill', 'spawn', 'fork'):
            return
        i = f['item'] % len (self.lines)
        path = self.paths[i]
        ino = w.fs.get (path) if path else None
        if ino is None and k != 'badline':
            # another fault removed it
            return
        if k == 'read':
            ino.readPlan = vfs.ReadPlan (errAt=f['at'] % (len (ino.data)+1), err=f['err'])
        elif k == 'chunk':
            ino.readPlan = vfs.ReadPlan (chunk=f['chunk'])
        elif k == 'open':
            ino.openErr = f['err']
        elif k == 'missing':
            del w.fs.files[w.fs.resolve (path)]
        elif k == 'truncate':
            ino.data = ino.data[:f['at'] % max (1, len (ino.data))]
        elif k == 'flip':
            at = f['at'] % max (1, len (ino.data))
            if ino.data:
                ino.data[at] ^= f['x'] or 1
        elif k == 'insert':
            at = f['at'] % (len (ino.data)+1)
            ino.data[at:at] = bytes (f['b'])
        elif k == 'badline':
            self.lines[i] = bytes (f['b'])
        else:
            raise HarnessError (f'unknown fault {k}')

    def run (self):
        self.outcome = self.ctx.run (self.w)
        self.out = bytes (self.p.outInode.data)
        return self

    @property
    def ok (self):
        return self.outcome == 'finished' and self.p.exitcode == 0

    def describe (self):
        p = self.p
        s = f'outcome={self.outcome} exit={p.exitcode}'
        if getattr (p, 'excText', None):
            s += f' exception={p.excText.strip ()[:200]}'
        return s

    def records (self):
        if not hasattr (self, '_rec'):
            self._rec = loadRecords (self.out)
        return self._rec

    def expect (self, idx=None):
        """ Model statistics for the given items (default: all) """
        st = model.emptyStats ()
        for i, texts in enumerate (self.want):
            if idx is None or i in idx:
                for t in texts:
                    model.typeText (self.layout, model.mapText (t), st)
        return st

    def blocked (self):
        """ Who waits (for reports about runs that never end) """
        return ', '.join (f'{n} {s} in {op}' for n, s, op in getattr (self.w, 'waiting', ()))

class Trigger:
    """ Fires signals and kills when a process performs its n-th operation """
    def __init__ (self, faults):
        self.faults = faults

    def __call__ (self, sim, proc, op, detail):
        if not self.faults:
            return
        for f in list (self.faults):
            who = f['proc']
            idx = 0 if proc.parent is None else proc.parent.children.index (proc)+1
            if idx != who:
                continue
            kind = f.get ('op')
            n = proc.ops if kind is None else (proc.opsByKind.get (op, 0) if op == kind else -1)
            if n != f['n']:
                continue
            self.faults.remove (f)
            if f.get ('victim') is not None:
                # this operation is just the time when it happens
                victims = proc.children[f['victim']-1:f['victim']]
                if victims and victims[0].alive:
                    sim.fault ('sigkill')
                    sim.killProc (victims[0], 9)
                continue
            if getattr (proc, 'finalizing', False):
                continue
            if f['k'] == 'kill':
                sim.fault ('sigkill')
                sim.killProc (proc, 9)
            else:
                sim.fault ('sigint')
                root = proc
                while root.parent is not None:
                    root = root.parent
                if f.get ('to') == 'group':
                    targets = [root] + list (root.children)
                else:
                    targets = [root]
                for t in targets:
                    if getattr (t, 'finalizing', False):
                        continue
                    sim.signal (t, signal.SIGINT, f.get ('lines', 0) if t is proc else 0)

class StdinActor (kernel.Actor):
    """ Somebody typing into a pipe, at their own pace """
    def __init__ (self, sim, pipe, data, spec):
        self.sim = sim
        self.pipe = pipe
        self.data = data
        self.pos = 0
        # bounded number of steps, even for large inputs
        self.chunk = max (spec.get ('chunk', 64), len (data)//2000)
        self.pause = spec.get ('pause')
        self.name = 'stdin'
        self.done = False
        pipe.writers += 1

    def runnable (self):
        return not self.done and (len (self.pipe.buf) < self.pipe.capacity or self.pipe.readers <= 0)

    def step (self):
        if self.pipe.readers <= 0 or self.pos >= len (self.data):
            self.done = True
            self.pipe.writers -= 1
            return
        n = min (self.chunk, self.pipe.capacity-len (self.pipe.buf), len (self.data)-self.pos)
        self.pipe.buf += self.data[self.pos:self.pos+n]
        self.pos += n
        if self.pause and self.sim.stream ('stdin').random () < self.pause[0]:
            self.sim.fault ('slow_input')
            self.wake = self.sim.now+self.pause[1]

class Pandoc:
    """ Behaviour of the stand-in for pandoc; spec: {"<n>": dict (...)} by invocation """
    def __init__ (self, spec):
        self.spec = spec
        self.seen = []

    def _of (self, name):
        return self.spec.get (name.rsplit ('-', 1)[1], {})

    def readMax (self, name):
        return self._of (name).get ('readMax')

    def wake (self, sim, name):
        d = self._of (name).get ('start')
        if not d:
            return None
        sim.fault ('helper_slow')
        return sim.now+d

    def earlyRc (self, name):
        return self._of (name).get ('rc', 1)

    def plan (self, name, data):
        s = self._of (name)
        out = workload.wikiConvert (data.decode ('utf-8', 'replace')).encode ('utf-8')
        if s.get ('bad') is not None:
            # not what one would call text
            at = s['bad'] % (len (out)+1)
            out = out[:at] + b'\xff' + out[at:]
        self.seen.append ((name, data))
        return dict (out=out, rc=s.get ('rc', 0), dieAfter=s.get ('dieAfter'), think=s.get ('think'), pause=s.get ('pause'),
                warn=('[WARNING] اب Could not convert TeX math\n' * s.get ('warn', 0)).encode ('utf-8'), warnLate=s.get ('late'))

def randomWriteCase (rng, chains=None, maxItems=14, maxJobs=5, big=0.02, maxLen=40, minItems=0):
    jobs = rng.choice ((1, 1, 2, 2, 3, 3, 4, 5))
    jobs = min (jobs, maxJobs)
    chain = list (rng.choice (chains or workload.CHAINS))
    if rng.random () < 0.25:
        # the last one cannot type anything
        layout = rng.choice (workload.shippedLayouts () + ['null'])
        data = workload.layoutData (layout)
    else:
        layout = data = workload.randomLayout (rng)
    texts = workload.layoutTexts (data) or ['ا']
    n = rng.choice ((0, 1, 2, 3, rng.randint (0, maxItems), rng.randint (0, maxItems), rng.randint (0, maxItems)))
    n = max (n, minItems)
    items = [workload.randomItem (rng, tuple (chain), texts, maxLen, big) for i in range (n)]
    if items and rng.random () < 0.15:
        # some occur more than once
        items += [copy.deepcopy (rng.choice (items)) for i in range (rng.randint (1, 4))]
    case = dict (seed=rng.getrandbits (48), sched=randomSched (rng, jobs), chain=chain, layout=layout,
            jobs=jobs, items=items, faults=[])
    r = rng.random ()
    if r < 0.2:
        case['stdinChunk'] = rng.choice ((1, 7, 'line', [3, 1, 50]))
    elif r < 0.4:
        case['slowStdin'] = dict (chunk=rng.choice ((5, 64, 1000)))
        if rng.random () < 0.3:
            case['slowStdin']['pause'] = [rng.choice ((0.02, 0.2)), rng.choice ((0.5, 3, 40))]
    if rng.random () < 0.2:
        case['stdoutChunk'] = rng.choice ((1000, [4096, 100]))
    return case

# -- shrinking -----------------------------------------------------------------
def shrinkList (l):
    """ Candidates: shorter versions of a list """
    n = len (l)
    size = n
    while size >= 1:
        for i in range (0, n, size):
            c = l[:i] + l[i+size:]
            if len (c) < n:
                yield c
        size //= 2

def shrinkCase (case):
    """ Simpler variants of a generic case, most drastic first """
    def variant (**kw):
        c = copy.deepcopy (case)
        c.update (kw)
        return c
    for key in ('faults', 'items', 'records', 'texts', 'ops'):
        if isinstance (case.get (key), list) and case[key]:
            for l in shrinkList (case[key]):
                yield variant (**{key: l})
    for key in ('stdinChunk', 'slowStdin', 'stdoutChunk', 'pandoc'):
        if case.get (key):
            c = variant ()
            del c[key]
            yield c
    if case.get ('jobs', 1) > 1:
        for j in range (1, case['jobs']):
            yield variant (jobs=j)
    s = case.get ('sched')
    if s and s.get ('stall'):
        yield variant (sched=dict (s, stall=0))
    if s and s.get ('pipe') not in (None, 65536):
        yield variant (sched=dict (s, pipe=65536))
    if s and s.get ('policy', {}).get ('kind') != 'first':
        yield variant (sched=dict (s, policy={'kind': 'first'}))
    for i, it in enumerate (case.get ('items', ())):
        if isinstance (it, dict) and 'texts' in it:
            for l in shrinkList (it['texts']):
                if l:
                    c = variant ()
                    c['items'][i]['texts'] = l
                    yield c
            for j, t in enumerate (it['texts']):
                if isinstance (t, list):
                    for n in (1, t[1]//2):
                        if 0 < n < t[1]:
                            c = variant ()
                            c['items'][i]['texts'][j] = [t[0], n] + t[2:]
                            yield c
                elif len (t) > 1:
                    for u in (t[:len (t)//2], t[len (t)//2:], t[1:], t[:-1]):
                        c = variant ()
                        c['items'][i]['texts'][j] = u
                        yield c
            for k in ('blocks', 'eof', 'dirs', 'ascii'):
                if it.get (k):
                    c = variant ()
                    del c['items'][i][k]
                    yield c
    if isinstance (case.get ('layout'), dict):
        lay = case['layout']['layout']
        for i, l in enumerate (lay):
            keys = list (l['layer'])
            for sub in shrinkList (keys):
                if len (sub) < len (keys) and (len (keys)-len (sub)) >= max (1, len (keys)//4):
                    c = variant ()
                    c['layout']['layout'][i]['layer'] = {k: l['layer'][k] for k in sub}
                    yield c
