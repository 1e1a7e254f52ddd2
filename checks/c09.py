"""
Output faults
"""
from .base import *
from . import prepared as P

ID = 'C09'
COUNT = {'quick': 7000, 'thorough': 150000}
RULE = ('every command, writing to a file, stdout or a pipe that accepts its output in random pieces, becomes full, fails, cannot be '
        'opened, fails when closed or whose reader goes away after a random number of bytes; compared with the bytes of an undisturbed '
        'run (lulua-write: with the reference model); non-trivial: the fault was reached')

ERRS = ('ENOSPC', 'ENOSPC', 'EIO', 'EDQUOT', 'EPIPE', 'EFBIG')

def gen (rng, i, tier):
    cmd = 'write' if rng.random () < 0.15 else rng.choice (P.NAMES)
    case = dict (seed=rng.getrandbits (48), layout=rng.choice (P.layouts ()), variant=rng.choice ((0, 1, 2, 20)) if cmd not in ('write', 'report') else rng.randrange (3), cmd=cmd, jobs=rng.choice ((1, 1, 2, 3)),
            sched=dict (policy={'kind': 'first'} if cmd != 'write' else randomPolicy (rng), pipe=rng.choice ((65536, 4096, 100))),
            chunk=rng.choice ((None, None, None, 1000, [4096, 100, 1], 333)), faults=[])
    r = rng.random ()
    at = rng.choice ((0, 1, -1, -1, -2, rng.randrange (1 << 20), rng.randrange (1 << 20), rng.randrange (1 << 20)))
    if r < 0.55:
        case['faults'].append (dict (k='write', at=at, err=rng.choice (ERRS)))
    elif r < 0.65:
        case['faults'].append (dict (k='close', err=rng.choice (('EIO', 'ENOSPC', 'EDQUOT'))))
    elif r < 0.7:
        case['faults'].append (dict (k='open', err=rng.choice (('EACCES', 'ENOSPC', 'EROFS', 'EMFILE'))))
    elif r < 0.85:
        case['faults'].append (dict (k='reader', at=at))
    elif r < 0.88:
        case['faults'].append (dict (k='rename', err=rng.choice (('EIO', 'ENOSPC', 'EXDEV', 'EACCES'))))
    elif r < 0.94:
        case['faults'].append (dict (k='stderr', at=rng.choice ((0, 0, 10, 200)), err='ENOSPC'))
    return case

class Reader (kernel.Actor):
    """ Reads some bytes from a pipe, then goes away """
    def __init__ (self, sim, pipe, limit):
        self.sim, self.pipe, self.limit = sim, pipe, limit
        self.name = 'reader'
        self.data = bytearray ()
        self.done = False
        pipe.readers += 1

    def runnable (self):
        return not self.done and (bool (self.pipe.buf) or self.pipe.writers <= 0 or len (self.data) >= self.limit)

    def step (self):
        if len (self.data) >= self.limit or not self.pipe.buf:
            self.done = True
            self.pipe.readers -= 1
            if len (self.data) >= self.limit:
                self.sim.fault ('reader_gone', at=self.limit)
            return
        n = min (len (self.pipe.buf), self.limit-len (self.data))
        self.data += self.pipe.buf[:n]
        del self.pipe.buf[:n]

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

_baseline = {}

def execute2 (ctx, case):
    layout, v, cmd = case['layout'], case['variant'], case['cmd']
    fault = case['faults'][0] if case['faults'] else None
    k = fault['k'] if fault else None
    same = dict (clock=dict (frozen=True), randomMode={'kind': 'honest', 'seed': 5})
    want = None
    if cmd == 'write':
        texts = P.variantTexts (layout, v)
        c = dict (tool='write', args=['-j', str (case['jobs']), layout, 'json'], files={}, output=None,
                stdin=''.join (json.dumps (t) + '\n' for t in texts).encode ())
        size = 20000
    else:
        c = P.command (cmd, layout, v)
        bk = (cmd, layout, v)
        if bk not in _baseline:
            r = ToolRun (Ctx (dict (seed=7)), c['tool'], c['args'], stdin=c['stdin'], files=c['files'], policy={'kind': 'first'}, **same).run ()
            out = r.out if c['output'] is None else r.file (c['output'])
            _baseline[bk] = (r.ok, out, r.describe ())
        ok, want, desc = _baseline[bk]
        if not ok:
            # layout not supported by this format, for example
            ctx.tag = 'undisturbed run fails'
            return
        if not want:
            raise Violation ('no-output', f'lulua-{c["tool"]} {" ".join (c["args"])} succeeds, but never wrote its output')
        size = max (1, len (want))
    ctx.tag = f'{cmd} {k}'
    plan = vfs.WritePlan (chunk=case['chunk'])
    errPlan = None
    files = dict (c['files'])
    ino = None
    if c['output'] is not None:
        # an older, longer version exists already
        ino = files[c['output']] = vfs.Inode (b'\xffold'*(size//3 if case['seed'] % 2 else 0), writePlan=plan)
    if k == 'write':
        plan.errAt = fault['at'] % size if fault['at'] >= 0 else max (0, size+fault['at'])
        plan.err = fault['err']
    elif k == 'close':
        plan.closeErr = fault['err']
    elif k == 'open' and ino is not None:
        ino.openErr = fault['err']
    elif k == 'stderr':
        errPlan = vfs.WritePlan (errAt=fault['at'], err=fault['err'])
    reader = None
    if k == 'reader' and ino is None:
        w = ctx.world (**same)
        for path, x in files.items ():
            w.fs.add (path, x)
        pipe = vfs.SimPipe (w, 'stdout', w.pipeCapacity)
        reader = Reader (w, pipe, fault['at'] % size if fault['at'] >= 0 else max (0, size+fault['at']))
        w.actors.append (reader)
        r = ToolRun.__new__ (ToolRun)
        r.ctx, r.w, r.name = ctx, w, f'lulua-{c["tool"]} {" ".join (c["args"])}'
        r.p = w.tool (c['tool'], c['args'], stdin=c['stdin'], stdout=pipe)
        r.run ()
        got = bytes (reader.data) + bytes (pipe.buf)
    else:
        r = ToolRun (ctx, c['tool'], c['args'], stdin=c['stdin'], files=files, stdoutPlan=plan if ino is None else None, stderrPlan=errPlan, **same)
        if ino is not None:
            # in case it is written elsewhere and renamed
            r.w.fs.newPlan = plan
            if k == 'rename':
                r.w.fs.renameErr = fault['err']
        r.run ()
        got = r.out if ino is None else r.file (c['output'])
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome}) after {fault}')
    ctx.nontrivial = bool (ctx.faults)
    if not r.ok:
        if not any (x != 'short_write' for x in ctx.faults):
            raise Violation ('fails', f'{r.describe ()} although nothing but short writes happened')
        return
    if plan.fired:
        raise Violation ('error-ignored', f'{r.name} succeeds although {fault} was reported for its output')
    if any (x.startswith ('open_') for x in ctx.faults):
        raise Violation ('error-ignored', f'{r.name} succeeds although its output could not be opened')
    if cmd == 'write':
        recs, err = loadRecords (got)
        if err:
            raise Violation ('incomplete', f'{r.name} succeeds, but its output is cut off: {err} ({fault})')
        lay = model.Layout (workload.layoutData (layout))
        d = model.diff (model.corpus (lay, texts), mergeRecords (recs))
        if d:
            raise Violation ('incomplete', f'{r.name} succeeds, but its output lacks data: {d} ({fault})')
    elif got is None:
        raise Violation ('incomplete', f'{r.name} succeeds, but there is no output file ({fault})')
    elif got != want:
        n = next ((i for i, (a, b) in enumerate (zip (got, want)) if a != b), min (len (got), len (want)))
        raise Violation ('incomplete', f'{r.name} succeeds, but its output ({len (got)} bytes) differs from that of an undisturbed run '
                f'({len (want)} bytes) at byte {n} ({fault})')

def shrink (case):
    if case['chunk']:
        yield dict (case, chunk=None)
    if case['jobs'] > 1:
        yield dict (case, jobs=1)
    if case['faults'] and case['faults'][0].get ('at'):
        f = case['faults'][0]
        for at in (0, f['at']//2, -1):
            if at != f['at']:
                yield dict (case, faults=[dict (f, at=at)])
    if case['sched']['policy']['kind'] != 'first':
        yield dict (case, sched=dict (case['sched'], policy={'kind': 'first'}))
