"""
Interrupts, failing allocations and unreadable inputs of everything but corpus items
"""
import signal
from .base import *
from . import prepared as P

ID = 'C23'
COUNT = {'quick': 8000, 'thorough': 150000}
RULE = ('every command, with layout and keyboard either shipped, from user files or from user files with the names of shipped ones, while one of the files it reads (user files and '
        'package data) cannot be opened or fails at a random byte, or while it is interrupted or runs out of memory at a random '
        'operation plus a random number of source lines or at a random execution of a random source line; exit status and output are compared with those of an undisturbed run '
        '(lulua-write: the reference model); non-trivial: the fault was reached')

# cannot use other layouts
FIXED = ('render-winkbd', 'render-xmodmap')

def gen (rng, i, tier):
    cmd = 'write' if rng.random () < 0.08 else rng.choice (P.NAMES)
    own = cmd not in FIXED and cmd not in ('report', 'import', 'extract') and rng.choice ((False, False, 'path', 'name'))
    case = dict (seed=rng.getrandbits (48), layout=rng.choice (P.layouts ()), variant=rng.randrange (3), cmd=cmd, own=own, jobs=rng.choice ((1, 2)),
            sched=dict (policy={'kind': 'first'} if cmd != 'write' else randomPolicy (rng)), faults=[])
    r = rng.random ()
    lines = int (2**rng.uniform (0, 13)) if rng.random () < 0.8 else 0
    if r < 0.5 and cmd != 'write':
        k = rng.choice (('sigint', 'sigint', 'memory'))
        if rng.random () < 0.6:
            # whatever the line, and however often it runs
            case['faults'].append (dict (k=k, loc=rng.randrange (1 << 20), nth=rng.choice ((0, 0, -1, rng.randrange (1 << 20), rng.randrange (1 << 20)))))
        else:
            case['faults'].append (dict (k=k, n=rng.randrange (1 << 20), lines=lines))
    elif r < 0.62:
        case['faults'].append (dict (k='open', file=rng.randrange (1 << 20), err=rng.choice (('EACCES', 'EMFILE', 'EIO', 'ENOENT', 'ESTALE', 'EISDIR'))))
    else:
        case['faults'].append (dict (k='read', file=rng.randrange (1 << 20), at=rng.choice ((0, 0, -1, rng.randrange (1 << 20), rng.randrange (1 << 20))),
            err=rng.choice (('EIO', 'EIO', 'ESTALE', 'EISDIR'))))
    return case

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

def shipped (kind, name):
    with io.FileIO (os.path.join (world.REPO, 'lulua', 'data', kind, name + '.yaml')) as fd:
        return fd.readall ()

def command (case):
    layout, v = case['layout'], case['variant']
    if case['cmd'] == 'write':
        c = dict (tool='write', args=['-j', str (case['jobs']), layout, 'json'], files={}, output=None,
                stdin=''.join (json.dumps (t) + '\n' for t in P.variantTexts (layout, v)).encode ())
    else:
        c = P.command (case['cmd'], layout, v)
    if case['own'] == 'name':
        # files of the user, which have the names of the ones shipped and come first
        c = dict (c, files=dict (c['files'], **{layout: shipped ('layouts', layout), 'ibmpc105': shipped ('keyboards', 'ibmpc105')}))
    elif case['own']:
        files = dict (c['files'], **{'own/layout.yaml': shipped ('layouts', layout), 'own/keyboard.yaml': shipped ('keyboards', 'ibmpc105')})
        args = ['own/layout.yaml' if a == layout else a for a in c['args']]
        c = dict (c, files=files, args=['-k', 'own/keyboard.yaml'] + args)
    return c

def run (ctx, c, before=None):
    r = ToolRun (ctx, c['tool'], c['args'], stdin=c['stdin'], files=c['files'], clock=dict (frozen=True),
            randomMode={'kind': 'honest', 'seed': 5})
    if before is not None:
        before (r.w)
    r.run ()
    r.output = r.out if c['output'] is None else r.file (c['output'])
    return r

_baseline = {}

def baseline (case, c):
    k = (case['cmd'], case['layout'], case['variant'], case['own'])
    if k not in _baseline:
        r = run (Ctx (dict (seed=7, sched=dict (policy={'kind': 'first'}))), c)
        data = os.path.join (world.REPO, 'lulua', 'data') + '/'
        used = sorted (p for p, ino in r.w.fs.files.items () if ino.opened and ino.data and not p.endswith ('/result'))
        used += sorted ({p for p in r.w.fs.real if p.startswith (data)})
        _baseline[k] = (r.ok, r.output, used, r.p.ops)
    return _baseline[k]

_locations = {}

def locations (case, c):
    """ Source lines the undisturbed run goes through and how often """
    k = (case['cmd'], case['layout'], case['variant'], case['own'])
    if k not in _locations:
        count = {}
        def hook (sim, proc, frame):
            if proc.name == c['tool'] and not getattr (proc, 'finalizing', False):
                w = position (frame)
                count[w] = count.get (w, 0)+1
        def before (w):
            w.lineHook = hook
        run (Ctx (dict (seed=7, sched=dict (policy={'kind': 'first'}))), c, before)
        _locations[k] = list (count.items ())
    return _locations[k]

def position (frame):
    return frame.f_code.co_filename, frame.f_lineno

def noMemory (signum, frame):
    raise MemoryError ()

def execute2 (ctx, case):
    c = command (case)
    ok, want, used, ops = baseline (case, c)
    if not ok:
        ctx.tag = 'undisturbed run fails'
        return
    f = case['faults'][0] if case['faults'] else None
    k = f['k'] if f else None
    ctx.tag = f'{case["cmd"]} {k}'
    where = None
    ino = None
    if k == 'open' and case['own'] == 'name' and f['err'] == 'ENOENT':
        # without the file of the user the one shipped is the right one
        f = dict (f, err='EACCES')

    def before (w):
        nonlocal where, ino
        if k in ('open', 'read'):
            if not used:
                return
            where = used[f['file'] % len (used)]
            ino = w.fs.files.get (where)
            if ino is None:
                with io.FileIO (where) as fd:
                    ino = w.fs.files[where] = vfs.Inode (fd.readall ())
            if k == 'open':
                ino.openErr = f['err']
            else:
                size = max (1, len (ino.data))
                ino.readPlan = vfs.ReadPlan (errAt=f['at'] % size if f['at'] >= 0 else size, err=f['err'])
        elif k in ('sigint', 'memory') and 'loc' in f:
            locs = locations (case, c)
            loc, n = locs[f['loc'] % len (locs)]
            left = f['nth'] % n
            def lineHook (sim, proc, frame):
                nonlocal left
                if proc.name == c['tool'] and not proc.finalizing and position (frame) == loc:
                    left -= 1
                    if left < 0:
                        sim.lineHook = None
                        if k == 'memory':
                            proc.handlers[signal.SIGUSR1] = noMemory
                        sim._deliver (proc, signal.SIGUSR1 if k == 'memory' else signal.SIGINT, frame)
            w.lineHook = lineHook
        elif k in ('sigint', 'memory'):
            at = 1 + f['n'] % ops
            def hook (sim, proc, op, detail):
                if proc.name == c['tool'] and proc.ops == at and not proc.finalizing:
                    if k == 'sigint':
                        sim.signal (proc, signal.SIGINT, f['lines'])
                    else:
                        proc.handlers[signal.SIGUSR1] = noMemory
                        sim.signal (proc, signal.SIGUSR1, f['lines'])
            w.opHooks.append (hook)

    r = run (ctx, c, before)
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome}) after {f} {where or ""}')
    ctx.nontrivial = bool (ctx.faults)
    if not r.ok:
        if not ctx.faults:
            raise Violation ('fails', f'{r.describe ()} although nothing happened')
        return
    if any (x.startswith (('open_', 'read_')) for x in ctx.faults):
        raise Violation ('error-ignored', f'{r.name} succeeds although {where} could not be read: {f}')
    if case['cmd'] == 'write':
        recs, err = loadRecords (r.out)
        lay = model.Layout (workload.layoutData (case['layout']))
        d = err or model.diff (model.corpus (lay, P.variantTexts (case['layout'], case['variant'])), mergeRecords (recs))
        if d:
            raise Violation ('incomplete', f'{r.name} succeeds, but its output lacks data: {d} ({f})')
    elif r.output != want:
        got = r.output
        n = 0 if got is None else next ((i for i, (a, b) in enumerate (zip (got, want)) if a != b), min (len (got), len (want)))
        raise Violation ('incomplete', f'{r.name} succeeds, but its output ({"missing" if got is None else len (got)} bytes) differs from that '
                f'of an undisturbed run ({len (want)} bytes) at byte {n} ({f})')

def shrink (case):
    if case['own']:
        yield dict (case, own=False)
    for f in case['faults']:
        for key in ('lines', 'n', 'at', 'nth'):
            if f.get (key):
                for x in (0, f[key]//2, f[key]-1):
                    if x == f[key]:
                        continue
                    yield dict (case, faults=[dict (f, **{key: x})])
    if case['sched']['policy']['kind'] != 'first':
        yield dict (case, sched=dict (policy={'kind': 'first'}))
