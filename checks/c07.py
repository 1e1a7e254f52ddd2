"""
Consumers of statistics and damaged input
"""
from .base import *
from . import prepared as P
import pickletools

ID = 'C07'
COUNT = {'quick': 12000, 'thorough': 300000}
RULE = ('every command that reads statistics, on undamaged input, input cut strictly inside a record (any byte, any record) or, where a record is required, before it, and input '
        'whose reading fails at any byte, delivered from a file or pipe in random pieces; non-trivial: the cut or error was reached')

CMDS = ('combine', 'combine', 'pretty', 'keyheatmap', 'layoutstats', 'latinime', 'corpusstats', 'triadfreq', 'triadeffortdata', 'optimize')
ERRS = ('EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EISDIR', 'ECONNRESET')

def gen (rng, i, tier):
    layout = rng.choice (P.layouts ())
    cmd = 'report' if rng.random () < 0.02 else rng.choice (CMDS)
    case = dict (seed=rng.getrandbits (48), layout=layout, variant=20 if cmd == 'combine' and rng.random () < 0.15 else rng.randrange (3), cmd=cmd,
            order=[rng.randrange (6) for k in range (rng.choice ((1, 1, 2, 3, 4)))], multi=rng.random () < 0.5,
            chunk=rng.choice ((None, None, 'pipe', 'pipe', 4096, 1000, [8192, 1, 77])), faults=[])
    r = rng.random ()
    if r < 0.55:
        # position: absolute, from the end of a record, or anywhere
        case['faults'].append (dict (k='cut', rec=rng.randrange (8), at=rng.choice ((1, 2, 3, 10, 11, 12, -1, -2, -3, rng.randrange (1 << 20),
            'frame', 'empty', rng.randrange (1 << 20), rng.randrange (1 << 20))), file=rng.randrange (16)))
    elif r < 0.93:
        case['faults'].append (dict (k='read', rec=rng.randrange (8), at=rng.choice ((0, 0, 1, 2, -1, rng.randrange (1 << 20), rng.randrange (1 << 20))),
            err=rng.choice (ERRS), file=rng.randrange (16)))
    return case

_split = {}

def split (data):
    """ Record boundaries """
    k = hash (data)
    if k not in _split:
        def f ():
            import lulua.stats, lulua.keyboard
            lulua.keyboard.defaultKeyboards['ibmpc105']
            fd = io.BytesIO (data)
            out = [0]
            while fd.tell () < len (data):
                pickle.load (fd)
                out.append (fd.tell ())
            return out
        _split[k] = freshModules (f)
    return _split[k]

_frames = {}

def frames (rec):
    """ Where frames of a pickle begin and end """
    k = hash (rec)
    if k not in _frames:
        out = set ()
        for op, arg, pos in pickletools.genops (rec):
            if op.name == 'FRAME':
                out.update ((pos, pos+9))
                if pos+9+arg < len (rec):
                    out.add (pos+9+arg)
            elif op.name == 'PROTO':
                out.add (pos+2)
        out.discard (0)
        _frames[k] = sorted (out)
    return _frames[k] or [1]

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

def execute2 (ctx, case):
    layout, v, cmd = case['layout'], case['variant'], case['cmd']
    fault = case['faults'][0] if case['faults'] else None
    files = {}
    data = b''
    victim = None
    if cmd == 'report':
        args, fs = P.reportInput (v)
        tool = 'report'
        files = dict (fs)
        names = sorted (x for x in files if x.endswith ('.pickle') or fault is not None and fault['k'] == 'read')
        if fault is not None:
            victim = names[fault['file'] % len (names)]
    else:
        tool, args = P.statsCommands (layout)[cmd]
        if cmd == 'corpusstats':
            files['meta.yaml'] = P.metadata (v)
        if cmd == 'combine':
            recs = P.records (layout, v)
            b = split (recs)
            parts = [recs[x:y] for x, y in zip (b, b[1:])] + [P.stats (layout, v)]
            data = b''.join (parts[k % len (parts)] for k in case['order'])
        else:
            data = P.stats (layout, v)

    def build (data, files, damaged):
        kw = {}
        plan = None
        if case['chunk'] not in (None, 'pipe'):
            plan = vfs.ReadPlan (chunk=case['chunk'])
        fs = {}
        cut = errPlan = None
        if damaged and fault is not None:
            target = files[victim] if victim else data
            bounds = split (target) if not (victim or '').endswith ('.yaml') else [0, len (target)]
            k = fault['rec'] % (len (bounds)-1)
            lo, hi = bounds[k], bounds[k+1]
            at = fault['at']
            if at == 'frame':
                f = frames (target[lo:hi])
                at = f[fault['file'] % len (f)]-1
            if at == 'empty' and cmd == 'combine':
                # no records are no statistics, not a part of one
                at = 1
            if fault['k'] == 'cut' and at == 'empty':
                if victim:
                    files = dict (files, **{victim: b''})
                else:
                    data = b''
                cut = 0
            elif fault['k'] == 'cut':
                # strictly inside a record
                at = lo + (at % (hi-lo-1) + 1 if at >= 0 else max (1, hi-lo+at))
                if victim:
                    files = dict (files, **{victim: target[:at]})
                else:
                    data = data[:at]
                cut = at
            else:
                at = lo + (at % (hi-lo+1) if at >= 0 else hi-lo+at)
                errPlan = vfs.ReadPlan (chunk=plan.chunk if plan else None, errAt=at, err=fault['err'])
                if victim:
                    files = dict (files, **{victim: vfs.Inode (files[victim], readPlan=errPlan)})
                else:
                    plan = errPlan
        if case['chunk'] == 'pipe' and tool != 'report':
            w = ctx.world (policy={'kind': 'uniform'})
            for path, x in files.items ():
                w.fs.add (path, x)
            pipe = vfs.SimPipe (w, 'stdin', 4096)
            w.actors.append (StdinActor (w, pipe, data, dict (chunk=1+case['seed'] % 3000)))
            r = ToolRun.__new__ (ToolRun)
            r.ctx, r.w, r.name = ctx, w, f'lulua-{tool} {" ".join (args)}'
            r.p = w.tool (tool, args, stdin=pipe, stdinPlan=plan)
        else:
            r = ToolRun (ctx, tool, args, stdin=data, files=files, stdinPlan=plan, policy={'kind': 'first'})
        r.run ()
        return r, cut, errPlan

    r, cut, plan = build (data, files, True)
    ctx.tag = f'{cmd} {fault["k"] if fault else "undamaged"}'
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome})')
    where = f'{victim or "stdin"}'
    if cut is not None:
        ctx.nontrivial = True
        ctx.faults['truncated'] = ctx.faults.get ('truncated', 0)+1
        if r.ok:
            raise Violation ('cut-accepted', f'{r.name} succeeds although {where} ends after {cut} of {len (files[victim] if victim else data)} '
                    f'bytes, {"inside" if cut else "without"} a record; wrote {len (r.out)} bytes')
        return
    if plan is not None and plan.fired:
        ctx.nontrivial = True
        if r.ok:
            raise Violation ('error-ignored', f'{r.name} succeeds although reading {where} failed with {plan.err} at byte {plan.errAt}')
        return
    if not r.ok:
        raise Violation ('fails', f'{r.describe ()} on undamaged input')
    if case['seed'] % 4 == 0 and cmd != 'report':
        # delivery must not matter
        want = ToolRun (ctx, tool, args, stdin=data, files=files, policy={'kind': 'first'}, randomMode={'kind': 'honest', 'seed': 1}).run ()
        if cmd not in ('optimize', 'latinime') and want.out != r.out:
            raise Violation ('delivery-matters', f'{r.name}: output depends on how the input was delivered')

def shrink (case):
    if case['chunk']:
        yield dict (case, chunk=None)
    for l in shrinkList (case['order']):
        if l:
            yield dict (case, order=l)
    if case['faults']:
        f = case['faults'][0]
        for at in (1, -1, f['at']//2 if isinstance (f['at'], int) else 7, 50):
            if at != f['at']:
                yield dict (case, faults=[dict (f, at=at)])
