"""
The whole pipeline of the corpus build: items | lulua-write | lulua-analyze combine > file
"""
from .base import *

ID = 'C24'
COUNT = {'quick': 3000, 'thorough': 40000}
RULE = ('random corpus through lulua-write and lulua-analyze combine, connected by a pipe of random capacity on one machine, with up to '
        'three faults: unreadable items, interrupts to any stage or all of them, killed workers, a killed stage (with all its '
        'processes), failing input, a full disk; non-trivial: a fault took effect or both stages ran interleaved')

CHAINS = [('lines',), ('json',), ('file', 'text'), ('file', 'brotli', 'tar', 'text'), ('file', 'brotli', 'tar', 'xml', 'opensubtitles'),
        ('file', 'xml', 'tei2')]

def gen (rng, i, tier):
    case = randomWriteCase (rng, chains=CHAINS, maxItems=rng.choice ((4, 14)), big=0.01, maxLen=rng.choice ((5, 40)), minItems=1)
    case.pop ('stdoutChunk', None)
    if rng.random () < 0.3:
        case['stdinChunk'] = 'line'
    case['outPipe'] = rng.choice ((65536, 65536, 4096, 512, 10))
    case['outChunk'] = rng.choice ((None, None, 1000, [100, 1]))
    n, jobs = len (case['items']), case['jobs']
    for k in range (rng.choice ((0, 1, 1, 1, 2, 3))):
        kind = rng.choice (('item', 'sig', 'sig', 'sig', 'sig', 'stdin', 'out', 'fork'))
        if kind == 'item':
            if case['chain'][0] in ('lines', 'json'):
                f = dict (k='badline', item=rng.randrange (n), b=list (b'\xff\n'))
            else:
                f = dict (k=rng.choice (('read', 'open', 'missing')), item=rng.randrange (n), at=rng.getrandbits (16), err=rng.choice (('EIO', 'EACCES')))
        elif kind == 'sig':
            to, sig = rng.choice ((('all', 'INT'), ('all', 'INT'), ('main', 'INT'), ('write', 'INT'), ('combine', 'INT'), ('combine', 'KILL'), ('combine', 'TERM'),
                ('write', 'TERM'), ('write', 'KILL'), ('all', 'TERM'), ('worker', 'KILL'), ('worker', 'KILL')))
            by = rng.choice (('write', 'write', 'write', 'combine', f'write.{rng.randrange (jobs+1)}'))
            f = dict (k='sig', by=by, n=rng.choice ((rng.randint (1, 15), rng.randint (1, 60), rng.randint (1, 200))), to=to, sig=sig,
                    lines=rng.choice ((0, 0, 0, 2, 10)), worker=rng.randrange (jobs+1))
            if rng.random () < 0.4:
                f['op'] = rng.choice (('read', 'put', 'get', 'write', 'empty'))
                f['n'] = rng.randint (1, 12)
        elif kind == 'stdin':
            f = dict (k='stdin', at=rng.choice ((0, rng.randint (0, 200), rng.randint (0, 2000))), err='EIO')
        elif kind == 'out':
            f = dict (k='out', at=rng.choice ((0, 1, rng.randrange (1 << 16), rng.randrange (1 << 16))), err=rng.choice (('ENOSPC', 'EIO', 'EDQUOT')),
                    close=rng.random () < 0.2)
        else:
            f = dict (k='fork', n=rng.randint (1, jobs+1), err='EAGAIN')
        case['faults'].append (f)
    return case

class Signals:
    def __init__ (self, faults, stages):
        self.faults, self.stages = faults, stages
        self.fired = []

    def __call__ (self, sim, proc, op, detail):
        for f in list (self.faults):
            if f['by'] != proc.name:
                continue
            n = proc.ops if f.get ('op') is None else (proc.opsByKind.get (op, 0) if op == f['op'] else -1)
            if n != f['n']:
                continue
            self.faults.remove (f)
            write, comb = self.stages
            group = [write] + list (write.children)
            t = dict (all=group+[comb], main=[write], write=group, combine=[comb], worker=write.children[f['worker']:f['worker']+1])[f['to']]
            # interrupts are not for processes that shut down
            t = [p for p in t if p.alive and not (f['sig'] == 'INT' and getattr (p, 'finalizing', False))]
            if not t:
                continue
            self.fired.append (f)
            sim.fault (f'sig{f["sig"].lower ()}', at=f['to'])
            for p in t:
                if f['sig'] == 'KILL':
                    sim.killProc (p, 9)
                else:
                    sim.signal (p, getattr (signal, 'SIG' + f['sig']), f['lines'] if p is proc else 0)

def execute (ctx, case):
    sigs = [dict (f) for f in case['faults'] if f['k'] == 'sig']
    outPlan = vfs.WritePlan (chunk=case['outChunk'])
    for f in case['faults']:
        if f['k'] == 'out':
            if f['close']:
                outPlan.closeErr = f['err']
            else:
                outPlan.errAt, outPlan.err = f['at'] % 20000, f['err']
    pipe = None
    def stdout (w):
        nonlocal pipe
        pipe = vfs.SimPipe (w, 'pipeline', case['outPipe'])
        return pipe
    data = dict (case, faults=[f for f in case['faults'] if f['k'] not in ('sig', 'out')])
    r = WriteRun (ctx, data, stdout=stdout)
    comb = r.w.tool ('analyze', ['combine'], stdin=pipe, stdoutPlan=outPlan, label='combine')
    sig = Signals (sigs, (r.p, comb))
    r.w.opHooks.append (sig)
    r.run ()
    faults = {k: v for k, v in ctx.faults.items () if k not in ('short_write', 'stall', 'slow_input', 'sigchld_handled')}
    damaged = [f for f in data['faults'] if f['k'] in ('badline', 'missing')]
    ctx.nontrivial = bool (faults) or len (case['items']) > 1
    ctx.tag = f'{r.outcome}/write {r.p.exitcode}/combine {comb.exitcode}'
    if r.outcome != 'finished':
        raise Violation ('hang', f'the pipeline never ends ({r.outcome}): {r.blocked ()}; after {ctx.faults}')
    left = [p.name for p in r.w.procs if p.alive]
    if left:
        raise Violation ('process-left', f'{", ".join (left)} still running after the pipeline ended')
    what = f'write exit {r.p.exitcode}, combine exit {comb.exitcode}'
    if r.p.exitcode != 0 or comb.exitcode != 0:
        if not faults and not damaged:
            raise Violation ('fails', f'{what}, although nothing happened: {r.describe ()} {getattr (comb, "excText", "")}')
        if comb.exitcode == 0:
            # must not be used, but still contains nothing that is not there
            recs, err = loadRecords (bytes (comb.outInode.data))
            if err or len (recs) != 1:
                raise Violation ('unreadable-output', f'combine succeeds, but its output is not one record: {err} {len (recs)}')
            full = r.expect ()
            got = mergeRecords (recs)
            if not damaged and not any (f['k'] in ('read', 'open') for f in data['faults']):
                for part in ('combinations', 'unknown', 'words', 'triads'):
                    for k, v in got[part].items ():
                        if v > full[part].get (k, 0):
                            raise Violation ('too-much', f'{what}: {part} {k!r} counted {v} times, there are {full[part].get (k, 0)}')
        return
    if outPlan.fired:
        raise Violation ('error-ignored', f'{what}, although writing the result failed')
    interrupted = any (f['sig'] == 'INT' and f['to'] != 'combine' for f in sig.fired)
    if damaged and not interrupted or any (k.startswith (('read_', 'open_')) for k in ctx.faults):
        raise Violation ('error-ignored', f'{what}, although an item could not be read: {data["faults"]}')
    recs, err = loadRecords (bytes (comb.outInode.data))
    if err or len (recs) != 1:
        raise Violation ('unreadable-output', f'{what}, but the result is not one record: {err} {len (recs)}')
    got = mergeRecords (recs)
    n = len (r.lines)
    cands = [n]
    if interrupted:
        raw = r.p.stdinRaw
        off = raw.off if hasattr (raw, 'off') else raw.pos
        read = b''.join (r.lines)[:off].count (b'\n')
        # without line-wise delivery it is not known how far it got
        cands = range (max (0, read-1) if case.get ('stdinChunk') == 'line' else 0, min (read, n)+1)
    # those that come after the prefix do not matter
    usable = min ((f['item'] % n for f in damaged), default=n)
    diffs = []
    for k in cands:
        if k > usable:
            diffs.append (f'first {k}: item {usable} could not be read')
            break
        d = model.diff (r.expect (set (range (k))), got)
        if not d:
            return
        diffs.append (f'first {k}: {d}')
    raise Violation ('wrong-statistics', f'{what}, but the result is not the statistics of {"a prefix of " if interrupted else ""}the corpus: '
            f'{"; ".join (diffs[:2])} after {ctx.faults}')

def shrink (case):
    for kw in (dict (outChunk=None), dict (outPipe=65536)):
        if any (case[k] != v for k, v in kw.items ()):
            yield dict (case, **kw)
    for f in case['faults']:
        if f.get ('lines'):
            c = copy.deepcopy (case)
            c['faults'][case['faults'].index (f)]['lines'] = 0
            yield c
    yield from shrinkCase (case)
