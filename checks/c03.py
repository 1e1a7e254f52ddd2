"""
lulua-write ends, whatever happens
"""
from .base import *

ID = 'C03'
COUNT = {'quick': 4000, 'thorough': 30000}
RULE = ('random corpus, worker count, queue pipe capacity and scheduling policy with up to four faults: failing items, interrupts at the '
        'n-th operation of any process (to the main process or the group), killed workers or progress display, errors on '
        'stdin/stdout/stderr, failing fork, converter faults; non-trivial: at least one fault took effect')

BADDOC = ('read', 'open', 'missing', 'truncate', 'insert')

def gen (rng, i, tier):
    case = randomWriteCase (rng, maxItems=rng.choice ((3, 10, 30)), big=0.0, maxLen=rng.choice ((5, 30)))
    chain = case['chain']
    # large lines fill the queue's pipe
    if chain in (['lines'], ['json']) and rng.random () < 0.6:
        for it in case['items']:
            if rng.random () < 0.5:
                it['texts'] = [[rng.choice (('ا', 'x', 'ابت ')), rng.choice ((100, 3000, 20000, 20000))]]
    n = len (case['items'])
    nf = rng.choice ((0, 1, 1, 1, 2, 3, 4))
    jobs = case['jobs']
    for k in range (nf):
        kind = rng.choice (('item', 'item', 'sigint', 'sigint', 'kill', 'stdin', 'stdout', 'stderr', 'fork', 'pandoc'))
        if kind == 'item' and not n:
            kind = 'sigint'
        if kind == 'item':
            if chain[0] == 'json':
                f = dict (k='badline', item=rng.randrange (n), b=list (rng.choice ((b'{\n', b'7\n', b'\xff\n'))))
            elif chain[0] == 'lines':
                f = dict (k='badline', item=rng.randrange (n), b=list (b'\xff\n'))
            else:
                kk = rng.choice (BADDOC)
                f = dict (k=kk, item=rng.randrange (n), at=rng.choice ((0, rng.getrandbits (16))), err=rng.choice (('EIO', 'EACCES', 'ENOMEM')))
                if kk == 'insert':
                    f['b'] = [255, 254]
        elif kind in ('sigint', 'kill'):
            who = rng.randrange (0, jobs+2)
            if kind == 'kill':
                who = rng.randrange (1, jobs+2)
            f = dict (k=kind, proc=who, n=rng.choice ((rng.randint (1, 12), rng.randint (1, 60), rng.randint (1, 300))))
            if kind == 'kill' and rng.random () < 0.6:
                f = dict (k='kill', proc=0, victim=who, n=rng.choice ((rng.randint (1, 12+3*jobs), rng.randint (1, 60), rng.randint (1, 300))))
            if kind == 'sigint':
                f['to'] = rng.choice (('main', 'group', 'group'))
                f['lines'] = rng.choice ((0, 0, 1, 3, 8))
        elif kind in ('stdin', 'stdout', 'stderr'):
            f = dict (k=kind, at=rng.choice ((0, rng.randint (0, 200), rng.randint (0, 5000))),
                    err=rng.choice (('EIO', 'ENOSPC', 'EPIPE')) if kind != 'stdin' else 'EIO')
        elif kind == 'fork':
            f = dict (k='fork', n=rng.randint (1, jobs+1), err=rng.choice (('EAGAIN', 'ENOMEM')))
        else:
            if 'mediawikimarkdown' not in chain:
                continue
            case['pandoc'] = {str (rng.randrange (max (1, n))): rng.choice ((dict (rc=1), dict (rc=-9, dieAfter=rng.randint (0, 50)),
                dict (readMax=rng.randint (0, 50), rc=rng.choice ((0, 1)))))}
            if rng.random () < 0.2:
                case['noPandoc'] = True
            continue
        case['faults'].append (f)
    return case

def execute (ctx, case):
    r = WriteRun (ctx, case).run ()
    ctx.nontrivial = bool (ctx.faults)
    ctx.tag = f'{r.outcome}/{"ok" if r.ok else "failed"}'
    if r.outcome != 'finished':
        raise Violation ('hang', f'lulua-write never ends ({r.outcome}): {r.blocked ()}; after {ctx.faults}')
    left = [c.name for p in r.w.procs for c in p.children if c.alive]
    if left:
        raise Violation ('process-left', f'{", ".join (left)} still running after lulua-write ended')
    if r.p.exitcode is None:
        raise Violation ('hang', 'lulua-write has no exit status')

shrink = shrinkCase
