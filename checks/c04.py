"""
Interrupted runs: exact prefix or failure
"""
from .base import *

ID = 'C04'
COUNT = {'quick': 4000, 'thorough': 40000}
RULE = ('random corpus of at least three items, delivered line by line, with one to four interrupts at the n-th operation of a random '
        'process plus m source lines, sent to the main process or the group; non-trivial: an interrupt was handled by the main process')

CHAINS = [('lines',), ('lines',), ('json',), ('file', 'text'), ('file', 'brotli', 'tar', 'text'), ('file', 'xml', 'opensubtitles'),
        ('json', 'mediawikimarkdown')]

def gen (rng, i, tier):
    case = randomWriteCase (rng, chains=CHAINS, maxItems=25, big=0.0, maxLen=rng.choice ((3, 12)), minItems=3)
    case.pop ('stdoutChunk', None)
    case['stdinChunk'] = 'line'
    # where will it be? short runs need small numbers
    top = rng.choice ((30, 60, 120, 200, 300))
    for k in range (rng.choice ((1, 1, 1, 2, 4))):
        who = rng.choice ((0, 0, 0, rng.randrange (0, case['jobs']+2)))
        f = dict (k='sigint', proc=who, n=rng.randint (1, top), to=rng.choice ((
            'main', 'group')), lines=rng.choice ((0, 0, 0, 1, 2, 3, 4, 6, 9, 15)))
        if who == 0 and rng.random () < 0.5:
            f['op'] = rng.choice (('read', 'put', 'empty', 'get', 'write'))
            f['n'] = rng.randint (1, 20)
        case['faults'].append (f)
    return case

def execute (ctx, case):
    r = WriteRun (ctx, case).run ()
    handled = ctx.faults.get ('sigint_handled', 0)
    ctx.nontrivial = bool (handled)
    ctx.tag = f'{"ok" if r.ok else "failed" if r.outcome == "finished" else r.outcome}/{"interrupted" if handled else "not interrupted"}'
    if r.outcome != 'finished':
        # C03
        return
    n = len (r.lines)
    if not r.ok:
        # somebody else may have noticed
        if not handled and not ctx.faults.get ('sigint'):
            raise Violation ('fails-uninterrupted', f'not interrupted, but fails: {r.describe ()}')
        return
    raw = r.p.stdinRaw
    off = raw.off if hasattr (raw, 'off') else raw.pos
    read = b''.join (r.lines)[:off].count (b'\n')
    recs, err = r.records ()
    if err:
        raise Violation ('unreadable-output', f'exit status 0, but output is not a sequence of records: {err}')
    got = mergeRecords (recs)
    cands = [n] if not handled else [k for k in (read-1, read) if k >= 0]
    diffs = []
    for k in cands:
        d = model.diff (r.expect (set (range (k))), got)
        if not d:
            return
        diffs.append (f'first {k}: {d}')
    raise Violation ('not-a-prefix', f'exit status 0 after {read} of {n} lines read ({handled} interrupts), but result is not '
            f'a prefix: {"; ".join (diffs)}')

shrink = shrinkCase
