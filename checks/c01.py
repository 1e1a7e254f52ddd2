from .base import *

ID = 'C01'
COUNT = {'quick': 3000, 'thorough': 40000}
RULE = ('random layout (or shipped one), filter chain, items, worker count, queue pipe capacity, stdin delivery and '
        'scheduling policy; a run is non-trivial if at least two workers had items to share or the typed text is not empty')

def gen (rng, i, tier):
    case = randomWriteCase (rng, maxItems=14 if tier == 'quick' else 30, big=0.04)
    r = rng.random ()
    texts = workload.layoutTexts (workload.layoutData (case['layout'])) or ['ا']
    if r < 0.02:
        # long-running workers
        case['chain'] = rng.choice ((['lines'], ['json']))
        case['items'] = [workload.randomItem (rng, tuple (case['chain']), texts, 6) for i in range (rng.randint (100, 1200))]
        case.pop ('slowStdin', None)
    elif r < 0.03 and case['items']:
        # one very long text
        t = workload.randomText (rng, texts, rng.choice ((1, 2, 400))) or 'ا'
        rng.choice (case['items'])['texts'] = [[t, 100000//len (t)]]
    elif r < 0.034 and case['items'] and case['chain'][0] in ('json', 'lines', 'file'):
        # more different words than usual
        v = workload.vocabulary (rng, texts, rng.choice ((5000, 12000)) if tier == 'quick' else rng.choice ((5000, 20000, 70000)))
        if v is not None:
            rng.choice (case['items'])['texts'] = [v]
    if rng.random () < 0.1:
        case['args'] = rng.choice ((['-v'], ['-k', 'ibmpc105']))
    return case

def execute (ctx, case):
    r = WriteRun (ctx, case).run ()
    if not r.ok:
        raise Violation ('valid-input-fails', f'lulua-write does not succeed on valid input: {r.describe ()}; {r.blocked ()}')
    recs, err = r.records ()
    if err:
        raise Violation ('unreadable-output', f'stdout is not a sequence of statistics records: {err}')
    want = r.expect ()
    got = mergeRecords (recs)
    d = model.diff (want, got)
    if d:
        raise Violation ('wrong-statistics', f'merged statistics differ from typing each item once: {d}')
    ctx.nontrivial = bool (want['buttons'] or want['unknown']) and len (case['items']) > 1

shrink = shrinkCase
