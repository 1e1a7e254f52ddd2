"""
External converter
"""
from .base import *
from collections import Counter

ID = 'C13'
COUNT = {'quick': 3000, 'thorough': 30000}
RULE = ('wiki documents of random sizes (around and above pipe capacity) through a stand-in converter that succeeds, rejects, exits '
        'early, dies after a random part of its output, prints warnings, writes in random pieces or is missing; non-trivial: at least one document '
        'was handed to the converter')

def gen (rng, i, tier):
    case = randomWriteCase (rng, chains=[('json', 'mediawikimarkdown'), ('file', 'text', 'mediawikimarkdown')], maxItems=8, big=0.0,
            maxLen=30, minItems=1)
    n = len (case['items'])
    for it in case['items']:
        if rng.random () < 0.3:
            it['texts'] = [[rng.choice (('ابت ', "'''x'''ا", 'ا\n')), rng.choice ((50, 300, 1000, 5000, 15000))]]
    case['sched']['pipe'] = rng.choice ((65536, 65536, 4096, 1000, 100))
    if rng.random () < 0.004:
        # larger than any buffer anywhere
        case['items'][0]['texts'] = [[rng.choice (('\U0001f600'*7 + 'ا', '\U0001f600'*8 + 'اب')), rng.choice ((20000, 40000))]]
        case['sched']['pipe'] = 65536
    spec = {}
    r = rng.random ()
    if r < 0.2:
        pass
    elif r < 0.25:
        case['noPandoc'] = True
    elif r < 0.3:
        case['faults'].append (dict (k='spawn', n=rng.randrange (n), err=rng.choice (('EAGAIN', 'ENOMEM', 'EMFILE'))))
    else:
        for k in range (n):
            if rng.random () < 0.4:
                spec[str (k)] = rng.choice ((
                    dict (rc=rng.choice ((1, 2, 64, 127, 255, -15))),
                    dict (rc=rng.choice ((-9, -11, -6, 3, 1)), dieAfter=rng.choice ((0, 1, rng.randint (0, 100), rng.randint (0, 100000)))),
                    dict (rc=rng.choice ((0, 1, -9)), readMax=rng.choice ((0, rng.randint (0, 50), rng.randint (0, 50000)))),
                    dict (rc=0, bad=rng.randint (0, 1000)),
                    dict (rc=rng.choice ((1, -2)), bad=rng.randint (0, 1000)),
                    ))
            if rng.random () < 0.2:
                spec.setdefault (str (k), {})[rng.choice (('start', 'think', 'pause'))] = rng.choice ((0.2, 5, 61, 61, 400))
            if rng.random () < 0.2:
                spec.setdefault (str (k), {}).update (warn=rng.choice ((1, 1, 3, 30, 2000)), late=rng.random () < 0.3)
    case['pandoc'] = spec
    return case

def execute (ctx, case):
    r = WriteRun (ctx, case)
    r.run ()
    progs = [p for p in r.w.spawned if p is not None]
    ctx.nontrivial = bool (progs)
    if r.outcome != 'finished':
        raise Violation ('hang', f'lulua-write never ends ({r.outcome}): {r.blocked ()}; after {ctx.faults}')
    left = [p.name for p in progs if p.rc is None]
    if left:
        raise Violation ('converter-left', f'{left} still running after lulua-write ended')
    # just being slow or chatty is no reason to fail
    clean = not case.get ('noPandoc') and not case['faults'] and \
            not any (set (x) - {'start', 'think', 'pause', 'warn', 'late'} for x in case['pandoc'].values ())
    if not r.ok:
        ctx.tag = 'failed'
        if clean:
            raise Violation ('valid-input-fails', f'converter works, but lulua-write fails: {r.describe ()}')
        return
    ctx.tag = 'ok'
    docs = Counter ()
    for spec in case['items']:
        docs[workload.expand (spec['texts'][0]).encode ('utf-8')] += 1
    if case.get ('noPandoc'):
        raise Violation ('missing-converter-ignored', 'exit status 0 without a converter')
    if len (progs) < len (case['items']) and max (docs.values ()) > 1:
        # equal documents need not be converted again
        ctx.tag = 'ok, conversions saved'
        if not clean:
            return
        for d, n in docs.items ():
            if n > 1 and not any (bytes (p.data) == d for p in progs):
                raise Violation ('not-converted', f'exit status 0, but {d[:80]!r} was never converted')
        st = model.emptyStats ()
        for spec in case['items']:
            model.typeText (r.layout, model.mapText (workload.wikiConvert (workload.expand (spec['texts'][0]))), st)
        recs, err = r.records ()
        d = err or model.diff (st, mergeRecords (recs))
        if d:
            raise Violation ('wrong-statistics', f'statistics differ from the complete output of all conversions: {d}')
        return
    if len (progs) != len (case['items']):
        raise Violation ('not-converted', f'exit status 0, {len (case["items"])} documents, but {len (progs)} conversions')
    notReaped = [p.name for p in progs if not p.reaped]
    if notReaped:
        raise Violation ('converter-left', f'nobody waited for {notReaped}')
    st = model.emptyStats ()
    rejected = 0
    for p in progs:
        if p.plan is not None:
            if not docs[bytes (p.data)]:
                raise Violation ('wrong-input', f'converter got something that is not a document of the input (or one of them twice): '
                        f'{bytes (p.data)[:80]!r} ({len (p.data)} bytes)')
            docs[bytes (p.data)] -= 1
        if p.rc != 0:
            rejected += 1
            continue
        out = p.plan['out'][:p.out] if p.plan is not None else b''
        try:
            text = out.decode ('utf-8')
        except UnicodeDecodeError:
            raise Violation ('invalid-output-ignored', 'exit status 0, but converter output is not valid UTF-8')
        model.typeText (r.layout, model.mapText (text), st)
    recs, err = r.records ()
    if err:
        raise Violation ('unreadable-output', f'stdout is not a sequence of statistics records: {err}')
    d = model.diff (st, mergeRecords (recs))
    if d:
        raise Violation ('wrong-statistics', f'statistics differ from the complete output of the {len (progs)-rejected} successful '
                f'conversions ({rejected} rejected): {d}')
    logged = sum (1 for name, level, msg in r.w.logs if level >= 40)
    if logged < rejected:
        raise Violation ('silent-skip', f'{rejected} documents rejected, but only {logged} errors logged')

def shrink (case):
    for k in list (case['pandoc']):
        c = copy.deepcopy (case)
        del c['pandoc'][k]
        yield c
    for c in shrinkCase (case):
        if c['items'] and 'pandoc' in c:
            yield c
