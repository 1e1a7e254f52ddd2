"""
Combining statistics: any split, order and nesting
"""
import math

from .base import *

ID = 'C06'
COUNT = {'quick': 2400, 'thorough': 40000}
RULE = ('a corpus split into parts, each typed by lulua-write with 1..4 workers, combined in a random tree of lulua-analyze combine '
        'runs (record order shuffled, input delivered in random pieces, directly from a pipe fed by a running lulua-write, empty '
        'inputs and empty corpora included); the final record is compared with the sum over all texts; non-trivial: at least two '
        'records were merged')

def gen (rng, i, tier):
    if rng.random () < 0.25:
        layout = rng.choice (workload.shippedLayouts ())
        data = workload.layoutData (layout)
    else:
        layout = data = workload.randomLayout (rng)
    texts = workload.layoutTexts (data) or ['ا']
    parts = []
    for k in range (rng.choice ((0, 1, 2, 2, 3, 3, 4))):
        n = rng.choice ((0, 1, 2, 3, 6))
        ts = []
        for x in range (n):
            t = workload.randomText (rng, texts, rng.choice ((5, 30, 60)))
            if rng.random () < 0.05:
                t = [t or 'ا', rng.choice ((10, 100, 400))]
            ts.append (t)
        parts.append (dict (texts=ts, jobs=rng.choice ((1, 1, 2, 3, 4)), pipe=rng.random () < 0.25,
            copies=rng.choice ((1, 1, 1, 1, 2, 3))))
    if parts and rng.random () < 0.015:
        # long streams
        parts[rng.randrange (len (parts))]['copies'] = rng.choice ((30, 100, 300, 1000))
    elif parts and rng.random () < 0.01:
        # years of typing: combined again and again
        parts[rng.randrange (len (parts))]['again'] = [rng.choice ((20, 60, 150)) for k in range (rng.randint (2, 6))]
    elif parts and rng.random () < 0.005:
        # more different words than usual
        v = [workload.vocabulary (rng, texts, rng.choice ((3000, 12000)) if tier == 'quick' else rng.choice ((5000, 20000, 70000)))
                for k in range (2)]
        if v[0] is not None:
            for x in v:
                rng.choice (parts).update (texts=[x], copies=1)
    tree = list (range (len (parts)))
    # nest: replace some neighbours by a combined node
    while len (tree) > 1 and rng.random () < 0.5:
        rng.shuffle (tree)
        n = rng.randint (1, len (tree))
        tree = [tree[:n]] + tree[n:]
    rng.shuffle (tree)
    return dict (seed=rng.getrandbits (48), sched=randomSched (rng), layout=layout, items=parts, tree=tree,
            chunk=rng.choice ((None, 1, 7, [1, 4096], [100, 3, 1], 1000)), shuffle=rng.random () < 0.6)

def splitRecords (data):
    """ Byte ranges of the records in a stream """
    def f ():
        import lulua.stats, lulua.keyboard
        lulua.keyboard.defaultKeyboards['ibmpc105']
        fd = io.BytesIO (data)
        out = []
        last = 0
        while fd.tell () < len (data):
            pickle.load (fd)
            out.append (data[last:fd.tell ()])
            last = fd.tell ()
        return out
    return freshModules (f)

def execute (ctx, case):
    lay = model.Layout (workload.layoutData (case['layout']))
    want = model.emptyStats ()
    rng = Rng (derive (case['seed'], 'order'))
    files = {}
    arg = case['layout']
    if not isinstance (arg, str):
        arg = 'layout.yaml'
        files[arg] = workload.layoutYaml (case['layout'])
    merged = 0

    def leaf (k):
        data = leaf1 (k)
        for n in case['items'][k].get ('again', ()) if k < len (case['items']) else ():
            r = ToolRun (ctx, 'analyze', ['combine'], stdin=data*n).run ()
            if not r.ok:
                raise Violation ('fails', r.describe ())
            data = r.out
        return data

    def leaf1 (k):
        if k >= len (case['items']):
            return b''
        part = case['items'][k]
        texts = [workload.expand (t) for t in part['texts']]
        once = model.corpus (lay, texts)
        for key in want:
            for a, n in once[key].items ():
                want[key][a] += n*part['copies']*math.prod (part.get ('again', ()))
        stdin = ''.join (json.dumps (t) + '\n' for t in texts).encode ()
        if part['pipe']:
            # a shell pipeline: both run at the same time
            w = ctx.world ()
            for path, v in files.items ():
                w.fs.add (path, v)
            pipe = vfs.SimPipe (w, 'pipe', w.pipeCapacity)
            p1 = w.tool ('write', ['-j', str (part['jobs']), arg, 'json'], stdin=stdin, stdout=pipe)
            p2 = w.tool ('analyze', ['combine'], stdin=pipe)
            outcome = ctx.run (w)
            if outcome != 'finished':
                raise Violation ('hang', f'lulua-write | lulua-analyze combine never ends ({outcome})')
            if p1.exitcode != 0 or p2.exitcode != 0:
                raise Violation ('fails', f'pipeline failed: {p1.exitcode} {p2.exitcode} '
                        f'{getattr (p1, "excText", "")} {getattr (p2, "excText", "")}')
            ctx.probes['pipeline'] = ctx.probes.get ('pipeline', 0)+1
            return bytes (p2.outInode.data)*part['copies']
        r = ToolRun (ctx, 'write', ['-j', str (part['jobs']), arg, 'json'], stdin=stdin, files=files).run ()
        if not r.ok:
            raise Violation ('fails', r.describe ())
        return r.out*part['copies']

    def node (t):
        nonlocal merged
        if not isinstance (t, list):
            return leaf (t)
        data = [node (x) for x in t]
        if case['shuffle']:
            recs = [y for x in data for y in splitRecords (x)]
            rng.shuffle (recs)
            data = recs
            merged = max (merged, len (recs))
        else:
            merged = max (merged, len (data))
        data = b''.join (data)
        chunk = case['chunk']
        if len (data) > 100000:
            chunk = [65536, 4096, 100000] if chunk else None
        elif chunk == 1 and len (data) > 3000:
            chunk = 61
        r = ToolRun (ctx, 'analyze', ['combine'], stdin=data, stdinPlan=vfs.ReadPlan (chunk=chunk)).run ()
        if not r.ok:
            raise Violation ('fails', f'{r.describe ()} for {len (data)} bytes of undamaged statistics')
        return r.out

    out = node (case['tree'])
    recs, err = loadRecords (out)
    if err or len (recs) != 1:
        raise Violation ('not-one-record', f'combine wrote {len (recs)} records ({err})')
    d = model.diff (want, recs[0])
    if d:
        raise Violation ('wrong-sum', f'combined statistics differ from the sum of all texts: {d}')
    ctx.nontrivial = merged > 1
    ctx.tag = f'{min (merged, 8)} records'

def flatten (t):
    return [y for x in t for y in (flatten (x) if isinstance (x, list) else [x])]

def shrink (case):
    used = flatten (case['tree'])
    if any (isinstance (x, list) for x in case['tree']):
        yield dict (case, tree=used)
    for k in used:
        def without (t):
            return [without (x) if isinstance (x, list) else x for x in t if x != k]
        yield dict (case, tree=without (case['tree']))
    if case['shuffle']:
        yield dict (case, shuffle=False)
    if case['chunk']:
        yield dict (case, chunk=None)
    for i, p in enumerate (case['items']):
        for kw in (dict (pipe=False), dict (copies=1), dict (jobs=1)):
            for a, b in kw.items ():
                if p[a] != b:
                    c = copy.deepcopy (case)
                    c['items'][i][a] = b
                    yield c
    for c in shrinkCase (case):
        if len (c['items']) == len (case['items']) and all (p['texts'] is not None for p in c['items']):
            yield c
