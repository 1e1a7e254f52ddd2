"""
Statistics exchanged between processes with different histories
"""
import base64
from .base import *
from . import peer
from collections import Counter
import yaml

ID = 'C08'
COUNT = {'quick': 1600, 'thorough': 50000}
RULE = ('records written by lulua-write processes that loaded other keyboards before or use a keyboard description that lists its keys '
        'in another order, describes them differently or has more keys, some of them in an interpreter with another hash seed, merged by a process with yet '
        'another history and read by one more; key names, hands and triads are compared with the reference model; non-trivial: at '
        'least two processes differ in history')

_kb = {}

def keyboardYaml (spec):
    """ Variation of the standard keyboard """
    k = json.dumps (spec)
    if k not in _kb:
        with io.FileIO (os.path.join (world.REPO, 'lulua', 'data', 'keyboards', 'ibmpc105.yaml')) as fd:
            data = yaml.load (fd.readall (), workload._Loader)
        rng = Rng (derive ('keyboard', spec['seed']))
        if spec.get ('reverse'):
            for row in data['rows']:
                for half in row:
                    half.reverse ()
        if spec.get ('shuffle'):
            for row in data['rows']:
                for half in row:
                    rng.shuffle (half)
        for x in range (spec.get ('extra', 0)):
            data['rows'][rng.randrange (len (data['rows']))][rng.randrange (2)].insert (0, dict (name=f'Xx{x}' if not spec.get ('suffix') else f'{rng.choice (model.KEYS)}{x}', width=1, scancode=None,
                **({'kind': 'letter'} if rng.random () < 0.5 else {})))
        if spec.get ('other'):
            # a different machine altogether: nothing in common but the names of some keys
            names = list (model.KEYS)
            rng.shuffle (names)
            r = rng.random ()
            if r < 0.3:
                # names that differ at the end only
                names = [n + rng.choice (('0', '1', '_', '_x')) if rng.random () < 0.7 else n[:-1] + 'x' for n in names]
                names = list (dict.fromkeys (names))
            elif r < 0.65:
                # names that differ in their spelling only
                names = [n.lower () if rng.random () < 0.5 else n.swapcase () for n in names]
            data = dict (name='other', description='other', rows=[[[dict (name=n, width=1, scancode=None) for n in names[i::5][:3]],
                [dict (name=f'O{i}', width=1, scancode=None)]] for i in range (5)])
        if spec.get ('attrs'):
            # same keys, described differently
            for row in data['rows']:
                for b in row[0] + row[1]:
                    r = rng.random ()
                    if r < 0.4:
                        b['width'] = rng.choice ((1, 1.25, 2, 5))
                    elif r < 0.6:
                        b['isMarked'] = not b.get ('isMarked', False)
                    elif r < 0.8 and b.get ('scancode'):
                        b['scancode'] = {k: v for k, v in b['scancode'].items () if rng.random () < 0.5}
                    elif r < 0.9 and b.get ('kind') == 'letter':
                        del b['kind']
        data['name'] = f'kb{spec["seed"]}'
        _kb[k] = json.dumps (data)
    return _kb[k]

def randomKb (rng, other=True):
    d = dict (seed=rng.randrange (40))
    r = rng.random ()
    if r < 0.3:
        d['reverse'] = True
    elif r < 0.6:
        d['shuffle'] = True
    if rng.random () < 0.4:
        d['extra'] = rng.randint (1, 4)
        if rng.random () < 0.4:
            d['suffix'] = True
    if rng.random () < 0.4:
        d['attrs'] = True
    if other and rng.random () < 0.3:
        d['other'] = True
    return d

def randomHistory (rng):
    h = []
    for k in range (rng.choice ((0, 0, 1, 1, 2, 3))):
        r = rng.random ()
        if r < 0.6:
            h.append (['kb', randomKb (rng)])
        elif r < 0.8:
            h.append (['kb', 'ibmpc105'])
        else:
            h.append (['lay', rng.choice (workload.shippedLayouts ())])
    return h

def randomProc (rng):
    return dict (history=randomHistory (rng), kb=randomKb (rng, False) if rng.random () < 0.35 else None, remote=rng.random () < 0.25)

def gen (rng, i, tier):
    if rng.random () < 0.5:
        layout = rng.choice (workload.shippedLayouts ())
        data = workload.layoutData (layout)
    else:
        layout = data = workload.randomLayout (rng, unique=rng.random () < 0.5)
    texts = [t for t in workload.layoutTexts (data) if t != '\b'] or ['ا']
    items = []
    for k in range (rng.choice ((1, 1, 2, 3))):
        p = randomProc (rng)
        p.update (texts=[workload.randomText (rng, texts, rng.choice ((6, 30))).replace ('\b', '') for x in range (rng.choice ((1, 1, 2, 4)))],
                jobs=rng.choice ((1, 1, 2, 3)))
        items.append (p)
    return dict (seed=rng.getrandbits (48), layout=layout, items=items, mid=[randomProc (rng) for k in range (rng.choice ((0, 1, 1, 1, 2)))],
            final=randomProc (rng), cmd=rng.choice (('combine', 'combine', 'keyheatmap', 'keyheatmap', 'layoutstats', 'layoutstats', 'triadfreq', 'pretty', 'harness', 'words')))

def call (ctx, case, proc, tool, args, stdin, policy=None):
    files = {}
    history = []
    for kind, x in proc['history']:
        if isinstance (x, dict):
            name = f'hist{len (files)}.yaml'
            files[name] = keyboardYaml (x)
            history.append ([kind, name])
        else:
            history.append ([kind, x])
    k = []
    if proc['kb'] is not None:
        files['mykb.yaml'] = keyboardYaml (proc['kb'])
        k = ['-k', 'mykb.yaml']
    if not isinstance (case['layout'], str):
        files['layout.yaml'] = workload.layoutYaml (case['layout'])
    spec = dict (tool=tool, args=k + args, stdin=peer.b64 (stdin), files={a: peer.b64 (b.encode ('utf-8')) for a, b in files.items ()},
            history=history, policy=policy, seed=derive (case['seed'], 'call', ctx.runs) % (1 << 48))
    if proc['remote']:
        r = peer.remote (spec)
        ctx.runs += 1
        ctx.probes['other_hash_seed'] = ctx.probes.get ('other_hash_seed', 0)+1
    else:
        r = peer.runSpec (ctx, spec)
    if r['outcome'] != 'finished':
        raise Violation ('hang', f'lulua-{tool} {" ".join (k+args)} never ends')
    if r['exit'] != 0:
        raise Violation ('fails', f'lulua-{tool} {" ".join (k+args)} fails on statistics of another process: exit {r["exit"]} {r["exc"]}')
    return base64.b64decode (r['out'])

NOHISTORY = dict (history=[], kb=None, remote=False)

def plain (ctx, case, args):
    """ The same texts and command without any differences """
    texts = [t for it in case['items'] for t in it['texts']]
    arg = case['layout'] if isinstance (case['layout'], str) else 'layout.yaml'
    data = call (ctx, case, NOHISTORY, 'write', ['-j', '1', arg, 'json'], ''.join (json.dumps (t) + '\n' for t in texts).encode ())
    data = call (ctx, case, NOHISTORY, 'analyze', ['combine'], data)
    return call (ctx, case, NOHISTORY, 'analyze', args, data)

def execute (ctx, case):
    lay = model.Layout (workload.layoutData (case['layout']))
    arg = case['layout'] if isinstance (case['layout'], str) else 'layout.yaml'
    want = model.emptyStats ()
    data = b''
    for it in case['items']:
        for t in it['texts']:
            model.typeText (lay, model.mapText (t), want)
        stdin = ''.join (json.dumps (t) + '\n' for t in it['texts']).encode ()
        data += call (ctx, case, it, 'write', ['-j', str (it['jobs']), arg, 'json'], stdin, {'kind': 'uniform'})
    for m in case['mid']:
        data = call (ctx, case, m, 'analyze', ['combine'], data)
    f, cmd = case['final'], case['cmd']
    ctx.tag = cmd
    procs = case['items'] + case['mid'] + [f]
    ctx.nontrivial = len ({json.dumps ((p['history'], p['kb'], p['remote'])) for p in procs}) > 1
    ctx.sigs = [f'{derive (json.dumps (case)):x}']
    def check (d):
        if d:
            raise Violation ('other-keys', f'{cmd} of statistics written by processes with other histories: {d}')
    if cmd not in ('combine', 'harness') and not case['mid']:
        # these need a single record
        data = call (ctx, case, f, 'analyze', ['combine'], data)
    if cmd == 'combine':
        data = call (ctx, case, f, 'analyze', ['combine'], data)
    if cmd in ('combine', 'harness'):
        recs, err = loadRecords (data)
        if err:
            raise Violation ('unreadable', f'records cannot be read by another process: {err}')
        return check (model.diff (want, mergeRecords (recs)))
    if not want['buttons']:
        return
    if cmd == 'keyheatmap':
        out = call (ctx, case, f, 'analyze', ['-l', arg, 'keyheatmap'], data)
        got = yaml.load (out, workload._Loader)
        if got['buttons'] != dict (want['buttons']):
            keys = sorted (k for k in set (got['buttons']) | set (want['buttons']) if got['buttons'].get (k, 0) != want['buttons'].get (k, 0))
            check (', '.join (f'{k} pressed {got["buttons"].get (k, 0)} times instead of {want["buttons"].get (k, 0)}' for k in keys[:4]))
    elif cmd == 'layoutstats':
        if not isinstance (case['layout'], str):
            return
        # avoid the division by the number of alefs
        if not any ('ا' in t for it in case['items'] for t in it['texts']):
            return
        try:
            out = call (ctx, case, f, 'analyze', ['-l', arg, 'layoutstats'], data)
        except Violation as e:
            if 'ZeroDivisionError' in e.msg:
                return
            raise
        got = freshModules (lambda: pickle.loads (out))
        ref = freshModules (lambda: pickle.loads (plain (ctx, case, ['-l', arg, 'layoutstats'])))
        for k, x in ref.items ():
            if isinstance (x, (int, float)) and (k not in got or abs (got[k]-x) > 1e-9):
                check (f'{k} is {got.get (k)} instead of {x}')
        hands, fingers = Counter (), Counter ()
        for b, n in want['buttons'].items ():
            hands[model.FINGERS[b][0]] += n
            fingers[model.FINGERS[b]] += n
        g = Counter ({int (k): n for k, n in got['hands'].items () if n})
        if g != hands:
            check (f'hands {dict (g)} instead of {dict (hands)}')
        g = Counter ({(int (a), int (b)): n for (a, b), n in got['fingers'].items () if n})
        if g != fingers:
            check (f'fingers {dict (g)} instead of {dict (fingers)}')
    elif cmd == 'triadfreq':
        f = dict (f, kb=None)
        out = call (ctx, case, f, 'analyze', ['-l', arg, 'triadfreq', '-c', '1'], data)
        got = Counter (int (l.rsplit (' ', 2)[1]) for l in out.decode ('utf-8').split ('\n') if l)
        byText = Counter ()
        for t, n in want['triads'].items ():
            byText[tuple (lay.text ((frozenset (m), b)) for m, b in t)] += n
        w = Counter (byText.values ())
        if got != w:
            check (f'triad weights {dict (got)} instead of {dict (w)}')
        # text, weight and effort are those of processes without any history
        def canon (out):
            l = [x.rsplit (' ', 2) for x in out.decode ('utf-8').split ('\n') if x]
            return sorted ((a, int (b), round (float (c), 6)) for a, b, c in l)
        a, b = canon (out), canon (plain (ctx, case, ['-l', arg, 'triadfreq', '-c', '1']))
        if a != b:
            x = next ((x for x in zip (a, b) if x[0] != x[1]), (len (a), len (b)))
            check (f'triad frequency {x[0]} instead of {x[1]}')
    elif cmd == 'words':
        if not want['words']:
            return
        out = call (ctx, case, f, 'analyze', ['-l', arg, 'latinime'], data).decode ('utf-8').split ('\n')
        got = Counter (x.split ('=', 1)[1].rsplit (',f=', 1)[0] for x in out if x.startswith (' word='))
        if got != Counter (want['words'].keys ()):
            check (f'dictionary of {len (got)} words instead of {len (want["words"])}')
    elif cmd == 'pretty':
        if not want['words']:
            return
        out = call (ctx, case, f, 'analyze', ['-l', arg, 'pretty'], data).decode ('utf-8')
        got = Counter ()
        for l in out.split ('\ncombinations ')[0].split ('\n')[1:]:
            if l:
                # Button('Name', …) count percent
                got[l.split ("'")[1]] += int (l.rsplit (None, 2)[1])
        if got != want['buttons']:
            check (f'button presses {dict (got)} instead of {dict (want["buttons"])}')

def shrink (case):
    for key in ('items', 'mid'):
        for l in shrinkList (case[key]):
            if l or key == 'mid':
                yield dict (case, **{key: l})
    def procs (c):
        return c['items'] + c['mid'] + [c['final']]
    for k, p in enumerate (procs (case)):
        for a, b in (('remote', False), ('kb', None), ('history', [])):
            if p[a] != b:
                c = copy.deepcopy (case)
                procs (c)[k][a] = b
                yield c
        for l in shrinkList (p['history']):
            c = copy.deepcopy (case)
            procs (c)[k]['history'] = l
            yield c
    yield from shrinkCase (case)
