"""
Runs of lulua-optimize
"""
from fnmatch import fnmatch
import yaml

from .base import *
from . import prepared as P

MODELS = sorted (model.MODELS)

def movable (data):
    """ Keys the optimizer may touch: (layer, key) """
    mods = {m[0] for l in data['layout'] for m in l['modifier'] if len (m) == 1}
    return [(i, k) for i in range (len (data['layout'])) for k in model.LETTERS if k not in mods]

def matches (pin, pos):
    return pin[0] == pos[0] and (pin[1] is None or fnmatch (pos[1], pin[1]))

def pinnedExact (pins, pos):
    return any (p[1] is not None and matches (p, pos) for p in pins)

def canMove (data, pins):
    """ There must be something left to do, or the optimizer searches forever """
    by = {}
    for pos in movable (data):
        if not pinnedExact (pins, pos):
            by.setdefault (pos[0], []).append (pos)
    return any (len (x) > 1 for x in by.values ())

def gen (rng, i, tier, unique=False):
    if rng.random () < 0.25:
        layout = rng.choice (workload.shippedLayouts ())
        data = workload.layoutData (layout)
    else:
        layout = data = workload.randomLayout (rng, unique=unique or rng.random () < 0.6, density=rng.choice ((None, None, 0.2, 0.6)))
    texts = [t for t in workload.layoutTexts (data) if t != '\b'] or ['ا']
    corpus = [workload.randomText (rng, texts, rng.choice ((10, 40, 80)), mapped=False).replace ('\b', '') for k in range (rng.choice ((1, 1, 2, 4)))]
    nl = len (data['layout'])
    pins = []
    if rng.random () < 0.7:
        for k in range (rng.choice ((1, 1, 2, 3, 5))):
            l = rng.randrange (nl)
            r = rng.random ()
            if r < 0.35:
                pins.append ([l, None])
            elif r < 0.65:
                pins.append ([l, rng.choice (model.LETTERS)])
            else:
                pins.append ([l, rng.choice (('B*', 'C*', 'D*', 'E*', '?l*', '?r*', '*1', '*[2-4]', 'Dl?', '*'))])
    while pins and not canMove (data, pins):
        pins.pop (rng.randrange (len (pins)))
    free = movable (data)
    swaps = []
    if rng.random () < 0.35:
        pool = list (free)
        for k in range (rng.choice ((1, 2, 3))):
            a, b = rng.sample (pool, 2)
            # both or none pinned, layers only mixed if that isn't ruled out
            if pinnedExact (pins, a) != pinnedExact (pins, b):
                continue
            if a[0] != b[0] and any (p[1] is None and p[0] in (a[0], b[0]) for p in pins):
                continue
            swaps.append ([list (a), list (b)])
            pool.remove (a)
            pool.remove (b)
    mode = rng.choice (({'kind': 'honest'}, {'kind': 'honest'}, {'kind': 'repeat', 'p': rng.choice ((0.3, 0.8))},
        {'kind': 'pool', 'p': rng.choice ((0.5, 0.95)), 'pool': rng.choice ((2, 3, 8))}))
    clock = {}
    if rng.random () < 0.3:
        clock = dict (jumps=[[rng.randint (0, 60), rng.choice ((-1e6, -3600, -1, 3600, 1e8))] for k in range (rng.randint (1, 3))])
    return dict (seed=rng.getrandbits (48), layout=layout, texts=corpus, pins=pins, ops=swaps, steps=rng.choice ((0, 1, 2, 5, 20, 60, 150)),
            randomize=rng.random () < 0.3, model=rng.choice (MODELS), random=mode, clock=clock, limit=rng.choice ((0, 0, 0, 1, 3, 10)), faults=[])

class OptRun:
    def __init__ (self, ctx, case):
        self.ctx, self.case = ctx, case
        self.data = workload.layoutData (case['layout'])
        self.lay = model.Layout (self.data)
        self.arg = case['layout'] if isinstance (case['layout'], str) else 'layout.yaml'
        self.files = {} if isinstance (case['layout'], str) else {'layout.yaml': workload.layoutYaml (case['layout'])}
        sub = Ctx (dict (seed=case['seed']))
        r = makeStats (sub, case['layout'], case['texts'])
        if not r.ok:
            raise P.PrepFailed (r.describe ())
        r = combineStats (sub, r.out)
        if not r.ok:
            raise P.PrepFailed (r.describe ())
        self.stats = r.out
        recs, err = loadRecords (r.out)
        if err or len (recs) != 1:
            raise P.PrepFailed (f'{err}')
        self.triads = recs[0]['triads']
        self.limit = case['limit']
        if self.limit:
            # which ones of equally frequent triads are used is not specified
            n = sorted (self.triads.values (), reverse=True)
            if self.limit < len (n) and n[self.limit-1] == n[self.limit]:
                self.limit = 0
        if self.limit:
            n = sorted (self.triads.items (), key=lambda x: -x[1])[:self.limit]
            self.used = dict (n)
        else:
            self.used = dict (self.triads)

    def run (self, **kw):
        case = self.case
        a = ['-l', self.arg, '-n', str (case['steps']), '-m', case['model']]
        if case['randomize']:
            a += ['-r']
        if case['pins']:
            a += ['-p', ';'.join (str (l) if k is None else f'{l},{k}' for l, k in case['pins'])]
        for (i, x), (j, y) in case['ops']:
            a += ['-s', f'{i},{x}:{j},{y}']
        if self.limit:
            a += ['--triad-limit', str (self.limit)]
        mode = dict (case['random'])
        for f in case['faults']:
            if f['k'] == 'sigint':
                mode.update (sigint=f['n'], lines=f['lines'])
        kw.setdefault ('clock', case['clock'])
        self.r = ToolRun (self.ctx, 'optimize', a, stdin=self.stats, files=self.files, policy={'kind': 'first'}, randomMode=mode, **kw).run ()
        return self.r

    def parse (self):
        text = self.r.out.decode ('utf-8')
        out = yaml.load (text, workload._Loader)
        self.energy = None
        for l in text.split ('\n'):
            if l.startswith ('# energy:'):
                self.energy = float (l.split (':', 1)[1])
        self.result = out
        return out

    def positions (self, data):
        """ {(layer, key): text} """
        return {(i, k): t for i, l in enumerate (data['layout']) for k, t in l['layer'].items ()}

    def started (self):
        """ Positions after the requested swaps """
        pos = self.positions (self.data)
        for a, b in self.case['ops']:
            a, b = tuple (a), tuple (b)
            x, y = pos.pop (a, None), pos.pop (b, None)
            if x is not None:
                pos[b] = x
            if y is not None:
                pos[a] = y
        return pos

    def effort (self, where):
        """ Effort of the triads if (layer, key) of the input layout is now at where[(layer, key)] """
        out = []
        for triad, n in self.used.items ():
            t = []
            for mods, key in triad:
                l = self.lay.layerOf[frozenset (mods)]
                nl, nk = where[(l, key)]
                t.append ((tuple (self.data['layout'][nl]['modifier'][0]), nk))
            out.append ((tuple (t), n))
        return model.effort (self.case['model'], out)

def shrink (case):
    for key in ('pins', 'ops', 'texts'):
        for l in shrinkList (case[key]):
            if l or key != 'texts':
                yield dict (case, **{key: l})
    for kw in (dict (randomize=False), dict (limit=0), dict (clock={}), dict (random={'kind': 'honest'}), dict (model='mod01')):
        if any (case[k] != v for k, v in kw.items ()):
            yield dict (case, **kw)
    for n in (0, 1, 2, 3, 5, case['steps']//2):
        if n < case['steps']:
            yield dict (case, steps=n)
    for i, t in enumerate (case['texts']):
        if len (t) > 3:
            for u in (t[:len (t)//2], t[len (t)//2:]):
                c = copy.deepcopy (case)
                c['texts'][i] = u
                yield c
