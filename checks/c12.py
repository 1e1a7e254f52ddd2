"""
Typing from streams that deliver their text in pieces
"""
from .base import *

ID = 'C12'
COUNT = {'quick': 20000, 'thorough': 120000}
RULE = ('random layout with multi-character keys (prefixes of each other included), random text, delivered through a stream that returns '
        'random numbers of characters per read, a decoded byte stream with random raw read lengths, or a string; several writers may '
        'alternate on the same layout; non-trivial: at least one read was short and the text has more than three characters')

OVERLAP = ['ا', 'ال', 'الل', 'الله', 'لله', 'له', 'لا', 'اا', 'ااا', 'ب', 'بس', 'بسم', 'سم', 'م']

def gen (rng, i, tier):
    if rng.random () < 0.2:
        layout = rng.choice (workload.shippedLayouts () + ['null'])
        texts = workload.layoutTexts (workload.layoutData (layout)) or OVERLAP
    else:
        layout = workload.randomLayout (rng)
        # overlapping sequences
        for l in layout['layout']:
            for k in list (l['layer']):
                if k in model.LETTERS and rng.random () < 0.2:
                    l['layer'][k] = rng.choice (OVERLAP)
        texts = workload.layoutTexts (layout)
    n = rng.choice ((1, 1, 2, 3))
    out = []
    for k in range (n):
        t = workload.randomText (rng, texts, rng.choice ((5, 20, 60)))
        if rng.random () < 0.5:
            t += ''.join (rng.choice (OVERLAP) for x in range (rng.randint (0, 12)))
        out.append (t)
    return dict (seed=rng.getrandbits (48), layout=layout, texts=out,
            kind=rng.choice (('chars', 'chars', 'chars', 'bytes', 'string')),
            pieces=[rng.choice ((1, 1, 2, 3, 5, 100)) for k in range (rng.randint (1, 6))],
            mix=rng.random () < 0.4)

class Pieces:
    """ Text stream that returns less than it was asked for """
    def __init__ (self, text, pieces):
        self.text = text
        self.pos = 0
        self.pieces = pieces
        self.n = 0
        self.short = 0

    def read (self, n=None):
        if n is None or n < 0:
            n = len (self.text)
        want = min (n, len (self.text)-self.pos, self.pieces[self.n % len (self.pieces)])
        self.n += 1
        self.short += want < n
        r = self.text[self.pos:self.pos+want]
        self.pos += want
        return r

def execute (ctx, case):
    w = ctx.world (policy={'kind': 'first'})
    lay = model.Layout (workload.layoutData (case['layout']))
    name = case['layout']
    if not isinstance (name, str):
        name = 'layout.yaml'
        w.fs.add (name, workload.layoutYaml (case['layout']))
    streams = []
    def main ():
        from lulua.keyboard import defaultKeyboards
        from lulua.layout import defaultLayouts
        from lulua.writer import Writer, SkipEvent
        layout = defaultLayouts[name].specialize (defaultKeyboards['ibmpc105'])
        proc = w.curProc
        its = []
        for t in case['texts']:
            if case['kind'] == 'chars':
                fd = Pieces (t, case['pieces'])
            elif case['kind'] == 'bytes':
                fd = vfs.textReader (vfs.FileReader (proc, 'text', vfs.Inode (t.encode ('utf-8'),
                    readPlan=vfs.ReadPlan (chunk=case['pieces'])), quiet=True))
                fd.reconfigure (newline='')
            else:
                fd = io.StringIO (t, newline='')
            streams.append (fd)
            its.append (iter (Writer (layout).type (fd)))
        out = [[] for t in its]
        def step (k):
            try:
                match, ev = next (its[k])
            except StopIteration:
                return False
            if isinstance (ev, SkipEvent):
                out[k].append ((match, ev.char))
            else:
                out[k].append ((match, (tuple (sorted (x.name for x in ev.modifier)), [x.name for x in ev.buttons])))
            assert len (out[k]) <= len (case['texts'][k]), 'more events than characters'
            return True
        todo = list (range (len (its)))
        if case['mix']:
            r = w.stream ('mix')
            while todo:
                k = r.choice (todo)
                if not step (k):
                    todo.remove (k)
        else:
            for k in todo:
                while step (k):
                    pass
        return out
    p = w.script ('typist', main)
    outcome = ctx.run (w)
    if outcome != 'finished':
        raise Violation ('hang', f'typing never ends ({outcome})')
    if p.exitcode != 0:
        raise Violation ('fails', f'typing fails: {getattr (p, "excText", "?").strip ()}')
    for k, t in enumerate (case['texts']):
        want = [(m, e if m is None else (tuple (sorted (e[0])), [e[1]])) for m, e in model.events (lay, t)]
        got = p.result[k]
        if want != got:
            i = next ((i for i, (a, b) in enumerate (zip (want, got)) if a != b), min (len (want), len (got)))
            raise Violation ('wrong-events', f'text {t!r} via {case["kind"]} {case["pieces"]}: event {i} is '
                    f'{got[i] if i < len (got) else None!r} instead of {want[i] if i < len (want) else None!r}')
    ctx.nontrivial = any (len (t) > 3 for t in case['texts']) and (case['kind'] != 'chars' or any (s.short for s in streams))
    ctx.tag = case['kind']
    ctx.sigs = [f'{derive (json.dumps (case["texts"]), case["kind"], json.dumps (case["pieces"])):x}']

def shrink (case):
    for i, t in enumerate (case['texts']):
        if len (t) > 1:
            for u in (t[:len (t)//2], t[len (t)//2:], t[1:], t[:-1]):
                c = copy.deepcopy (case)
                c['texts'][i] = u
                yield c
    yield from shrinkCase (case)
