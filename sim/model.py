"""
Reference model: what lulua is supposed to compute, written down independently
of its code (and much slower). Tables are frozen in data/reference.json.
"""

import json
import os
import unicodedata
from collections import Counter
from itertools import product

_ref = json.load (open (os.path.join (os.path.dirname (__file__), 'data', 'reference.json'), encoding='utf-8'))
CHARMAP = _ref['charMap']
FINGERS = {k: tuple (v) for k, v in _ref['fingers'].items ()}
ROWS = _ref['rows']
MODELS = _ref['models']
ROWOF = {}
KIND = {}
for _i, _row in enumerate (ROWS):
    for _half in _row:
        for _n, _k in _half:
            ROWOF[_n] = _i
            KIND[_n] = _k
KEYS = list (ROWOF)
LETTERS = [k for k in KEYS if KIND[k] == 'LetterButton']
LEFT, RIGHT = 1, 2
IGNORED = frozenset (('Fl_space', 'Fr_space', 'CD_ret', 'Cl_tab'))

class Layout:
    """ data: dict (name=..., layout=[dict (modifier=[[..]..], layer={button: text})...]) """
    def __init__ (self, data):
        self.name = data['name']
        self.layers = []
        self.byText = {}
        self.layerOf = {}
        for i, l in enumerate (data['layout']):
            mods = [frozenset (m) for m in l['modifier']]
            self.layers.append ((mods, dict (l['layer'])))
            for m in mods:
                self.layerOf[m] = i
            for button, text in l['layer'].items ():
                if isinstance (text, str):
                    for m in mods:
                        self.byText.setdefault (text, []).append ((m, button))
                    self.byText.setdefault (text, [])
        self.maxLen = max ([len (x) for x in self.byText] + [0])

    def text (self, comb):
        return self.layers[self.layerOf[comb[0]]][1][comb[1]]

def hand (b):
    return FINGERS[b][0]

def choose (combs, prev):
    """ The combination a ten-finger typist uses """
    if len (combs) == 1:
        return combs[0]
    score = {LEFT: 1, RIGHT: -1}
    best = None
    for m, b in combs:
        if prev is None:
            pb = -1
        else:
            pb = sum (score[hand (x)] for x in (prev[0] or [prev[1]])) + score[hand (b)]
        bal = sum (score[hand (x)] for x in m) + score[hand (b)]
        e = (len (m)+1, abs (bal), abs (pb))
        if best is None or e < best[0]:
            best = (e, (m, b))
    return best[1]

def events (layout, text):
    """ Sequence of (match, comb) or (None, char) """
    pos = 0
    prev = None
    while pos < len (text):
        for n in range (min (layout.maxLen, len (text)-pos), 0, -1):
            combs = layout.byText.get (text[pos:pos+n])
            if combs is not None:
                break
        else:
            yield None, text[pos]
            pos += 1
            continue
        c = choose (combs, prev)
        yield text[pos:pos+n], c
        prev = c
        pos += n

def mapText (text):
    return ''.join (CHARMAP.get (c, c) for c in text).replace ('\r\n', '\n')

def emptyStats ():
    return dict (buttons=Counter (), combinations=Counter (), unknown=Counter (), hands=Counter (),
            fingers=Counter (), triads=Counter (), words=Counter ())

def typeText (layout, text, st):
    """ Add statistics for one text to st """
    lastHand = lastFinger = None
    handRun = fingerRun = 0
    triad = []
    word = []
    for match, ev in events (layout, text):
        if match is None:
            st['unknown'][ev] += 1
            lastHand = lastFinger = None
            handRun = fingerRun = 0
            triad = []
            word = []
            continue
        mods, b = ev
        key = combKey (ev)
        for x in mods:
            st['buttons'][x] += 1
        st['buttons'][b] += 1
        st['combinations'][key] += 1

        h, f = FINGERS[b]
        if lastHand is not None and h != lastHand:
            st['hands'][(lastHand, handRun)] += 1
            handRun = 0
        handRun += 1
        lastHand = h
        if lastFinger is not None and (h, f) != lastFinger:
            st['fingers'][(lastFinger, fingerRun)] += 1
            fingerRun = 0
        fingerRun += 1
        lastFinger = (h, f)

        if b not in IGNORED:
            triad = (triad + [key])[-3:]
            if len (triad) == 3:
                st['triads'][tuple (triad)] += 1

        for c in layout.text (ev):
            if unicodedata.category (c) in ('Lo', 'Mn'):
                word.append (c)
            elif word:
                st['words'][''.join (word)] += 1
                word = []

def combKey (ev):
    return (tuple (sorted (ev[0])), ev[1])

def corpus (layout, texts):
    st = emptyStats ()
    for t in texts:
        typeText (layout, mapText (t), st)
    return st

def addStats (a, b):
    for k in a:
        a[k].update (b[k])
    return a

def normalize (stats):
    """ Statistics object of the code under test -> model form """
    st = emptyStats ()
    def comb (c):
        b = list (c.buttons)
        assert len (b) == 1
        return (tuple (sorted (x.name for x in c.modifier)), b[0].name)
    def put (name, key, v):
        # statistics would be looked up under one of them only
        if key in st[name]:
            raise ValueError (f'{name} lists {key} twice')
        st[name][key] = v
    for k, v in stats['simple'].buttons.items ():
        put ('buttons', k.name, v)
    for k, v in stats['simple'].combinations.items ():
        put ('combinations', comb (k), v)
    for k, v in stats['simple'].unknown.items ():
        put ('unknown', k, v)
    for h, d in stats['runlen'].perHandRunlenDist.items ():
        for n, v in d.items ():
            put ('hands', (int (h), n), v)
    for (h, f), d in stats['runlen'].fingerRunlenDist.items ():
        for n, v in d.items ():
            put ('fingers', ((int (h), int (f)), n), v)
    for k, v in stats['triads'].triads.items ():
        put ('triads', tuple (comb (c) for c in k), v)
    for k, v in stats['words'].words.items ():
        put ('words', k, v)
    for k in st:
        st[k] = Counter ({a: b for a, b in st[k].items () if b != 0})
    return st

def diff (want, got):
    """ First differences as text, or None """
    out = []
    for k in want:
        w, g = want[k], got[k]
        if w == g:
            continue
        keys = sorted ((x for x in set (w) | set (g) if w.get (x, 0) != g.get (x, 0)), key=repr)
        out.append (f'{k}: ' + ', '.join (f'{x!r} expected {w.get (x, 0)} got {g.get (x, 0)}' for x in keys[:3])
                + (f' (+{len (keys)-3} more)' if len (keys) > 3 else ''))
    return '; '.join (out) or None

# -- typing effort ----------------------------------------------------------
def strokeHand (h):
    if h[0] == h[2] != h[1]:
        return 1
    return 2 if h[0] == h[1] == h[2] else 0

def strokeRow (r):
    a, b, c = r
    if a == b == c:
        return 0
    if (a == b and c > b) or (b > a and b == c):
        return 1
    if (a == b and c < b) or (b < a and b == c):
        return 2
    d = (a-b, b-c, a-c)
    if max (abs (x) for x in d) <= 1:
        return 3
    if a < b < c:
        return 4
    if a > b > c:
        return 6
    if min (d[0], d[1]) < -1:
        return 5
    return 7

def strokeFinger (f, t):
    x, y, z = [b if a == LEFT else 11-b for a, b in f]
    rep = t[0] == t[1] or t[1] == t[2] or t[0] == t[2]
    mono = x <= y <= z or x >= y >= z
    if x == y == z:
        return 5 if rep else 7
    if x > z > y or x < z < y:
        return 2
    if len ({x, y, z}) == 3:
        return 0 if mono else 3
    if mono:
        return 1 if rep else 6
    return 4

def triadEffort (model, triad):
    m = MODELS[model]
    k1, k2, k3, kS = m['k123S']
    def base (f):
        b = []
        for mods, key in triad:
            keys = list (mods) + [key]
            b.append (sum (f (x) for x in keys) + (len (keys)-1)*kS)
        return k1*b[0]*(1+k2*b[1]*(1+k3*b[2]))
    def penalty (x):
        h, f = FINGERS[x]
        w = m['w0HRF']
        return w[0] + w[1]*m['pHand'][str (h)] + w[2]*m['pRow'][ROWOF[x]] + w[3]*m['pFinger'][str (h)][str (f)]
    s = min (m['fHRF'][0]*strokeHand ([hand (x) for x in t]) +
            m['fHRF'][1]*strokeRow ([ROWOF[x] for x in t]) +
            m['fHRF'][2]*strokeFinger ([FINGERS[x] for x in t], t)
            for t in product (*[list (mods) + [key] for mods, key in triad]))
    return m['kBPS'][0]*base (lambda x: m['baselineEffort'][x]) + m['kBPS'][1]*base (penalty) + m['kBPS'][2]*s

def effort (model, triads):
    """ triads: iterable of (triad, count) """
    n = 0
    e = 0.0
    for t, v in triads:
        e += v*triadEffort (model, t)
        n += v
    return e/n if n else 0
