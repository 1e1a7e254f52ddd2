"""
What the optimizer may and may not move
"""
from collections import Counter
from .base import *
from . import prepared as P, optcase

ID = 'C10'
COUNT = {'quick': 3000, 'thorough': 80000}
RULE = ('random and shipped layouts, random corpora, pins (layers, keys, wildcards), swaps, randomization, models and numbers of steps, with '
        'honest, repeating and small-pool random sequences and jumping clocks; the emitted layout is compared with the input layout key '
        'by key; non-trivial: at least one text moved')

def gen (rng, i, tier):
    case = optcase.gen (rng, i, tier)
    if not case['pins'] and rng.random () < 0.15:
        # swaps that share keys. What they amount to is a matter of interpretation (see chained()), but nothing may get lost.
        data = workload.layoutData (case['layout'])
        pool = rng.sample (optcase.movable (data), rng.choice ((2, 3, 3, 4)))
        case['ops'] = [[list (k) for k in rng.sample (pool, 2)] for k in range (rng.choice ((2, 2, 3, 5)))]
    return case

def chained (ops):
    keys = [tuple (k) for o in ops for k in o]
    return len (set (keys)) != len (keys)

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

def execute2 (ctx, case):
    o = optcase.OptRun (ctx, case)
    r = o.run ()
    ctx.sigs = [f'{derive (json.dumps (case)):x}']
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome})')
    free = set (optcase.movable (o.data))
    if not r.ok:
        if any ((o.lay.layerOf[frozenset (m)], k) not in free for t in o.used for m, k in t):
            # typed something on a key that cannot be moved
            ctx.tag = 'unsupported triads'
            return
        raise Violation ('fails', r.describe ())
    out = o.parse ()
    old, new = o.positions (o.data), o.positions (out)
    start = o.started ()
    ctx.nontrivial = new != old
    ctx.tag = f'pins {len (case["pins"])} swaps {len (case["ops"])}' + (' randomized' if case['randomize'] else '')
    if len (out['layout']) != len (o.data['layout']):
        raise Violation ('layers', f'{len (out["layout"])} layers instead of {len (o.data["layout"])}')
    for i, (a, b) in enumerate (zip (o.data['layout'], out['layout'])):
        if sorted (sorted (x) for x in a['modifier']) != sorted (sorted (x) for x in b['modifier']):
            raise Violation ('modifiers', f'layer {i}: modifiers {b["modifier"]} instead of {a["modifier"]}')
    a, b = Counter (old.values ()), Counter (new.values ())
    if a != b:
        raise Violation ('texts', f'lost {sorted ((a-b).elements ())[:5]}, gained {sorted ((b-a).elements ())[:5]}')
    for pos in set (old) | set (new):
        if pos not in free and old.get (pos) != new.get (pos):
            raise Violation ('fixed-key-moved', f'key {pos} is no letter key or a modifier, but types {new.get (pos)!r} instead of {old.get (pos)!r}')
    for pos in free:
        if optcase.pinnedExact (case['pins'], pos) and start.get (pos) != new.get (pos):
            raise Violation ('pin-ignored', f'key {pos} is pinned, but types {new.get (pos)!r} instead of {start.get (pos)!r} (pins {case["pins"]}, swaps {case["ops"]})')
    for l, k in case['pins']:
        if k is None:
            a = Counter (t for (i, _), t in start.items () if i == l)
            b = Counter (t for (i, _), t in new.items () if i == l)
            if a != b:
                raise Violation ('layer-pin-ignored', f'layer {l} is pinned, but lost {sorted ((a-b).elements ())[:5]} and gained {sorted ((b-a).elements ())[:5]}')
    if case['steps'] == 0 and not case['randomize'] and not chained (case['ops']) and new != start:
        raise Violation ('moved-without-steps', f'no steps, but {sorted (k for k in set (new) | set (start) if new.get (k) != start.get (k))[:4]} changed')

shrink = optcase.shrink
