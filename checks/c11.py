"""
The energy the optimizer reports
"""
from .base import *
from . import prepared as P, optcase

ID = 'C11'
COUNT = {'quick': 3000, 'thorough': 80000}
RULE = ('as C10, layouts with unique texts; the reported energy is recomputed from the emitted layout with an independent effort model and '
        'compared with the one of the starting layout; interrupts at random points of the search; non-trivial: texts were moved '
        'or the search was interrupted')

def gen (rng, i, tier):
    case = optcase.gen (rng, i, tier, unique=True)
    case['steps'] = rng.choice ((0, 1, 5, 20, 40, 60, 100, 150, 300))
    if rng.random () < 0.1:
        case['steps'] = rng.choice ((20, 60, 150))
        # well before the end of the search
        case['faults'].append (dict (k='sigint', n=rng.randint (1, case['steps']), lines=rng.choice ((0, 0, rng.randint (1, 60)))))
    return case

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

def execute2 (ctx, case):
    o = optcase.OptRun (ctx, case)
    r = o.run ()
    ctx.sigs = [f'{derive (json.dumps (case)):x}']
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome})')
    free = set (optcase.movable (o.data))
    if any ((o.lay.layerOf[frozenset (m)], k) not in free for t in o.used for m, k in t):
        ctx.tag = 'unsupported triads'
        return
    if ctx.faults.get ('sigint'):
        ctx.tag = 'interrupted'
        ctx.nontrivial = True
        if r.p.exitcode == 0:
            raise Violation ('interrupt-ignored', f'interrupted at random draw {case["faults"][0]["n"]}, but exit status 0')
        if r.out:
            raise Violation ('layout-after-interrupt', f'interrupted, but wrote {r.out[:80]!r}')
        return
    if not r.ok:
        raise Violation ('fails', r.describe ())
    out = o.parse ()
    if o.energy is None:
        raise Violation ('no-energy', 'no energy reported')
    old, new = o.positions (o.data), o.positions (out)
    ctx.nontrivial = old != new
    ctx.tag = 'not unique'
    start = o.started ()
    # follow every text of the triads from its old to its new key
    needed = {(o.lay.layerOf[frozenset (m)], k) for t in o.used for m, k in t}
    def followable (pos):
        n = {}
        for p, t in pos.items ():
            if p in free:
                n[t] = n.get (t, 0)+1
        return all (n.get (old[p]) == 1 for p in needed)
    if followable (old) and followable (new):
        def where (pos):
            at = {t: p for p, t in pos.items () if p in free}
            return {p: at[old[p]] for p in needed}
        ctx.tag = "checked"
        e = o.effort (where (new))
        if abs (e-o.energy) > 1e-6*max (1, abs (e)):
            raise Violation ('wrong-energy', f'reports energy {o.energy}, but the emitted layout has {e} ({case["steps"]} steps, model {case["model"]})')
        s = o.effort (where (start))
        if not case['randomize'] and e > s+1e-9*max (1, abs (s)):
            raise Violation ('worse', f'emitted layout has energy {e}, worse than {s} of the one it started from')
    final = [l for l in r.err.decode ('utf-8', 'replace').replace ('\r', '\n').split ('\n') if 'final energy' in l]
    for l in final:
        if abs (float (l.split ('final energy')[1])-o.energy) > 1e-9*max (1, abs (o.energy)):
            raise Violation ('energies-differ', f'stderr says {l!r}, stdout {o.energy}')

shrink = optcase.shrink
