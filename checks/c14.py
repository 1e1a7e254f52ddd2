"""
The same command, twice, on machines that differ in everything that must not matter
"""
import base64, enum, re
from .base import *
from . import peer, prepared as P
from .c08 import keyboardYaml, randomKb

ID = 'C14'
COUNT = {'quick': 2600, 'thorough': 80000}
RULE = ('every command run twice on the same input: with another clock (offset, jumps, backwards), process id, history (keyboards and '
        'layouts loaded before), number of processors, delivery of its input, schedule and, in a second interpreter, hash seed; '
        'outputs are compared byte for byte after masking timestamps (pickled statistics: by content and order); non-trivial: both runs succeeded')

def machine (rng):
    h = []
    for k in range (rng.choice ((0, 0, 0, 1, 2))):
        r = rng.random ()
        if r < 0.4:
            # anything but those that use random numbers
            h.append (['cmd', [rng.choice ([n for n in P.NAMES if n not in ('optimize', 'report', 'extract')]), rng.choice (P.layouts ()), rng.choice ((0, 1))]])
        elif r < 0.7:
            h.append (['kb', randomKb (rng)])
        else:
            h.append (['lay', rng.choice (workload.shippedLayouts ())])
    clock = {}
    r = rng.random ()
    if r < 0.5:
        clock['base'] = rng.choice ((1.0, 86400*365.25*rng.randint (1, 60), 1572566400+rng.randrange (10**9), 4e9))
    if r > 0.7:
        clock['jumps'] = [[rng.randint (0, 60), rng.choice ((-1e6, -3600, -1, 3600, 1e8))] for k in range (rng.randint (1, 3))]
    return dict (history=h, clock=clock, pid=rng.choice ((None, 1, rng.randrange (2, 4000000))), cpus=rng.choice ((1, 2, 4, 16)),
            seed=rng.getrandbits (48), remote=rng.random () < 0.5, policy=randomPolicy (rng, 1), stall=rng.choice ((0, 0, 0.05)),
            pipe=rng.choice ((65536, 4096, 1000)))

def gen (rng, i, tier):
    cmd = rng.choice (P.NAMES + ('write', 'write', 'write', 'optimize', 'optimize', 'optimize', 'combine'))
    case = dict (seed=rng.getrandbits (48), cmd=cmd, layout=rng.choice (P.layouts ()), variant=rng.choice ((0, 1, 2, 10, 11)), ops=[machine (rng), machine (rng)],
            random=dict (kind=rng.choice (('honest', 'honest', 'repeat', 'pool')), p=0.5, pool=3, seed=rng.getrandbits (40)), faults=[])
    if rng.random () < 0.5:
        case['ops'][0]['remote'], case['ops'][1]['remote'] = False, True
    if cmd == 'optimize':
        case['steps'] = rng.choice ((0, 1, 20, 60, 150))
        case['opt'] = rng.choice (([], ['-r'], ['-m', 'mod02'], ['-p', '0;1,D*'], ['--triad-limit', str (rng.choice ((1, 5, 20)))],
            ['-r', '--triad-limit', '7']))
    elif cmd == 'write':
        if rng.random () < 0.4:
            case['layout'] = workload.randomLayout (rng)
        lay = workload.layoutData (case['layout'])
        texts = [t for t in workload.layoutTexts (lay) if t != '\b']
        case['texts'] = [workload.randomText (rng, texts, rng.choice ((5, 30, 120))) for k in range (rng.choice ((0, 1, 3, 12, 40)))]
    elif cmd == 'triadfreq':
        case['opt'] = rng.choice (([], ['-r'], ['-s', 'effort'], ['-s', 'combined'], ['-n', '5'], ['-c', '2']))
    return case

_stamp = [
    # keyman/keylayout and html: when it was made
    (re.compile (rb'(?i)(generated[^\n<]{0,40}?)\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d)?(\.\d+)?(Z|[+-]\d\d:?\d\d)?'), rb'\1STAMP'),
    (re.compile (rb'date=\d+'), rb'date=STAMP'),
    ]

def mask (b):
    for r, s in _stamp:
        b = r.sub (s, b)
    return b

def canon (o, ordered, stack=()):
    """ Everything in a statistics object, in its order, except that sets have none """
    if o is None or isinstance (o, (int, float, str, bytes, bool)):
        return repr (o)
    if id (o) in stack:
        return f'cycle {type (o).__name__}'
    stack += (id (o),)
    if isinstance (o, enum.Enum):
        return str (o)
    if isinstance (o, dict):
        items = [[canon (k, ordered, stack), canon (v, ordered, stack)] for k, v in o.items ()]
        return [type (o).__name__] + (items if ordered else sorted (items, key=json.dumps))
    if isinstance (o, (set, frozenset)):
        return ['set'] + sorted ((canon (x, ordered, stack) for x in o), key=json.dumps)
    if isinstance (o, (list, tuple)):
        return [canon (x, ordered, stack) for x in o]
    if callable (o) and hasattr (o, '__qualname__'):
        return o.__qualname__
    if type (o).__name__.endswith ('Button'):
        return f'{type (o).__name__} {o.name}'
    state = {}
    for c in type (o).__mro__:
        for n in getattr (c, '__slots__', ()):
            if hasattr (o, n):
                state[n] = getattr (o, n)
    state.update (getattr (o, '__dict__', {}))
    return [type (o).__name__] + [[k, canon (v, ordered, stack)] for k, v in sorted (state.items ()) if not k.startswith ('_')]

def content (data, ordered):
    """ Content of pickled statistics """
    def f ():
        import lulua.stats, lulua.keyboard
        lulua.keyboard.defaultKeyboards['ibmpc105']
        fd = io.BytesIO (data)
        out = []
        while fd.tell () < len (data):
            out.append (canon (pickle.load (fd), ordered))
        return json.dumps (out).encode ()
    return freshModules (f)

PICKLED = ('write', 'combine', 'layoutstats')

def execute (ctx, case):
    try:
        execute2 (ctx, case)
    except P.PrepFailed as e:
        ctx.tag = 'input could not be prepared'

def spec (case, m):
    cmd = case['cmd']
    if cmd == 'write':
        arg, files = case['layout'], {}
        if not isinstance (arg, str):
            arg, files = 'layout.yaml', {'layout.yaml': workload.layoutYaml (arg).encode ('utf-8')}
        c = dict (tool='write', args=['-j', '1', arg, 'json'], files=files, output=None,
                stdin=''.join (json.dumps (t) + '\n' for t in case['texts']).encode ())
    else:
        c = P.command (cmd, case['layout'], case['variant'])
        if cmd == 'optimize':
            c['args'] = ['-l', case['layout'], '-n', str (case['steps'])] + case['opt']
        elif cmd == 'triadfreq':
            c['args'] = ['-l', case['layout'], 'triadfreq'] + case['opt']
    files = dict (c['files'])
    history = []
    for kind, x in m['history']:
        if kind == 'cmd':
            h = P.command (*x)
            for a, b in h['files'].items ():
                files.setdefault (a, b)
            history.append ([kind, dict (tool=h['tool'], args=h['args'], stdin=peer.b64 (h['stdin']))])
        elif isinstance (x, dict):
            name = f'hist{len (files)}.yaml'
            files[name] = keyboardYaml (x).encode ('utf-8')
            history.append ([kind, name])
        else:
            history.append ([kind, x])
    return dict (tool=c['tool'], args=c['args'], stdin=peer.b64 (c['stdin']), files={a: peer.b64 (b) for a, b in files.items ()},
            history=history, pid=m['pid'], clock=m['clock'], cpus=m['cpus'], seed=m['seed'], random=case['random'],
            policy=m['policy'] if cmd == 'write' else None, stall=m['stall'] if cmd == 'write' else 0, pipe=m['pipe'],
            outputs=[c['output']] if c['output'] else [])

def execute2 (ctx, case):
    res = []
    for m in case['ops'][:2]:
        s = spec (case, m)
        if m['remote']:
            r = peer.remote (s)
            ctx.runs += 1
            ctx.probes['other_hash_seed'] = ctx.probes.get ('other_hash_seed', 0)+1
        else:
            r = peer.runSpec (ctx, s)
        if m['history']:
            ctx.probes['history'] = ctx.probes.get ('history', 0)+1
        if m['clock']:
            ctx.probes['other_clock'] = ctx.probes.get ('other_clock', 0)+1
        if m['pid']:
            ctx.probes['other_pid'] = ctx.probes.get ('other_pid', 0)+1
        res.append (r)
        name = f'lulua-{s["tool"]} {" ".join (s["args"])}'
    a, b = res
    ctx.tag = f'{case["cmd"]} {a["exit"] == 0}'
    ctx.sigs = [f'{derive (json.dumps (case)):x}']
    for r in res:
        if r['outcome'] != 'finished':
            raise Violation ('hang', f'{name} never ends')
    if (a['exit'] == 0) != (b['exit'] == 0):
        raise Violation ('exit', f'{name} exits {a["exit"]} or {b["exit"]}, depending on the machine: {a["exc"] or b["exc"]}')
    if a['exit'] != 0:
        return
    ctx.nontrivial = True
    for what in ('out',) + tuple (a['files']):
        x, y = ((r['out'] if what == 'out' else r['files'][what]) for r in res)
        if (x is None) != (y is None):
            raise Violation ('differs', f'{name}: file {what} written in one of two runs only')
        if x is None:
            continue
        x, y = mask (base64.b64decode (x)), mask (base64.b64decode (y))
        if x != y and case['cmd'] in PICKLED:
            try:
                # a combination of modifiers is a set, whose order depends on what was loaded first
                ordered = case['ops'][0]['history'] == case['ops'][1]['history']
                x, y = content (x, ordered), content (y, ordered)
            except Exception as e:
                raise Violation ('differs', f'{name}: two runs differ and one of them cannot be loaded: {e!r}')
        if x != y:
            n = next ((i for i, (p, q) in enumerate (zip (x, y)) if p != q), min (len (x), len (y)))
            raise Violation ('differs', f'{name}: {what} differs between two runs at byte {n} of {len (x)}: {x[max (0, n-20):n+40]!r} / {y[max (0, n-20):n+40]!r}')

def shrink (case):
    plain = dict (history=[], clock={}, pid=None, cpus=1, policy={'kind': 'first'}, stall=0, pipe=65536)
    for i, m in enumerate (case['ops']):
        for k, v in plain.items ():
            if m[k] != v:
                c = copy.deepcopy (case)
                c['ops'][i][k] = v
                yield c
        if m['remote'] and i == 0:
            c = copy.deepcopy (case)
            c['ops'][i]['remote'] = False
            yield c
    if case['ops'][0]['seed'] != case['ops'][1]['seed']:
        c = copy.deepcopy (case)
        c['ops'][1]['seed'] = c['ops'][0]['seed']
        yield c
    if case.get ('steps', 0) > 0:
        for n in (0, 1, case['steps']//2):
            if n < case['steps']:
                yield dict (case, steps=n)
    if case.get ('texts'):
        for l in shrinkList (case['texts']):
            yield dict (case, texts=l)
