"""
Commands described as data, executed here or in a second interpreter that has
another string hash seed. The peer runs the same simulator; what it does is
determined by the request alone.
"""
import base64, importlib

from .base import *
from sim.seams import real

def b64 (b):
    return base64.b64encode (bytes (b)).decode ('ascii')

def earlier (c):
    """ Run another command first, in the same process """
    saved = sys.argv, sys.stdin, sys.stdout, sys.stderr
    sys.argv = [f'lulua-{c["tool"]}'] + c['args']
    sys.stdin = io.TextIOWrapper (io.BytesIO (base64.b64decode (c['stdin'])), encoding='utf-8')
    sys.stdout = io.TextIOWrapper (io.BytesIO (), encoding='utf-8')
    sys.stderr = io.TextIOWrapper (io.BytesIO (), encoding='utf-8')
    try:
        module, fn = world.TOOLS[c['tool']]
        getattr (importlib.import_module (module), fn) ()
    except (Exception, SystemExit):
        pass
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved

def runSpec (ctx, spec):
    """
    spec: dict (tool, args, stdin=b64, files={path: b64}, seed, history=[keyboards loaded before], pid, clock,
    random, policy, outputs=[path]). Returns dict (outcome, exit, out, err, exc, files)
    """
    def before ():
        from lulua.keyboard import defaultKeyboards
        from lulua.layout import defaultLayouts
        for kind, name in spec.get ('history', ()):
            if kind == 'cmd':
                earlier (name)
            elif kind == 'kb':
                defaultKeyboards[name]
            else:
                defaultLayouts[name]
    kw = {}
    if spec.get ('clock') is not None:
        kw['clock'] = spec['clock']
    if spec.get ('random') is not None:
        kw['randomMode'] = spec['random']
    if spec.get ('seed') is not None:
        kw['seed'] = spec['seed']
    if spec.get ('cpus'):
        kw['cpus'] = spec['cpus']
    if spec.get ('stall'):
        kw['stallRate'] = spec['stall']
    if spec.get ('pipe'):
        kw['pipeCapacity'] = spec['pipe']
    r = ToolRun (ctx, spec['tool'], spec['args'], stdin=base64.b64decode (spec.get ('stdin', '')),
            files={k: base64.b64decode (v) for k, v in spec.get ('files', {}).items ()},
            pid=spec.get ('pid'), before=before if spec.get ('history') else None,
            policy=spec.get ('policy') or {'kind': 'first'}, **kw)
    if spec.get ('pandoc'):
        r.w.programs['pandoc'] = Pandoc ({})
    r.run ()
    return dict (outcome=r.outcome, exit=r.p.exitcode, out=b64 (r.out), exc=getattr (r.p, 'excText', None),
            files={p: None if r.file (p) is None else b64 (r.file (p)) for p in spec.get ('outputs', ())},
            denied=list (r.w.fs.denied))

_peer = None

def remote (spec):
    """ runSpec in the other interpreter """
    global _peer
    if _peer is None:
        here = os.path.dirname (os.path.dirname (os.path.abspath (__file__)))
        own = int (os.environ.get ('PYTHONHASHSEED', '0') or 0)
        env = dict (os.environ, PYTHONHASHSEED=str ((own*31+17) % 4294967295))
        _peer = real['Popen'] ([sys.executable, os.path.join (here, 'run.py'), '--peer'], env=env, stdin=-1, stdout=-1,
                stderr=-3, text=True, bufsize=1)
    _peer.stdin.write (json.dumps (spec) + '\n')
    _peer.stdin.flush ()
    l = _peer.stdout.readline ()
    if not l:
        _peer = None
        raise HarnessError ('peer died')
    d = json.loads (l)
    if d.get ('error'):
        raise HarnessError (f'peer: {d["error"]}')
    return d

def serve ():
    """ Main loop of the peer """
    out = os.fdopen (os.dup (1), 'w')
    os.dup2 (os.open (os.devnull, os.O_WRONLY), 1)
    inp = os.fdopen (os.dup (0), 'r')
    for l in inp:
        spec = json.loads (l)
        try:
            d = runSpec (Ctx (dict (seed=spec.get ('seed') or 0)), spec)
        except Exception as e:
            d = dict (error=f'{type (e).__name__}: {e}')
        out.write (json.dumps (d) + '\n')
        out.flush ()
    os._exit (0)
