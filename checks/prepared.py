"""
Undisturbed inputs for the commands that work on statistics, and the commands
themselves. Inputs are produced by the code under test, once per interpreter,
on machines of their own with fixed seeds.
"""
import bz2
import xml.sax.saxutils
from .base import *

SENTENCES = ['بسم الله الرحمن الرحيم', 'لا إله إلا الله', 'ابتثجحخدذرزسشصضطظعغفقكلمنهوي', 'الحمد لله رب العالمين',
        'قال أبو بكر: «هذا بيت» (كبير)!', 'سُئِلَ عن المسؤول', 'ا ب ت ث ٠١٢٣٤٥٦٧٨٩', 'وأما إذا كان؛ فلا بأس به، أليس كذلك؟',
        'القرآن الكريم\nسورة الفاتحة', 'hello €']

_cache = {}

class PrepFailed (Exception):
    """ The code under test cannot even produce the input: not for this check to decide """

def clear ():
    _cache.clear ()

def memo (f):
    def g (*a):
        k = (f.__name__,) + a
        if k not in _cache:
            _cache[k] = f (*a)
        return _cache[k]
    return g

def variantTexts (layout, v):
    rng = Rng (derive ('prepared', layout, v))
    texts = [t for t in workload.layoutTexts (workload.layoutData (layout)) if t != '\b']
    out = ['ا أ إ']
    if v >= 20:
        # more than fits into one frame of a pickle
        return out + [workload.randomText (rng, texts, 900).replace ('\b', '') for k in range (24)]
    if v >= 10:
        # everything the layout can type, so every finger is used
        return out + SENTENCES + [' '.join (rng.sample (texts, len (texts))) for k in range (2)]
    for i in range (rng.choice ((1, 3, 8))):
        out.append (rng.choice (SENTENCES))
        if rng.random () < 0.5:
            out.append (workload.randomText (rng, texts, 60).replace ('\b', ''))
    return out

def _ctx (*a):
    return Ctx (dict (seed=derive ('prepared', *a) % (1 << 48)))

def _need (r):
    if not r.ok:
        raise PrepFailed (r.describe ())
    return r.out

@memo
def records (layout, v):
    """ Output of lulua-write: several records """
    ctx = _ctx ('records', layout, v)
    texts = variantTexts (layout, v)
    return b''.join (_need (makeStats (ctx, layout, texts[k::3])) for k in range (3))

@memo
def stats (layout, v):
    """ One combined record """
    return _need (combineStats (_ctx ('stats', layout, v), records (layout, v)))

@memo
def layoutstats (layout, v):
    return _need (ToolRun (_ctx ('layoutstats', layout, v), 'analyze', ['-l', layout, 'layoutstats'], stdin=stats (layout, v)).run ())

METADATA = '''source:
    name:
        en: Corpus {0}
        ar: مدونة {0}
    url: https://example.com/{0}
extractor:
    name: Custom scripts
date: 2019-07
count:
    num: 5471{0}
    kind:
        en: articles
        ar: مقالة
'''

def metadata (v):
    return METADATA.format (v).encode ('utf-8')

@memo
def corpusmeta (v):
    return _need (ToolRun (_ctx ('corpusmeta', v), 'analyze', ['-l', 'ar-lulua', 'corpusstats', 'meta.yaml'],
        stdin=stats ('ar-lulua', v), files={'meta.yaml': metadata (v)}).run ())

LAYOUTS = ('ar-lulua', 'ar-linux', 'ar-osx', 'ar-asmo663', 'ar-malas')

def layouts ():
    have = workload.shippedLayouts ()
    return [x for x in LAYOUTS if x in have] or have[:1]

@memo
def reportInput (v):
    """ (args, {path: bytes}) """
    files = {}
    c, l = [], []
    for k in range (2):
        files[f'corpus{k}.yaml'] = corpusmeta ((v+k) % 3)
        c.append (f'corpus{k}.yaml')
    for name in workload.shippedLayouts ():
        files[f'{name}.pickle'] = layoutstats (name, 10 + v % 2)
        l.append (f'{name}.pickle')
    return ['-c'] + c + ['-l'] + l, files

# commands reading statistics from stdin; (tool, args, number of records)
def statsCommands (layout):
    L = ['-l', layout]
    return {
        'combine': ('analyze', ['combine']),
        'pretty': ('analyze', L + ['pretty']),
        'keyheatmap': ('analyze', L + ['keyheatmap']),
        'layoutstats': ('analyze', L + ['layoutstats']),
        'latinime': ('analyze', L + ['latinime']),
        'corpusstats': ('analyze', L + ['corpusstats', 'meta.yaml']),
        'triadfreq': ('analyze', L + ['triadfreq', '-c', '1']),
        'triadeffortdata': ('analyze', L + ['triadeffortdata']),
        'optimize': ('optimize', L + ['-n', '3']),
        }

# -- every command that writes something ------------------------------------------
FONTS = ('3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2/IBMPlexSansArabic-Thin.woff2',
        '3rdparty/plex/IBM-Plex-Sans-Arabic/fonts/complete/woff2/IBMPlexSansArabic-Regular.woff2')

KLCKEYS = ['1', '2', '3', '4', '5', '6', '7', '8', '9', '0', 'OEM_MINUS', 'OEM_PLUS', 'Q', 'W', 'E', 'R', 'T', 'Y', 'U', 'I', 'O', 'P',
        'OEM_4', 'OEM_6', 'A', 'S', 'D', 'F', 'G', 'H', 'J', 'K', 'L', 'OEM_1', 'OEM_7', 'Z', 'X', 'C', 'V', 'B', 'N', 'M', 'OEM_COMMA',
        'OEM_PERIOD', 'OEM_2', 'SPACE', 'DECIMAL']

def klc (v):
    rng = Rng (derive ('klc', v))
    out = ['KBD\tsim\t"sim"', '', 'SHIFTSTATE', '', '0', '1', '2', '', 'LAYOUT\t\t;an extra', '']
    for i, k in enumerate (KLCKEYS):
        codes = [rng.choice (('-1', '%%', f'{ord (rng.choice (workload.ALPHABET)):04x}', '0622', '0041')) for x in range (rng.choice ((2, 3, 4, 6)))]
        out.append (f'{i+2:02x}\t{k}\t0\t' + '\t'.join (codes) + '\t\t// comment')
    out += ['', 'LIGATURE', '', 'KEYNAME', 'ENDKBD', '']
    return '\r\n'.join (out).encode ('utf-16')

def dump (texts, streams=1):
    """ Mediawiki dump """
    esc = xml.sax.saxutils.escape
    d = '<mediawiki xmlns="http://www.mediawiki.org/xml/export-0.10/" version="0.10" xml:lang="ar">\n<siteinfo><sitename>x</sitename></siteinfo>\n'
    for i, t in enumerate (texts):
        d += f'  <page>\n    <title>t{i}</title>\n    <revision><id>{i}</id><text xml:space="preserve">{esc (t)}</text></revision>\n  </page>\n'
    d = (d + '</mediawiki>\n').encode ('utf-8')
    n = max (1, len (d)//streams+1)
    return b''.join (bz2.compress (d[i:i+n], 1) for i in range (0, len (d), n))

RENDER = ('svg', 'svgheat', 'xmodmap', 'keyman', 'ask', 'winkbd', 'keylayout', 'klavaro')
NAMES = tuple (statsCommands ('x')) + tuple ('render-' + x for x in RENDER) + ('report', 'import', 'extract')

def command (name, layout, v):
    """ dict (tool, args, stdin, files, output) """
    files = {}
    stdin = b''
    output = None
    if name in statsCommands (layout):
        tool, args = statsCommands (layout)[name]
        stdin = records (layout, v) if name == 'combine' else stats (layout, v)
        if name == 'corpusstats':
            files['meta.yaml'] = metadata (v)
    elif name.startswith ('render-'):
        tool = 'render'
        kind = name[7:]
        output = 'out/result'
        if kind == 'xmodmap' or kind in ('winkbd', 'keylayout') and v > 0:
            # not all formats support all layouts
            layout = 'ar-lulua'
        args = ['-l', layout, kind, output]
        if kind.startswith ('svg'):
            rng = Rng (derive ('font', v))
            for k, f in enumerate (FONTS):
                files[f] = rng.randbytes (rng.choice ((10, 3000)))
            if kind == 'svgheat':
                files['heat.yaml'] = _need (ToolRun (_ctx ('heat', layout, v), 'analyze', ['-l', layout, 'keyheatmap'], stdin=stats (layout, v)).run ())
                args = ['-l', layout, 'svg', '--heatmap=heat.yaml', output]
    elif name == 'report':
        tool = 'report'
        args, files = reportInput (v)
    elif name == 'import':
        tool, args = 'import', ['in.klc', 'klc']
        files['in.klc'] = klc (v)
    elif name == 'extract':
        tool, args = 'extract-mediawiki', ['dump.xml.bz2']
        rng = Rng (derive ('dump', v))
        n, m = (rng.choice ((1, 4, 30)), (1, 5, 100)) if v < 20 else (60, (1, 20, 100))
        files['dump.xml.bz2'] = dump ([workload.xmlSafe (rng.choice (SENTENCES)*rng.choice (m)) for k in range (n)])
    else:
        raise HarnessError (f'unknown command {name}')
    return dict (tool=tool, args=args, stdin=stdin, files=files, output=output)
