"""
Extraction of texts from wiki dumps
"""
import bz2
import xml.sax.saxutils
from .base import *

ID = 'C15'
COUNT = {'quick': 16000, 'thorough': 300000}
RULE = ('random dumps (several revisions per page, empty texts, markup, entities, CDATA, any number of compressed streams, boundaries '
        'anywhere), read in random pieces, cut off or failing at random bytes, with flipped bytes; the lines written are compared with '
        'the texts stored in the dump; non-trivial: a fault was injected or the delivery was fragmented')

MARKUP = ["''kursiv''", '[[صفحة|نص]]', '{{قالب|1=<b>x</b>}}', '<ref name="a">مرجع & "مصدر"</ref>', '== عنوان ==', '&nbsp;', '\t', '\n\n', '"', '\\', '\u2028',
        '\U0001f600', '{|\n|-\n| a || b\n|}', '\xa0', '\u200f', "'", '<!-- x -->', 'é', '٣', ']]>', '\x85', '\\n', '\\u0041', '</text>', '&#65;', '\r', '\r\n']

def randomText (rng, big):
    n = rng.choice ((0, 1, 3, 10, 40))
    if big:
        n = 3000
    out = []
    for k in range (n):
        r = rng.random ()
        if r < 0.3:
            out.append (rng.choice (MARKUP))
        else:
            out.append (''.join (rng.choice (workload.ALPHABET) for x in range (rng.randint (1, 12))) + ' ')
    if rng.random () < 0.1:
        # looks special, but is not
        out.insert (0, rng.choice (('#تحويل [[الصفحة]]', '#REDIRECT [[x]]', '{{توضيح}}', '<text>', '[[تصنيف:بذرة]]', ' ', '\n', '\ufeff', 'null', '0', '"x"', '{}',
            'لا', '\u0627\u0654', 'أ')))
    return ''.join (out).strip (' ') if rng.random () < 0.7 else ''.join (out)

def gen (rng, i, tier):
    texts = [randomText (rng, rng.random () < 0.03) for k in range (rng.choice ((0, 1, 1, 2, 5, 20)))]
    case = dict (seed=rng.getrandbits (48), texts=texts, revisions=rng.choice ((1, 1, 2, 5)), style=rng.randrange (5), streams=rng.choice ((1, 1, 1, 2, 3, 10)),
            cuts=rng.getrandbits (30), level=rng.choice ((1, 1, 9)), pad=rng.choice ((0, 0, 0, 300, 20000)), chunk=rng.choice ((None, None, None, 1000, [100, 8192, 1], [1], 77)), faults=[])
    if texts and rng.random () < 0.001:
        # longer than anything one might think of
        texts[rng.randrange (len (texts))] = [rng.choice (('نص طويل ', 'ا')), rng.choice ((150000, 1100000))]
        case.update (chunk=None, level=1, style=0)
    r = rng.random ()
    at = rng.choice ((rng.randrange (1 << 20), rng.randrange (1 << 20), 0, 1, -1, -2, -5, -12))
    if r < 0.3:
        case['faults'].append (dict (k='cut', at=at))
    elif r < 0.45:
        case['faults'].append (dict (k='cutxml', at=at))
    elif r < 0.6:
        case['faults'].append (dict (k='read', at=at, err=rng.choice (('EIO', 'ESTALE', 'EACCES'))))
    elif r < 0.7:
        case['faults'].append (dict (k='flip', at=at, x=1 << rng.randrange (8)))
    elif r < 0.75:
        case['faults'].append (dict (k=rng.choice (('open', 'missing')), err=rng.choice (('EACCES', 'EMFILE', 'EIO'))))
    elif r < 0.8:
        case['faults'].append (dict (k='stray', at=at))
    return case

NS = 'http://www.mediawiki.org/xml/export-0.10/'

def document (case):
    """ XML document, texts stored in it """
    esc = xml.sax.saxutils.escape
    style = case['style']
    p = 'w:' if style == 4 else ''
    d = f'<{p}mediawiki xmlns{":w" if p else ""}="{NS}" version="0.10" xml:lang="ar">\n'
    if style != 1:
        d += f'  <{p}siteinfo>\n    <{p}sitename>ويكي</{p}sitename>\n    <{p}namespaces><{p}namespace key="0" case="first-letter" /></{p}namespaces>\n  </{p}siteinfo>\n'
    want = []
    n = case['revisions']
    texts = [workload.expand (t) for t in case['texts']]
    rng = Rng (derive ('pages', case['cuts']))
    for a in range (0, len (texts), n):
        ns, prefix = rng.choice (((0, ''), (0, ''), (1, 'نقاش:'), (10, 'قالب:'), (14, 'تصنيف:'), (828, 'وحدة:'), (2, 'مستخدم:')))
        d += f'  <{p}page>\n    <{p}title>{prefix}text {a}</{p}title>\n    <{p}ns>{ns}</{p}ns>\n'
        if rng.random () < 0.1:
            d += f'    <{p}redirect title="x" />\n'
        for t in texts[a:a+n]:
            if style == 2:
                x = ''.join (f'&#{ord (c)};' if ord (c) % 7 == 0 else esc (c) for c in t)
            elif style == 3:
                x = '<![CDATA[' + t.replace (']]>', ']]]]><![CDATA[>') + ']]>'
            else:
                x = esc (t, {'"': '&quot;'})
            # a literal one would be turned into a line feed by any parser
            x = x.replace ('\r', ']]>&#13;<![CDATA[' if style == 3 else '&#13;')
            attr = f' bytes="{len (t.encode ("utf-8"))}" xml:space="preserve"'
            r = rng.random ()
            if r < 0.2:
                # other versions of the software
                attr = rng.choice (('', ' xml:space="preserve"', f' id="{a}" bytes="0"', f' location="tt:{a}" sha1="x" origin="1" bytes="{len (t)}"'))
            elif r < 0.25 and not t:
                attr = ' deleted="deleted"'
            d += f'    <{p}revision>\n      <{p}id>{a}</{p}id>\n      <{p}comment>{esc (t[:5])}</{p}comment>\n      <{p}model>{rng.choice (("wikitext", "wikitext", "Scribunto", "css"))}</{p}model>\n'
            if rng.random () < 0.2:
                d += f'      <{p}minor />\n'
            d += f'      <{p}text{attr} />\n' if not t and style != 0 else f'      <{p}text{attr}>{x}</{p}text>\n'
            d += f'      <{p}sha1>x</{p}sha1>\n    </{p}revision>\n'
            want.append (t)
        d += f'  </{p}page>\n'
    d += f'<!-- {"x"*case["pad"]} -->\n</{p}mediawiki>\n'
    return d.encode ('utf-8'), want

def pack (case, doc):
    rng = Rng (derive ('cuts', case['cuts']))
    cuts = sorted (rng.randrange (len (doc)+1) for k in range (case['streams']-1))
    parts = [bz2.compress (doc[a:b], case['level']) for a, b in zip ([0]+cuts, cuts+[len (doc)])]
    return parts

def pos (at, size):
    return at % size if at >= 0 else max (0, size+at)

def execute (ctx, case):
    doc, want = document (case)
    f = case['faults'][0] if case['faults'] else None
    k = f['k'] if f else None
    complete = doc.rstrip ()
    if k == 'cutxml':
        # the compressed file is fine, but its content ends early
        doc = doc[:pos (f['at'], len (complete))]
    parts = pack (case, doc)
    data = b''.join (parts)
    must = None
    if k == 'cut':
        data = data[:pos (f['at'], len (data))]
        # cutting off whole streams that hold nothing but white space loses nothing
        left, n = len (data), 0
        have = 0
        for p in parts:
            if n+len (p) > left:
                break
            n += len (p)
            have += len (bz2.decompress (p))
        must = not (n == left and have >= len (complete))
        if left == 0:
            # an empty file
            must = True
    elif k == 'cutxml':
        must = True
    elif k == 'flip':
        b = bytearray (data)
        b[pos (f['at'], len (data))] ^= f['x']
        data = bytes (b)
    elif k == 'stray':
        # text outside of the document
        at = pos (f['at'], len (doc))
        data = b''.join (pack (case, doc+b'garbage'))
        must = True
    ino = vfs.Inode (data, readPlan=vfs.ReadPlan (chunk=case['chunk'] if len (data) < 20000 else None))
    files = {'dump.xml.bz2': ino}
    if k == 'read':
        ino.readPlan.errAt, ino.readPlan.err = pos (f['at'], len (data)+1), f['err']
    elif k == 'open':
        ino.openErr = f['err']
        must = True
    elif k == 'missing':
        files = {}
        must = True
    r = ToolRun (ctx, 'extract-mediawiki', ['dump.xml.bz2'], files=files, policy={'kind': 'first'}).run ()
    ctx.tag = f'{k} {r.p.exitcode}'
    ctx.sigs = [f'{derive (json.dumps (case)):x}']
    ctx.nontrivial = bool (f) or case['chunk'] is not None or case['streams'] > 1
    if f and k in ('cut', 'cutxml', 'flip', 'stray', 'missing'):
        ctx.faults[f'dump_{k}'] = ctx.faults.get (f'dump_{k}', 0)+1
    if r.outcome != 'finished':
        raise Violation ('hang', f'{r.name} never ends ({r.outcome}) with {f}')
    if k == 'read':
        must = ino.readPlan.fired
    lines = r.out.split (b'\n')
    last = lines.pop ()
    got = []
    for l in lines:
        try:
            got.append (json.loads (l.decode ('utf-8')))
        except ValueError as e:
            raise Violation ('bad-line', f'wrote a line that is not valid JSON: {l[:100]!r} ({f})')
    n = next ((i for i, (a, b) in enumerate (zip (got, want)) if a != b), None)
    if r.ok:
        if must:
            raise Violation ('undetected', f'{r.name} succeeds with {len (got)} of {len (want)} texts although {f} (file has {len (data)} bytes)')
        if last:
            raise Violation ('bad-line', f'output ends with an incomplete line {last[:80]!r}')
        if n is not None:
            raise Violation ('wrong-text', f'line {n} is {got[n][:80]!r} instead of {want[n][:80]!r} ({f})')
        if len (got) != len (want):
            raise Violation ('wrong-count', f'{len (got)} lines for {len (want)} texts ({f})')
        return
    if must is None and k != 'flip':
        raise Violation ('fails', f'{r.describe ()} although the dump is fine ({f})')
    if k == 'flip':
        # decompressed data arrives before its checksum
        return
    if n is not None:
        raise Violation ('wrong-text', f'before failing, line {n} is {got[n][:80]!r} instead of {want[n][:80]!r} ({f})')
    if len (got) > len (want):
        raise Violation ('wrong-count', f'before failing, {len (got)} lines for {len (want)} texts ({f})')

def shrink (case):
    for l in shrinkList (case['texts']):
        yield dict (case, texts=l)
    for kw in (dict (streams=1), dict (revisions=1), dict (style=0), dict (chunk=None), dict (pad=0), dict (level=1)):
        if any (case[k] != v for k, v in kw.items ()):
            yield dict (case, **kw)
    for i, t in enumerate (case['texts']):
        if not isinstance (t, str):
            for k in (1, 1000, t[1]//2):
                if k < t[1]:
                    c = copy.deepcopy (case)
                    c['texts'][i] = [t[0], k]
                    yield c
        elif len (t) > 2:
            for u in (t[:len (t)//2], t[len (t)//2:]):
                c = copy.deepcopy (case)
                c['texts'][i] = u
                yield c
    if case['faults'] and case['faults'][0].get ('at'):
        f = case['faults'][0]
        for at in (0, f['at']//2):
            if at != f['at']:
                yield dict (case, faults=[dict (f, at=at)])
