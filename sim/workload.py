"""
Generated workloads: layouts, texts, corpus items and the files they live in.
A workload is plain JSON; files are rebuilt from it deterministically.
"""

import unicodedata
import io
import json
import os
import struct
import xml.sax.saxutils
import zipfile

import yaml
import brotli

from . import model
from .world import REPO

_realOpen = io.FileIO

def shippedLayouts ():
    d = os.path.join (REPO, 'lulua', 'data', 'layouts')
    return sorted (x[:-5] for x in os.listdir (d) if x.endswith ('.yaml') and x != 'null.yaml')

_layoutCache = {}
_Loader = getattr (yaml, 'CSafeLoader', yaml.SafeLoader)

def layoutData (spec):
    """ spec: name of a shipped layout or layout data itself """
    if isinstance (spec, str):
        if spec not in _layoutCache:
            with _realOpen (os.path.join (REPO, 'lulua', 'data', 'layouts', spec + '.yaml')) as fd:
                _layoutCache[spec] = yaml.load (fd.readall (), _Loader)
        return _layoutCache[spec]
    return spec

ALPHABET = 'ابتثجحخدذرزسشصضطظعغفقكلمنهويءةى'
MARKS = '\u064b\u064c\u064d\u064e\u064f\u0650\u0651\u0652\u0654\u0655'
PUNCT = '.:!()«»-/"'
LATIN = 'abcXYZ'
MULTI = ['لا', 'لله', 'الله', 'لإ', 'ab', 'abc', 'اا', 'بسم', 'سم', 'ال', 'ا\u0654', 'بسم الله', 'ababab', 'aba']

# not line ends for anyone who reads streams, unassigned, joining, decomposed, …
UNUSUAL = ['\x85', '\u2028', '\u2029', '\x0b', '\x0c', '\x1c', '\0', '\ufeff', '\u200c', '\u200d', '\u00a0', '\u3000', 'ا\u0654', 'ا\u0653',
        'و\u0654', 'e\u0301', '\u0654', '\u0301', '\ufdf2', '\ufefb', 'ﺍ', '\U0010ffff', '\U0001f1e6', '€€€', '\t\t', '\u0640', 'ﷺ', '١٢',
        '\u200b', '\x1a', '\x1b', '\x7f', '\u2060', '\u00ad', '\ufffd', '\u202e', '\x08', '\x04', '\u180e', '\u202f']

def randomLayout (rng, name='sim', multi=True, special=True, unique=False, density=None):
    """ A random layout for the ibmpc105 keyboard """
    modSets = [
        [['El_shift'], ['Er_shift']],
        [['Dl_caps'], ['Dr1']],
        [['Fr_altgr'], ['El1']],
        [['Fr_altgr']],
        [['El_shift', 'Fr_altgr'], ['Er_shift', 'Fr_altgr']],
        ]
    n = rng.choice ((1, 2, 2, 3, 4))
    mods = [[[]]]
    used = set ()
    for m in rng.sample (modSets, len (modSets)):
        if len (mods) >= n:
            break
        # modifier combinations must be unique
        if any (frozenset (x) in used for x in m):
            continue
        if not special and any (len (x) > 1 for x in m):
            continue
        used.update (frozenset (x) for x in m)
        mods.append (m)
    modKeys = {k for m in mods for c in m for k in c}
    pool = list (ALPHABET + PUNCT + LATIN) + [chr (0x660+i) for i in range (10)] + list ('،؛؟٪') + rng.sample (MARKS, 5)
    if multi:
        pool += rng.sample (MULTI, rng.randint (1, 6))
    rng.shuffle (pool)
    layers = []
    taken = []
    for i, m in enumerate (mods):
        layer = {}
        free = [k for k in model.LETTERS if k not in modKeys]
        rng.shuffle (free)
        cnt = rng.randint (4, len (free)) if density is None else max (2, int (len (free)*density))
        for k in free[:cnt]:
            if taken and not unique and rng.random () < 0.12:
                layer[k] = rng.choice (taken)
            elif pool:
                layer[k] = pool.pop ()
                taken.append (layer[k])
            else:
                break
        if special and i == 0:
            if rng.random () < 0.9:
                layer['Fl_space'] = ' '
            if rng.random () < 0.6:
                layer['Fr_space'] = ' '
            if rng.random () < 0.7:
                layer['CD_ret'] = '\n'
            if rng.random () < 0.4:
                layer['Cl_tab'] = '\t'
        elif special and rng.random () < 0.2:
            layer['Fr_space'] = '\u202f'
        layers.append (dict (modifier=m, layer=layer))
    return dict (name=name, layout=layers)

def layoutTexts (data):
    out = []
    for l in data['layout']:
        out += [v for v in l['layer'].values () if isinstance (v, str)]
    return out

def layoutYaml (data):
    return json.dumps (data, ensure_ascii=True)

def randomText (rng, texts, maxLen=40, newlines=True, mapped=True):
    """ A text that exercises known, unknown and mapped characters """
    n = rng.randint (0, maxLen)
    out = []
    mode = rng.random ()
    hot = rng.sample (texts, min (len (texts), rng.randint (2, 6))) if texts else ['ا']
    while len (out) < n:
        r = rng.random ()
        if r < 0.5:
            out.append (rng.choice (hot))
        elif r < 0.75 and texts:
            out.append (rng.choice (texts))
        elif r < 0.85:
            out.append (' ')
        elif r < 0.90 and mapped:
            out.append (rng.choice (list (model.CHARMAP)))
        elif r < 0.93 and newlines:
            out.append (rng.choice (('\n', '\r\n', '\r', '\n\n')))
        elif r < 0.96:
            out.append (rng.choice (UNUSUAL) if rng.random () < 0.6 else rng.choice (('€', 'Ω', 'ß', '\U0001f600', '\u200f', 'q')))
        else:
            out.append (rng.choice (MULTI))
        if r > 0.7 and rng.random () < 0.1:
            out[-1] *= rng.randint (2, 5)
    return ''.join (out)

# chains, as used by the corpus build; the innermost producer decides what an
# item looks like
CHAINS = [
    ('lines',), ('json',), ('file', 'text'), ('file', 'brotli', 'text'),
    ('file', 'tar', 'text'), ('file', 'brotli', 'tar', 'text'),
    ('file', 'xml', 'tei2'), ('file', 'xml', 'opensubtitles'),
    ('file', 'brotli', 'tar', 'xml', 'tei2'), ('file', 'brotli', 'tar', 'xml', 'opensubtitles'),
    ('file', 'tar', 'xml', 'opensubtitles'),
    ('file', 'bbcarabic'), ('file', 'brotli', 'tar', 'bbcarabic'), ('file', 'brotli', 'tar', 'aljazeera'),
    ('epub',), ('json', 'mediawikimarkdown'), ('file', 'text', 'mediawikimarkdown'),
    ]

def xmlSafe (t):
    return ''.join (c for c in t if c in '\n\t' or ord (c) >= 0x20)

def tarHeader (name, size, kind=b'0'):
    h = bytearray (512)
    h[0:len (name)] = name
    h[100:108] = b'0000644\0'
    h[108:116] = b'0001750\0'
    h[116:124] = b'0001750\0'
    h[124:136] = b'%011o\0' % size
    h[136:148] = b'13500000000\0'
    h[156] = kind[0]
    h[257:265] = b'ustar  \0'
    h[148:156] = b' '*8
    s = sum (h)
    h[148:156] = b'%06o\0 ' % s
    return bytes (h)

LONGNAME = b'm\xc3\xa4/' + b'long-file-name/'*8 + b'm%d.txt\0'

def tarPositions (members, dirs=False, long=0):
    """ Of each member: where its first header starts, its own header, where its content ends """
    pos = 512 if dirs else 0
    out = []
    for i, m in enumerate (members):
        first = pos
        if long >> i & 1:
            pos += 1024
        out.append ((first, pos, pos+512+len (m)))
        pos += 512+len (m)+(-len (m) % 512)
    return out

def tarBytes (members, eof=2, dirs=False, long=0):
    """ GNU tar; long: bit mask of members with a name that does not fit into the header """
    out = bytearray ()
    if dirs:
        out += tarHeader (b'dir/', 0, b'5')
    for i, m in enumerate (members):
        if long >> i & 1:
            n = LONGNAME % i
            out += tarHeader (b'././@LongLink', len (n), b'L')
            out += n + b'\0'*(-len (n) % 512)
        out += tarHeader (b'm%d' % i, len (m), b'\0' if i % 4 == 3 else b'7' if i % 8 == 6 else b'0')
        out += m
        out += b'\0'*(-len (m) % 512)
    out += b'\0'*512*eof
    return bytes (out)

def compress (data, blocks=None):
    """ brotli, with block boundaries forced by flushing at the given offsets """
    c = brotli.Compressor (quality=1)
    out = b''
    last = 0
    for b in sorted (set (min (x, len (data)) for x in (blocks or []))):
        if b > last:
            out += c.process (data[last:b])
            out += c.flush ()
            last = b
    out += c.process (data[last:])
    out += c.finish ()
    return out

def brotliPrefix (data):
    """ Everything a cut-off stream still contains """
    d = brotli.Decompressor ()
    out = d.process (data) if data else b''
    while not d.is_finished ():
        # the decompressor buffers
        more = d.process (b'')
        if not more:
            break
        out += more
    return out

def docBytes (fmt, text):
    """ One document in a leaf format; returns (bytes, expected text) """
    if fmt == 'text':
        return text.encode ('utf-8'), text
    t = xmlSafe (text)
    esc = xml.sax.saxutils.escape
    parts = t.split ('\n')
    if fmt == 'tei2':
        body = ''
        want = []
        for i in range (0, len (parts), 2):
            body += '<p>' + ''.join (f'<s id="{i}">{esc (x)}</s>' for x in parts[i:i+2]) + '</p>'
            want += parts[i:i+2] + ['']
        d = f'<?xml version="1.0" encoding="utf-8"?><TEI.2><teiHeader><p>header</p></teiHeader><text><body>{body}</body></text></TEI.2>'
        return d.encode ('utf-8'), '\n'.join (want)
    if fmt == 'opensubtitles':
        body = '\n'.join (f'<s id="{i}">\n  {esc (x)}\n<time id="T1S" value="00" /></s>' for i, x in enumerate (parts))
        d = f'<?xml version="1.0" encoding="utf-8"?>\n<document id="1">\n{body}\n</document>'
        return d.encode ('utf-8'), '\n'.join (x.strip () for x in parts)
    attr = {'bbcarabic': 'property="articleBody"', 'aljazeera': 'id="DynamicContentContainer"'}[fmt]
    parts = [' '.join (x.split ()) for x in parts]
    parts = [x for x in parts if x] or ['x']
    body = ''.join (f'<p>{esc (x)}</p>' for x in parts)
    d = f'<!DOCTYPE html><html><head><meta charset="utf-8"><title>t</title></head><body><p>outside</p><div {attr}>{body}</div><p>after</p></body></html>'
    return d.encode ('utf-8'), ''.join (x + '\n\n' for x in parts) + '\n\n'

def epubBytes (texts):
    """ Minimal EPUB; returns (bytes, expected texts) """
    bio = io.BytesIO ()
    want = []
    with zipfile.ZipFile (bio, 'w', zipfile.ZIP_DEFLATED) as z:
        def put (name, data):
            zi = zipfile.ZipInfo (name, (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr (zi, data)
        put ('mimetype', 'application/epub+zip')
        put ('META-INF/container.xml', '<?xml version="1.0"?><container version="1.0" xmlns="urn:oasis:names:tc:opendocument:xmlns:container"><rootfiles><rootfile full-path="content.opf" media-type="application/oebps-package+xml"/></rootfiles></container>')
        items = ''
        refs = ''
        for i, t in enumerate (texts):
            t = ' '.join (xmlSafe (t).split ()) or 'x'
            esc = xml.sax.saxutils.escape (t)
            put (f'c{i}.xhtml', f'<html xmlns="http://www.w3.org/1999/xhtml"><head></head><body><p>{esc}</p></body></html>')
            items += f'<item id="c{i}" href="c{i}.xhtml" media-type="application/xhtml+xml"/>'
            refs += f'<itemref idref="c{i}"/>'
            # the library reformats documents, which adds space around the text
            want.append ('  ' + t + '\n\n ')
        put ('content.opf', f'<?xml version="1.0"?><package xmlns="http://www.idpf.org/2007/opf" version="2.0" unique-identifier="id"><metadata xmlns:dc="http://purl.org/dc/elements/1.1/"><dc:title>t</dc:title><dc:identifier id="id">x</dc:identifier><dc:language>ar</dc:language></metadata><manifest>{items}</manifest><spine>{refs}</spine></package>')
    return bio.getvalue (), want

def expand (t):
    """ Texts may be stored as [text, repetitions] or [alphabet, words, first word] """
    if isinstance (t, str):
        return t
    if len (t) == 2:
        return t[0]*t[1]
    alphabet, n, start = t
    out = []
    for i in range (start, start+n):
        # all of them are different
        word = ''
        while i:
            i, k = divmod (i, len (alphabet))
            word += alphabet[k]
        out.append (word)
    return ' '.join (out) + ' '

def vocabulary (rng, texts, n):
    """ Many different words """
    letters = sorted ({x for x in texts if len (x) == 1 and unicodedata.category (x) == 'Lo'})
    return [''.join (letters), n, rng.randint (1, 100000)] if len (letters) > 3 else None

def wikiConvert (text):
    """ What our stand-in for pandoc makes of a document """
    return text.replace ("'''", '**') + '\n'

class Item:
    """ One input line plus the files behind it """
    __slots__ = ('line', 'files', 'texts', 'docs')

def fileName (name, index, suffix):
    """ Of all kinds """
    return (f'{name}{index}{suffix}', f'{name}{index}{suffix}', f' {name} {index}{suffix}', f'sub dir/{name}{index}', f'كتاب {index}{suffix}',
            f'{name}#{index}?%20{suffix}', f'-{name}{index}{suffix}', f'{name}{index}', f'\t{name}\\{index}{suffix}')[index % 9]

def buildItem (chain, spec, index):
    """
    spec: dict (texts=[..], blocks=[..]). Returns (line, {path: bytes}, expected
    texts, offsets) where expected texts are what is typed.
    """
    texts = [expand (t) for t in spec['texts']]
    chain = tuple (chain)
    if chain == ('lines',):
        t = texts[0].replace ('\r', '').replace ('\n', ' ')
        return t + '\n', {}, [t + '\n']
    if chain == ('json',):
        return json.dumps (texts[0], ensure_ascii=spec.get ('ascii', False)) + '\n', {}, [texts[0]]
    if chain == ('json', 'mediawikimarkdown'):
        return json.dumps (texts[0], ensure_ascii=False) + '\n', {}, [wikiConvert (texts[0])]
    if chain == ('epub',):
        data, want = epubBytes (texts)
        path = fileName ('book', index, '.epub')
        return path + '\n', {path: data}, want
    assert chain[0] == 'file', chain
    rest = list (chain[1:])
    wiki = rest[-1] == 'mediawikimarkdown'
    if wiki:
        rest.pop ()
    leaf = rest.pop ()
    if rest and rest[-1] == 'xml':
        rest.pop ()
    docs, want = [], []
    for t in texts:
        d, w = docBytes (leaf, t)
        docs.append (d)
        if d or 'tar' not in rest:
            # empty archive members carry no document
            want.append (w)
    if 'tar' in rest:
        data = tarBytes (docs, spec.get ('eof', 2), spec.get ('dirs', False), spec.get ('long', 0))
        rest.remove ('tar')
    else:
        data = docs[0]
        want = want[:1]
    if 'brotli' in rest:
        data = compress (data, spec.get ('blocks'))
    path = fileName ('doc', index, '.bin')
    if wiki:
        want = [wikiConvert (w) for w in want]
    return path + '\n', {path: data}, want

def randomItem (rng, chain, texts, maxLen=40, big=0.0):
    n = 1
    if 'tar' in chain:
        # nobody guarantees that there is anything in it
        n = rng.choice ((0, 1, 1, 2, 2, 3, 5))
    elif chain == ('epub',):
        n = rng.choice ((1, 1, 2, 3, 5))
    ts = []
    for i in range (n):
        t = randomText (rng, texts, maxLen)
        if rng.random () < big:
            t = [t or 'ا', rng.choice ((200, 2000, 5000)) // max (1, len (t) or 1) + 1]
        ts.append (t)
    d = dict (texts=ts)
    if 'brotli' in chain and rng.random () < 0.5:
        d['blocks'] = sorted (rng.randint (1, 2000) for i in range (rng.randint (1, 4)))
    if 'tar' in chain:
        d['eof'] = rng.choice ((0, 1, 2, 20))
        d['dirs'] = rng.random () < 0.3
        d['long'] = rng.choice ((0, 0, 0, rng.randrange (32)))
    if chain == ('json',):
        d['ascii'] = rng.random () < 0.3
        if d['ascii'] and rng.random () < 0.1 and isinstance (ts[0], str):
            # JSON has no problem with one half of a character
            ts[0] += rng.choice (('\ud800', '\udfff', 'ا\udc80ا'))
    return d
