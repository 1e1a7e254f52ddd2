"""
Inputs that cannot be read, in every way and at every place
"""
import zipfile, zlib
from .base import *
from sim.workload import docBytes, tarBytes, compress, expand

ID = 'C02'
COUNT = {'quick': 4000, 'thorough': 50000}
RULE = ('random corpus with one to three unreadable inputs (open error, read error at a random byte, missing file, cut-off or '
        'overwritten archive, invalid encoding, malformed record or document); non-trivial: the fault was reached by the code')

CHAINS = [c for c in workload.CHAINS if c != ('lines',)] + [('lines',), ('file', 'brotli', 'xml', 'tei2'), ('file', 'brotli', 'bbcarabic'),
        ('file', 'xml', 'tei2'), ('file', 'text'), ('file', 'tar', 'text'), ('epub',)]
BADUTF = (b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xc0\xaf')
BADLINE = ('{"a": \n', '"unterminated\n', '\n', 'null\n', '5\n', '"a" "b"\n', "'single'\n", '"\\ud8"\n', 'true\n', '"tab\tinside"\n')

def gen (rng, i, tier):
    chain = rng.choice (CHAINS)
    case = randomWriteCase (rng, chains=[chain], maxItems=10, big=0.05, minItems=1)
    n = len (case['items'])
    faults = case['faults']
    for k in range (rng.choice ((1, 1, 1, 2, 3))):
        item = rng.randrange (n)
        at = rng.getrandbits (20)
        if chain[0] == 'json':
            k = rng.choice (('badline', 'badutf'))
        elif chain == ('lines',):
            k = 'badutf'
        else:
            k = rng.choice (('read', 'read', 'read', 'open', 'missing', 'truncate', 'truncate', 'damage', 'damage'))
        f = dict (k=k, item=item)
        if k == 'badline':
            f['b'] = list (rng.choice (BADLINE).encode ('utf-8'))
            if rng.random () < 0.05:
                # nested too deeply
                f['b'] = list (b'[\n')
                f['deep'] = rng.choice ((2000, 20000, 100000))
        elif k == 'badutf':
            f['at'] = at
            f['b'] = list (rng.choice (BADUTF))
        elif k == 'read':
            # often near the start or right at the end
            f['at'] = rng.choice ((0, at, at, -1, 512))
            f['err'] = rng.choice (('EIO', 'EIO', 'ESTALE', 'EISDIR', 'ETIMEDOUT'))
            if rng.random () < 0.3:
                f['chunk'] = rng.choice ((1000, 100, 4096))
        elif k == 'open':
            f['err'] = rng.choice (('EACCES', 'EMFILE', 'EIO', 'ELOOP', 'ENFILE', 'EISDIR', 'ENXIO', 'ESTALE'))
        elif k == 'truncate':
            f['at'] = rng.choice ((0, at, at, at, -1, -2))
        elif k == 'damage':
            f['doc'] = rng.randrange (6)
            f['how'] = rng.choice (('utf', 'xml', 'magic', 'size', 'brotli'))
            f['at'] = at
            f['b'] = list (rng.choice (BADUTF))
        faults.append (f)
    return case

class Plan:
    """ What has to become of one item """
    def __init__ (self, texts):
        self.texts = texts
        # ok: counted exactly; fail: whole run must fail; either: no statement
        # about this item but all or nothing; skip: texts are what remains
        self.verdict = 'ok'
        self.skipped = 0
        self.why = None

def container (chain):
    rest = [x for x in chain[1:]]
    wiki = rest and rest[-1] == 'mediawikimarkdown'
    if wiki:
        rest = rest[:-1]
    leaf = rest[-1] if rest else None
    return 'tar' in rest, 'brotli' in rest, 'xml' in rest, leaf, wiki

def expectation (run, case):
    """ Applies the data faults and decides what they must lead to """
    chain = tuple (case['chain'])
    plans = [Plan (t) for t in run.want]
    w = run.w
    touched = set ()
    for f in case['faults']:
        i = f['item'] % len (plans)
        if i in touched:
            continue
        touched.add (i)
        p = plans[i]
        k = f['k']
        path = run.paths[i]
        ino = w.fs.get (path) if path else None
        p.why = k
        if k == 'badline':
            run.lines[i] = bytes (f['b'][:1])*f.get ('deep', 0) + bytes (f['b'])
            p.verdict = 'fail'
        elif k == 'badutf':
            l = run.lines[i]
            # cut between characters, so that the bytes stay invalid
            at = f['at'] % len (l)
            while at < len (l) and (l[at] & 0xc0) == 0x80:
                at += 1
            run.lines[i] = l[:at] + bytes (f['b']) + l[at:]
            p.verdict = 'fail'
        elif k == 'read':
            size = len (ino.data)
            at = size if f['at'] == -1 else f['at'] % (size+1)
            ino.readPlan = vfs.ReadPlan (errAt=at, err=f['err'], chunk=f.get ('chunk'))
            p.verdict = 'read'
            p.plan = ino.readPlan
        elif k == 'open':
            ino.openErr = f['err']
            p.verdict = 'fail'
        elif k == 'missing':
            del w.fs.files[w.fs.resolve (path)]
            p.verdict = 'fail'
        elif k == 'truncate':
            size = len (ino.data)
            at = f['at'] % max (1, size)
            if not size:
                continue
            truncate (case, chain, i, p, ino, at)
        elif k == 'damage':
            damage (case, chain, i, p, ino, f)
    return plans

def truncate (case, chain, i, p, ino, at):
    full = bytes (ino.data)
    ino.data = bytearray (full[:at])
    tar, br, isXml, leaf, wiki = container (chain)
    if chain == ('epub',):
        # the directory of a zip file is at its end
        p.verdict = 'fail' if at < len (full)-22 else 'either'
        return
    if br:
        # whatever is missing, the stream is not complete. Archive members are
        # only affected if the end of the archive was not reached before
        p.verdict = 'fail' if not tar else 'either'
        if tar:
            d = workload.brotliPrefix (full[:at])
            tarCut (case, chain, i, p, d)
        return
    if tar:
        tarCut (case, chain, i, p, bytes (ino.data))
        return
    cutDoc (p, chain, bytes (ino.data), full)

def tarEnd (case, i, chain):
    """ Offsets at which each member of an item's archive is complete, and end of the last """
    leaf = container (chain)[3]
    docs = [docBytes (leaf, expand (t))[0] for t in case['items'][i]['texts']]
    spec = case['items'][i]
    return docs, workload.tarPositions (docs, spec.get ('dirs'), spec.get ('long', 0))

def tarCut (case, chain, i, p, data):
    """ An archive that ends after data """
    docs, ends = tarEnd (case, i, chain)
    n = len (data)
    br = 'brotli' in chain
    if ends and n >= ends[-1][2]:
        # nothing of any member is missing
        p.verdict = 'either'
        return
    if not ends:
        p.verdict = 'either'
        return
    if not br and n % 512 == 0:
        bounds = [x for e in ends for x in e[:2]] + [0]
        if n in bounds:
            # between two members, just like an archive without end marker
            p.verdict = 'either'
            texts = [docBytes (container (chain)[3], expand (t)) for t in case['items'][i]['texts']]
            p.texts = [t for (d, t), e in zip (texts, ends) if e[2] <= n and d]
            return
    p.verdict = 'fail'

def cutDoc (p, chain, data, full):
    tar, br, isXml, leaf, wiki = container (chain)
    if isXml:
        p.texts = []
        p.verdict = 'skip'
        p.skipped = 1
        return
    try:
        t = data.decode ('utf-8')
    except UnicodeDecodeError:
        p.verdict = 'fail' if leaf == 'text' else 'lenient'
        return
    if leaf == 'text':
        p.texts = [workload.wikiConvert (t) if wiki else t]
    else:
        # html has no notion of a complete document
        p.verdict = 'lenient'

def damageEpub (p, ino, f):
    """ A book one of whose parts is missing or damaged """
    data = bytes (ino.data)
    src = zipfile.ZipFile (io.BytesIO (data))
    infos = [x for x in src.infolist () if x.filename != 'mimetype']
    victim = infos[f['doc'] % len (infos)]
    how = f['at'] % 3
    p.why = 'damage/' + ('missing part', 'flipped bit', 'header')[how]
    raw = bytearray (data)
    if how == 0:
        out = io.BytesIO ()
        with zipfile.ZipFile (out, 'w', zipfile.ZIP_DEFLATED) as dest:
            for x in src.infolist ():
                if x.filename != victim.filename:
                    dest.writestr (zipfile.ZipInfo (x.filename, (2020, 1, 1, 0, 0, 0)), src.read (x))
        raw = out.getvalue ()
    elif how == 1:
        raw[victim.header_offset+30+len (victim.filename)+(f['at'] >> 8) % victim.compress_size] ^= 1 << (f['at'] >> 4) % 8
    else:
        raw[victim.header_offset+(f['at'] >> 8) % 4] ^= 1 << (f['at'] >> 4) % 8
    if how:
        try:
            if zipfile.ZipFile (io.BytesIO (raw)).testzip () is None:
                # unused bits
                p.why = None
                return
        except (zipfile.BadZipFile, zlib.error):
            pass
    ino.data = bytearray (raw)
    p.verdict = 'fail'

def damage (case, chain, i, p, ino, f):
    """ Rebuild an item with one of its documents or its container damaged """
    if chain == ('epub',):
        return damageEpub (p, ino, f)
    tar, br, isXml, leaf, wiki = container (chain)
    spec = case['items'][i]
    docs = [docBytes (leaf, expand (t)) for t in spec['texts']]
    if not tar:
        docs = docs[:1]
    how = f['how']
    if how in ('magic', 'size') and not tar:
        how = 'xml' if isXml else 'utf'
    if how == 'brotli' and not br:
        how = 'xml' if isXml else 'utf'
    if how == 'xml' and not isXml:
        how = 'utf'
    if how == 'utf' and isXml:
        how = 'xml'
    if not docs:
        p.why = None
        return
    j = f['doc'] % len (docs)
    p.why = f'damage/{how}'
    if how == 'utf':
        if leaf != 'text':
            # html parsers replace invalid bytes
            p.why = None
            return
        d = docs[j][0]
        at = f['at'] % (len (d)+1)
        while at < len (d) and (d[at] & 0xc0) == 0x80:
            at += 1
        docs[j] = (d[:at] + bytes (f['b']) + d[at:], None)
        p.verdict = 'fail'
    elif how == 'xml':
        d = docs[j][0]
        bad = [d[:len (d)//2], d + b'<extra/>', b'not xml', d.replace (b'</', b'<', 1), d.replace (b'<s', b'<s <', 1) if b'<s' in d else b'<',
                b'<a>' + b'\xff' + b'</a>', d[:-1], b'&']
        docs[j] = (bad[f['at'] % len (bad)], None)
        p.texts = [workload.wikiConvert (t) if wiki else t for k, (d, t) in enumerate (docs) if k != j]
        p.verdict = 'skip'
        p.skipped = 1
    data = [d for d, t in docs]
    if tar:
        raw = bytearray (tarBytes (data, spec.get ('eof', 2), spec.get ('dirs', False), spec.get ('long', 0)))
        if how in ('magic', 'size'):
            pos = workload.tarPositions (data, spec.get ('dirs'), spec.get ('long', 0))[j][1]
            if how == 'magic':
                raw[pos+257:pos+262] = b'xstar' if f['at'] % 2 else b'\0\0\0\0\0'
            else:
                raw[pos+124:pos+136] = (b'garbage\0\0\0\0\0', b'00000099999\0', b'00000009\x00\x00\x00\x00')[f['at'] % 3]
            p.verdict = 'fail'
        raw = bytes (raw)
    else:
        raw = data[0]
    if br:
        raw = workload.compress (raw, spec.get ('blocks'))
        if how == 'brotli':
            # a stream that can't be valid
            raw = (b'\xff\xff\xff\xff' + raw, raw[:len (raw)//2] + b'', b'')[f['at'] % 3]
            if f['at'] % 3 == 1 and tar:
                ino.data = bytearray (raw)
                tarCut (case, chain, i, p, workload.brotliPrefix (raw))
                return
            p.verdict = 'fail'
    ino.data = bytearray (raw)

def execute (ctx, case):
    if not case['items']:
        return
    r = WriteRun (ctx, dict (case, faults=[]), plan=lambda run: expectation (run, case))
    plans = r.plans
    r.run ()
    if r.outcome != 'finished':
        # not ending at all is not exiting successfully; C03 is about that
        ctx.tag = 'no-end'
        return
    reached = [p for p in plans if p.verdict == 'read' and p.plan.fired]
    ctx.nontrivial = any (p.verdict not in ('ok', 'read') for p in plans) or bool (reached)
    for p in plans:
        if p.why:
            ctx.faults[p.why] = ctx.faults.get (p.why, 0)+1
        if p.verdict == 'read':
            p.verdict = 'fail' if p.plan.fired else 'ok'
            p.why = f'read error ({p.plan.err})'
    bad = [(i, p) for i, p in enumerate (plans) if p.verdict == 'fail']
    if bad and r.ok:
        raise Violation ('unreadable-item-ignored', f'exit status 0 although item {bad[0][0]} could not be read ({bad[0][1].why}); '
                f'chain {" ".join (case["chain"])}')
    if bad or any (p.verdict in ('lenient',) for p in plans):
        return
    soft = [p for p in plans if p.verdict == 'either']
    if not r.ok:
        if soft:
            return
        raise Violation ('valid-item-fails', f'lulua-write fails without a reason: {r.describe ()}')
    recs, err = r.records ()
    if err:
        raise Violation ('unreadable-output', f'stdout is not a sequence of statistics records: {err}')
    got = mergeRecords (recs)
    st = model.emptyStats ()
    for p in plans:
        for t in p.texts:
            model.typeText (r.layout, model.mapText (t), st)
    d = model.diff (st, got)
    if d:
        raise Violation ('wrong-statistics', f'statistics differ from all readable items counted once: {d}; '
                f'{[p.why for p in plans if p.why]} chain {" ".join (case["chain"])}')
    skipped = sum (p.skipped for p in plans)
    logged = sum (1 for name, level, msg in r.w.logs if level >= 40)
    if logged < skipped:
        raise Violation ('silent-skip', f'{skipped} documents left out, but only {logged} errors logged')

shrink = shrinkCase
