"""
Decoding of archives and compressed streams
"""
from .base import *
from sim.workload import tarBytes, compress, tarHeader

ID = 'C05'
COUNT = {'quick': 20000, 'thorough': 120000}
RULE = ('random archive or compressed stream (member counts, sizes around block and buffer limits, compression block boundaries, directories, '
        'end markers), random lengths of source reads and of requested blocks, random truncation, read error or invalid header; '
        'non-trivial: more than one read was necessary or a fault was injected')

SIZES = (0, 1, 2, 100, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000)

def gen (rng, i, tier):
    kind = rng.choice (('brotli', 'brotli', 'tar', 'tar', 'brtar', 'brtar', 'brtext', 'brxml', 'brhtml'))
    n = rng.choice ((0, 1, 2, 3, 4, 8)) if 'tar' in kind else 1
    members = []
    for k in range (n):
        size = rng.choice (SIZES + (rng.randint (0, 3000),)*4)
        if rng.random () < 0.03:
            size = rng.choice ((99999, 102400, 102401, 150000, 300000))
        # [seed, size, compressible]
        members.append ([rng.getrandbits (30), size, rng.random () < 0.4])
    case = dict (seed=rng.getrandbits (48), kind=kind, members=members, eof=rng.choice ((0, 1, 2, 20)), dirs=rng.random () < 0.2, long=rng.choice ((0, 0, rng.randrange (256))),
            blocks=sorted (rng.randint (1, 4000) for k in range (rng.choice ((0, 0, 1, 3, 8)))),
            quality=rng.choice ((0, 1, 5, 9)),
            src=[rng.choice ((1, 7, 100, 511, 512, 1000, 5000, 10**6)) for k in range (rng.randint (1, 4))],
            chunk=rng.choice ((None, None, 1, 10, 100, 1000, 4096)),
            ask=[rng.choice ((1, 3, 512, 1000, 100000)) for k in range (rng.randint (1, 4))])
    if rng.random () < 0.2:
        case['ask'].append (None)
    if rng.random () < 0.15:
        case['ask'].insert (0, 0)
    total = sum (m[1] for m in members)
    if total > 20000:
        # keep the number of steps bounded
        case['src'] = [max (x, 1000) for x in case['src']]
        case['ask'] = [x and max (x, 1000) for x in case['ask']]
        case['chunk'] = None
    r = rng.random ()
    if r < 0.35:
        case['cut'] = rng.choice ((0, -1, -2, rng.getrandbits (24), rng.getrandbits (24), rng.getrandbits (24)))
    elif r < 0.5:
        case['errAt'] = rng.choice ((0, -1, rng.getrandbits (24), rng.getrandbits (24)))
        case['err'] = rng.choice (('EIO', 'ESTALE'))
    elif r < 0.6 and kind in ('tar', 'brtar') and members:
        case['bad'] = rng.choice (('magic', 'size'))
        case['badAt'] = rng.randrange (len (members))
    return case

def content (m, kind):
    seed, size, comp = m
    r = Rng (seed)
    if kind == 'brxml':
        return f'<a>{"".join (r.choice ("ابت ") for k in range (size))}</a>'.encode ('utf-8')
    if kind == 'brhtml':
        return ('<!DOCTYPE html><html><head><meta charset="utf-8"></head><body><div property="articleBody"><p>' +
                ''.join (r.choice ('ابتx') for k in range (size)) + '</p></div></body></html>').encode ('utf-8')
    if kind == 'brtext':
        return ''.join (r.choice ('ابت\nx') for k in range (size)).encode ('utf-8')
    return bytes (size) if comp and size % 3 == 0 else b'abc'*(size//3) + b'x'*(size % 3) if comp else r.randbytes (size)

class Source:
    """ Raw byte stream: every read may return less than asked for, and fail """
    def __init__ (self, w, data, lens, errAt=None, err=None):
        self.w = w
        self.data = data
        self.pos = 0
        self.lens = lens
        self.n = 0
        self.errAt = errAt
        self.err = err
        self.fired = False
        self.ended = 0

    def read (self, n=None):
        if n is None or n < 0:
            n = len (self.data)+1
        if n == 0:
            return b''
        if self.errAt is not None and self.pos >= self.errAt:
            if not self.fired:
                self.w.fault (f'read_{self.err}')
            self.fired = True
            raise vfs.oserr (self.err)
        end = len (self.data) if self.errAt is None else min (self.errAt, len (self.data))
        want = min (n, end-self.pos, self.lens[self.n % len (self.lens)])
        self.n += 1
        # a stream that's asked again and again at its end
        self.ended = self.ended+1 if self.pos >= len (self.data) else 0
        if self.ended > 2000:
            raise EndlessLoop ()
        r = self.data[self.pos:self.pos+want]
        self.pos += want
        return r

class EndlessLoop (BaseException):
    pass

def stored (case):
    """ Members as they should come out, and the bytes of the container """
    members = [content (m, case['kind']) for m in case['members']]
    kind = case['kind']
    if 'tar' in kind:
        raw = bytearray (tarBytes (members, case['eof'], case['dirs'], case['long']))
        ends = workload.tarPositions (members, case['dirs'], case['long'])
        for i, (first, pos, end) in enumerate (ends):
            if case.get ('bad') and case['badAt'] % len (members) == i:
                if case['bad'] == 'magic':
                    raw[pos+257:pos+262] = b'\0stra'
                else:
                    raw[pos+124:pos+136] = b'8888888888x\0'
        raw = bytes (raw)
    else:
        raw = members[0] if members else b''
        ends = [(0, 0, len (raw))]
    data = raw
    if kind != 'tar':
        c = __import__ ('brotli').Compressor (quality=case['quality'])
        data = b''
        last = 0
        for b in sorted (set (case['blocks'])):
            if last < b < len (raw):
                data += c.process (raw[last:b]) + c.flush ()
                last = b
        data += c.process (raw[last:]) + c.finish ()
    return members, raw, data, ends

def execute (ctx, case):
    w = ctx.world (policy={'kind': 'first'})
    kind = case['kind']
    members, raw, data, ends = stored (case)
    full = data
    errAt = None
    if case.get ('cut') is not None and data:
        data = data[:case['cut'] % len (data)]
        ctx.faults['truncated'] = 1
    if case.get ('errAt') is not None:
        errAt = len (data) if case['errAt'] == -1 else case['errAt'] % (len (data)+1)
    src = Source (w, data, case['src'], errAt, case.get ('err'))
    short = []
    def main ():
        import lulua.text as text
        f = text.filterAvail
        if kind == 'brotli':
            out = b''
            for fd in ([text.BrotliFile (src, case['chunk'])] if case['chunk'] else f['brotli'] (src)):
                zero = 0
                n = 0
                while True:
                    ask = case['ask'][n % len (case['ask'])]
                    n += 1
                    b = fd.read () if ask is None else fd.read (ask)
                    assert ask is None or len (b) <= ask, f'asked for {ask} bytes, got {len (b)}'
                    if ask == 0:
                        continue
                    if not b:
                        break
                    out += b
            return [out]
        if kind == 'tar':
            return [m.read () for m in f['tar'] (src)]
        chain = {'brtar': ('brotli', 'tar'), 'brtext': ('brotli', 'text'), 'brxml': ('brotli', 'xml'), 'brhtml': ('brotli', 'bbcarabic')}[kind]
        res = []
        for x in text.apply ([f[c] for c in chain], [src]):
            if kind == 'brtar':
                x = x.read ()
            elif kind == 'brxml':
                x = text.getText (x.documentElement.childNodes)
            res.append (x)
        return res
    p = w.script ('reader', main)
    outcome = ctx.run (w)
    ctx.tag = kind
    ctx.nontrivial = src.n > 1
    ctx.sigs = [f'{derive (json.dumps (case, sort_keys=True)):x}']
    exc = (getattr (p, 'excText', None) or '').strip ()
    if outcome != 'finished' or 'EndlessLoop' in exc:
        raise Violation ('endless-loop', f'{kind}: reading {len (data)} of {len (full)} bytes never ends ({outcome})')
    failed = p.exitcode != 0
    if 'AssertionError: asked for' in exc:
        raise Violation ('too-much', f'{kind}: {exc}')
    if kind == 'brxml':
        want = [members[0].decode ('utf-8')[3:-4]]
    elif kind == 'brtext':
        want = [members[0].decode ('utf-8')]
    elif kind == 'brhtml':
        want = [members[0].decode ('utf-8').split ('<p>')[1].split ('</p>')[0]]
    elif kind == 'brotli':
        want = [raw]
    else:
        want = [m for m in members if m]
    if src.fired:
        if not failed:
            raise Violation ('read-error-ignored', f'{kind}: read error at byte {errAt} of {len (data)}, but no exception')
        return
    got = None if failed else p.result
    if not failed and kind == 'brhtml':
        got = [x.strip ('\n') for x in got]
    if case.get ('bad'):
        # invalid header: nothing behind it may be delivered as if all was well
        reached = [m for m in members[:case['badAt'] % len (members)]]
        if not failed:
            raise Violation ('invalid-header-ignored', f'{kind}: header {case["badAt"]} is invalid ({case["bad"]}), but no exception')
        return
    if len (data) < len (full):
        if kind in ('brotli', 'brtext', 'brxml', 'brhtml'):
            if not failed:
                raise Violation ('truncation-ignored', f'{kind}: only {len (data)} of {len (full)} bytes, but no exception; '
                        f'got {[len (x) for x in got]}')
            return
        rawCut = data if kind == 'tar' else workload.brotliPrefix (data)
        missing = ends and len (rawCut) < ends[-1][2]
        if kind == 'tar' and (any (len (data) in e[:2] for e in ends) or len (data) == 0):
            # cut between two members: like an archive without end marker
            want = [m for m, e in zip (members, ends) if m and e[2] <= len (data)]
            missing = False
        if failed:
            return
        if missing:
            raise Violation ('truncation-ignored', f'{kind}: only {len (data)} of {len (full)} bytes, members incomplete, but no exception; '
                    f'got {[len (x) for x in got]}')
    elif failed:
        raise Violation ('valid-stream-fails', f'{kind}: complete stream fails: {exc}')
    if got != want:
        i = next ((i for i, (a, b) in enumerate (zip (want, got)) if a != b), min (len (want), len (got)))
        raise Violation ('wrong-data', f'{kind}: member {i} of {len (want)}/{len (got)} differs '
                f'(lengths expected {[len (x) for x in want]} got {[len (x) for x in got]})')

def shrink (case):
    def variant (**kw):
        c = copy.deepcopy (case)
        c.update (kw)
        return c
    for l in shrinkList (case['members']):
        if l or 'tar' in case['kind']:
            yield variant (members=l)
    for k, v in (('blocks', []), ('dirs', False), ('chunk', None), ('long', 0)):
        if case.get (k):
            yield variant (**{k: v})
    for k in ('src', 'ask'):
        if len (case[k]) > 1:
            for l in shrinkList (case[k]):
                if l and any (l):
                    yield variant (**{k: l})
    for i, m in enumerate (case['members']):
        for s in (0, 1, m[1]//2, m[1]-1):
            if 0 <= s < m[1]:
                c = variant ()
                c['members'][i][1] = s
                yield c
