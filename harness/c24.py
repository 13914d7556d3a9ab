from harness.arch import layout, HEAD
from harness.common import fill, warc, chunked, num

COVERS = ['all', 'payload', 'headers', 'first', 'later', 'gzip', 'plain', 'arc', 'chunked', 'gzip encoded', 'deflate encoded', 'both',
          'large', 'decoded large', 'no payload', 'odd http', 'free header', 'wrongly declared']
BOUNDS = ('archives of 1 to 3 records of all kinds (WARC and ARC, content of arbitrary length up to 2000, with newlines or record-like text), plain or gzipped per '
          'record, every record extracted at its offset in the three output modes through the command line entry point; payloads that are '
          'chunked, gzip, deflate or both with arbitrary content; sizes around 64K and up to 200000; header values of up to 6 arbitrary printable '
          'bytes, HTTP headers blank or without a status')
OUTSIDE = 'header text that is not UTF-8 (printed as UTF-8); offsets that are no record start; brotli'

MODES = {'all': [], 'payload': ['--payload'], 'headers': ['--headers']}


def head_text(rec):
    """normal form of the headers"""
    if rec.fmt == 'arc':
        return None
    d = rec.data
    out = d[:d.find(b'\n')].rstrip().upper() + b'\r\n'
    for n, v in rec.headers:
        out = out + n.encode('latin-1') + b': ' + v.encode('latin-1') + b'\r\n'
    return out + b'\r\n'


def run(S, name, off, mode):
    from warcio.cli import main
    res = S.run(lambda: main(['extract'] + MODES[mode] + [name, str(off)]))
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check_eq(res.status, 0, 'exit status')
    S.cover(mode)
    return res.out


def expect(S, out, mode, head, http, raw, payload, label=''):
    if mode == 'payload':
        S.check_eq(out, payload, label + 'the payload and nothing else')
    elif mode == 'headers':
        S.check_eq(out, head + http, label + 'the headers and nothing else')
    else:
        S.check_eq(out, head + http + raw, label + 'the record and nothing else')


def plain(S, kinds, gz, mode, which, hi=2000, sep='norm', lo=0, arb=None, empties=()):
    from warcio.archiveiterator import ArchiveIterator
    data, recs, pos = layout(S, kinds, gz, hi, sep, arb, empties, lo)
    name = S.put_file('a.warc.gz' if gz else 'a.warc', data)
    rec = recs[which]
    out = run(S, name, pos[which][0], mode)
    head = head_text(rec)
    if head is None:
        S.cover('arc')
        for i, r in enumerate(ArchiveIterator(S.BytesIO(data))):
            if i == which:
                head = r.rec_headers.to_bytes()
                break
    http = b''
    if rec.http:
        if rec.rtype == 'request':
            http = b'GET /p?q HTTP/1.0\r\nHost: x.org\r\n\r\n'
        else:
            http = HEAD
    elif not rec.content and rec.rtype == 'revisit':
        S.cover('no payload')
    expect(S, out, mode, head, http, rec.content, rec.content)
    S.cover('gzip' if gz else 'plain')
    S.cover('first' if which == 0 else 'later')


def encoded(S, te, ce, gz, mode, lo, hi, split=0, wtype='response', really=1):
    body = b'W' + S.blob('m', lo, hi)
    data = body
    http = b'HTTP/1.1 200 OK\r\n' if wtype == 'response' else b'POST / HTTP/1.1\r\n'
    if ce:
        http += b'Content-Encoding: ' + ('deflate' if ce in ('zlib', 'raw') else ce).encode('latin-1') + b'\r\n'
        if really:
            data = S.gzip(body, 0, {'gzip': 'gzip', 'deflate': 'zlib'}.get(ce, ce))
        S.cover(('gzip' if ce == 'gzip' else 'deflate') + ' encoded')
    if te:
        http += b'Transfer-Encoding: chunked\r\n'
        S.cover('chunked')
        if really:
            parts = [data]
            if split:
                k = S.int('k', 1, hi)
                S.assume(k < len(data))
                parts = [data[:k], data[k:]]
            data = chunked(S, parts)
        if ce:
            S.cover('both')
    http += b'\r\n'
    if not really:
        S.cover('wrongly declared')
    if lo >= 65536:
        S.cover('large')
        if te or ce:
            S.cover('decoded large')
    before = warc(b'metadata', b'other')
    rec = warc(wtype.encode('latin-1'), http + data)
    head = rec[:len(rec) - len(http + data) - 4]
    a = b''
    for i, d in enumerate((before, rec, before)):
        d = S.gzip(d) if gz else d
        if i == 1:
            off = len(a)
        a = a + d
    out = run(S, S.put_file('a.warc', a), off, mode)
    expect(S, out, mode, head, http, data, body)


def odd(S, rtype, spec, gz, mode, rest=1):
    """HTTP headers as given by spec (in normal form), then a payload"""
    http = fill(S, spec)
    payload = S.blob('p', 1, 300) if rest else b''
    rec = warc(rtype.encode('latin-1'), http + payload)
    head = rec[:len(rec) - len(http + payload) - 4]
    before = warc(b'metadata', b'other')
    out = run(S, S.put_file('a.warc', (S.gzip(before) + S.gzip(rec)) if gz else before + rec),
              len(S.gzip(before)) if gz else len(before), mode)
    expect(S, out, mode, head, http, payload, payload)
    S.cover('odd http')


def free(S, gz, mode, n):
    v1, v2, v3 = [S.bytes('v%d' % i, 1, n, ranges=((33, 126),)) for i in range(3)]
    block = b'HTTP/1.1 200 ' + v2 + b'\r\nX-A: ' + v3 + b'\r\n\r\nbody'
    head = b'WARC/1.0\r\nWARC-Type: response\r\nWARC-Target-URI: http://x.org/' + v1 + b'\r\nContent-Length: ' + num(len(block)) + b'\r\n\r\n'
    rec = head + block + b'\r\n\r\n'
    out = run(S, S.put_file('a.warc', S.gzip(rec) if gz else rec), 0, mode)
    expect(S, out, mode, head, block[:len(block) - 4], b'body', b'body')
    S.cover('free header')


def jobs(tier):
    q = tier == 'quick'
    out = []
    sets = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low'],
            ['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    for ks in sets:
        for gz in (0, 1):
            for mode in MODES:
                for w in range(3):
                    out.append(('plain', dict(kinds=ks, gz=gz, mode=mode, which=w, hi=60 if q else 2000, lo=1 if q else 0)))
                    if w == 0:
                        out.append(('plain', dict(kinds=[ks[0]], gz=gz, mode=mode, which=0, hi=2000)))
                if mode != 'headers':
                    out.append(('plain', dict(kinds=ks, gz=gz, mode=mode, which=1, hi=60, lo=1, sep='more')))
                    out.append(('plain', dict(kinds=[{'rev': 'resp', 'anone': 'aresp'}.get(k, k) for k in ks], gz=gz, mode=mode, which=1, hi=60, lo=1, arb=[1] if q else [2, '\r\n', 2])))
        out.append(('plain', dict(kinds=ks, gz=1, mode='all', which=1, hi=60, lo=1, empties=[0, 1, 2])))
        out.append(('plain', dict(kinds=ks, gz=1, mode='all', which=1, hi=60, lo=1, sep='none')))
    for gz in (0, 1):
        for mode in MODES:
            for te in (0, 1):
                for ce in (None, 'gzip', 'deflate', 'raw'):
                    for split in (0, 1) if te else (0,):
                        out.append(('encoded', dict(te=te, ce=ce, gz=gz, mode=mode, lo=0, hi=3000, split=split)))
                    if te or ce:
                        out.append(('encoded', dict(te=te, ce=ce, gz=gz, mode=mode, lo=1, hi=3000, wtype='request')))
                        out.append(('encoded', dict(te=te, ce=ce, gz=gz, mode=mode, lo=1, hi=300, really=0)))
                    sizes = [(65530, 65540), (100000, 100000), (131072, 131072), (200000, 200000)]
                    for lo, hi in sizes if mode == 'payload' else sizes[1:2]:
                        out.append(('encoded', dict(te=te, ce=ce, gz=gz, mode=mode, lo=lo, hi=hi)))
            out.append(('free', dict(gz=gz, mode=mode, n=3 if q else 6)))
            for rt, rest in (('response', 1), ('request', 1), ('revisit', 0)):
                for spec in (['\r\n'], ['HTTP/1.1\r\n\r\n'], ['HTTP/1.1 200 OK\r\n\r\n'], ['HTTP/1.1 200\r\nA: b\r\n\r\n'], ['ICY 200 OK\r\nA: b: c\r\nA: \r\n\r\n']):
                    out.append(('odd', dict(rtype=rt, spec=spec, gz=gz, mode=mode, rest=rest)))
    return out
