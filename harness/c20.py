from harness.common import num

COVERS = ['brackets', 'spaces', 'both', 'unchanged', 'empty', 'not ascii', 'http parsed', 'arc2warc', 'one bracket', 'duplicate',
          'other header', 'reloaded', 'lower case name', 'no target']
BOUNDS = ('target URIs of arbitrary length up to 2000 with up to 3 arbitrary characters (ASCII or not) at the start, in the middle and at '
          'the end; other headers with the same kind of values before and after; all record types; plain, gzip and arc2warc')
OUTSIDE = 'more than two target URI headers; blanks at the ends of a value (stripped by the parser, C13)'
R = ((33, 126), (0xa1, 0x7ff))


def value(S, nm, a, m, z, hi, wide=0):
    """a value: a arbitrary characters, text, m arbitrary, text, z arbitrary"""
    inner = ((32, 126), (0xa1, 0x7ff)) if wide else ((32, 126),)
    edge = R if wide else ((33, 126),)
    out = S.str(nm + 'a', a, ranges=edge) if a else ''
    if hi:
        out = out + S.text_blob(nm + 'x', 0, hi)
    if m:
        out = out + S.str(nm + 'm', m, ranges=inner)
        if hi:
            out = out + S.text_blob(nm + 'y', 0, hi)
    if z:
        out = out + S.str(nm + 'z', z, ranges=edge)
    S.assume(not out or (out[0] != ' ' and out[-1] != ' '))
    if wide:
        S.cover('not ascii')
    return out


def normal(S, uri):
    """what the target URI must become"""
    new = uri
    if len(new) >= 2 and new[0] == '<' and new[-1] == '>':
        new = new[1:-1]
        S.cover('brackets')
    elif new and (new[0] == '<' or new[-1] == '>'):
        S.cover('one bracket')
    out = ''
    parts = new.split(' ')
    if len(parts) > 1:
        S.cover('spaces')
        if new is not uri:
            S.cover('both')
        out = parts[0]
        for p in parts[1:]:
            out = out + '%20' + p
    else:
        out = new
    if out == uri:
        S.cover('unchanged')
    if not out:
        S.cover('empty')
    return out


def load(S, data, gz=0, **kw):
    from warcio.archiveiterator import ArchiveIterator
    it = ArchiveIterator(S.BytesIO(S.gzip(data) if gz else data), **kw)
    recs = []
    for r in it:
        recs.append((r.format, r.rec_type, [tuple(h) for h in r.rec_headers.headers], r.http_headers is not None, r.raw_stream.read()))
    S.check_eq(len(recs), 1, 'one record')
    return recs[0]


def build(rtype, hdrs, block):
    data = b'WARC/1.0\r\nWARC-Type: ' + rtype.encode('latin-1') + b'\r\n'
    for n, v in hdrs:
        data = data + n.encode('latin-1') + b': ' + v.encode('utf-8') + b'\r\n'
    return data + b'Content-Length: ' + num(len(block)) + b'\r\n\r\n' + block + b'\r\n\r\n'


def target(S, a, m, z, hi, wide=0, rtype='resource', gz=0, name='WARC-Target-URI', others=0, pre='', parse=1, digests=0):
    uri = pre + value(S, 'u', a, m, z, hi, wide)
    if name != 'WARC-Target-URI':
        S.cover('lower case name')
    before, after = [], []
    if others:
        before = [('WARC-Refers-To-Target-URI', '<' + value(S, 'o', 0, 2, 0, 50) + '>')]
        after = [('WARC-Filename', value(S, 'f', 1, 1, 1, 0)), ('X-WARC-Target-URI', '<a b>')]
        S.cover('other header')
    block = b'HTTP/1.1 200 OK\r\nA: <b c>\r\n\r\nbody' if rtype in ('response', 'revisit') else \
            b'GET <a b> HTTP/1.0\r\nA: <b c>\r\n\r\nbody' if rtype == 'request' else b'body'
    data = build(rtype, before + [(name, uri)] + after, block)
    kw = {}
    if not parse:
        kw['no_record_parse'] = True
    if digests:
        kw['check_digests'] = True
    fmt, rt, hdrs, http, body = load(S, data, gz, **kw)
    new = normal(S, uri)
    want = [('WARC-Type', rtype)] + before + [(name, new)] + after + [('Content-Length', str(len(block)))]
    S.check_eq(hdrs, want, 'headers')
    S.check_eq(rt, rtype, 'type')
    if rtype in ('response', 'request', 'revisit') and parse:
        is_http = new.startswith('http:') or new.startswith('https:')
        S.check_eq(http, is_http, 'HTTP headers as for the normalised URI')
        if http:
            S.cover('http parsed')
        S.check_eq(body, b'body' if is_http else block, 'content')
    else:
        S.check_eq(body, block, 'content')
    S.observe('hdrs', hdrs)


def again(S, a, m, z, rtype):
    """writing what was loaded and loading it again changes nothing once it is normalised"""
    from warcio.warcwriter import BufferWARCWriter
    from warcio.archiveiterator import ArchiveIterator
    uri = value(S, 'u', a, m, z, 0)
    new = normal(S, uri)
    S.assume(new and not (new[0] == '<' and new[-1] == '>') and new[0] != ' ' and new[-1] != ' ')
    data = build(rtype, [('WARC-Target-URI', uri), ('WARC-Record-ID', '<x:1>'), ('WARC-Date', '2020-01-01T00:00:00Z')], b'body')
    w = BufferWARCWriter(gzip=False)
    for r in ArchiveIterator(S.BytesIO(data)):
        first = [tuple(h) for h in r.rec_headers.headers]
        w.write_record(r)
    S.check_eq(dict(first)['WARC-Target-URI'], new, 'normalised')
    out = w.get_contents()
    for r in ArchiveIterator(S.BytesIO(out)):
        S.check_eq(dict([tuple(h) for h in r.rec_headers.headers])['WARC-Target-URI'], new, 'not changed again')
        S.cover('reloaded')


def twice(S, hi):
    """a repeated header: each is treated alike and none takes the place of the other"""
    u1, u2 = value(S, 'u', 1, 0, 1, hi), value(S, 'v', 1, 0, 1, hi)
    fmt, rt, hdrs, http, body = load(S, build('resource', [('WARC-Target-URI', u1), ('X', 'y'), ('WARC-Target-URI', u2)], b'body'))
    got = [v for n, v in hdrs if n == 'WARC-Target-URI']
    S.check_eq(len(got), 2, 'both delivered')
    S.check_eq(got[0], normal(S, u1), 'first')
    S.check(got[1] == u2 or got[1] == normal(S, u2), 'second is its own')
    S.cover('duplicate')


def none(S, rtype):
    v = value(S, 'o', 1, 1, 1, 100)
    fmt, rt, hdrs, http, body = load(S, build(rtype, [('WARC-Refers-To-Target-URI', v), ('Other', '<a b>')], b'body'))
    S.check_eq(hdrs, [('WARC-Type', rtype), ('WARC-Refers-To-Target-URI', v), ('Other', '<a b>'), ('Content-Length', '4')], 'headers')
    S.cover('no target')


def arc(S, a, m, z, hi):
    uri = value(S, 'u', a, m, z, hi)
    line = uri.encode('utf-8') + b' 1.2.3.4 20200101000000 text/plain 4\nbody\n'
    S.assume(not uri.startswith('http') and not uri.startswith('<http') and not uri.startswith('filedesc') and not uri.startswith('WARC'))
    fmt, rt, hdrs, http, body = load(S, line, arc2warc=True)
    S.check_eq(dict(hdrs)['WARC-Target-URI'], normal(S, uri), 'target URI')
    S.check_eq(body, b'body', 'content')
    S.cover('arc2warc')
    fmt, rt, hdrs, http, body = load(S, line)
    S.check_eq(dict(hdrs)['uri'], uri, 'ARC field is as it is')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(**kw):
        out.append(('target', kw))
    for rt in ('resource', 'response', 'request', 'revisit', 'metadata', 'warcinfo', 'conversion', 'continuation'):
        o(a=1, m=1, z=1, hi=100, rtype=rt)
        o(a=1, m=0, z=1, hi=10, rtype=rt, pre='<')
        o(a=0, m=1, z=1, hi=10, rtype=rt, pre='http://')
        o(a=0, m=1, z=1, hi=10, rtype=rt, pre='<https:')
        if rt in ('response', 'request', 'revisit'):
            o(a=0, m=1, z=1, hi=10, rtype=rt, pre='<http:', parse=0)
            o(a=0, m=1, z=1, hi=10, rtype=rt, pre='<http:', digests=1)
    n = 2 if q else 3
    for a in range(0, n + 1):
        for m in range(0, n + 1):
            for z in range(0, n + 1):
                o(a=a, m=m, z=z, hi=0 if a + m + z > 4 else 2000)
    o(a=1, m=1, z=1, hi=50, wide=1)
    o(a=0, m=1, z=1, hi=50, wide=1, pre='<')
    o(a=2, m=0, z=2, hi=0, gz=1)
    for nm in ('warc-target-uri', 'WARC-TARGET-URI'):
        o(a=1, m=1, z=1, hi=50, name=nm)
    o(a=1, m=1, z=1, hi=0, others=1)
    o(a=1, m=0, z=1, hi=50, others=1, rtype='response')
    for rt in ('resource', 'metadata'):
        out.append(('again', dict(a=1, m=1, z=1, rtype=rt)))
        out.append(('none', dict(rtype=rt)))
        out.append(('none', dict(rtype='warcinfo')))
    out.append(('twice', dict(hi=50)))
    out.append(('arc', dict(a=1, m=1, z=1, hi=50)))
    out.append(('arc', dict(a=2, m=0, z=2, hi=0)))
    return out
