import json
from collections import OrderedDict

from harness.arch import layout, HHDR
from harness.common import warc, decode_line, num

COVERS = ['offset', 'length', 'filename', 'status', 'http header', 'warc header', 'absent', 'other case', 'several inputs', 'gzip', 'plain',
          'arc', 'to file', 'stdin', 'free value', 'empty value', 'escaped', 'no record', 'default fields', 'status of request', 'repeated', 'odd status']
BOUNDS = ('1 to 3 inputs of 0 to 3 records (WARC and ARC of all kinds, content of arbitrary length up to 2000, with newlines or record-like text), plain, gzipped '
          'or from stdin, separating lines varied; 30 (thorough 60) field lists of 1 to 7 fields in varied order and case; header values and status codes of up to '
          '3 (thorough 4) arbitrary bytes; through the command line entry point, to stdout or a file')
OUTSIDE = 'ARC file header records; WARC-Record-ID of converted ARC records; field names with arbitrary characters'


def text(v):
    return v if isinstance(v, str) else decode_line(v)


def value(rec, pos, fname, field):
    """the field of a record or None; rec: dict(type, headers, http)"""
    if field == 'offset':
        return str(pos[0])
    if field == 'length':
        return str(pos[1])
    if field == 'filename':
        return fname.rsplit('/', 1)[-1]
    hs = rec['headers']
    low = field.lower()
    if field == 'http:status':
        return rec['status'] if rec['http'] is not None and rec['type'] in ('response', 'revisit') else None
    if field.startswith('http:'):
        if rec['http'] is None:
            return None
        hs, low = rec['http'], low[5:]
    for k, v in hs:
        if k.lower() == low:
            return v
    return None


def describe(r):
    if r.fmt == 'arc':
        d = r.data
        hs = [('WARC-Type', 'response'), ('WARC-Target-URI', r.uri), ('WARC-IP-Address', '1.2.3.4'), ('WARC-Date', '2020-01-02T03:04:05Z'),
              ('Content-Type', 'application/http;msgtype=response'), ('Content-Length', str(len(d) - d.find(b'\n') - 1))]
    else:
        hs = r.headers
    return dict(type=r.rtype, headers=hs, http=r.http[2] if r.http else None, status='200')


def line(S, rec, pos, fname, fields):
    out = OrderedDict()
    for f in fields:
        v = value(rec, pos, fname, f)
        if v is not None:
            out[f] = v
    return json.dumps(out) + '\n'


def index(S, files, fields, to='out'):
    """files: [(name or None for stdin, data, [(rec, pos)])]; -> what is printed must be the lines"""
    from warcio.cli import main
    args, stdin, want = [], b'', ''
    for name, data, recs in files:
        if name is None:
            stdin = data
            args.append('-')
            fn = '-'
            S.cover('stdin')
        else:
            fn = S.put_file(name, data)
            args.append(fn)
        for rec, pos in recs:
            want = want + line(S, rec, pos, fn, fields or ['offset', 'warc-type', 'warc-target-uri'])
    opts = ['-f', ','.join(fields)] if fields else []
    if not fields:
        S.cover('default fields')
    if to == 'file':
        o = S.path('out.cdxj')
        opts += ['-o', o]
        S.cover('to file')
    if to == 'default':
        args = []
    res = S.run(lambda: main(['index'] + opts + args), stdin=stdin)
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check_eq(res.status, 0, 'exit status')
    got = S.get_file(o).decode('utf-8') if to == 'file' else res.text
    S.check_eq(got, want, 'one line per record, with the fields in order')
    if len(files) > 1:
        S.cover('several inputs')


def archives(S, sets, fields, gz=0, hi=60, sep='norm', empties=(), to='out', stdin=None, lo=0):
    files = []
    for i, kinds in enumerate(sets):
        data, recs, pos = layout(S, kinds, gz, hi, sep, None, empties, lo, 3 * i) if kinds else (b'', [], [])
        files.append((None if stdin == i else 'd%d.warc' % i, data, [(describe(r), p) for r, p in zip(recs, pos)]))
        if not kinds:
            S.cover('no record')
        for r in recs:
            if r.fmt == 'arc':
                S.cover('arc')
            d = describe(r)
            for f in fields or []:
                v = value(d, (0, 0), 'x', f)
                if v is None:
                    S.cover('absent')
                elif f in ('offset', 'length', 'filename'):
                    S.cover(f)
                elif f == 'http:status':
                    S.cover('status')
                else:
                    S.cover('http header' if f.startswith('http:') else 'warc header')
                    if f.lower() == f or f.upper() == f:
                        S.cover('other case')
                if f == 'http:status' and r.rtype == 'request':
                    S.cover('status of request')
    S.cover('gzip' if gz else 'plain')
    index(S, files, fields, to)


def values(S, fields, n, gz=0, wtype='response', status=None):
    """records with arbitrary header values"""
    nl = ((0, 9), (11, 12), (14, 255))
    a = b'"' + (S.bytes('a', n, ranges=nl) if n else b'') + b'x'
    b = b'x' + (S.bytes('b', n, ranges=nl) if n else b'') + b'\\'
    st = b'200' if status is None else S.bytes('s', status, ranges=((33, 126),))
    http = (b'HTTP/1.1 ' + st + b' OK\r\n' if wtype != 'request' else b'GET / HTTP/1.1\r\n') + b'X-B: ' + b + b'\r\nEmpty: \r\nTwo: 1\r\ntwo: 2\r\n\r\n'
    block = http + (b'' if wtype == 'revisit' else b'body')
    rec = warc(wtype.encode('latin-1'), block, b'X-A: ' + a + b'\r\nX-Empty:\r\nX-Two: 1\r\nx-two: 2\r\n')
    d = dict(type=wtype, headers=[('WARC-Type', wtype), ('WARC-Target-URI', 'http://x.org/'), ('X-A', decode_line(a)), ('X-Empty', ''),
                                  ('X-Two', '1'), ('Content-Length', str(len(block)))],
             http=[('X-B', decode_line(b)), ('Empty', ''), ('Two', '1')], status=decode_line(st))
    if wtype == 'request':
        d['status'] = '/'
    data = S.gzip(rec) if gz else rec
    index(S, [('v.warc', data, [(d, (0, len(data) if gz else len(rec) - 4))])], fields)
    S.cover('free value')
    S.cover('escaped')
    S.cover('empty value')
    S.cover('repeated')
    if status is not None:
        S.cover('odd status')


FIELDS = [
    None, ['offset'], ['length'], ['filename'], ['offset', 'length'], ['length', 'offset'], ['length', 'filename', 'offset'],
    ['warc-type'], ['WARC-TYPE', 'offset', 'length'], ['content-length', 'warc-target-uri', 'x-val'], ['X-VAL', 'nothing', 'Warc-Date'],
    ['http:status'], ['http:content-type'], ['http:CONTENT-TYPE', 'http:x-v', 'http:nothing'], ['http:host', 'http:status', 'warc-type'],
    ['offset', 'http:status', 'length'], ['length', 'http:status', 'http:x-v', 'offset'], ['http:x-v', 'length', 'warc-type', 'offset', 'filename', 'nothing', 'http:status'],
    ['filename', 'http:Content-Type', 'length'], ['content-type', 'http:content-type'], ['nothing'], ['http:nothing', 'nothing'],
    ['offset', 'http:status', 'http:status', 'offset'], ['http:status', 'warc-ip-address'], ['warc-date', 'content-type', 'warc-ip-address', 'http:x-v'],
    ['status', 'http:Status', 'http:offset', 'http:length', 'http:filename'], ['OFFSET', 'Length', 'offset'],
]
VFIELDS = [['x-a'], ['http:x-b'], ['X-A', 'http:X-B', 'x-empty', 'http:empty', 'length'], ['x-two', 'http:two', 'X-TWO', 'http:TWO'], ['offset', 'x-a', 'http:status', 'http:x-b'],
           ['http:x-empty', 'empty', 'http:x-a', 'x-b', 'x-a']]


def jobs(tier):
    q = tier == 'quick'
    out = []
    sets = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low'],
            ['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    for ks in sets:
        for gz in (0, 1):
            for f in FIELDS:
                out.append(('archives', dict(sets=[ks], fields=f, gz=gz, lo=1, hi=9 if q else 60)))
            for f in FIELDS[4:6] + FIELDS[15:18]:
                if gz:
                    out.append(('archives', dict(sets=[ks], fields=f, gz=gz, lo=1, hi=9, empties=[0, 1, 2])))
                out.append(('archives', dict(sets=[ks], fields=f, gz=gz, lo=1, hi=9, sep='more')))
                out.append(('archives', dict(sets=[ks[:1]], fields=f, gz=gz, hi=2000)))
                out.append(('archives', dict(sets=[ks[:1]], fields=f, gz=gz, hi=9, stdin=0)))
                out.append(('archives', dict(sets=[ks[1:2]], fields=f, gz=gz, hi=9, stdin=0, to='default')))
                out.append(('archives', dict(sets=[ks[:2]], fields=f, gz=gz, hi=9, lo=1, to='file')))
    for f in (None, ['filename', 'offset', 'length'], ['http:status', 'filename', 'length', 'warc-type']):
        for gz in (0, 1):
            for ss in ([['res'], ['resp']], [['resp', 'res'], [], ['aresp']], [['aresp', 'adns'], ['info', 'nl']], [[], ['none'], ['wl']], [['req'], ['rev'], ['revh']]):
                for to in ('out', 'file'):
                    out.append(('archives', dict(sets=ss, fields=f, gz=gz, hi=9, lo=1, to=to)))
                out.append(('archives', dict(sets=ss, fields=f, gz=gz, hi=9, lo=1, stdin=1)))
    for wt in ('response', 'request', 'revisit'):
        for f in VFIELDS:
            for gz in (0, 1):
                out.append(('values', dict(fields=f, n=1 if q else 2, gz=gz, wtype=wt)))
                if 'http:status' in f and wt != 'request':
                    out.append(('values', dict(fields=['http:status', 'offset'], n=0, gz=gz, wtype=wt, status=3)))
                    out.append(('values', dict(fields=['warc-type', 'http:status'], n=0, gz=gz, wtype=wt, status=1)))
    return out
