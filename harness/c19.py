from harness.arch import HEAD, HHDR
from harness.common import num

COVERS = ['arc', 'arc2warc', 'header', 'spaces', 'not ascii', 'gzip', 'no http', 'empty', 'crlf', 'second record', 'short date',
          'block boundary', 'version not ascii', 'request fields kept', 'last record']
BOUNDS = ('files of 1 to 4 ARC records with and without file header; URL, IP, type of arbitrary length with up to 3 arbitrary '
          'characters (spaces and raw bytes included), 0 to 16 date digits, content and version block lines of arbitrary length up to 3000, '
          'arbitrary bytes in the version and origin line; plain and gzip; line ends \\n and \\r\\n; block sizes with at most 2 (thorough 3) fills')
OUTSIDE = 'ARC version 2 record lines (10 fields)'


def text_of(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('latin-1')


def part(S, nm, what, lo=1, hi=200):
    """a field: bytes without a line end; spaces only where allowed"""
    if what == 'fix':
        return b'some/text'
    if what == 'x1':
        return b'a b' + S.bytes(nm, 1, ranges=((32, 126),)) + b'c'
    if what == 'plain':
        return S.blob(nm, lo, hi)
    n = int(what[1:2])
    rng = {'p': ((33, 126),), 's': ((32, 126),), 'b': ((33, 255),), 'a': ((0, 9), (11, 31), (32, 255))}[what[0]]
    return S.blob(nm + 'a', lo, hi) + S.bytes(nm + 'c', n, ranges=rng) + (b'' if what[-1] == 'e' else S.blob(nm + 'z', lo, hi))


def one(S, i, url='plain', ip='plain', ctype='plain', date=14, scheme='http', http=1, hi=1000, empty=0, eol='\n', nl=0, dval=None, dsym=None):
    """-> (line bytes, expected dict, block, content)"""
    nm = 'r%d' % i
    pre = b'dns:' if scheme == 'dns' else scheme.encode('latin-1') + b'://x/'
    u = pre + part(S, nm + 'u', url)
    ipv = part(S, nm + 'i', ip)
    ct = part(S, nm + 't', ctype)
    dt = b'20240229235958' + b'123'
    dt = dt[:date]
    if dsym:
        a, b = dsym
        dt = dt[:a] + S.bytes(nm + 'd', b - a, ranges=((48, 57),)) + dt[b:]
    content = b'' if empty else S.blob(nm + 'p', 0, hi)
    if nl:
        content = content + b'\n' + S.blob(nm + 'q', 0, hi)
    parsed = http and scheme in ('http', 'https')
    block = (HEAD if parsed else b'') + content
    line = u + b' ' + ipv + b' ' + dt + b' ' + ct + b' ' + num(len(block)) + eol.encode('latin-1')
    text = text_of(line)
    lens = [len(text_of(x)) for x in (ipv, dt, ct)]
    return line, dict(line=text, u=u, ip=ipv, date=dt, ct=ct, n=len(block), http=parsed), block, content


def header(S, i, vers='plain', hi=500, eol='\n', fix=0, name='plain'):
    nm = 'h%d' % i
    v = b'1 0 IA\n' if fix else b'1 0 ' + (S.blob(nm + 'v', 1, hi) if vers == 'plain' else b'I' + S.bytes(nm + 'v', int(vers[1:]), ranges=((0, 9), (11, 255)))) + b'\n'
    s = b'URL IP-address Archive-date Content-type Archive-length\n'
    rest = b'\n' + S.blob(nm + 'x', 0, 5 * hi)
    block = v + s + rest
    fn = b'name.arc' if fix else part(S, nm + 'f', name, 1, hi)
    line = b'filedesc://' + fn + b' 0.0.0.0 20240229235958 text/plain ' + num(len(block)) + eol.encode('latin-1')
    return line, dict(u=b'filedesc://' + fn, ip=b'0.0.0.0', date=b'20240229235958', ct=b'text/plain', n=len(block), http=False,
                      hdr=fn), v + s, rest


def iso(t):
    """WARC date of a timestamp of digits (independent of the library): in range only"""
    return '%s-%s-%sT%s:%s:%sZ' % (t[:4], t[4:6], t[6:8], t[8:10], t[10:12], t[12:14])


def read(S, recs, gz=0, a2w=0, bs=0, fills=3, sep='\n', only=0):
    from warcio.archiveiterator import ArchiveIterator, ARCIterator
    data, exp = b'', []
    for i, r in enumerate(recs):
        r = dict(r)
        kind = r.pop('kind', 'rec')
        if kind == 'hdr':
            line, e, top, content = header(S, i, **r)
            chunk = line + top + content
            S.cover('header')
            if r.get('vers', 'plain') != 'plain':
                S.cover('version not ascii')
        else:
            line, e, block, content = one(S, i, **r)
            chunk = line + block
            if r.get('url', 'p')[0] in 's':
                S.cover('spaces')
            if r.get('url', 'p')[0] in 'ab':
                S.cover('not ascii')
            if r.get('scheme') == 'dns':
                S.cover('no http')
            if r.get('eol') == '\r\n':
                S.cover('crlf')
            if r.get('empty'):
                S.cover('empty')
        chunk = chunk + sep.encode('latin-1')
        data = data + (S.gzip(chunk) if gz else chunk)
        exp.append((e, content))
    if bs == 'any':
        bs = S.int('bs', 1, 20000)
        S.assume(len(data) <= bs * fills)
        S.cover('block boundary')
    kw = {'block_size': bs} if bs else {}
    f = S.BytesIO(data)
    if only:
        it = ARCIterator(f)
    else:
        it = ArchiveIterator(f, arc2warc=bool(a2w), **kw)
    n = 0
    for r in it:
        S.check(n < len(exp), 'no extra record')
        check_rec(S, r, exp[n][0], exp[n][1], a2w, 'record %d: ' % n)
        if n:
            S.cover('second record')
        n += 1
    S.check_eq(n, len(exp), 'every record is found')
    S.cover('last record')
    S.check_eq(it.err_count, 0, 'no errors')
    if gz:
        S.cover('gzip')


def check_rec(S, r, e, content, a2w, label):
    whole = text_of(e['u'] + b' ' + e['ip'] + b' ' + e['date'] + b' ' + e['ct'])
    # fields of the decoded line: the last three hold no space
    parts = whole.rsplit(' ', 3)
    u, ip, date, ct = parts
    got = [tuple(h) for h in r.rec_headers.headers]
    hdr = e.get('hdr')
    if not a2w:
        S.check_eq(got, [('uri', u), ('ip-address', ip), ('archive-date', date), ('content-type', ct), ('length', str(e['n']))],
                   label + 'fields of the line')
        S.check_eq(r.format, 'arc', label + 'format')
        S.check_eq(r.rec_type, 'arc_header' if hdr is not None else 'response', label + 'type')
        S.cover('arc')
    else:
        S.check_eq(r.format, 'warc', label + 'format')
        S.check_eq(r.rec_headers.protocol, 'WARC/1.0', label + 'version')
        S.check_eq(r.rec_type, 'warcinfo' if hdr is not None else 'response', label + 'type')
        h = r.rec_headers
        S.check_eq(h.get_header('WARC-Type'), 'warcinfo' if hdr is not None else 'response', label + 'WARC-Type')
        rid = h.get_header('WARC-Record-ID')
        S.check(rid is not None and rid.startswith('<urn:uuid:') and rid.endswith('>'), label + 'record id')
        S.check_eq(h.get_header('WARC-IP-Address'), ip, label + 'IP')
        S.check_eq([x[0] for x in got].count('WARC-Type'), 1, label + 'one type')
        if hdr is not None:
            S.check_eq(h.get_header('WARC-Filename'), text_of(hdr), label + 'file name')
            S.check(h.get_header('WARC-Target-URI') is None, label + 'no target uri')
            S.check_eq(h.get_header('Content-Type'), ct, label + 'content type')
        else:
            S.check_eq(h.get_header('WARC-Target-URI'), u.replace(' ', '%20'), label + 'URL')
            S.check_eq(h.get_header('Content-Type'), 'application/http;msgtype=response', label + 'content type')
            S.check_eq(h.get_header('Content-Length'), str(e['n']), label + 'length')
        if len(date) >= 14 and '1900' <= date[:4] <= '2999' and '01' <= date[4:6] <= '12' and '01' <= date[6:8] <= '28' and \
                date[8:10] <= '23' and date[10:12] <= '59' and date[12:14] <= '59':
            S.check_eq(h.get_header('WARC-Date'), iso(date), label + 'date')
        elif len(date) < 14:
            from warcio.timeutils import timestamp_to_iso_date
            S.check_eq(h.get_header('WARC-Date'), timestamp_to_iso_date(date), label + 'date')
            S.cover('short date')
        S.cover('arc2warc')
    if e['http']:
        S.check(r.http_headers is not None, label + 'HTTP headers')
        S.check_eq([tuple(x) for x in r.http_headers.headers], HHDR, label + 'HTTP headers')
        S.cover('request fields kept')
    else:
        S.check(r.http_headers is None, label + 'no HTTP headers')
    S.check_eq(r.raw_stream.read(), content, label + 'content')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(*recs, **kw):
        for a in (0, 1):
            out.append(('read', dict(recs=list(recs), a2w=a, **kw)))
    H = dict(kind='hdr')
    D = dict(dval=1)
    small = dict(dval=1, hi=100)
    for u in ('plain', 'p1', 's1', 's2', 'b1', 'a1', 's1e', 's2e') + (() if q else ('s3', 'b2', 'p2', 'a2', 'b1e', 'a1e')):
        o(dict(url=u, hi=50, **D), dict(hi=50, **D))
        o(dict(url=u, hi=50, http=0, scheme='dns', **D))
    for x in ('p1', 'p2') if q else ('p1', 'p2', 'p3'):
        o(dict(ip=x, hi=20, **D), dict(hi=20, **D))
        o(dict(ctype=x, hi=20, **D), dict(hi=20, **D))
    for n in (4, 12, 13, 14, 15, 17) if q else range(1, 18):
        o(dict(date=n, hi=20, **D), dict(hi=20, **D))
    for a, b in ((0, 4), (4, 6), (6, 8), (8, 11), (11, 14)):
        o(dict(dsym=[a, b], hi=20, url='fix', ip='fix', ctype='fix'))
    if not q:
        o(dict(dsym=[0, 8], hi=20, url='fix', ip='fix', ctype='fix'))
    for gz in (0, 1):
        o(dict(hi=3000, **D), dict(hi=3000, **D), gz=gz)
        o(H, dict(hi=3000, **D), dict(hi=1000, scheme='https', **D), gz=gz)
        o(H, gz=gz)
        o(dict(empty=1, scheme='dns', **D), dict(empty=1, **D), dict(hi=10, **D), gz=gz)
        o(dict(nl=1, scheme='dns', **D), dict(nl=1, hi=300, **D), gz=gz)
        o(dict(eol='\r\n', **D), dict(eol='\r\n', scheme='ftp', **D), gz=gz)
        o(H, dict(hi=500, **D), H, dict(hi=500, **D), gz=gz)
        o(dict(hi=500, **D), dict(scheme='dns', **D), sep='\r\n', gz=gz)
        o(dict(hi=500, **D), dict(scheme='dns', **D), sep='\n\n', gz=gz)
    for u in ('p1', 's1', 's2e', 'b1') if q else ('p1', 's1', 's2e', 'b1', 's2', 'b2'):
        o(dict(kind='hdr', name=u, hi=30), dict(hi=30, **D))
    for k in (1, 2) if q else (1, 2, 3):
        o(dict(kind='hdr', vers='c%d' % k, hi=30), dict(hi=30, **D))
    F = dict(url='fix', ip='fix', ctype='fix')
    FH = dict(kind='hdr', fix=1)
    n = 2 if q else 3
    o(FH, dict(hi=5000, **F), bs='any', fills=n)
    o(dict(hi=2000, **F), dict(hi=2000, scheme='dns', **F), bs='any', fills=n)
    o(FH, dict(hi=100, **F), gz=1, bs='any', fills=n)
    o(dict(url='x1', ip='fix', ctype='fix', hi=5, scheme='dns'), bs='any', fills=n)
    FH = dict(kind='hdr', fix=1, hi=0)
    for b in (1, 3, 60) if q else (1, 2, 3, 4, 5, 7, 60):
        o(FH, dict(hi=3, empty=1, **F), bs=b)
    out.append(('read', dict(recs=[H, dict(hi=50, **D)], only=1)))
    out.append(('read', dict(recs=[dict(hi=50, url='s1', **D), dict(hi=50, **D)], only=1)))
    return out
