from harness.common import warc, num
from harness.wr import split_record, header_of, ident

COVERS = ['1.0', '1.1', 'default version', 'no fraction', 'fraction', 'revisit', 'revisit http', 'warcinfo', 'entry skipped', 'no file name', 'pair',
          'pair mismatched', 'pair read back', 'kept id', 'kept date', 'kept type', 'kept headers', 'given headers', 'no uri', 'gzip', 'made ids differ', 'non ascii',
          'content type by kind', 'local time ahead']
BOUNDS = ('WARC versions 1.0 and 1.1 in every accepted spelling; every second of 6 days (ends of months and years, leap day) and every microsecond, local time 0, '
          '+5:30 and -8:00; URIs, dates, digests, file names and info values of arbitrary length up to 60 (thorough 300) or with up to 2 (thorough 3) arbitrary characters, '
          'up to 3 info entries empty or not; all record types, with supplied or absent id, date, content type, URI and extra headers (names in arbitrary case); '
          'pairs of built or read records that disagree in URI and date; plain and gzip')
OUTSIDE = 'calendar arithmetic on other days (C18); info values that are no text and not true; a response without URI or date in a pair'

DATES = ((1970, 1, 1, 0), (1999, 12, 31, 10956), (2024, 2, 29, 19782), (2023, 3, 1, 19417), (2000, 2, 29, 11016), (2038, 1, 19, 24855))
PROFILE = {'1.0': 'http://netpreserve.org/warc/1.0/revisit/identical-payload-digest', '1.1': 'http://netpreserve.org/warc/1.1/revisit/identical-payload-digest'}
SPELL = {'1.0': ('1.0', 1.0, 'WARC/1.0', None), '1.1': ('1.1', 1.1, 'WARC/1.1')}
TYPES = {'warcinfo': 'application/warc-fields', 'response': 'application/http; msgtype=response', 'revisit': 'application/http; msgtype=response',
         'request': 'application/http; msgtype=request', 'metadata': 'application/warc-fields', 'resource': 'application/warc-record',
         'conversion': 'application/warc-record', 'continuation': 'application/warc-record'}


def digits(n, k):
    out = ''
    for i in range(k):
        out = str(n % 10) + out
        n = n // 10
    return out


def clock(S, day, zone=0, fixed=False):
    """-> acceptable WARC-Date texts by version"""
    y, mo, d, base = DATES[day]
    lo = base * 86400
    if fixed:
        t = S.now('now', lo, lo, zone=zone)
        us = 0
    else:
        t, us = S.now('now', lo, lo + 86399, micros=True, zone=zone)
    s = t - lo
    text = '%04d-%02d-%02dT' % (y, mo, d) + digits(s // 3600, 2) + ':' + digits(s // 60 % 60, 2) + ':' + digits(s % 60, 2)
    if zone:
        S.cover('local time ahead')
    return {'1.0': [text + 'Z'], '1.1': [text + '.' + digits(us, 6) + 'Z'] + ([text + 'Z'] if us == 0 else [])}


def writer(S, version, gz=0):
    from warcio.warcwriter import WARCWriter
    out = S.BytesIO()
    kw = {} if version is None else {'warc_version': version}
    return out, WARCWriter(out, gzip=bool(gz), **kw)


def records(S, data, gz, n):
    """header lines and block of each written record"""
    out = []
    if gz:
        ms = S.members(data)
        S.check_eq(len(ms), n, 'one member per record')
        S.cover('gzip')
    for i in range(n):
        if gz:
            data = ms[i]
        head, rest = split_record(S, data, 'record')
        ln = int(header_of(head, b'Content-Length')[0])
        out.append((head, rest[:ln]))
        S.check_eq(rest[ln:ln + 4], b'\r\n\r\n', 'terminated')
        data = rest[ln + 4:]
    S.check_eq(len(data), 0, 'no other records')
    return out


def one_header(S, head, name, value, label=''):
    """value: text, bytes or list of acceptable ones"""
    got = header_of(head, name.encode('latin-1'))
    S.check_eq(len(got), 1, label + 'one ' + name)
    if isinstance(value, list):
        S.check(any(got[0] == v.encode('utf-8') for v in value), label + name)
    else:
        S.check_eq(got[0], value.encode('utf-8'), label + name)


def made_id(S, head):
    got = header_of(head, b'WARC-Record-ID')
    S.check_eq(len(got), 1, 'one WARC-Record-ID')
    hex32 = got[0][10:-1].replace(b'-', b'')
    S.check(got[0][:10] == b'<urn:uuid:' and got[0][-1:] == b'>' and len(got[0]) == 47 and len(hex32) == 32 and int(hex32, 16) > 0, 'record id made from a UUID')
    return got[0]


def version_line(S, head, version):
    S.check_eq(head[:head.find(b'\r\n')], b'WARC/' + version.encode('latin-1'), 'version line')
    S.cover(version)


def free_text(S, nm, what, hi=60):
    if what == 'blob':
        return 'x' + S.text_blob(nm, 0, hi)
    if what == 'uni':
        S.cover('non ascii')
        return 'x' + S.str(nm, 2, ranges=((33, 0xd7ff), (0xe000, 0x10ffff))) + 'z'
    if what == 'uni3':
        return 'x' + S.str(nm, 3, ranges=((33, 126), (160, 0xd7ff))) + 'z'
    return what


def dates(S, version, spell, day, kind, zone=0):
    want = clock(S, day, zone)[version]
    sp = SPELL[version][spell]
    if sp is None:
        S.cover('default version')
    out, w = writer(S, sp)
    if kind == 'warcinfo':
        r = w.create_warcinfo_record('f', {'a': 'b'})
    elif kind == 'revisit':
        r = w.create_revisit_record('http://x.org/', 'sha1:X', 'http://y.org/', '2019-01-01T00:00:00Z')
    else:
        r = w.create_warc_record('http://x.org/', kind, payload=S.BytesIO(b'GET / HTTP/1.1\r\n\r\n' if kind == 'request' else b'HTTP/1.1 200 OK\r\n\r\n'))
    w.write_record(r)
    (head, block), = records(S, out.getvalue(), 0, 1)
    version_line(S, head, version)
    one_header(S, head, 'WARC-Date', want)
    got = header_of(head, b'WARC-Date')[0]
    if version == '1.0':
        S.check_eq(len(got), 20, 'second precision')
    S.cover('fraction' if len(got) > 20 else 'no fraction')


def revisit(S, version, uri, ref, rdate, digest, http, gz=0, hi=60, dig=0):
    from warcio.statusandheaders import StatusAndHeaders
    want = clock(S, 1, fixed=True)[version]
    out, w = writer(S, version, gz)
    uri, ref = 'http://x.org/' + free_text(S, 'u', uri, hi), 'http://y.org/' + free_text(S, 'r', ref, hi)
    rdate, digest = free_text(S, 'd', rdate, hi), free_text(S, 'g', digest, hi)
    kw = {}
    body = b''
    if http:
        kw['http_headers'] = StatusAndHeaders('200 OK', [('A', 'b'), ('C', 'd: e')], protocol='HTTP/1.1')
        body = b'HTTP/1.1 200 OK\r\nA: b\r\nC: d: e\r\n\r\n'
        S.cover('revisit http')
    if dig:
        kw['warc_headers_dict'] = {'WARC-Record-ID': ident(7), 'X-Other': 'o'}
    r = w.create_revisit_record(uri, digest, ref, rdate, **kw)
    w.write_record(r)
    w.write_record(w.create_warc_record('http://n.org/', 'resource', payload=S.BytesIO(b'next')))
    (head, block), (head2, block2) = records(S, out.getvalue(), gz, 2)
    version_line(S, head, version)
    for n, v in (('WARC-Type', 'revisit'), ('WARC-Target-URI', uri), ('WARC-Profile', PROFILE[version]), ('WARC-Refers-To-Target-URI', ref),
                 ('WARC-Refers-To-Date', rdate), ('WARC-Payload-Digest', digest), ('WARC-Date', want), ('Content-Type', TYPES['revisit'])):
        one_header(S, head, n, v)
    if dig:
        one_header(S, head, 'WARC-Record-ID', ident(7))
        one_header(S, head, 'X-Other', 'o')
    S.check_eq(block, body, 'HTTP headers only')
    S.check_eq(block2, b'next', 'next record')
    S.cover('revisit')


def warcinfo(S, version, fname, values, gz=0, hi=60):
    from collections import OrderedDict
    want = clock(S, 2, fixed=True)[version]
    out, w = writer(S, version, gz)
    name = free_text(S, 'f', fname, hi) if fname else fname
    info, body = OrderedDict(), b''
    for i, v in enumerate(values):
        nm = ('software', 'format', 'is-Part-Of')[i]
        if v == '?':
            v = S.text_blob('v%d' % i, 0, hi)
        elif v == 'n':
            v = S.int('v%d' % i, 1, 99)
        else:
            v = free_text(S, 'v%d' % i, v, hi) if v else v
        info[nm] = v
        if v:
            body = body + (nm + ': ' + str(v) + '\r\n').encode('utf-8')
        else:
            S.cover('entry skipped')
    r = w.create_warcinfo_record(name, info)
    w.write_record(r)
    (head, block), = records(S, out.getvalue(), gz, 1)
    version_line(S, head, version)
    one_header(S, head, 'WARC-Type', 'warcinfo')
    one_header(S, head, 'WARC-Date', want)
    one_header(S, head, 'Content-Type', TYPES['warcinfo'])
    made_id(S, head)
    if name:
        one_header(S, head, 'WARC-Filename', name)
    else:
        S.check_eq(header_of(head, b'WARC-Filename'), [], 'no file name')
        S.cover('no file name')
    S.check_eq(header_of(head, b'WARC-Target-URI'), [], 'no URI')
    S.check_eq(block, body, 'one line per non-empty entry, in order')
    S.cover('warcinfo')


def pair(S, version, via, uri='blob', date='blob', hi=60, gz=0, extra=0):
    """via: built or read"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeaders
    clock(S, 3, fixed=True)
    out, w = writer(S, version, gz)
    uri, date = 'http://x.org/' + free_text(S, 'u', uri, hi), free_text(S, 'd', date, hi)
    body = S.blob('b', 0, 300)
    qbody = S.blob('q', 0, 300)
    http, qhttp = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n', b'POST / HTTP/1.1\r\nHost: x\r\n\r\n'
    if via == 'built':
        resp = w.create_warc_record(uri, 'response', payload=S.BytesIO(http + body), warc_headers_dict={'WARC-Record-ID': ident(1), 'WARC-Date': date})
        qh = {'WARC-Record-ID': ident(2), 'WARC-Date': '2011-01-01T00:00:00Z'}
        if extra:
            qh['WARC-Concurrent-To'] = ident(9)
            qh['X-Other'] = 'o'
        req = w.create_warc_record('http://other.org/', 'request', payload=S.BytesIO(qhttp + qbody), warc_headers_dict=qh)
        S.cover('pair mismatched')
    elif via == 'bare':
        # no ids or dates supplied
        resp = w.create_warc_record(uri, 'response', payload=S.BytesIO(http + body), warc_headers_dict={'WARC-Date': date})
        req = w.create_warc_record(uri, 'request', payload=S.BytesIO(qhttp + qbody))
    else:
        recs = []
        for t, b, h in ((b'response', http + body, b'WARC-Date: ' + date.encode('utf-8') + b'\r\nWARC-Record-ID: ' + ident(1).encode('latin-1') + b'\r\n'),
                        (b'request', qhttp + qbody, b'WARC-Record-ID: ' + ident(2).encode('latin-1') + b'\r\n')):
            recs.append(next(iter(ArchiveIterator(S.BytesIO(warc(t, b, h, uri=uri.encode('utf-8') if t == b'response' else b'http://other.org/'))))))
        resp, req = recs
        S.cover('pair read back')
    w.write_request_response_pair(req, resp)
    (h1, b1), (h2, b2) = records(S, out.getvalue(), gz, 2)
    rid = ident(1)
    one_header(S, h1, 'WARC-Type', 'response')
    one_header(S, h2, 'WARC-Type', 'request')
    for h in (h1, h2):
        one_header(S, h, 'WARC-Target-URI', uri)
        one_header(S, h, 'WARC-Date', date)
    if via == 'bare':
        rid = made_id(S, h1).decode('latin-1')
        S.check(made_id(S, h2) != rid.encode('latin-1'), 'ids differ')
    else:
        one_header(S, h1, 'WARC-Record-ID', rid)
        one_header(S, h2, 'WARC-Record-ID', ident(2))
    S.check_eq(header_of(h1, b'WARC-Concurrent-To'), [], 'the response refers to nothing')
    if extra:
        S.check(rid.encode('latin-1') in header_of(h2, b'WARC-Concurrent-To'), 'concurrent to the response')
        one_header(S, h2, 'X-Other', 'o')
    else:
        one_header(S, h2, 'WARC-Concurrent-To', rid)
    S.check_eq(b1, http + body, 'response block')
    S.check_eq(b2, qhttp + qbody, 'request block')
    S.cover('pair')


def kept(S, version, rtype, rid, date, ctype, uri, how='dict', gz=0, hi=60, case=0, more=0):
    """caller-supplied values are kept, missing ones are made"""
    from warcio.statusandheaders import StatusAndHeaders
    want = clock(S, 4, fixed=True)[version]
    out, w = writer(S, version, gz)
    up = (lambda n: n.lower()) if case == 1 else (lambda n: n.upper()) if case == 2 else (lambda n: n)
    wh = {}
    if more:
        wh['X-First'] = 'f'
    if rid:
        rid = free_text(S, 'i', rid, hi)
        wh[up('WARC-Record-ID')] = rid
        S.cover('kept id')
    if date:
        date = free_text(S, 'd', date, hi)
        wh[up('WARC-Date')] = date
        S.cover('kept date')
    kw = {}
    if ctype == 'param':
        ct = free_text(S, 'c', 'blob', hi)
        kw['warc_content_type'] = ct
        S.cover('kept type')
    elif ctype == 'header':
        ct = free_text(S, 'c', 'blob', hi)
        wh[up('Content-Type')] = ct
        S.cover('kept type')
    elif ctype == 'both':
        ct = free_text(S, 'c', 'blob', hi)
        wh[up('Content-Type')] = 'other/type'
        kw['warc_content_type'] = ct
    else:
        ct = TYPES[rtype]
        S.cover('content type by kind')
    if more:
        wh['X-Last'] = 'l'
        wh[up('WARC-Type')] = 'conversion'
        S.cover('kept headers')
    if uri:
        u = 'http://x.org/' + free_text(S, 'u', uri, hi)
    else:
        u = None
        S.cover('no uri')
    payload = S.blob('b', 0, 300)
    http = b''
    if uri and rtype in ('response', 'request'):
        http = b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' if rtype == 'response' else b'POST / HTTP/1.1\r\nHost: x\r\n\r\n'
    if how == 'given':
        # complete headers given
        hs = [('WARC-Type', rtype)] + list(wh.items()) + ([('WARC-Target-URI', u)] if u else [])
        if more:
            hs = [(a, b) for a, b in hs if a.lower() != 'warc-type'] + [('WARC-Type', rtype)]
        kw['warc_headers'] = StatusAndHeaders('', hs, protocol='WARC/' + version)
        S.cover('given headers')
    else:
        kw['warc_headers_dict'] = wh
    r = w.create_warc_record(u, rtype, payload=S.BytesIO(http + payload), **kw)
    r2 = w.create_warc_record('http://z.org/', 'resource', payload=S.BytesIO(b'z'))
    w.write_record(r)
    w.write_record(r2)
    (head, block), (head2, block2) = records(S, out.getvalue(), gz, 2)
    version_line(S, head, version)
    one_header(S, head, 'WARC-Type', rtype)
    if u:
        one_header(S, head, 'WARC-Target-URI', u)
    else:
        S.check_eq(header_of(head, b'WARC-Target-URI'), [], 'no URI')
    one_header(S, head, 'Content-Type', ct)
    if rid:
        one_header(S, head, 'WARC-Record-ID', rid)
    elif how != 'given':
        S.check(made_id(S, head) != made_id(S, head2), 'ids differ')
        S.cover('made ids differ')
    if date:
        one_header(S, head, 'WARC-Date', date)
    elif how != 'given':
        one_header(S, head, 'WARC-Date', want)
    if more:
        one_header(S, head, 'X-First', 'f')
        one_header(S, head, 'X-Last', 'l')
    S.check_eq(block, http + payload, 'block')


def jobs(tier):
    q = tier == 'quick'
    out = []
    hi = 60 if q else 300
    for v in ('1.0', '1.1'):
        for sp in range(len(SPELL[v])):
            for k, kind in enumerate(('warcinfo', 'revisit', 'response', 'request', 'resource', 'metadata')):
                for day in (range(6) if not q else ((sp + k) % 6,)):
                    out.append(('dates', dict(version=v, spell=sp, day=day, kind=kind)))
                    if sp == 0 and (k in (0, 2) or not q):
                        for z in (330, -480) if not q else (330,) if k else (-480,):
                            out.append(('dates', dict(version=v, spell=sp, day=day, kind=kind, zone=z)))
        for http in (0, 1):
            for gz in (0, 1):
                for dig in (0, 1):
                    out.append(('revisit', dict(version=v, uri='blob', ref='blob', rdate='blob', digest='blob', http=http, gz=gz, hi=hi, dig=dig)))
            for f in range(4):
                for what in ('uni',) if q else ('uni', 'uni3'):
                    a = ['a', 'b', '2019-01-01T00:00:00Z', 'sha1:G']
                    a[f] = what
                    out.append(('revisit', dict(version=v, uri=a[0], ref=a[1], rdate=a[2], digest=a[3], http=http)))
        for f in ('blob', 'uni', '', None):
            for vals in ([], ['?'], ['?', '?'], ['', 'a', '?'], [None, 'uni'], ['?', None, 'n'], ['n', '?', 'x'], ['uni', '', 'uni']):
                if f == 'uni' and 'uni' in vals and q:
                    continue
                for gz in (0, 1):
                    out.append(('warcinfo', dict(version=v, fname=f, values=vals, gz=gz, hi=hi)))
        for via in ('built', 'bare', 'read'):
            for gz in (0, 1):
                out.append(('pair', dict(version=v, via=via, gz=gz, hi=hi)))
                if not q or (v == '1.0' and gz == (via == 'read')):
                    out.append(('pair', dict(version=v, via=via, gz=gz, hi=hi, uri='uni', date='2019-01-01T00:00:00Z')))
                if via == 'built':
                    out.append(('pair', dict(version=v, via=via, gz=gz, hi=hi, extra=1)))
        for rt in ('response', 'request', 'resource', 'metadata', 'conversion', 'continuation'):
            for rid in ('', 'blob'):
                for date in ('', 'blob'):
                    for ct in ('', 'param', 'header', 'both'):
                        if q and v == '1.1' and (ct in ('param', 'both') or rt in ('metadata', 'continuation')):
                            continue
                        case = (len(rid) + len(date) + len(ct) + len(rt)) % 3
                        out.append(('kept', dict(version=v, rtype=rt, rid=rid, date=date, ctype=ct, uri='blob', hi=hi, case=case)))
                        out.append(('kept', dict(version=v, rtype=rt, rid=rid, date=date, ctype=ct, uri='blob', hi=hi, case=(case + 1) % 3, more=1, gz=1)))
                        if rt in ('resource', 'metadata') and ct in ('', 'header'):
                            out.append(('kept', dict(version=v, rtype=rt, rid=rid, date=date, ctype=ct, uri='', hi=hi, case=case)))
                        out.append(('kept', dict(version=v, rtype=rt, rid=rid, date=date, ctype=ct, uri='blob', how='given', hi=hi)))
            if q and v == '1.1':
                continue
            if q:
                out.append(('kept', dict(version=v, rtype=rt, rid='uni', date='', ctype='', uri='a', hi=hi)))
            out.append(('kept', dict(version=v, rtype=rt, rid='a' if q else 'uni', date='', ctype='', uri='uni', hi=hi)))
    return out
