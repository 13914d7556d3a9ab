from harness.common import fill, warc
from harness.wr import build, split_record, header_of, ALL_KINDS, HTTP_KINDS, PLAIN_KINDS, REVISIT_KINDS, AnyFilter

COVERS = ['gzip', 'http record', 'no http', 'revisit', 'unknown length', 'percent-encoded', 'filtered', 'warcinfo',
          'big payload', 'several records', 'copied', 'caller headers', 'blank http', 'any filter', 'written again']
BOUNDS = ('all record kinds of the builder (response/request/resource/metadata/conversion/warcinfo/revisit; payload '
          'with or without HTTP head, known, supplied or unknown length, seekable or not), payloads of arbitrary '
          'length up to 2^20 plus up to 2 (thorough 3) arbitrary bytes, an HTTP header value of up to 2 arbitrary code '
          'points or arbitrary length, records read back (with and without parsing, with generated HTTP headers) and written again, every header-filter decision (also a filter that decides anew on each call), HTTP headers changed between two writes, plain and gzip, WARC 1.0/1.1, up to 3 records')
OUTSIDE = 'payload streams that raise; a supplied length that is not the payload length'
BIG = [[0, 2 ** 20]]


def one(S, kind, spec, gz, version, hv, flt, given):
    from warcio.warcwriter import WARCWriter
    hval = None
    if hv == 'blob':
        hval = S.text_blob('hv', 0, 5000)
    elif hv == 'uni':
        hval = 'x' + S.str('hv', 2, ranges=((33, 0xd7ff), (0xe000, 0x10ffff)))
    elif hv == 'ascii':
        hval = 'x' + S.str('hv', 1, ranges=((33, 126),))
    drop = flt and S.bool('drop')

    def header_filter(h):
        return None if drop and h[0] == 'X-Val' else h
    out = S.BytesIO()
    w = WARCWriter(out, gzip=bool(gz), warc_version=version, header_filter=header_filter if flt else None)
    kw = {}
    if given:
        # stale values of the caller are replaced
        kw = {'Content-Length': str(S.int('cl', 0, 10 ** 6)), 'Content-Type': 'text/other'}
        S.cover('caller headers')
    rec, ex = build(S, w, kind, 'm0', spec, None if hv == 'uni' else hval, kw)
    if hv == 'uni':
        rec.http_headers.replace_header('X-Val', hval)
    ulen = rec.length is None
    w.write_record(rec)
    data = out.getvalue()
    if gz:
        ms = S.members(data)
        S.check(len(ms) == 1 and ms[0] is not None, 'exactly one complete gzip member')
        data = ms[0]
        S.cover('gzip')
    head, rest = split_record(S, data, 'record')
    first = head[:head.find(b'\r\n')]
    S.check_eq(first, ('WARC/' + version).encode('latin-1'), 'version line')
    cl = header_of(head, b'Content-Length')
    S.check(len(cl) == 1, 'one Content-Length header')
    n = int(cl[0])
    S.check_eq(len(rest), n + 4, 'Content-Length is the exact length of the block')
    S.check_eq(rest[n:], b'\r\n\r\n', 'the block is followed by CRLF CRLF')
    block = rest[:n]
    if ex.rtype == 'revisit':
        S.cover('revisit')
    S.cover('http record' if ex.http else 'no http')
    if ex.rtype == 'warcinfo':
        S.cover('warcinfo')
    if ulen:
        S.cover('unknown length')
    if len(ex.payload) > 2 ** 19:
        S.cover('big payload')
    if ex.http and (hv == 'uni' or drop):
        p = block.find(b'\r\n\r\n')
        hh, pay = block[:p + 4], block[p + 4:]
        S.check_eq(pay, ex.payload, 'payload after the HTTP headers')
        lines = hh.split(b'\r\n')
        S.check(len(lines) == (4 if drop else 5), 'exactly the rejected header is dropped')
        if drop:
            S.cover('filtered')
        else:
            val = lines[2].decode('ascii')
            if val != 'X-Val: ' + hval:
                S.cover('percent-encoded')
                S.check_eq(S.unquote(val[7:]), hval, 'percent-encoded value')
    else:
        S.check_eq(block, ex.head + ex.payload, 'the block is the HTTP headers and the payload')
    S.check_eq(header_of(head, b'WARC-Type'), [ex.rtype.encode('latin-1')], 'type')
    S.observe('n', n)


def anyfilter(S, kind, gz, hv, spec):
    """the framing is exact whatever a header filter decides, each time it is called"""
    from warcio.warcwriter import WARCWriter
    hval = 'caf\xe9; a="b\xe9"' if hv == 'uni' else 'ascii'
    out = S.BytesIO()
    w = WARCWriter(out, gzip=bool(gz), header_filter=AnyFilter(S))
    rec, ex = build(S, w, kind, 'm0', spec)
    rec.http_headers.replace_header('X-Val', hval)
    w.write_record(rec)
    data = out.getvalue()
    if gz:
        ms = S.members(data)
        S.check(len(ms) == 1 and ms[0] is not None, 'exactly one complete gzip member')
        data = ms[0]
    head, rest = split_record(S, data, 'record')
    n = int(header_of(head, b'Content-Length')[0])
    S.check_eq(len(rest), n + 4, 'Content-Length is the exact length of the block')
    S.check_eq(rest[n:], b'\r\n\r\n', 'the block is followed by CRLF CRLF')
    hh, pay = split_record(S, rest[:n], 'HTTP headers')
    S.check_eq(pay, ex.payload, 'payload after the HTTP headers')
    S.check(len(header_of(hh, b'X-Val')) <= 1 and len(hh.split(b'\r\n')) == 2 + len(header_of(hh, b'X-Val')), 'HTTP headers')
    S.cover('any filter')


def again(S, kind, gz, spec, known):
    """a record written twice, its HTTP headers changed in between"""
    from warcio.warcwriter import WARCWriter
    out, out2 = S.BytesIO(), S.BytesIO()
    w = WARCWriter(out, gzip=False)
    rec, ex = build(S, w, kind, 'm0', spec)
    w.write_record(rec)
    if ex.rtype != 'revisit':
        rec.raw_stream.seek(0)
    rec.http_headers.replace_header('X-Val', 'n' + S.text_blob('nv', 0, 3000))
    if not known:
        rec.length = None
    WARCWriter(out2, gzip=bool(gz)).write_record(rec)
    data = out2.getvalue()
    if gz:
        data = S.members(data)[0]
    head, rest = split_record(S, data, 'record')
    n = int(header_of(head, b'Content-Length')[0])
    S.check_eq(len(rest), n + 4, 'Content-Length is the exact length of the block')
    S.check_eq(rest[n:], b'\r\n\r\n', 'the block is followed by CRLF CRLF')
    hh, pay = split_record(S, rest[:n], 'HTTP headers')
    S.check_eq(header_of(hh, b'X-Val'), [rec.http_headers.get_header('X-Val').encode('latin-1')], 'the HTTP headers of the record')
    S.check_eq(pay, ex.payload, 'payload')
    S.cover('written again')


def copied(S, kind, mode, spec, again):
    """a record that was read (in different ways) is written with exact framing"""
    from warcio.warcwriter import WARCWriter
    from warcio.archiveiterator import ArchiveIterator
    out = S.BytesIO()
    w = WARCWriter(out, gzip=False)
    rec, ex = build(S, w, kind, 'm0', spec)
    w.write_record(rec)
    src = out.getvalue()
    out2 = S.BytesIO()
    w2 = WARCWriter(out2, gzip=False)
    kw = {'no_record_parse': True} if mode == 'noparse' else {'ensure_http_headers': True} if mode == 'ensure' else {}
    for r in ArchiveIterator(S.BytesIO(src), **kw):
        if again:
            r.length = None
        w2.write_record(r)
    data = out2.getvalue()
    head, rest = split_record(S, data, 'record')
    n = int(header_of(head, b'Content-Length')[0])
    S.check_eq(len(rest), n + 4, 'Content-Length is the exact length of the block')
    S.check_eq(rest[n:], b'\r\n\r\n', 'the block is followed by CRLF CRLF')
    want = ex.head + ex.payload
    if mode == 'ensure' and not ex.http:
        S.check(rest[:n].startswith(b'HTTP/1.0 200 OK\r\n'), 'generated HTTP headers')
        if kind == 'revisit':
            S.check(rest[n - 4:n] == b'\r\n\r\n', 'headers only')
        else:
            S.check(rest[:n].endswith(b'\r\n\r\n' + want), 'the payload follows the generated headers')
    else:
        S.check_eq(rest[:n], want, 'the block is unchanged')
    S.cover('copied')


def both(S, kinds, spec, version):
    """the gzip members hold exactly the bytes of the uncompressed file"""
    from warcio.warcwriter import WARCWriter, BufferWARCWriter
    outs = []
    ws = [WARCWriter(S.BytesIO(), gzip=False, warc_version=version), BufferWARCWriter(gzip=True, warc_version=version)]
    S.now('now', 1577934245, 1577934245)
    body = [fill(S, spec, 'm%d' % i) for i in range(len(kinds))]
    hv = S.text_blob('hv', 0, 300)
    ends = []
    for w in ws:
        for i, k in enumerate(kinds):
            rec, ex = build(_Fixed(S, body[i]), w, k, 'm%d' % i, spec, hv)
            w.write_record(rec)
            if w is ws[0]:
                ends.append(w.out.tell())
    plain = ws[0].out.getvalue()
    packed = ws[1].get_contents()
    ms = S.members(packed)
    S.check(len(ms) == len(kinds), 'one member per record')
    pos = 0
    for i, m in enumerate(ms):
        S.check(m is not None, 'members are complete')
        S.check_eq(m, plain[pos:ends[i]], 'member %d is the uncompressed record' % i)
        pos = ends[i]
    S.check_eq(pos, len(plain), 'nothing else is written')
    S.check_eq(ws[1].get_stream().read(), packed, 'get_stream gives the same bytes')
    S.cover('several records')


class _Fixed(object):
    """S whose payload inputs are already made"""

    def __init__(self, S, data):
        self.S, self.data = S, data

    def blob(self, *a, **k):
        d, self.data = self.data, b''
        return d

    def BytesIO(self, *a):
        return self.S.BytesIO(*a)

    def int(self, name, lo, hi):
        return 0


def blank(S, rtype, http, length, gz, via, digests=0):
    """HTTP headers that are blank or just a protocol are part of the block like others"""
    from warcio.warcwriter import WARCWriter
    from warcio.archiveiterator import ArchiveIterator
    http = http.encode('latin-1')
    payload = S.blob('p', 0, 3000)
    block = http + payload
    out = S.BytesIO()
    w = WARCWriter(out, gzip=bool(gz))
    if via == 'build':
        r = w.create_warc_record('http://x.org/', rtype, payload=S.BytesIO(block), length=len(block) if length else None)
        w.write_record(r)
    else:
        src = warc(rtype.encode('latin-1'), block)
        for r in ArchiveIterator(S.BytesIO(src), ensure_http_headers=via == 'ensure'):
            w.write_record(r)
    data = out.getvalue()
    if gz:
        data = S.members(data)[0]
    head, rest = split_record(S, data, 'record')
    n = int(header_of(head, b'Content-Length')[0])
    S.check_eq(len(rest), n + 4, 'Content-Length is the exact length of the block')
    S.check_eq(rest[n:], b'\r\n\r\n', 'the block is followed by CRLF CRLF')
    want = http if rtype == 'revisit' else block
    if via == 'ensure':
        p = rest.find(b'\r\n\r\n')
        S.check_eq(header_of(rest[:p], b'Content-Length'), [str(len(payload)).encode('latin-1')], 'generated Content-Length')
        S.check_eq(rest[p + 4:n], payload, 'the payload follows the generated headers')
    else:
        S.check_eq(rest[:n], want, 'the block is complete')
    k = 0
    for r in ArchiveIterator(S.BytesIO(data), check_digests=True):
        r.raw_stream.read()
        S.check(r.digest_checker.passed is not False, 'digests of the written record are right')
        k += 1
    S.check_eq(k, 1, 'one record')
    S.cover('blank http')


def jobs(tier):
    q = tier == 'quick'
    out = []
    for rt in ('response', 'request', 'revisit'):
        for http in ('\r\n', 'GET\r\n\r\n' if rt == 'request' else 'HTTP/1.1\r\n\r\n'):
            for length in (0, 1):
                out.append(('blank', dict(rtype=rt, http=http, length=length, gz=length, via='build')))
            out.append(('blank', dict(rtype=rt, http=http, length=1, gz=0, via='copy')))
            if rt == 'response':
                out.append(('blank', dict(rtype=rt, http=http, length=1, gz=0, via='ensure')))

    def o(kind, spec=BIG, gz=0, version='1.0', hv='', flt=0, given=0):
        out.append(('one', dict(kind=kind, spec=spec, gz=gz, version=version, hv=hv, flt=flt, given=given)))
    for k in ('resp', 'respl', 'respstream', 'respraw', 'req', 'revisith'):
        for hv in ('ascii', 'uni'):
            out.append(('anyfilter', dict(kind=k, gz=int(k == 'respl'), hv=hv, spec=[[0, 100]])))
    for k in ('resp', 'respl', 'req', 'revisith'):
        for known in (0, 1):
            out.append(('again', dict(kind=k, gz=int(k == 'respl'), spec=[[0, 100]], known=known)))
    for k in ALL_KINDS:
        for gz in (0, 1):
            o(k, gz=gz, version='1.1' if gz else '1.0')
    arb = [2, [0, 40], 2] if q else [3, [0, 100], 3]
    for k in ('resp', 'respraw', 'resource', 'respstream', 'dns'):
        o(k, spec=arb)
    o('resp', spec=['\r\n', 2, '\r\n\r\nWARC/1.0\r\n\r\n', [0, 100]])
    o('respraw', spec=['\r\n', 2, '\r\n\r\nHTTP/1.0 200 OK\r\n\r\n'])
    o('resource', spec=['HTTP/1.1 200 OK\r\nA: b\r\n\r\n', [0, 100]])
    for k in ('resp', 'respl', 'respstream', 'respraw', 'req', 'revisith'):
        o(k, hv='blob', spec=[[0, 100]])
        o(k, hv='uni', spec=[[0, 100]])
        o(k, hv='uni', flt=1, spec=[[0, 100]], gz=1)
        o(k, hv='ascii', flt=1, spec=[[0, 100]])
        o(k, given=1, spec=[[0, 100]])
    for k in ('resource', 'metastream', 'empty', 'revisit'):
        o(k, given=1, spec=[[0, 100]])
        o(k, flt=1, spec=[[0, 100]])
    for kind, mode in (('resp', 'noparse'), ('revisith', 'noparse'), ('revisith', ''), ('revisitdns', ''), ('resource', ''),
                       ('resource', 'ensure'), ('resp', 'ensure'), ('dns', 'ensure'), ('empty', 'ensure'), ('revisit', 'ensure'),
                       ('req', ''), ('info', '')):
        for again in (0, 1):
            out.append(('copied', dict(kind=kind, mode=mode, spec=[[0, 9000]], again=again)))
    for ks in (['resp', 'resource', 'info'], ['revisith', 'respstream'], ['empty', 'req', 'revisit'], ['metastream', 'resprawl']):
        for ver in ('1.0', '1.1'):
            out.append(('both', dict(kinds=ks, spec=[[0, 20000]], version=ver)))
    if not q:
        for k in ALL_KINDS:
            o(k, spec=arb, gz=1)
            if k in HTTP_KINDS + ('revisith', 'revisitp', 'revisitraw'):
                for hv in ('blob', 'uni', 'ascii'):
                    for gz in (0, 1):
                        o(k, hv=hv, flt=1, gz=gz, version='1.1')
            for k2 in ALL_KINDS:
                out.append(('both', dict(kinds=[k, k2], spec=[[0, 40000]], version='1.0')))
    return out
