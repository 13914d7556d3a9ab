from harness.common import fill
from harness.wr import build, ALL_KINDS, HTTP_KINDS

COVERS = ['plain', 'gzip', 'one', 'several', 'http', 'no http', 'empty payload', 'record-like payload', 'across blocks',
          'pair']
BOUNDS = ('sequences of 1 to 3 (thorough 4) records of every kind the builder makes, payloads of arbitrary length (up to '
          '40000 for one record, 3000 in sequences) and up to 8 (thorough 12) arbitrary bytes around record-like text, header values of '
          'arbitrary length up to 2000 or up to 2 arbitrary printable characters, plain and gzip, WARC 1.0/1.1, default '
          'block size, record payload read in full')
OUTSIDE = 'other block sizes, split sources and other ways to read (C05); headers changed by percent-encoding or filtering (C14, C02)'


def check_record(S, r, rec, ex, label):
    S.check_eq(r.rec_type, ex.rtype, label + 'record type')
    S.check_eq(r.format, 'warc', label + 'format')
    S.check_eq(r.rec_headers.protocol, rec.rec_headers.protocol, label + 'version')
    S.check_eq(r.rec_headers.headers, rec.rec_headers.headers, label + 'WARC headers')
    S.check_eq(r.rec_headers.get_header('WARC-Target-URI'), ex.uri, label + 'uri')
    if ex.http and len(ex.head + ex.payload):
        S.check(r.http_headers is not None, label + 'HTTP headers are read')
        S.check_eq((r.http_headers.protocol, r.http_headers.statusline), ex.http[:2], label + 'HTTP status line')
        S.check_eq([tuple(h) for h in r.http_headers.headers], ex.http[2], label + 'HTTP headers')
        S.cover('http')
    else:
        S.check(r.http_headers is None, label + 'no HTTP headers')
        S.cover('no http')
    S.check_eq(r.length, len(ex.head + ex.payload), label + 'length')
    S.check_eq(r.raw_stream.read(), ex.payload, label + 'payload')
    if not len(ex.payload):
        S.cover('empty payload')


def roundtrip(S, kinds, spec, gz, version, hv='', pair=0):
    from warcio.warcwriter import WARCWriter
    from warcio.archiveiterator import ArchiveIterator
    out = S.BytesIO()
    S.now('now', 1577934245, 1577934245)
    w = WARCWriter(out, gzip=bool(gz), warc_version=version)
    hval = None
    if hv == 'blob':
        hval = S.text_blob('hv', 0, 2000)
    elif hv == 'uni':
        hval = 'x' + S.str('hv', 2, ranges=((32, 126),)) + 'x'
    made = [build(S, w, k, 'm%d' % i, spec, hval) for i, k in enumerate(kinds)]
    if pair:
        # req, resp -> written response first
        w.write_request_response_pair(made[0][0], made[1][0])
        made = [made[1], made[0]]
        made[1][1].uri = made[0][1].uri
        S.cover('pair')
    else:
        for rec, ex in made:
            w.write_record(rec)
    data = out.getvalue()
    it = ArchiveIterator(S.BytesIO(data))
    n = 0
    for r in it:
        S.check(n < len(made), 'no extra record')
        rec, ex = made[n]
        check_record(S, r, rec, ex, 'record %d: ' % n)
        n += 1
    S.check(n == len(made), 'no record is lost')
    S.check_eq(it.err_count, 0, 'no errors')
    S.cover('gzip' if gz else 'plain')
    S.cover('several' if n > 1 else 'one')
    if len(data) > 17000:
        S.cover('across blocks')
    if len(spec) > 1:
        S.cover('record-like payload')
    S.observe('len', len(kinds))


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(kinds, spec, gz=0, version='1.0', **kw):
        out.append(('roundtrip', dict(kinds=kinds, spec=spec, gz=gz, version=version, **kw)))
    for i, k in enumerate(ALL_KINDS):
        for gz in (0, 1):
            o([k], [[0, 7000]], gz, '1.1' if (i + gz) % 2 else '1.0')
        if k in HTTP_KINDS + ('revisith', 'revisitp'):
            o([k], [[0, 100]], i % 2, hv='blob')
            o([k], [[0, 100]], (i + 1) % 2, hv='uni')
    a = 4 if q else 6
    for k in ('resp', 'resource', 'metastream', 'respraw', 'dns', 'info'):
        for gz in (0, 1):
            o([k], [a, [0, 20], a], gz)
    wl = ['\r\n\r\nWARC/1.0\r\nWARC-Type: resource\r\nContent-Length: ', 1, '\r\n\r\n', [0, 20], '\r\n\r\n', 1]
    for ks in (['resp', 'resource'], ['resource', 'req'], ['metastream', 'info']):
        for gz in (0, 1):
            o(ks, wl, gz)
    for ks in (['resp', 'resource'], ['resource', 'resource'], ['metastream', 'dns']):
        for gz in (0, 1):
            o(ks, ['\r\n', 1, '\n', 1, '\r\n\r\n'], gz)
            o(ks, [2, 'WARC/1.0\r\n', 2], gz)
    for k in ('resp', 'resource', 'metastream'):
        for gz in (0, 1):
            o([k], [[0, 40000]], gz)
    if not q:
        o(['respstream', 'resource'], [[0, 20000]], 1)
    seq = [['resp', 'resource', 'info'], ['revisith', 'respstream'], ['empty', 'req', 'revisit'], ['metastream', 'resprawl'],
           ['info', 'reqraw', 'resp'], ['dns', 'conv', 'resourcel'], ['revisitraw', 'empty', 'empty'], ['revisitdns', 'respl'],
           ['empty', 'empty', 'resp']]
    for ks in seq:
        for gz in (0, 1):
            o(ks, [[0, 2000]], gz, '1.1' if gz else '1.0')
    for gz in (0, 1):
        o(['req', 'resp'], [[0, 1000]], gz, pair=1)
        o(['reqraw', 'respstream'], [[0, 1000]], gz, pair=1)
    if not q:
        for i, k in enumerate(ALL_KINDS):
            for j, k2 in enumerate(ALL_KINDS):
                o([k, k2], [[0, 3000]], (i + j) % 2, '1.1' if i % 2 else '1.0')
        for gz in (0, 1):
            o(['info', 'req', 'resp', 'resource'], [[0, 2000]], gz)
            o(['empty', 'metastream', 'revisith', 'dns'], [[0, 2000]], gz)
            for k in ALL_KINDS:
                o([k], [[0, 40000]], gz)
    return out
