import base64
from harness.wr import build, split_record, header_of, ALL_KINDS, HTTP_KINDS, PLAIN_KINDS, REVISIT_KINDS, AnyFilter

COVERS = ['payload digest', 'block digest', 'no payload digest', 'given kept', 'stale replaced', 'revisit digest kept',
          'percent-encoded', 'filtered', 'temp file', 'read record']
BOUNDS = ('all record kinds of the builder (payload with or without HTTP head, known, supplied or unknown length, '
          'seekable, unseekable or at a non-zero position), payloads of arbitrary length up to 2^20 and arbitrary bytes '
          '(up to 4) around a run of up to 100, HTTP header values of arbitrary length or up to 2 arbitrary code points, '
          'both header-filter decisions (and filters that decide anew on each call), given digests of arbitrary text up to 40 characters, plain and gzip, records read '
          'back and written again')
OUTSIDE = 'SHA-1 itself is an uninterpreted function of the digested bytes; digest algorithms other than sha1'
BIG = [[0, 2 ** 20]]


def sha1(S, data):
    return b'sha1:' + base64.b32encode(S.digest('sha1', data))


def finish(S, data, gz):
    if gz:
        ms = S.members(data)
        S.check(len(ms) == 1 and ms[0] is not None, 'one member')
        data = ms[0]
    head, rest = split_record(S, data, 'record')
    S.check(rest.endswith(b'\r\n\r\n'), 'record terminator')
    return head, rest[:-4]


def one(S, kind, spec, gz=0, hv='', flt=0, given=''):
    from warcio.warcwriter import WARCWriter
    hval = None
    if hv == 'blob':
        hval = S.text_blob('hv', 0, 5000)
    elif hv == 'uni':
        hval = 'x' + S.str('hv', 2, ranges=((33, 126), (0x80, 0xd7ff), (0xe000, 0x10ffff)))
    drop = flt and S.bool('drop')

    def header_filter(h):
        return None if drop and h[0] == 'X-Val' else h
    out = S.BytesIO()
    w = WARCWriter(out, gzip=bool(gz), header_filter=header_filter if flt else None)
    kw = {}
    gp = gb = None
    if 'p' in given:
        gp = 'sha1:' + S.text_blob('gp', 0, 40)
        kw['WARC-Payload-Digest'] = gp
    if 'b' in given:
        gb = 'md5:' + S.text_blob('gb', 0, 40)
        kw['WARC-Block-Digest'] = gb
    rec, ex = build(S, w, kind, 'm0', spec, None if hv == 'uni' else hval, kw)
    if hv == 'uni':
        rec.http_headers.replace_header('X-Val', hval)
    unknown = rec.length is None
    w.write_record(rec)
    head, block = finish(S, out.getvalue(), gz)
    if ex.http and (hv == 'uni' or drop):
        p = block.find(b'\r\n\r\n')
        S.check_eq(block[p + 4:], ex.payload, 'the payload is written in full')
        S.cover('filtered' if drop else 'percent-encoded')
    else:
        S.check_eq(block, ex.head + ex.payload, 'the block is written in full')
    bd = header_of(head, b'WARC-Block-Digest')
    pd = header_of(head, b'WARC-Payload-Digest')
    if gb and not unknown:
        S.check_eq(bd, [gb.encode('latin-1')], 'given block digest is kept')
        S.cover('given kept')
    else:
        S.check_eq(bd, [sha1(S, block)], 'block digest is the digest of the block written')
        S.cover('block digest')
        if gb:
            S.cover('stale replaced')
    if ex.rtype == 'revisit':
        if kind in ('revisit', 'revisith'):
            S.check_eq(pd, ([gp.encode('latin-1')] if gp else []) + [b'sha1:ABCDEF'], 'revisit keeps its digest')
            S.cover('revisit digest kept')
        else:
            S.check_eq(pd, [gp.encode('latin-1')] if gp else [], 'revisit keeps its digest')
    elif ex.rtype == 'warcinfo':
        S.check_eq(pd, [], 'warcinfo has no payload digest')
        S.cover('no payload digest')
    elif gp and not unknown:
        S.check_eq(pd, [gp.encode('latin-1')], 'given payload digest is kept')
        S.cover('given kept')
    else:
        S.check_eq(pd, [sha1(S, ex.payload)], 'payload digest is the digest of the payload written')
        S.cover('payload digest')
        if gp:
            S.cover('stale replaced')
    if unknown:
        S.cover('temp file')


def anyfilter(S, kind, gz, hv, spec):
    """the digests are those of what is written, whatever a header filter decides each time it is called"""
    from warcio.warcwriter import WARCWriter
    out = S.BytesIO()
    w = WARCWriter(out, gzip=bool(gz), header_filter=AnyFilter(S))
    rec, ex = build(S, w, kind, 'm0', spec)
    rec.http_headers.replace_header('X-Val', 'caf\xe9; a="b\xe9"' if hv == 'uni' else 'ascii')
    w.write_record(rec)
    head, block = finish(S, out.getvalue(), gz)
    S.check_eq(header_of(head, b'WARC-Block-Digest'), [sha1(S, block)], 'block digest is the digest of the block written')
    hh, pay = split_record(S, block, 'HTTP headers')
    S.check_eq(pay, ex.payload, 'the payload is written in full')
    if ex.rtype != 'revisit':
        S.check_eq(header_of(head, b'WARC-Payload-Digest'), [sha1(S, pay)], 'payload digest is the digest of the payload written')


def reread(S, kind, spec, ulen, strip, mode):
    """a record read from an archive and written again"""
    from warcio.warcwriter import WARCWriter
    from warcio.archiveiterator import ArchiveIterator
    out = S.BytesIO()
    w = WARCWriter(out, gzip=False)
    gp, gb = 'sha1:' + S.text_blob('gp', 0, 40), 'sha1:' + S.text_blob('gb', 0, 40)
    given = {'WARC-Block-Digest': gb}
    if kind not in ('revisit', 'revisith'):
        given['WARC-Payload-Digest'] = gp
    rec, ex = build(S, w, kind, 'm0', spec, None, given)
    unknown = rec.length is None
    w.write_record(rec)
    out2 = S.BytesIO()
    w2 = WARCWriter(out2, gzip=False)
    kw = {'no_record_parse': True} if mode == 'noparse' else {}
    it = ArchiveIterator(S.BytesIO(out.getvalue()), **kw)
    for r in it:
        oldp = r.rec_headers.get_header('WARC-Payload-Digest')
        oldb = r.rec_headers.get_header('WARC-Block-Digest')
        if not unknown:
            S.check_eq(oldb, gb, 'given block digest is kept')
        if ulen:
            r.length = None
        if strip:
            r.rec_headers.remove_header('WARC-Block-Digest')
            r.rec_headers.remove_header('WARC-Payload-Digest')
        w2.write_record(r)
    head, block = finish(S, out2.getvalue(), 0)
    S.check_eq(block, ex.head + ex.payload, 'the block is written in full')
    bd = header_of(head, b'WARC-Block-Digest')
    pd = header_of(head, b'WARC-Payload-Digest')
    payload = block if mode == 'noparse' else ex.payload
    nb = None if ulen or strip else oldb
    np = None if strip or ulen and ex.rtype != 'revisit' else oldp
    S.check_eq(bd, [sha1(S, block) if nb is None else nb.encode('latin-1')], 'block digest')
    if ex.rtype in ('revisit', 'warcinfo') and np is None:
        S.check_eq(pd, [], 'no payload digest')
    else:
        S.check_eq(pd, [sha1(S, payload) if np is None else np.encode('latin-1')], 'payload digest')
    S.cover('read record')


def jobs(tier):
    q = tier == 'quick'
    out = []

    for k in ('resp', 'respl', 'respstream', 'respraw', 'req', 'revisith'):
        for hv in ('ascii', 'uni'):
            out.append(('anyfilter', dict(kind=k, gz=int(k == 'respl'), hv=hv, spec=[[0, 100]])))

    def o(kind, spec=BIG, **kw):
        out.append(('one', dict(kind=kind, spec=spec, **kw)))
    for k in ALL_KINDS:
        o(k)
        o(k, gz=1, spec=[[0, 300]])
        if k != 'info':
            for g in ('p', 'b', 'pb'):
                o(k, given=g, spec=[[0, 300]])
    arb = [2, [0, 40], 2] if q else [3, [0, 100], 3]
    for k in ('resp', 'respraw', 'resprawl', 'resource', 'respstream', 'metastream', 'revisitraw', 'revisitdns'):
        o(k, spec=arb)
    o('respraw', spec=['\r\n', 2, '\r\n\r\nHTTP/1.0 200 OK\r\n\r\n'])
    for k in HTTP_KINDS + ('revisith', 'revisitp', 'revisitraw'):
        o(k, hv='blob', spec=[[0, 300]])
        o(k, hv='uni', spec=[[0, 300]])
        o(k, hv='uni', flt=1, spec=[[0, 300]])
    for k in ('resp', 'respstream', 'req', 'resource', 'metastream', 'revisith', 'revisit', 'revisitdns'):
        for ulen in (0, 1):
            for strip in (0, 1):
                for mode in ('', 'noparse'):
                    out.append(('reread', dict(kind=k, spec=[[0, 300]], ulen=ulen, strip=strip, mode=mode)))
    if not q:
        for k in ALL_KINDS:
            for gz in (0, 1):
                o(k, gz=gz, spec=arb)
                if k in HTTP_KINDS + ('revisith', 'revisitp', 'revisitraw'):
                    for g in ('', 'pb'):
                        o(k, gz=gz, hv='blob', flt=1, given=g, spec=[[0, 40000]])
    return out
