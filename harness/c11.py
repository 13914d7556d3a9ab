from harness.common import Src, fill, warc, anycase, chunked

COVERS = ['chunked', 'gzip', 'deflate', 'chunked and gzip', 'declared but not chunked', 'declared but not encoded',
          'unknown encoding', 'no http headers', 'undeclared chunked', 'case varied', 'two headers']
BOUNDS = ('every combination of declared / actual transfer encoding (chunked or none) and content encoding (gzip, '
          'deflate as zlib or raw, none, unknown name of arbitrary text), header and encoding names in arbitrary case '
          '(2-4 free letters each), payload contents of arbitrary length up to 7000 (thorough: 2^14) divided into up to 2 chunks '
          'anywhere, read(), read(n) of any size, lines; response, request and non-HTTP records')
OUTSIDE = 'compressed data containing a newline byte where it is read line by line undecoded; brotli (the br model is absent); more than two chunks; transfer encodings other than exactly chunked'
HI = 2 ** 14


def stream(S, te, ce, act_te, act_ce, free, seq, wtype, split, order, extra, hi=7000):
    from warcio.archiveiterator import ArchiveIterator
    S.compressed_without_newlines()
    body = b'W' + S.blob('m', 0, hi)
    data = body
    if act_ce:
        data = S.gzip(body, 0, act_ce)
    if act_te:
        if split:
            k = S.int('k', 1, HI)
            S.assume(k < len(data))
            parts = [data[:k], data[k:]]
        else:
            parts = [data]
        payload = chunked(S, parts)
    else:
        payload = data
    heads = []
    if te:
        f = free[0]
        heads.append(anycase(S, 'th', 'Transfer-Encoding', f) + b': ' + anycase(S, 'tv', te, f))
    if ce is not None:
        f = free[1]
        if ce == '?':
            name = S.bytes('ce', 1, ranges=((33, 57), (72, 97), (104, 126))) + S.blob('cb', 0, 20)
            S.cover('unknown encoding')
        else:
            name = anycase(S, 'cv', ce, f)
        heads.append(anycase(S, 'ch', 'Content-Encoding', f) + b': ' + name)
    if order:
        heads.reverse()
    if extra:
        heads.insert(0, b'X-Content-Encoding: gzip')
        heads.append(b'Content-Encoding: gzip')
        S.cover('two headers')
        if ce is None:
            ce = 'gzip'
    first = b'HTTP/1.1 200 OK' if wtype == 'response' else b'POST / HTTP/1.1'
    head = first + b'\r\n'
    for h in heads:
        head = head + h + b'\r\n'
    rec = warc(wtype.encode('latin-1'), head + b'\r\n' + payload)
    it = ArchiveIterator(S.BytesIO(rec + rec))
    r = next(it)
    st = r.content_stream()
    want = payload
    if te and act_te:
        want = data
        S.cover('chunked')
    elif te:
        S.cover('declared but not chunked')
    elif act_te:
        S.cover('undeclared chunked')
    if ce in ('gzip', 'deflate') and not (act_te and not te):
        if act_ce:
            want = body
            S.cover(ce)
            if te and act_te and ce == 'gzip':
                S.cover('chunked and gzip')
        else:
            S.cover('declared but not encoded')
    if free[0] or free[1]:
        S.cover('case varied')
    got = b''
    for i, op in enumerate(seq):
        if op == 'r':
            n = S.int('n%d' % i, 1, 2 * HI)
            out = st.read(n)
            S.check(len(out) == min(n, len(want) - len(got)), 'read(n)')
        elif op == 'l':
            out = st.readline()
        got = got + out
    got = got + st.read()
    S.check_eq(got, want, 'the payload with the declared encodings removed')
    S.check_eq(st.read(), b'', 'nothing more')
    # the next record is intact
    r2 = next(it)
    S.check_eq(r2.raw_stream.read(), payload, 'raw payload of the next record')


def plain(S, wtype, parse, ct):
    """a record without HTTP headers: the raw block"""
    from warcio.archiveiterator import ArchiveIterator
    block = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n1\r\n' + S.blob('b', 0, HI)
    rec = warc(wtype.encode('latin-1'), block)
    r = next(ArchiveIterator(S.BytesIO(rec), no_record_parse=not parse))
    S.check(r.http_headers is None, 'no HTTP headers')
    st = r.content_stream()
    S.check_eq(st.read(), block, 'the raw block')
    S.cover('no http headers')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def s(te, ce, ate, ace, free=((), ()), seq=(), wtype='response', split=0, order=0, extra=0, hi=7000):
        out.append(('stream', dict(te=te, ce=ce, act_te=ate, act_ce=ace, free=[list(f) for f in free], seq=list(seq),
                                   wtype=wtype, split=split, order=order, extra=extra, hi=hi)))
    for te in ('', 'chunked'):
        for ce, aces in ((None, ('', 'gzip')), ('gzip', ('', 'gzip')), ('deflate', ('', 'zlib', 'raw')),
                         ('?', ('', 'gzip', 'zlib'))):
            for ace in aces:
                for ate in (0, 1):
                    # an undeclared chunked body with a declared content encoding starts with a digit: undecodable
                    if ate and not te and ce in ('gzip', 'deflate'):
                        continue
                    s(te, ce, ate, ace, seq='r' if ce else '')
                    if ce == '?' and ace:
                        continue
                    s(te, ce, ate, ace, seq='' if ce else 'r' if ace else 'l', split=1 if ate else 0, wtype='request', order=1)
    s('chunked', 'gzip', 1, 'gzip', free=((0, 9, 16), (0, 3)))
    s('chunked', 'deflate', 1, 'raw', free=((0, 5), (1, 8)))
    s('chunked', None, 1, '', free=((0, 1, 2, 9), ()))
    s('', 'deflate', 0, 'raw', free=((), (0, 1, 2, 8)))
    s('', 'gzip', 0, 'gzip', free=((), (0, 1, 2, 8)))
    s('', 'deflate', 0, 'zlib', extra=1)
    s('', None, 0, 'gzip', extra=1)
    s('chunked', 'gzip', 1, 'gzip', extra=1, split=1)
    for wt in ('resource', 'metadata', 'conversion', 'warcinfo'):
        out.append(('plain', dict(wtype=wt, parse=1, ct='')))
    out.append(('plain', dict(wtype='response', parse=0, ct='')))
    out.append(('plain', dict(wtype='request', parse=0, ct='')))
    s('chunked', 'gzip', 1, 'gzip', hi=HI)
    if not q:
        for seq in ('rr', 'lr', 'll', 'rrr'):
            for ce, ace in (('gzip', 'gzip'), ('deflate', 'zlib'), ('deflate', 'raw'), (None, ''), ('gzip', '')):
                for te in ('', 'chunked'):
                    s(te, ce, 1 if te else 0, ace, seq=seq, split=1 if te else 0, free=((0, 4), (2, 5)), hi=HI)
    return out
