from harness.common import num

COVERS = ['warc', 'arc', 'neither', 'lower case', 'bad length', 'negative', 'missing length', 'missing type', 'missing uri', 'http',
          'not http', 'empty', 'arc only', 'warc only', 'arc2warc', 'all missing', 'second record', 'good length', 'no headers at all',
          'arc bad length', 'not ascii']
BOUNDS = ('every first line that is a known version, an ARC line or other text with up to 3 arbitrary bytes at every position, and every '
          'first line of 1 to 3 (thorough 5) arbitrary bytes; every type, scheme and content presence; length values of up to 4 arbitrary characters, '
          'headers missing in every combination; every iterator and option')
OUTSIDE = 'a blank first line (known finding); the exception that verify_http asks for when the HTTP status line is not one; more arbitrary bytes in one line'
VERS = ('WARC/1.1', 'WARC/1.0', 'WARC/0.17', 'WARC/0.18')


def text_of(b):
    try:
        return b.decode('utf-8')
    except UnicodeDecodeError:
        return b.decode('latin-1')


def is_warc(line):
    up = line.upper()
    for v in VERS:
        if up[:len(v)] == v:
            return True
    return False


def iterate(S, data, which='any', gz=0, **kw):
    """-> (records, error)"""
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    from warcio.exceptions import ArchiveLoadFailed
    cls = {'any': ArchiveIterator, 'warc': WARCIterator, 'arc': ARCIterator}[which]
    out, it, failed = [], None, False
    try:
        it = cls(S.BytesIO(S.gzip(data) if gz else data), **kw)
        for r in it:
            x = [r.format, r.rec_type, [tuple(h) for h in r.rec_headers.headers], r.http_headers, r.raw_stream.read()]
            out.append(x)
            S.check(len(out) < 6, 'iteration ends')
    except ArchiveLoadFailed:
        failed = True
    return out, failed


def first_line(S, pre, k, post, which='any', a2w=0, n2=0, gz=0, rng=None):
    """pre + k arbitrary bytes + post is the first line"""
    line = pre.encode('latin-1') + S.bytes('c', k, ranges=rng or ((0, 9), (11, 255))) + post.encode('latin-1')
    text = text_of(line)
    S.assume(text.strip() != '' and not line.startswith(b'\x1f\x8b'))
    if text != line.decode('latin-1'):
        S.cover('not ascii')
    rest = b'WARC-Type: resource\r\nContent-Length: 4\r\n\r\nbody\r\n\r\n'
    data = line + b'\r\n' + rest
    kw = dict(arc2warc=True) if a2w else {}
    recs, failed = iterate(S, data, which, gz, **kw)
    warc = is_warc(text.rstrip()) and which != 'arc'
    parts = text.rstrip().rsplit(' ', 4)
    arc = not warc and len(parts) == 5 and which != 'warc'
    if warc:
        S.check(not failed, 'a WARC record is loaded')
        S.check_eq(len(recs), 1, 'one record')
        S.check_eq(recs[0][:3], ['warc', 'resource', [('WARC-Type', 'resource'), ('Content-Length', '4')]], 'WARC record')
        S.check_eq(recs[0][4], b'body', 'content')
        S.cover('warc')
        if text[:4] != 'WARC':
            S.cover('lower case')
    elif arc:
        S.check(len(recs) >= 1, 'an ARC record is loaded')
        S.check_eq(recs[0][0], 'warc' if a2w else 'arc', 'ARC record')
        S.cover('arc')
        if a2w:
            S.cover('arc2warc')
    else:
        S.check(failed, 'the archive-load error is raised')
        S.check_eq(len(recs), 0, 'no record')
        S.cover('neither')
    if which != 'any':
        S.cover(which + ' only')
    S.observe('n', [len(recs), failed])


def any_line(S, n, which='any', a2w=0, gz=0):
    first_line(S, '', n, '', which, a2w, 0, gz)


WARCREC = b'WARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 4\r\n\r\nbody\r\n\r\n'
ARCREC = b'dns:x 1.2.3.4 20200101000000 text/dns 4\nbody\n'


def other_iterator(S, kinds, which, gz):
    """data of the other kind in a WARC-only or ARC-only iterator, at any place"""
    data, good = b'', 0
    wrong = False
    for k in kinds:
        x = WARCREC if k == 'w' else ARCREC
        data = data + (S.gzip(x) if gz else x)
        if (k == 'w') != (which == 'warc'):
            wrong = True
        elif not wrong:
            good += 1
    from warcio.archiveiterator import WARCIterator, ARCIterator
    from warcio.exceptions import ArchiveLoadFailed
    n, failed = 0, False
    try:
        for r in (WARCIterator if which == 'warc' else ARCIterator)(S.BytesIO(data)):
            S.check_eq(r.format, which, 'format')
            S.check_eq(r.raw_stream.read(), b'body', 'content')
            n += 1
    except ArchiveLoadFailed:
        failed = True
    S.check_eq((n, failed), (good, wrong), 'records before the other kind, then the error')
    S.cover(which + ' only')
    S.cover('second record')


BLOCKS = {'response': b'HTTP/1.0 200 OK\r\nA: b\r\n\r\n', 'revisit': b'HTTP/1.0 200 OK\r\nA: b\r\n\r\n', 'request': b'GET / HTTP/1.0\r\nA: b\r\n\r\n'}


def http(S, rtype, uri, ch, empty, fmt='warc', opt=None, body=1):
    """when HTTP headers are parsed"""
    u = uri
    if ch:
        u = uri + S.str('u', ch, ranges=((33, 126),)) + 'x'
        S.assume(not (u[0] == '<'))
    head = BLOCKS.get(rtype, BLOCKS['response'])
    content = b'' if empty else head + (S.blob('p', 0, 500) if body else b'')
    if fmt == 'warc':
        data = b'WARC/1.0\r\nWARC-Type: ' + rtype.encode('latin-1') + b'\r\n'
        if u:
            data = data + b'WARC-Target-URI: ' + u.encode('latin-1') + b'\r\n'
        data = data + b'Content-Length: ' + num(len(content)) + b'\r\n\r\n' + content + b'\r\n\r\n'
    else:
        S.assume(u[:4] != 'WARC' and u[:4] != 'file')
        data = u.encode('latin-1') + b' 1.2.3.4 20200101000000 text/html ' + num(len(content)) + b'\n' + content + b'\n'
    kw = {opt: True} if opt else {}
    recs, failed = iterate(S, data, **kw)
    S.check(not failed, 'no error')
    S.check_eq(len(recs), 1, 'one record')
    f, rt, hdrs, hh, got = recs[0]
    S.check_eq(rt, rtype if fmt == 'warc' else 'response', 'type')
    parsed = rt in ('response', 'request', 'revisit') and (u[:5] == 'http:' or u[:6] == 'https:') and not empty and \
        opt != 'no_record_parse'
    if parsed:
        S.check(hh is not None, 'HTTP headers are parsed')
        S.check_eq([tuple(h) for h in hh.headers], [('A', 'b')], 'HTTP headers')
        S.check_eq(got, content[len(head):], 'payload')
        S.cover('http')
    else:
        S.check(hh is None, 'no HTTP headers')
        S.check_eq(got, content, 'content')
        S.cover('empty' if empty else 'not http')
    S.observe('got', [rt, hh is not None])


def valid_len(t):
    t = t.strip()
    if t[:1] in ('+', '-'):
        t = t[1:]
    ok = len(t) > 0
    for c in t:
        if not ('0' <= c <= '9'):
            ok = False
    return ok


def length(S, pre, k, fmt='warc', opt=None, which='any', a2w=0, wide=0, rtype='resource', uri=1):
    """arbitrary length values: nothing but the archive-load error"""
    val = pre + S.str('l', k, ranges=((33, 126),) if not wide else ((0xa1, 0x3a2), (0x3a4, 0xd7ff)))
    S.assume(wide or ('_' not in val and (fmt == 'warc' or ' ' not in val)))
    S.assume(fmt == 'warc' or val.strip() == val)
    content = b'HTTP/1.0 200 OK\r\n\r\n0123456789' + S.blob('p', 0, 50) + b'\r\n\r\n'
    if fmt == 'warc':
        data = b'WARC/1.0\r\nWARC-Type: ' + rtype.encode('latin-1') + (b'\r\nWARC-Target-URI: http://x/' if uri else b'') + \
            b'\r\nWARC-Block-Digest: sha1:abc\r\nContent-Length: ' + val.encode('utf-8') + b'\r\n\r\n' + content
    else:
        data = b'dns:x 1.2.3.4 20200101000000 text/dns ' + val.encode('utf-8') + b'\n' + content
    kw = {opt: True} if opt else {}
    if a2w:
        kw['arc2warc'] = True
    recs, failed = iterate(S, data, which, **kw)
    S.check(len(recs) >= 1, 'the record is there')
    r = recs[0]
    S.check_eq(r[0], 'warc' if a2w or fmt == 'warc' else 'arc', 'format')
    if wide:
        S.cover('bad length')
        return
    if valid_len(val):
        n = int(val)
        if n < 0:
            S.check_eq(r[4], b'', 'negative length: no content')
            S.cover('negative')
        elif r[3] is None or opt == 'ensure_http_headers':
            if r[3] is None:
                S.check_eq(r[4], content[:n], 'content')
                S.cover('good length')
    else:
        S.check_eq(r[4], b'', 'bad length: no content')
        S.cover('bad length' if fmt == 'warc' else 'arc bad length')
    S.observe('n', [len(recs), failed])


def missing(S, have, rtype, opts, gz=0, which='any', scheme='http'):
    """any subset of the headers"""
    body = BLOCKS.get(rtype, b'') + S.blob('p', 1, 60)
    data = b'WARC/1.0\r\n'
    if 't' in have:
        data = data + b'WARC-Type: ' + rtype.encode('latin-1') + b'\r\n'
    else:
        S.cover('missing type')
    if 'u' in have:
        data = data + b'WARC-Target-URI: ' + scheme.encode('latin-1') + b'://x/\r\n'
    else:
        S.cover('missing uri')
    if 'l' in have:
        data = data + b'Content-Length: ' + num(len(body)) + b'\r\n'
    else:
        S.cover('missing length')
    if 'd' in have:
        data = data + b'WARC-Payload-Digest: sha1:xyz\r\nWARC-Block-Digest: md5:0\r\n'
    if not have:
        S.cover('all missing')
    data = data + b'\r\n' + body + (b'\r\n\r\n' if 'l' in have else b'')
    recs, failed = iterate(S, data, which, gz, **{o: True for o in opts})
    S.check(not failed, 'no error')
    S.check_eq(len(recs), 1, 'one record')
    S.check_eq(recs[0][1], rtype if 't' in have else None, 'type')
    parsed = 't' in have and 'u' in have and rtype in BLOCKS and 'no_record_parse' not in opts
    if parsed:
        S.check(recs[0][3] is not None, 'HTTP headers')
        S.check_eq(recs[0][4], body[len(BLOCKS[rtype]):], 'payload')
    else:
        if 'ensure_http_headers' not in opts:
            S.check(recs[0][3] is None, 'no HTTP headers')
        S.check_eq(recs[0][4], body, 'content: declared length, or all there is')


def tiny(S, n, opts, which):
    """a version line and n arbitrary bytes"""
    c = S.bytes('c', n)
    S.assume(b'\xce\xa3' not in c)      # lower() of a capital sigma depends on its context
    data = b'WARC/1.0\r\n' + c
    recs, failed = iterate(S, data, which, **{o: True for o in opts})
    S.check(len(recs) <= 2, 'iteration ends')
    S.cover('no headers at all')


def blank(S, nl, gz):
    """a blank first line"""
    data = nl.encode('latin-1') + WARCREC
    recs, failed = iterate(S, data, 'any', gz)
    S.check(failed and not recs, 'the archive-load error is raised')


def known_blank_first_line(case, rr):
    return case['func'] == 'blank' and rr['outcome'] == 'violated'


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(f, **kw):
        out.append((f, kw))
    asc = ((0, 9), (11, 127))
    for v in VERS + ('warc/1.0', 'WARC/2.0', 'ARC/1.0', 'WARC/1.'):
        for pos in range(0, len(v) + 1):
            for k in (0, 1, 2) if q else (0, 1, 2, 3):
                if pos + k <= len(v) or k < 2:
                    wide = k == 1
                    o('first_line', pre=v[:pos], k=k, post=v[pos + k:], rng=None if wide else asc)
                    if k == 1:
                        o('first_line', pre=v[:pos], k=k, post=v[pos + k:], rng=asc, which='warc' if pos % 2 else 'arc')
                        o('first_line', pre=v[:pos], k=k, post=v[pos:], rng=asc)
    A = 'dns:x 1.2.3.4 20200101000000 text/dns 4'
    for pos in range(0, len(A) + 1, 3 if q else 1):
        for k in (1, 2):
            o('first_line', pre=A[:pos], k=k, post=A[pos + k:], rng=asc)
            o('first_line', pre=A[:pos], k=k, post=A[pos + k:], rng=asc, a2w=1)
        o('first_line', pre=A[:pos], k=1, post=A[pos + 1:], which='arc')
        o('first_line', pre=A[:pos], k=1, post=A[pos + 1:], which='warc', rng=asc)
    for n in range(1, 4 if q else 6):
        o('any_line', n=n)
        o('any_line', n=n, gz=1)
        o('any_line', n=n, which='warc')
        o('any_line', n=n, which='arc')
        o('any_line', n=n, a2w=1)
    for which in ('warc', 'arc'):
        for ks in ('w', 'a', 'wa', 'aw', 'wwa', 'aaw', 'ww', 'aa'):
            for gz in (0, 1):
                o('other_iterator', kinds=ks, which=which, gz=gz)
    types = ('response', 'request', 'revisit', 'resource', 'metadata', 'warcinfo', 'conversion', 'continuation', 'Response', 'x')
    for rt in types:
        for uri in ('http://x/', 'https://x/', 'ftp://x/', 'dns:x', 'whois:x', 'http', 'httpx://x/', 'urn:http:', ''):
            for empty in (0, 1):
                o('http', rtype=rt, uri=uri, ch=0, empty=empty)
        o('http', rtype=rt, uri='', ch=2, empty=0, body=0)
        o('http', rtype=rt, uri='http', ch=2, empty=0, body=0)
        for opt in ('no_record_parse', 'check_digests', 'verify_http'):
            o('http', rtype=rt, uri='https://x/', ch=0, empty=0, opt=opt)
            o('http', rtype=rt, uri='https://x/', ch=0, empty=1, opt=opt)
    for uri in ('http://x/', 'https://x/', 'ftp://x/', 'dns:x'):
        for empty in (0, 1):
            o('http', rtype='response', uri=uri, ch=0, empty=empty, fmt='arc')
    o('http', rtype='response', uri='http', ch=2, empty=0, fmt='arc', body=0)
    for k in (0, 1, 2) if q else (0, 1, 2, 3, 4):
        for pre in ('', '-', '1', '+', '-1', '0x'):
            if not pre and not k:
                continue
            o('length', pre=pre, k=k)
            o('length', pre=pre, k=k, fmt='arc')
            if k < 2 or not q:
                o('length', pre=pre, k=k, fmt='arc', a2w=1)
                for rt in ('response', 'request', 'revisit'):
                    o('length', pre=pre, k=k, rtype=rt)
                    o('length', pre=pre, k=k, rtype=rt, uri=0)
                for opt in ('no_record_parse', 'check_digests', 'ensure_http_headers'):
                    o('length', pre=pre, k=k, rtype='response', opt=opt)
                o('length', pre=pre, k=k, which='warc')
                o('length', pre=pre, k=k, fmt='arc', which='arc')
    o('length', pre='', k=1, wide=1)
    o('length', pre='1', k=1, wide=1)
    o('length', pre='', k=1, wide=1, fmt='arc')
    subs = ['', 't', 'u', 'l', 'd', 'tu', 'tl', 'td', 'ul', 'ud', 'ld', 'tul', 'tud', 'tld', 'uld', 'tuld']
    for have in subs:
        for rt in ('response', 'request', 'revisit', 'resource', 'warcinfo'):
            for opts in ([], ['check_digests'], ['no_record_parse', 'check_digests'], ['ensure_http_headers', 'check_digests'], ['verify_http']):
                o('missing', have=have, rtype=rt, opts=opts)
            o('missing', have=have, rtype=rt, opts=['check_digests'], gz=1)
            o('missing', have=have, rtype=rt, opts=[], which='warc')
    for n in range(0, 4 if q else 6):
        for opts in ([], ['check_digests'], ['no_record_parse'], ['ensure_http_headers']):
            o('tiny', n=n, opts=opts, which='any')
        o('tiny', n=n, opts=[], which='warc')
    return out
