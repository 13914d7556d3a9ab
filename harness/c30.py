import base64

from harness.arch import HEAD, HHDR, Rec, Short, record
from harness.common import num

COVERS = ['headers parsed', 'not parsed', 'default headers', 'default not needed', 'verified', 'not verified', 'rejected', 'arc2warc', 'arc',
          'gzip', 'WARC only', 'ARC only', 'digest given', 'wrong digest', 'no length', 'own content type', 'decoded', 'left encoded', 'by hand',
          'block boundary', 'blank HTTP head', 'unread']
BOUNDS = ('files of 1 to 3 records of every kind (every type with and without HTTP headers, own content type, blank or foreign HTTP head, '
          'digests, no length, ARC), content of arbitrary length up to 1000 (thorough 3000); every combination of the five options in the three iterator '
          'classes; HTTP first words of up to 6 (thorough 8) arbitrary characters; plain and gzip, record by record or in a loop; any block '
          'size with at most 2 (thorough 3) fills')
OUTSIDE = 'what verify_http does with a first word that only begins with a known one (GETX)'
VERBS = ('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'TRACE', 'OPTIONS', 'CONNECT', 'PATCH')
OPTS = ('no_record_parse', 'ensure_http_headers', 'verify_http', 'check_digests', 'arc2warc')


class X(object):
    """a record: what its parts are"""

    def __init__(self, fmt, rtype, uri, ctype, headers, http, head, body, data, clear=None, bad=False, length=True, blank=False,
                 arcline=None, digest=None):
        self.fmt, self.rtype, self.uri, self.ctype, self.headers, self.http = fmt, rtype, uri, ctype, headers, http
        self.head, self.body, self.data, self.bad, self.length, self.blank = head, body, data, bad, length, blank
        self.clear = body if clear is None else clear
        self.digest = digest


def own(S, i, rtype, head, body, http, uri='http://x.org/%d', ctype=None, length=True, clear=None, bad=False, blank=False, digest=None):
    uri = uri % i if uri else None
    block = head + body
    hdrs = [('WARC-Type', rtype)]
    if uri:
        hdrs.append(('WARC-Target-URI', uri))
    if digest == 'right':
        hdrs.append(('WARC-Block-Digest', 'sha1:' + base64.b32encode(S.digest('sha1', block)).decode('ascii')))
        hdrs.append(('WARC-Payload-Digest', 'sha1:' + base64.b32encode(S.digest('sha1', body)).decode('ascii')))
    elif digest == 'wrong':
        hdrs.append(('WARC-Block-Digest', 'sha1:' + 'A' * 32))
    if ctype:
        hdrs.append(('Content-Type', ctype))
    if length:
        hdrs.append(('Content-Length', str(len(block))))
    data = b'WARC/1.0\r\n'
    for n, v in hdrs:
        data = data + n.encode('latin-1') + b': ' + v.encode('latin-1') + b'\r\n'
    return X('warc', rtype, uri, ctype, hdrs, http, head, body, data + b'\r\n' + block, clear, bad, length, blank, digest=digest)


def make(S, kind, i, hi):
    if kind in ('ct', 'enc', 'blank', 'badreq', 'icy', 'nolen', 'right', 'wrong', 'rightres', 'nolenres'):
        body = S.blob('p%d' % i, 0 if kind == 'ct' else 10, hi)
        if kind == 'ct':
            return own(S, i, 'resource', b'', body, None, ctype='image/x')
        if kind == 'rightres':
            return own(S, i, 'resource', b'', body, None, ctype='image/x', digest='right')
        if kind == 'blank':
            return own(S, i, 'response', b'\r\n', body, None, ctype='application/http', blank=True)
        if kind == 'enc':
            head = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
            http = ('HTTP/1.1', '200 OK', [('Transfer-Encoding', 'chunked')])
            size = b'%x' % len(body)
            return own(S, i, 'response', head, size + b'\r\n' + body + b'\r\n0\r\n\r\n', http, clear=body)
        if kind == 'badreq':
            return own(S, i, 'request', b'BREW /pot HTTP/1.0\r\nA: b\r\n\r\n', body, ('BREW', '/pot HTTP/1.0', [('A', 'b')]), bad=True)
        if kind == 'icy':
            return own(S, i, 'response', b'ICY 200 OK\r\nA: b\r\n\r\n', body, ('ICY', '200 OK', [('A', 'b')]), bad=True)
        if kind == 'nolenres':
            return own(S, i, 'resource', b'', body, None, ctype='image/x', length=False)
        http = ('HTTP/1.1', '200 OK', HHDR)
        if kind == 'nolen':
            return own(S, i, 'response', HEAD, body, http, length=False)
        return own(S, i, 'response', HEAD, body, http, ctype='application/http; msgtype=response', digest=kind)
    r = record(S, kind, i, hi)
    head = b''
    if r.http:
        head = r.data[:len(r.data) - len(r.content)]
        p = head.find(b'GET ' if r.rtype == 'request' else b'HTTP/1.1 ')
        head = head[p:]
    ctype = None
    for n, v in r.headers:
        if n.lower() == 'content-type':
            ctype = v
    return X(r.fmt, r.rtype, r.uri, ctype, r.headers, r.http, head, r.content, r.data)


def headers_of(h):
    return [tuple(x) for x in h.headers]


def look(S, r, x, o, label, how):
    """one record read with options o"""
    fmt, ctype = x.fmt, x.ctype
    if x.fmt == 'arc' and o['arc2warc']:
        fmt = 'warc'
        ctype = 'application/http;msgtype=response'
        S.check_eq(r.rec_headers.get_header('WARC-Target-URI'), x.uri, label + 'WARC headers of an ARC record')
        S.cover('arc2warc')
    else:
        S.check_eq(headers_of(r.rec_headers), x.headers, label + 'headers')
        if x.fmt == 'arc':
            S.cover('arc')
    S.check_eq(r.format, fmt, label + 'format')
    S.check_eq(r.rec_type, x.rtype, label + 'type')
    S.check_eq(r.content_type, ctype, label + 'content type')
    if ctype:
        S.cover('own content type')
    block = x.head + x.body
    if x.length:
        S.check_eq(r.length, len(block), label + 'length of the block')
    else:
        S.check(r.length is None, label + 'no length')
        S.cover('no length')
    parsed = not o['no_record_parse'] and len(x.head) > 0
    content = x.body if parsed else block
    clear = content
    if parsed and not x.blank:
        S.check(r.http_headers is not None, label + 'HTTP headers are read')
        S.check_eq(r.http_headers.protocol, x.http[0], label + 'HTTP version')
        S.check_eq(r.http_headers.statusline, x.http[1], label + 'HTTP status')
        S.check_eq(headers_of(r.http_headers), x.http[2], label + 'HTTP headers')
        S.cover('headers parsed')
        S.cover('verified' if o['verify_http'] else 'not verified')
        if o['ensure_http_headers']:
            S.cover('default not needed')
        clear = x.clear
    elif o['ensure_http_headers']:
        S.check(r.http_headers is not None, label + 'default HTTP headers')
        want = []
        if ctype:
            want.append(('Content-Type', ctype))
        if x.length:
            want.append(('Content-Length', str(len(content))))
        S.check_eq(r.http_headers.protocol, 'HTTP/1.0', label + 'default HTTP version')
        S.check_eq(r.http_headers.statusline, '200 OK', label + 'default HTTP status')
        S.check_eq(headers_of(r.http_headers), want, label + 'default HTTP headers')
        S.cover('default headers')
    elif parsed:
        S.check(not r.http_headers, label + 'blank HTTP headers')
        S.cover('blank HTTP head')
    else:
        S.check(r.http_headers is None, label + 'no HTTP headers')
        if x.head:
            S.cover('not parsed')
    if how == 'raw':
        S.check_eq(r.raw_stream.read(), content, label + 'content')
    elif how == 'decode':
        S.check_eq(r.content_stream().read(), clear, label + 'decoded content')
        if x.clear is not x.body:
            S.cover('decoded' if parsed else 'left encoded')
    else:
        S.cover('unread')
        return
    S.check_eq(r.raw_stream.read(), b'', label + 'no more')
    if o['check_digests'] and x.digest:
        if x.digest == 'right':
            S.check(r.digest_checker.passed is True, label + 'digests match')
            S.cover('digest given')
        else:
            S.check(r.digest_checker.passed is False, label + 'digest does not match')
            S.cover('wrong digest')
    else:
        S.check(r.digest_checker.passed is None, label + 'nothing to verify')


def options(S, kinds, opts, cls='any', gz=0, hi=1000, how='raw', hand=0, bs=0, fills=2):
    from warcio.archiveiterator import ArchiveIterator, WARCIterator, ARCIterator
    from warcio.statusandheaders import StatusAndHeadersParserException
    o = dict((n, bool(v)) for n, v in zip(OPTS, opts))
    data, recs = b'', []
    for i, k in enumerate(kinds):
        x = make(S, k, i, hi)
        chunk = x.data
        if x.length:
            chunk = chunk + (b'\n' if x.fmt == 'arc' else b'\r\n\r\n')
        data = data + (S.gzip(chunk) if gz else chunk)
        recs.append(x)
    if gz:
        S.cover('gzip')
    kw = dict((n, True) for n in OPTS if o[n])
    if bs:
        b = S.int('bs', 1, 20000)
        S.assume(len(data) <= b * fills)
        kw['block_size'] = b
        S.cover('block boundary')
    it = {'any': ArchiveIterator, 'warc': WARCIterator, 'arc': ARCIterator}[cls](S.BytesIO(data), **kw)
    if cls != 'any':
        S.cover('WARC only' if cls == 'warc' else 'ARC only')
    n = 0
    try:
        if hand:
            S.cover('by hand')
            while n < len(recs):
                r = next(it)
                look(S, r, recs[n], o, 'record %d: ' % n, how)
                n += 1
            S.check(next(it, None) is None, 'no more records')
        else:
            for r in it:
                S.check(n < len(recs), 'no extra record')
                look(S, r, recs[n], o, 'record %d: ' % n, how)
                n += 1
    except StatusAndHeadersParserException:
        S.check(o['verify_http'], 'an error only when HTTP is verified')
        S.check(not o['no_record_parse'], 'an error only when HTTP headers are read')
        S.check(n < len(recs) and recs[n].bad, 'an error only for an HTTP head that is none')
        S.cover('rejected')
        return
    S.check_eq(n, len(recs), 'all records')
    for x in recs:
        S.check(not (x.bad and o['verify_http'] and not o['no_record_parse']), 'an HTTP head that is none is rejected')
    it.close()


def first_word(S, rtype, k, verify, post=' /x y', pre='', rng=((33, 126),), parse=1):
    """pre + k arbitrary characters begin the HTTP head"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.statusandheaders import StatusAndHeadersParserException
    word = pre.encode('latin-1') + S.bytes('w', k, ranges=rng)
    body = S.blob('p', 0, 50)
    x = own(S, 0, rtype, word + post.encode('latin-1') + b'\r\nA: b\r\n\r\n', body, None)
    failed, recs = False, []
    try:
        for r in ArchiveIterator(S.BytesIO(x.data + b'\r\n\r\n'), verify_http=bool(verify), no_record_parse=not parse):
            recs.append((r.http_headers, r.raw_stream.read()))
    except StatusAndHeadersParserException:
        failed = True
    text = word.decode('latin-1').upper()
    known = VERBS if rtype == 'request' else ('HTTP/1.0', 'HTTP/1.1')
    begins = False
    for v in known:
        if text[:len(v)] == v:
            begins = True
    if verify and parse and not begins:
        S.check(failed, 'rejected')
        S.cover('rejected')
        return
    if failed and text not in known:
        return
    S.check(not failed, 'not rejected')
    S.check_eq(len(recs), 1, 'one record')
    h, got = recs[0]
    if not parse:
        S.check(h is None, 'HTTP headers not read')
        S.check_eq(got, x.head + body, 'the whole block')
        S.cover('not parsed')
        return
    S.check_eq(headers_of(h), [('A', 'b')], 'HTTP headers')
    S.check_eq(got, body, 'content')
    if verify and text in known:
        S.check_eq(h.protocol.upper(), text, 'first word')
        S.check_eq(h.statusline, post.strip(), 'rest of the first line')
        S.cover('verified')
    elif not verify:
        S.check_eq(h.protocol, word.decode('latin-1'), 'first word as it is')
        S.check_eq(h.statusline, post.strip(), 'rest of the first line')
        S.cover('not verified')


SUBSETS = [tuple((m >> b) & 1 for b in range(5)) for m in range(32)]
WARCS = ['res', 'resp', 'req', 'rev', 'revh', 'info', 'nohttp', 'ct', 'enc', 'blank', 'badreq', 'icy', 'right', 'wrong', 'rightres',
         'nl', 'low', 'none']


def jobs(tier):
    J = []
    th = tier == 'thorough'
    warcs = WARCS
    for m, o in enumerate(SUBSETS):
        # every kind with every combination; neighbours and the way of reading vary with them
        for j, k in enumerate(warcs):
            nxt = warcs[(j + m + 1) % len(warcs)] if th or j % 4 == m % 4 else 'ct'
            if nxt in ('icy', 'badreq') and k not in ('icy', 'badreq'):
                nxt = 'resp'
            cls = 'any' if (m + j) % 3 else 'warc'
            J.append(('options', dict(kinds=[k, nxt], opts=list(o), cls=cls, gz=(m + j) % 2, how=('raw', 'decode', 'no')[(m + 2 * j) % 3 if j % 3 else 0],
                                      hand=(m // 2 + j) % 2)))
        J.append(('options', dict(kinds=['enc'], opts=list(o), how='decode', hand=m % 2)))
        for j, ks in enumerate([['aresp', 'adns'], ['adns', 'anone'], ['anone', 'aresp'], ['anl', 'awl']]):
            J.append(('options', dict(kinds=ks, opts=list(o), cls='any' if (m + j) % 2 else 'arc', gz=(m // 2 + j) % 2,
                                      how=('raw', 'decode')[(m // 4 + j) % 2], hand=(m // 2) % 2, hi=900)))
        J.append(('options', dict(kinds=['nolen'], opts=list(o), hi=400)))
        J.append(('options', dict(kinds=['nolenres'], opts=list(o), hi=400, cls='warc')))
        if m in (0, 5, 26) or th and m % 4 == 3:
            J.append(('options', dict(kinds=['req', 'ct'], opts=list(o), bs=1, hi=3000 if th else 1000, fills=3 if th else 2)))
            J.append(('options', dict(kinds=['aresp', 'adns'], opts=list(o), bs=1, hi=3000 if th else 1000, fills=3 if th else 2, cls='arc')))
        if th and m in (0, 5, 26):
            J.append(('options', dict(kinds=['resp', 'ct', 'req'], opts=list(o), bs=1)))
            J.append(('options', dict(kinds=['aresp', 'adns', 'aresp'], opts=list(o), bs=1)))
    for v in (0, 1):
        for n in range(1, 9 if th else 7):
            J.append(('first_word', dict(rtype='request', k=n, verify=v)))
        for n in (1, 2, 4, 5) if th else (1, 3):
            J.append(('first_word', dict(rtype='response', pre='HTTP/1.'[:8 - n] if n < 5 else 'HTT', k=n, verify=v, post=' 200 OK')))
            J.append(('first_word', dict(rtype='revisit', pre='HTTP/1.'[:8 - n] if n < 5 else 'htt', k=n, verify=v, post=' 200 OK')))
        J.append(('first_word', dict(rtype='response', k=8 if th else 4, pre='' if th else 'hTTp', verify=v, post=' 404 Not Found')))
        J.append(('first_word', dict(rtype='request', k=3, verify=v, parse=0)))
        J.append(('first_word', dict(rtype='response', k=3, verify=v, parse=0)))
    return J
