"""Archives as bytes, record by record, with what reading them must give."""
from harness.common import Src, fill, num


class Rec(object):
    def __init__(self, fmt, rtype, uri, headers, http, content, data):
        self.fmt, self.rtype, self.uri, self.headers = fmt, rtype, uri, headers
        self.http, self.content, self.data = http, content, data


HEAD = b'HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\nX-V: a: b\r\n\r\n'
HHDR = [('Content-Type', 'text/plain'), ('X-V', 'a: b')]
REQ = b'GET /p?q HTTP/1.0\r\nHost: x.org\r\n\r\n'
WL = b'WARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 2\r\n\r\nab\r\n\r\n'
TYPES = {'res': 'resource', 'resp': 'response', 'req': 'request', 'rev': 'revisit', 'revh': 'revisit', 'info': 'warcinfo',
         'nohttp': 'response', 'nl': 'metadata', 'wl': 'conversion', 'none': 'resource', 'lf': 'resource', 'low': 'resource'}


def content(S, nm, hi, nls=0, lo=0):
    out = S.blob(nm, lo, hi)
    for i in range(nls):
        out = out + b'\n' + S.blob('%sn%d' % (nm, i), lo, hi)
    return out


def record(S, kind, i, hi, arb=None, lo=0):
    """kind 'a...' is an ARC record, others WARC"""
    nm = 'p%d' % i
    uri = 'http://x.org/%d' % i
    if arb:
        body = fill(S, arb, nm)
    elif kind in ('none', 'rev', 'anone'):
        body = b''
    elif kind in ('nl', 'anl'):
        body = content(S, nm, hi, 1, lo)
    elif kind in ('wl', 'awl'):
        body = b'\r\n' + WL + S.blob(nm, lo, hi) + b'\r\n' + WL
    else:
        body = S.blob(nm, lo, hi)
    if kind[0] == 'a':
        http = None
        block = body
        ctype = 'text/plain'
        if kind in ('aresp', 'anl', 'awl'):
            http = ('HTTP/1.1', '200 OK', HHDR)
            block = HEAD + body
        elif kind == 'adns':
            uri, ctype = 'dns:x.org', 'text/dns'
        hdrs = [('uri', uri), ('ip-address', '1.2.3.4'), ('archive-date', '20200102030405'), ('content-type', ctype),
                ('length', str(len(block)))]
        line = (uri + ' 1.2.3.4 20200102030405 ' + ctype + ' ').encode('latin-1') + num(len(block)) + b'\n'
        return Rec('arc', 'response', uri, hdrs, http, body, line + block)
    rtype = TYPES[kind]
    block, http = body, None
    if kind == 'resp' or kind == 'revh':
        block, http = HEAD + body, ('HTTP/1.1', '200 OK', HHDR)
        if kind == 'revh':
            block, body = HEAD, b''
    elif kind == 'req':
        block, http = REQ + body, ('GET', '/p?q HTTP/1.0', [('Host', 'x.org')])
    elif kind == 'nohttp':
        uri = 'whois:x.org'
    elif kind == 'info':
        uri = None
    hdrs = [('WARC-Type', rtype)]
    if uri:
        hdrs.append(('WARC-Target-URI', uri))
    hdrs += [('X-Val', 'v : w'), ('Content-Length', str(len(block)))]
    nl = b'\n' if kind == 'lf' else b'\r\n'
    data = b'warc/1.0' if kind == 'low' else b'WARC/1.1'
    data = data + nl
    for n, v in hdrs:
        data = data + n.encode('latin-1') + b': ' + v.encode('latin-1') + nl
    return Rec('warc', rtype, uri, hdrs, http, body, data + nl + block)


def check_head(S, r, x, label):
    S.check_eq(r.format, x.fmt, label + 'format')
    S.check_eq(r.rec_type, x.rtype, label + 'type')
    S.check_eq([tuple(h) for h in r.rec_headers.headers], x.headers, label + 'headers')
    if x.http:
        S.check(r.http_headers is not None, label + 'HTTP headers present')
        S.check_eq((r.http_headers.protocol, r.http_headers.statusline), x.http[:2], label + 'HTTP status')
        S.check_eq([tuple(h) for h in r.http_headers.headers], x.http[2], label + 'HTTP headers')
    else:
        S.check(r.http_headers is None, label + 'no HTTP headers')


class NoTell(object):
    def __init__(self, inner):
        self.inner = inner

    def read(self, n=-1):
        return self.inner.read(n)


class Short(object):
    """tellable source with short reads"""

    def __init__(self, S, data, cuts):
        self.f = S.BytesIO(data)
        self.cuts = list(cuts)

    def read(self, n=-1):
        if self.cuts:
            c = self.cuts.pop(0)
            if n is None or n < 0 or c < n:
                return self.f.read(c)
        return self.f.read(n)

    def tell(self):
        return self.f.tell()


def layout(S, kinds, gz, hi, sep='norm', arb=None, empties=(), lo=0, base=0):
    """(file bytes, [Rec], [(offset, length)])

    sep: what follows a record: norm (\\r\\n\\r\\n; \\n for ARC), none, more, lf
    empties: indexes before which an empty gzip member is inserted
    """
    data, recs, pos = b'', [], []
    off = 0
    for i, k in enumerate(kinds):
        r = record(S, k, base + i, hi, arb, lo)
        end = {'norm': b'\n' if k[0] == 'a' else b'\r\n\r\n', 'none': b'', 'more': b'\r\n\r\n\n\r\n', 'lf': b'\n\n'}[sep]
        if i in empties:
            e = S.gzip(b'')
            data, off = data + e, off + len(e)
        chunk = r.data + end
        if gz:
            chunk = S.gzip(chunk, gz - 1)
        n = len(chunk)
        pos.append((off, n if gz else n - len(end)))
        data = data + chunk
        off = off + n
        recs.append(r)
    return data, recs, pos
