"""Records built with the record builder, with what must come out of them."""
from harness.common import Src, fill

DATE = '2020-01-02T03:04:05Z'
HTTP_KINDS = ('resp', 'respl', 'respstream', 'respstreaml', 'respraw', 'resprawl', 'resprawst', 'resproff', 'req', 'reqraw')
PLAIN_KINDS = ('resource', 'resourcel', 'resourceoff', 'metastream', 'conv', 'empty', 'dns')
REVISIT_KINDS = ('revisit', 'revisith', 'revisitp', 'revisitraw', 'revisitrawl', 'revisitdns')
ALL_KINDS = HTTP_KINDS + PLAIN_KINDS + ('info',) + REVISIT_KINDS


class Stream(object):
    """payload source without seek/tell"""

    def __init__(self, S, data, cut):
        self.inner = S.BytesIO(data)
        self.cut = cut
        self.n = 0

    def read(self, n=None):
        self.n += 1
        if self.cut and self.n == 1:
            return self.inner.read(min(n, self.cut))
        return self.inner.read(n)

    def readline(self, n=None):
        return self.inner.readline(n)

    def close(self):
        pass


class Expect(object):
    def __init__(self, rtype, http, head, payload, uri):
        self.rtype, self.http, self.head, self.payload, self.uri = rtype, http, head, payload, uri


def ident(i):
    return '<urn:uuid:%08d-1111-4222-8333-444455556666>' % i


def build(S, w, kind, nm, spec, hval=None, given=None):
    """(record, Expect) of a record kind; spec: payload template"""
    from warcio.statusandheaders import StatusAndHeaders
    payload = fill(S, spec, nm)
    uri = 'http://example.com/' + nm
    wh = {'WARC-Record-ID': ident(ord(nm[-1])), 'WARC-Date': DATE, 'X-Extra': u'caf\xe9 ' + nm}
    if given:
        wh.update(given)
    st, hs, proto = '200 OK', [('Content-Type', 'text/plain'), ('X-Val', 'v' if hval is None else hval)], 'HTTP/1.1'
    if kind.startswith('req'):
        st, hs, proto = '/path?x=1 HTTP/1.1', [('Host', 'example.com'), ('X-Val', 'v' if hval is None else hval)], 'GET'
    head = (proto + ' ' + st + '\r\n').encode('latin-1')
    for n, v in hs:
        head = head + n.encode('latin-1') + b': ' + v.encode('latin-1') + b'\r\n'
    head = head + b'\r\n'
    rtype = 'request' if kind.startswith('req') else 'response'
    if kind in ('resp', 'req'):
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), http_headers=StatusAndHeaders(st, list(hs), protocol=proto),
                                 warc_headers_dict=wh)
    elif kind == 'respl':
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), length=len(payload),
                                 http_headers=StatusAndHeaders(st, list(hs), protocol=proto), warc_headers_dict=wh)
    elif kind == 'respstream':
        r = w.create_warc_record(uri, rtype, payload=Stream(S, payload, S.int(nm + 'cut', 0, 20000)),
                                 http_headers=StatusAndHeaders(st, list(hs), protocol=proto), warc_headers_dict=wh)
    elif kind in ('respraw', 'reqraw'):
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(head + payload), warc_headers_dict=wh)
    elif kind == 'resprawl':
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(head + payload), length=len(head) + len(payload),
                                 warc_headers_dict=wh)
    elif kind == 'resprawst':
        # with the HTTP headers, of known length, not seekable
        r = w.create_warc_record(uri, rtype, payload=Stream(S, head + payload, 0), length=len(head) + len(payload),
                                 warc_headers_dict=wh)
    elif kind == 'resproff':
        # the stream is not at its start
        pre = fill(S, [[0, 300]], nm + 'pre')
        inp = S.BytesIO(pre + head + payload)
        inp.seek(len(pre))
        r = w.create_warc_record(uri, rtype, payload=inp, length=len(head) + len(payload), warc_headers_dict=wh)
    elif kind == 'resourceoff':
        rtype, pre = 'resource', fill(S, [[0, 300]], nm + 'pre')
        inp = S.BytesIO(pre + payload)
        inp.seek(len(pre))
        r = w.create_warc_record(uri, rtype, payload=inp, length=len(payload), warc_headers_dict=wh)
        head = b''
    elif kind == 'respstreaml':
        r = w.create_warc_record(uri, rtype, payload=Stream(S, payload, 0), length=len(payload),
                                 http_headers=StatusAndHeaders(st, list(hs), protocol=proto), warc_headers_dict=wh)
    elif kind in ('revisitp', 'revisitraw', 'revisitrawl'):
        rtype = 'revisit'
        if kind == 'revisitp':
            r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), warc_headers_dict=wh,
                                     http_headers=StatusAndHeaders(st, list(hs), protocol=proto))
        else:
            r = w.create_warc_record(uri, rtype, payload=S.BytesIO(head + payload), warc_headers_dict=wh,
                                     length=len(head) + len(payload) if kind == 'revisitrawl' else None)
        payload = b''
    elif kind == 'revisitdns':
        rtype, uri = 'revisit', 'dns:example.com'
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), length=len(payload), warc_headers_dict=wh)
        head = b''
    elif kind in ('resource', 'conv', 'dns'):
        rtype = 'conversion' if kind == 'conv' else 'resource' if kind == 'resource' else 'response'
        uri = 'dns:example.com' if kind == 'dns' else uri
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), warc_content_type='text/x-' + nm,
                                 warc_headers_dict=wh)
        head = b''
    elif kind == 'resourcel':
        rtype = 'resource'
        r = w.create_warc_record(uri, rtype, payload=S.BytesIO(payload), length=len(payload), warc_headers_dict=wh)
        head = b''
    elif kind == 'metastream':
        rtype = 'metadata'
        r = w.create_warc_record(uri, rtype, payload=Stream(S, payload, 0), warc_headers_dict=wh)
        head = b''
    elif kind == 'empty':
        rtype = 'resource'
        r = w.create_warc_record(uri, rtype, warc_headers_dict=wh)
        head, payload = b'', b''
    elif kind == 'info':
        rtype = 'warcinfo'
        val = payload.decode('latin-1')
        r = w.create_warcinfo_record('file.warc.gz', {'software': 'soft ware', 'skipped': '', 'note': val})
        r.rec_headers.replace_header('WARC-Record-ID', ident(ord(nm[-1])))
        r.rec_headers.replace_header('WARC-Date', DATE)
        head, uri = b'', None
        payload = b'software: soft ware\r\n'
        if val:
            payload = payload + b'note: ' + val.encode('utf-8') + b'\r\n'
    elif kind == 'revisit':
        rtype = 'revisit'
        r = w.create_revisit_record(uri, 'sha1:ABCDEF', 'http://other.org/', '2019-01-01T00:00:00Z', warc_headers_dict=wh)
        head, payload = b'', b''
    elif kind == 'revisith':
        rtype = 'revisit'
        r = w.create_revisit_record(uri, 'sha1:ABCDEF', 'http://other.org/', '2019-01-01T00:00:00Z',
                                    http_headers=StatusAndHeaders(st, list(hs), protocol=proto), warc_headers_dict=wh)
        payload = b''
    http = (proto, st, hs) if head else None
    return r, Expect(rtype, http, head, payload, uri)


def split_record(S, data, label):
    """(header lines, rest after the blank line)"""
    p = data.find(b'\r\n\r\n')
    S.check(p >= 0, label + ': header block ends with an empty line')
    return data[:p], data[p + 4:]


def header_of(lines, name):
    """values of a header in raw header lines"""
    out = []
    for line in lines.split(b'\r\n')[1:]:
        c = line.find(b':')
        if line[:c].lower() == name.lower():
            out.append(line[c + 1:].strip())
    return out


class AnyFilter(object):
    """a header filter that decides anew on every call: keep, drop or change"""

    def __init__(self, S, change=1):
        self.S, self.n, self.change = S, 0, change

    def __call__(self, h):
        if h[0] != 'X-Val':
            return h
        k = self.n
        self.n += 1
        if self.S.bool('drop%d' % k):
            return None
        if self.change and self.S.bool('change%d' % k):
            return h[0], 'changed'
        return h
