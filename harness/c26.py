from six.moves import http_client

from harness.common import num
from harness.net import Sock, Context, connect
from harness.wr import split_record, header_of

COVERS = ['length', 'chunked', 'until close', 'no body', 'cut short', 'continue first', 'read at once', 'read in parts', 'readinto', 'readline', 'read1', 'peek',
          'iterated', 'closed early', 'body sent', 'file body', 'chunked body', 'reused connection', 'recorded', 'filter dropped', 'filter replaced', 'not captured',
          'interleaved', 'nested', 'other method', 'bad answer', 'gzip', 'to file', 'file closed', 'ip', 'sent apart', 'https', 'tunnel']
BOUNDS = ('real http.client and capture code; answers with content length, chunked (3 and 17 bytes with extension and trailer), to the end of the connection, without body, after 100 Continue, '
          'cut short; bodies of arbitrary length up to 60 (thorough 99) with up to two line ends; all of read, read(n), readinto, readline, read1, peek and iteration with arbitrary n, '
          'arbitrary arrival sizes; request bodies as bytes, array, view, text, file with short reads, text file, list and generator, by request / endheaders / send, up to 40000 bytes; '
          'arbitrary 3-letter methods; plain, https and tunnelled connections; up to 3 exchanges per connection, 2 interleaved, nested contexts; all filter results; buffer and file writers, WARC 1.0 and 1.1; '
          'each compared with the same run outside a capture')
OUTSIDE = ('header lines not in normal form are normalised by warcio; TLS and sockets are a stand-in peer; threads (C32); '
           'whether an exchange with an answer http.client rejects is recorded')


def mods():
    # patches http.client: anew for every path
    import warcio.capture_http as C
    return C, http_client


# ---------------------------------------------------------------- answers
def answer(S, kind, nm, hi, lo=0):
    """-> (bytes on the wire, whether the connection stays)"""
    ok = b'HTTP/1.1 200 OK\r\nServer: x\r\n'
    if kind == 'length':
        b = S.blob(nm + 'b', lo, hi)
        S.cover('length')
        return ok + b'Content-Length: ' + num(len(b)) + b'\r\n\r\n' + b
    if kind == 'lines':
        b = S.blob(nm + 'b', lo, hi) + b'\n' + S.blob(nm + 'c', 0, hi) + b'\n' + S.blob(nm + 'd', 0, hi)
        return ok + b'Content-Length: ' + num(len(b)) + b'\r\n\r\n' + b
    if kind == 'short':
        b = S.blob(nm + 'b', 0, hi)
        S.cover('cut short')
        return ok + b'Content-Length: ' + num(len(b) + S.int(nm + 'n', 1, 30)) + b'\r\n\r\n' + b
    if kind == 'close':
        S.cover('until close')
        return b'HTTP/1.0 200 OK\r\nServer: x\r\n\r\n' + S.blob(nm + 'b', lo, hi)
    if kind == 'chunked':
        S.cover('chunked')
        out = ok + b'Transfer-Encoding: chunked\r\n\r\n'
        parts = (S.bytes(nm + 'k', 3), b'ab\nc' + S.bytes(nm + 'l', 1) + b'\n' + S.blob(nm + 'm', 11, 11))
        for k, x in zip((3, 17), parts):
            out = out + ('%x' % k).encode('latin-1') + (b';ext=1' if k == 17 else b'') + b'\r\n' + x + b'\r\n'
        return out + b'0\r\nTrailer: t\r\n\r\n'
    if kind == 'chunkshort':
        S.cover('cut short')
        return ok + b'Transfer-Encoding: chunked\r\n\r\n3\r\n' + S.bytes(nm + 'k', 3) + b'\r\n8\r\n' + S.bytes(nm + 'j', 4)
    if kind == 'none':
        S.cover('no body')
        return b'HTTP/1.1 204 No Content\r\nServer: x\r\n\r\n'
    if kind == 'continue':
        b = S.blob(nm + 'b', lo, hi)
        S.cover('continue first')
        return b'HTTP/1.1 100 Continue\r\nEarly: e\r\n\r\n' + ok + b'Content-Length: ' + num(len(b)) + b'\r\n\r\n' + b
    raise AssertionError(kind)


# ---------------------------------------------------------------- client side
def take(S, r, how, ns):
    """read the response; -> what the client saw"""
    out = [r.status, r.reason, r.version, r.getheader('Server'), r.getheader('Content-Length')]
    try:
        if how == 'all':
            S.cover('read at once')
            out.append(r.read())
        elif how == 'parts':
            S.cover('read in parts')
            for n in ns:
                out.append(r.read(n))
            out.append(r.read())
        elif how == 'into':
            S.cover('readinto')
            for n in ns:
                b = bytearray(n)
                k = r.readinto(b)
                out.append(k)
                out.append(bytes(b[:k]))
            out.append(r.read())
        elif how == 'line':
            S.cover('readline')
            for n in ns:
                out.append(r.readline(n))
            out.append(r.readline())
            out.append(r.read())
        elif how == 'one':
            S.cover('read1')
            for n in ns:
                out.append(r.read1(n))
            out.append(r.read())
        elif how == 'peek':
            S.cover('peek')
            out.append(r.peek())
            for n in ns:
                out.append(r.read(n))
                out.append(r.peek(1))
            out.append(r.read())
        elif how == 'iter':
            S.cover('iterated')
            for line in r:
                out.append(line)
        elif how == 'early':
            S.cover('closed early')
            for n in ns:
                out.append(r.read(n))
    except Exception as e:
        out.append(type(e).__name__)
    r.close()
    out.append(r.isclosed())
    return out


def exchange(S, conn, req, ns=(), how='all'):
    """-> what the client saw"""
    try:
        req(conn)
        return take(S, conn.getresponse(), how, ns)
    except Exception as e:
        return [type(e).__name__, str(e)]


def sizes(S, spec, hi):
    out = []
    for i, s in enumerate(spec):
        out.append(S.int('n%d' % i, 1, hi) if s == '?' else s)
    return out


# ---------------------------------------------------------------- records
def pairs(S, data, want, gz=0):
    """want: (url, request bytes, response bytes) in order"""
    if gz:
        ms = S.members(data)
        S.check_eq(len(ms), 2 * len(want), 'one member per record')
        S.cover('gzip')
        data = b''
        for m in ms:
            data = data + m
    for url, q, a in want:
        h1, rest = split_record(S, data, 'response')
        n = int(header_of(h1, b'Content-Length')[0])
        b1, data = rest[:n], rest[n:]
        S.check_eq(data[:4], b'\r\n\r\n', 'end of the response')
        h2, rest = split_record(S, data[4:], 'request')
        n = int(header_of(h2, b'Content-Length')[0])
        b2, data = rest[:n], rest[n:]
        S.check_eq(data[:4], b'\r\n\r\n', 'end of the request')
        data = data[4:]
        for h, t in ((h1, b'response'), (h2, b'request')):
            S.check_eq(header_of(h, b'WARC-Type'), [t], 'the response first')
            S.check_eq(header_of(h, b'WARC-Target-URI'), [url.encode('latin-1')], 'URL')
        S.check_eq(header_of(h1, b'WARC-Date'), header_of(h2, b'WARC-Date'), 'same date')
        S.check_eq(len(header_of(h1, b'WARC-Date')), 1, 'one date')
        S.check_eq(header_of(h2, b'WARC-Concurrent-To'), header_of(h1, b'WARC-Record-ID'), 'request refers to the response')
        S.check_eq(len(header_of(h1, b'WARC-Record-ID')), 1, 'one id')
        S.check_eq(b1, a, 'bytes received')
        S.check_eq(b2, q, 'bytes sent')
        S.cover('recorded')
    S.check_eq(len(data), 0, 'no other record')


def plain(verb='GET', path='/p', **kw):
    def req(conn):
        conn.request(verb, path, **kw)
    return req


def both(S, C, H, socks, client, opts=None, host='h.org'):
    """client(conns' factory) outside a capture and inside one -> (writer, sockets used inside)

    socks: makes the list of sockets, in the order connections take them
    """
    used0, used1 = socks(), socks()
    left = list(used0)

    def make(cls=None, *a, **kw):
        conn = (cls or H.HTTPConnection)(*(a or (host,)), **kw)
        conn._create_connection = lambda *aa: left.pop(0)
        return conn
    seen0 = client(make)
    S.cover('not captured')
    left[:] = used1
    with C.capture_http(**(opts or {})) as w:
        seen1 = client(make)
    S.check_eq(seen1, seen0, 'what the client sees')
    for x, y in zip(used0, used1):
        S.check_eq(y.out(), x.out(), 'what is sent')
        S.check_eq(y.seen, x.seen, 'what is read')
    return w, used1


CONNECTED = b'HTTP/1.1 200 Connection established\r\nVia: p\r\n\r\n'


def over_conn(S, H, make, over):
    """a connection of another kind, and the url of its requests"""
    if over == 'http':
        return make(), 'http://h.org'
    if over == 'sub':
        class HTTPS(H.HTTPConnection):
            default_port = 443
        S.cover('https')
        return make(HTTPS), 'https://h.org'
    if over == 'https':
        S.cover('https')
        return make(H.HTTPSConnection, context=Context()), 'https://h.org'
    S.cover('tunnel')
    if over == 'plain tunnel':
        c, u = make(), 'http://t.org'
    else:
        c, u = make(H.HTTPSConnection, context=Context()), 'https://t.org'
    c.set_tunnel('t.org')
    return c, u


def through(S, over, kinds, how, ns=(), hi=60, open_first=0, twice=0):
    """https and tunnelled exchanges, compared with the same outside a capture"""
    C, H = mods()
    pre = CONNECTED if 'tunnel' in over else b''
    answers = [answer(S, k, 'a%d' % i, hi, 10) for i, k in enumerate(kinds)]
    ns = sizes(S, ns, hi)
    url = []

    def socks():
        return [Sock(S, pre + b''.join(answers)) for _ in range(1 + twice)]

    def client(make):
        out = []
        for t in range(1 + twice):
            conn, u = over_conn(S, H, make, over)
            url[:] = [u]
            if open_first:
                conn.connect()
            for i in range(len(kinds)):
                out.append(exchange(S, conn, plain(['GET', 'POST'][i], '/p%d' % i, body=b'b' * i if i else None), ns, how))
        return out
    w, used = both(S, C, H, socks, client)
    want = []
    for s in used:
        q = s.out()
        if pre:
            S.check_eq(q[:8], b'CONNECT ', 'tunnel opened')
            q = q[q.find(b'\r\n\r\n') + 4:]
        if len(kinds) == 1:
            want.append((url[0] + '/p0', q, s.seen[len(pre):]))
        else:
            e = q.find(b'POST /p1 ')
            want.append((url[0] + '/p0', q[:e], answers[0]))
            want.append((url[0] + '/p1', q[e:], answers[1]))
    pairs(S, w.get_contents(), want)


def one(S, kind, how, ns=(), hi=60, gz=0, verb='GET', arrive=()):
    """one exchange, compared with the same one outside a capture"""
    C, H = mods()
    a = answer(S, kind, 'a', hi)
    ns = sizes(S, ns, hi)
    ar = [S.int('r%d' % i, 1, hi) if x == '?' else x for i, x in enumerate(arrive)]
    if verb == '?':
        verb = 'X' + S.str('v', 2, ranges=((65, 90), (97, 122)))
        S.cover('other method')
    elif verb not in ('GET', 'HEAD'):
        S.cover('other method')
    w, (s,) = both(S, C, H, lambda: [Sock(S, a, arrive=ar)], lambda make: exchange(S, make(), plain(verb), ns, how), {'gzip': bool(gz)})
    pairs(S, w.get_contents(), [('http://h.org/p', s.out(), s.seen)], gz)


def source(S, what, hi):
    """request body -> (function making it, its length)"""
    from harness.common import Src
    x, y = S.blob('x', 1, hi), S.blob('y', 1, hi)
    if what == 'bytes':
        return lambda: x + y, len(x) + len(y)
    if what == 'array':
        return lambda: bytearray(x + y), len(x) + len(y)
    if what == 'view':
        return lambda: memoryview(x + y), len(x) + len(y)
    if what == 'str':
        import io
        t = 'caf\xe9 ' + S.str('t', 2, ranges=((32, 255),))
        return lambda: t, 7
    if what == 'text':
        import io

        class Text(io.TextIOBase):
            def __init__(self, parts):
                self.parts = list(parts)

            def read(self, n=-1):
                return self.parts.pop(0) if self.parts else ''
        t = 'caf\xe9 ' + S.str('t', 2, ranges=((32, 255),))
        return lambda: Text([t, 'more']), 11
    if what == 'file':
        cuts = [S.int('c0', 1, hi), S.int('c1', 1, hi)]
        S.cover('file body')
        return lambda: Src(S, x + y, cuts), len(x) + len(y)
    if what == 'big':
        z = S.blob('z', 40000, 40000)
        S.cover('file body')
        return lambda: Src(S, z, [20000]), 40000
    if what == 'list':
        return lambda: [x, b'', y], len(x) + len(y)
    if what == 'gen':
        def gen():
            yield x
            yield y
        return gen, len(x) + len(y)
    if what == 'none':
        return lambda: None, 0
    raise AssertionError(what)


def body(S, what, how, hi=60, kind='length', gz=0):
    """how: request / chunked / headers (endheaders with the body) / send"""
    C, H = mods()
    a = answer(S, kind, 'a', hi)
    make_body, n = source(S, what, hi)
    hdrs = {'X-Any': 'x' + S.str('h', 2, ranges=((32, 126),)) + 'y'}

    def client(make):
        def req(conn):
            if how == 'request':
                conn.request('POST', '/p', body=make_body(), headers=dict(hdrs, **{'Content-Length': str(n)}) if what != 'bytes' else hdrs)
            elif how == 'chunked':
                S.cover('chunked body')
                conn.request('POST', '/p', body=make_body(), headers=hdrs)
            else:
                conn.putrequest('PUT', '/p', skip_accept_encoding=True)
                for k, v in hdrs.items():
                    conn.putheader(k, v)
                conn.putheader('Content-Length', str(n))
                if how == 'headers':
                    conn.endheaders(make_body())
                else:
                    conn.endheaders()
                    conn.send(make_body())
                    S.cover('sent apart')
                    if how == 'send2':
                        conn.send(b'')
                        conn.send(make_body())
        return exchange(S, make(), req)
    w, (s,) = both(S, C, H, lambda: [Sock(S, a)], client, {'gzip': bool(gz)})
    S.cover('body sent')
    pairs(S, w.get_contents(), [('http://h.org/p', s.out(), s.seen)], gz)


def several(S, kinds, hows, hi=60):
    """exchanges one after the other on the same connection object"""
    C, H = mods()
    answers = [answer(S, k, 'a%d' % i, hi, 10) for i, k in enumerate(kinds)]
    n = S.int('n', 1, hi)

    def socks():
        # one socket for answers in a row which keep the connection
        out, data = [], b''
        for k, a in zip(kinds, answers):
            data = data + a
            if k == 'close':
                out.append(Sock(S, data))
                data = b''
        return out + [Sock(S, data)]

    marks = []

    def client(make):
        conn = make()
        out = []
        del marks[:]
        for i, how in enumerate(hows):
            s = None
            out.append(exchange(S, conn, plain(['GET', 'POST', 'DELETE'][i], '/p%d' % i, body=b'b' * i if i else None), [n], how))
        return out
    w, used = both(S, C, H, socks, client)
    S.cover('reused connection')
    # bytes of each exchange: whole answers, requests told apart by their paths
    want, j = [], 0
    for i, (k, a) in enumerate(zip(kinds, answers)):
        q = used[j].out()
        p = q.find([b'GET /p0 ', b'POST /p1 ', b'DELETE /p2 '][i])
        e = -1
        if i + 1 < len(kinds) and k != 'close':
            e = q.find([b'', b'POST /p1 ', b'DELETE /p2 '][i + 1])
        want.append(('http://h.org/p%d' % i, q[p:] if e < 0 else q[p:e], a))
        if k == 'close':
            j += 1
    pairs(S, w.get_contents(), want)


def interleaved(S, order, kinds=('length', 'length'), same=0, hi=60):
    """two exchanges under way at once; order: steps 'q0' (request and response start), 'r0' (part), 'e0' (to the end)"""
    C, H = mods()
    a = [answer(S, k, 'a%d' % i, hi, 10) for i, k in enumerate(kinds)]
    n = S.int('n', 1, hi)
    S.cover('interleaved')

    def client(make):
        conns = [make()]
        conns.append(conns[0] if same else make())
        rs, out = {}, []
        for step in order:
            i = int(step[1])
            if step[0] == 'q':
                conns[i].request('POST', '/p%d' % i, body=b'body%d' % i)
                rs[i] = conns[i].getresponse()
                out.append(rs[i].status)
            elif step[0] == 'r':
                out.append(rs[i].read(n))
            elif step[0] == 'e':
                out.append(rs[i].read())
                rs[i].close()
        return out
    # the sockets are taken in the order of the requests
    first = [int(s[1]) for s in order if s[0] == 'q']
    w, used = both(S, C, H, lambda: [Sock(S, a[i], ip='10.0.0.%d' % i) for i in first], client)
    done = []
    for s in order:
        # an empty or completed body closes the response early: recorded then
        if s[0] == 'e':
            done.append(int(s[1]))
    data = w.get_contents()
    urls = [l for l in data.split(b'\r\n') if l[:16] == b'WARC-Target-URI:']
    S.check_eq(len(urls), 4, 'two pairs')
    if urls[0][-1:] != b'%d' % done[0]:
        done.reverse()
    pairs(S, data, [('http://h.org/p%d' % i, used[first.index(i)].out(), used[first.index(i)].seen) for i in done])
    ips = [l for l in data.split(b'\r\n') if l[:16] == b'WARC-IP-Address:']
    S.check_eq(ips, [b'WARC-IP-Address: 10.0.0.%d' % i for i in done for _ in (0, 1)], 'address of each')
    S.cover('ip')


def filters(S, what, hi=60):
    C, H = mods()
    a = answer(S, 'length', 'a', hi)
    given = []

    def func(request, response, recorder):
        given.append((request.rec_type, response.rec_type, request.http_headers.protocol, response.http_headers.get_statuscode(),
                      request.rec_headers.get_header('WARC-Target-URI'), recorder.url))
        if what == 'none':
            return None, None
        if what == 'no request':
            return None, response
        if what == 'no response':
            return request, None
        if what == 'replace':
            new = w.create_warc_record('http://other.org/', 'response', payload=S.BytesIO(b'HTTP/1.1 404 No\r\nX: y\r\n\r\nnew'))
            return request, new
        if what in ('replace request', 'replace both'):
            new = w.create_warc_record('http://other.org/', 'request', payload=S.BytesIO(b'PUT /other HTTP/1.1\r\nX: y\r\n\r\nnew'))
            if what == 'replace request':
                return new, response
            return new, w.create_warc_record('http://other.org/', 'response', payload=S.BytesIO(b'HTTP/1.1 404 No\r\nX: y\r\n\r\nnew'))
        if what == 'second':
            return (request, response) if len(given) == 2 else (None, None)
        if what == 'raise':
            raise ValueError('filter')
        return request, response
    w = C.BufferWARCWriter(gzip=False)
    used = []
    with C.capture_http(w, func):
        for i in range(2):
            s = Sock(S, a)
            used.append(s)
            out = exchange(S, connect(H.HTTPConnection('h.org'), [s]), plain('GET', '/p%d' % i))
            if what == 'raise':
                # its own error reaches the client
                S.check_eq(out[5], 'ValueError', 'the error of the filter')
            else:
                S.check_eq(out[5], a[a.find(b'\r\n\r\n') + 4:], 'the client sees the response')
    for i, g in enumerate(given):
        u = 'http://h.org/p%d' % i
        S.check_eq(g, ('request', 'response', 'GET', '200', u, u), 'what the filter sees')
    S.check_eq(len(given), 2, 'filter called once per exchange')
    data = w.get_contents()
    if what == 'keep':
        pairs(S, data, [('http://h.org/p%d' % i, used[i].out(), used[i].seen) for i in range(2)])
    elif what == 'second':
        pairs(S, data, [('http://h.org/p1', used[1].out(), used[1].seen)])
        S.cover('filter dropped')
    elif what == 'replace':
        pairs(S, data, [('http://other.org/', used[i].out(), b'HTTP/1.1 404 No\r\nX: y\r\n\r\nnew') for i in range(2)])
        S.cover('filter replaced')
    elif what == 'replace request':
        pairs(S, data, [('http://h.org/p%d' % i, b'PUT /other HTTP/1.1\r\nX: y\r\n\r\nnew', used[i].seen) for i in range(2)])
    elif what == 'replace both':
        pairs(S, data, [('http://other.org/', b'PUT /other HTTP/1.1\r\nX: y\r\n\r\nnew', b'HTTP/1.1 404 No\r\nX: y\r\n\r\nnew') for i in range(2)])
    else:
        S.check_eq(len(data), 0, 'nothing written')
        S.cover('filter dropped')


def contexts(S, order, hi=60):
    """order: 'a(' opens context a, ')' ends the innermost, '0'..: an exchange on a new connection"""
    C, H = mods()
    stack, ws, want = [], {}, {}
    k = 0
    for step in order:
        if step in 'ab':
            cm = C.capture_http(ws[step]) if step in ws else C.capture_http()
            ws[step] = cm.__enter__()
            want.setdefault(step, [])
            stack.append((step, cm))
        elif step == ')':
            stack.pop()[1].__exit__(None, None, None)
        elif step == '!':
            # left by an exception
            cm = stack.pop()[1]
            try:
                r = cm.__exit__(KeyError, KeyError('x'), None)
            except KeyError:
                r = False
            S.check(not r, 'exceptions pass')
        else:
            a = answer(S, 'length', 'a%d' % k, hi, 10)
            s = Sock(S, a)
            out = exchange(S, connect(H.HTTPConnection('h.org'), [s]), plain('GET', '/p%d' % k))
            S.check_eq(out[0], 200, 'served')
            if stack:
                want[stack[-1][0]].append(('http://h.org/p%d' % k, s.out(), s.seen))
            k += 1
    if len(ws) > 1:
        S.cover('nested')
    for nm, w in ws.items():
        pairs(S, w.get_contents(), want[nm])


def outlived(S, to, hi=60):
    """a connection of a capture still used after its end"""
    C, H = mods()
    a = [answer(S, 'length', 'a%d' % i, hi, 10) for i in range(2)]
    s = Sock(S, a[0] + a[1])
    path = None
    if to == 'file':
        path = S.path('out.warc')
        cm = C.capture_http(path, gzip=False)
    else:
        cm = C.capture_http()
    with cm as w:
        conn = connect(H.HTTPConnection('h.org'), [s])
        out0 = exchange(S, conn, plain('GET', '/p0'))
        q, n = s.out(), s.seen
    out1 = exchange(S, conn, plain('GET', '/p1'))
    S.check_eq(out0[0], 200, 'first')
    S.check_eq(out1[0], 200, 'second')
    S.check_eq(out1[5], a[1][a[1].find(b'\r\n\r\n') + 4:], 'second body')
    S.cover('file closed')
    if to == 'file':
        pairs(S, S.get_file(path), [('http://h.org/p0', q, n)])
    else:
        # (a kept connection belongs to its capture)
        S.check_eq(w.get_contents()[:5], b'WARC/', 'records')


def tofile(S, gz, append, version, before=0, hi=60, ip=1):
    C, H = mods()
    path = S.path('out.warc')
    old = b''
    if before:
        old = S.blob('old', 1, hi)
        S.put_file('out.warc', old)
    kw = {} if gz is None else {'gzip': bool(gz)}
    if version:
        kw['warc_version'] = version
    if not ip:
        kw['record_ip'] = False
    want = []
    try:
        with C.capture_http(path, append=bool(append), **kw):
            for i in range(2):
                s = Sock(S, answer(S, 'length', 'a%d' % i, hi, 10), ip='10.0.0.%d' % i)
                exchange(S, connect(H.HTTPConnection('h.org'), [s]), plain('GET', '/p%d' % i))
                want.append(('http://h.org/p%d' % i, s.out(), s.seen))
        S.check(append or not before, 'existing file refused')
    except OSError:
        S.check(before and not append, 'only an existing file is refused')
        S.check_eq(S.get_file(path), old, 'existing file kept')
        return
    data = S.get_file(path)
    S.check_eq(data[:len(old)], old, 'appended')
    data = data[len(old):]
    S.cover('to file')
    if gz != 0:
        data = b''.join(S.members(data))
    pairs(S, data, want)
    S.check_eq(data[:8], b'WARC/' + (version or '1.0').encode('latin-1'), 'version')
    ips = [l for l in data.split(b'\r\n') if l[:16] == b'WARC-IP-Address:']
    S.check_eq(ips, [b'WARC-IP-Address: 10.0.0.%d' % i for i in range(2) for _ in (0, 1)] if ip else [], 'address of each')


def bad(S, what, hi=60):
    """answers http.client rejects: as without capture, and the next exchange is recorded"""
    C, H = mods()
    a = {'empty': b'', 'garbage': b'garbage\r\n\r\n', 'version': b'HTTP/2.0 200 OK\r\n\r\n', 'short': b'HTTP/1.1\r\n\r\n', 'blank': b'\r\nHTTP/1.1 200 OK\r\n\r\n',
         'status': b'HTTP/1.1 abc OK\r\nA: b\r\n\r\n', 'cut': b'HTTP/1.1 200 OK\r\nContent-Le', 'bare': b'HTTP/1.1 200 OK\r\n'}.get(what)
    if a is None:
        a = S.str('g', 3, ranges=((33, 126),)).encode('latin-1') + b'/1.1 200 OK\r\n\r\n'
    b = answer(S, 'length', 'b', hi, 10)
    S.cover('bad answer')

    def client(make):
        out = [exchange(S, make(), plain('GET', '/p0'))]
        out.append(exchange(S, make(), plain('GET', '/p1')))
        return out
    w, used = both(S, C, H, lambda: [Sock(S, a), Sock(S, b)], client)
    data = w.get_contents()
    i = data.find(b'WARC-Target-URI: http://h.org/p1')
    S.check(i >= 0, 'next exchange')
    i = data[:i].rfind(b'WARC/1.0\r\n')
    pairs(S, data[i:], [('http://h.org/p1', used[1].out(), used[1].seen)])


def jobs(tier):
    q = tier == 'quick'
    hi = 60 if q else 99
    out = []
    for kind in ('length', 'close', 'chunked', 'none', 'continue', 'short', 'chunkshort', 'lines'):
        for how, ns in (('all', ()), ('parts', ('?', '?')), ('into', ('?',)), ('into', (8,)), ('line', ('?',)), ('one', ('?',)), ('peek', ('?',)), ('iter', ()), ('early', ('?',))):
            if how == 'iter' and kind not in ('lines', 'chunked', 'none', 'chunkshort'):
                continue
            for gz in (0, 1) if how in ('all', 'into') or not q else (0,):
                out.append(('one', dict(kind=kind, how=how, ns=ns, hi=hi, gz=gz)))
            if how in ('one', 'peek'):
                out.append(('one', dict(kind=kind, how=how, ns=ns * (1 if q else 2), hi=hi, arrive=('?',) if q else ('?', '?'))))
            if not q and ns and kind != 'chunked':
                out.append(('one', dict(kind=kind, how=how, ns=('?', '?'), hi=hi)))
    for over in ('https', 'sub', 'tunnel', 'plain tunnel'):
        for kinds in (('length',), ('chunked',), ('close',), ('short',), ('length', 'length'), ('none', 'chunked')):
            for how, ns in (('all', ()), ('into', ('?',)), ('line', ('?',))):
                if how == 'line' and (kinds[0] == 'chunked' or len(kinds) > 1) and q:
                    continue
                for first in (0, 1) if over != 'sub' else (0,):
                    out.append(('through', dict(over=over, kinds=kinds, how=how, ns=ns, hi=hi, open_first=first, twice=int(first and how == 'all'))))
    for verb in ('HEAD', 'PROPFIND', 'get', 'POSTX', '?', 'OPTIONS', 'DELETE', 'x'):
        for kind in ('length', 'none'):
            out.append(('one', dict(kind=kind, how='all', verb=verb, hi=hi)))
    for what in ('bytes', 'array', 'view', 'str', 'text', 'file', 'big', 'list', 'gen', 'none'):
        for how in ('request', 'headers', 'send', 'send2', 'chunked'):
            if what == 'none' and how[:4] in ('send', 'head') or what == 'str' and how != 'request' or what == 'big' and how == 'send2':
                continue
            if how == 'chunked' and what not in ('gen', 'big', 'text'):
                continue
            if how == 'headers' and what in ('file', 'big', 'text', 'list', 'gen'):
                continue
            out.append(('body', dict(what=what, how=how, hi=hi if how != 'chunked' else 9)))
            if not q:
                out.append(('body', dict(what=what, how=how, hi=hi if how != 'chunked' else 9, kind='close', gz=1)))
    for kinds in (('length', 'length'), ('length', 'chunked'), ('chunked', 'none', 'length'), ('none', 'length'), ('close', 'length'), ('length', 'close', 'length'), ('close', 'close'), ('continue', 'length')):
        for hows in (('all',) * 3, ('parts', 'into', 'line')):
            if len(kinds) == 3 and hows[0] != 'all' and q:
                continue
            out.append(('several', dict(kinds=kinds, hows=hows[:len(kinds)], hi=hi)))
    for order in (('q0', 'q1', 'e0', 'e1'), ('q0', 'q1', 'e1', 'e0'), ('q0', 'r0', 'q1', 'e0', 'e1'), ('q0', 'r0', 'q1', 'r1', 'r0', 'e1', 'e0'), ('q1', 'r1', 'q0', 'e0', 'e1')):
        for kinds in (('length', 'length'), ('close', 'length'), ('chunked', 'close')):
            if (order[0] == 'q1' and kinds[0] == 'close' or len(order) == 7 and kinds[0] == 'chunked') and q:
                continue
            out.append(('interleaved', dict(order=order, kinds=kinds, hi=hi)))
        out.append(('interleaved', dict(order=order, kinds=('close', 'close'), same=1, hi=hi)))
    for what in ('keep', 'none', 'no request', 'no response', 'replace', 'replace request', 'replace both', 'second', 'raise'):
        out.append(('filters', dict(what=what, hi=hi)))
    for order in ('0a1)2', 'a0b1)2)3', 'a0)1b2)3', 'a0b1!2)3', 'a0!1', 'a0)a1)2', 'ab0))1', 'a0b))1'):
        out.append(('contexts', dict(order=order, hi=hi)))
    for to in ('file', 'buffer'):
        out.append(('outlived', dict(to=to, hi=hi)))
    for gz in (0, 1, None):
        for append in (0, 1):
            for before in (0, 1):
                out.append(('tofile', dict(gz=gz, append=append, version='1.1' if gz == 0 else None, before=before, hi=hi, ip=append)))
    for what in ('empty', 'garbage', 'version', 'short', 'blank', 'status', 'cut', 'bare', '?'):
        out.append(('bad', dict(what=what, hi=hi)))
    return out
