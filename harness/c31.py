import base64

from harness.arch import layout, check_head
from harness.common import num
from harness.net import Sock, WireFile, connect
from harness.c26 import pairs

COVERS = ['in head', 'in content', 'between records', 'at the end', 'not reached', 'plain', 'gzip', 'arc', 'no tell', 'tell fails', 'block boundary', 'lines', 'pieces',
          'digests', 'payload source', 'read again', 'not seekable', 'output', 'output at flush', 'next record whole', 'checked', 'not checked', 'indexed', 'extracted',
          'recompressed anyway', 'not recompressed', 'peer', 'filter', 'writer', 'next exchange recorded', 'encoded', 'unread', 'short read first']
BOUNDS = ('one fault at any position of the input, the payload source, the output (with an arbitrary part of the failing write done) or the connection: '
          'files of 1 to 3 records of every kind with content up to 500 (thorough 2000), plain and gzip, block sizes with at most 2 (thorough 3) fills; readers alone over data up to 200 with '
          'reads and lines of any size; records of all ways to give a payload; check, index, extract and recompress with lasting and passing faults; captured exchanges with faults of the peer, '
          'the filter and the writer')
OUTSIDE = 'more than one fault; what follows after a fault in the same reader; faults of close()'


class Fault(IOError):
    pass


class Faulty(object):
    """reads that come to position at fail (only once, if asked so); before, what is left is given or nothing"""

    def __init__(self, S, data, at, tell=1, once=0, kind=None, some=0, seeks=0):
        self.some, self.seeks = some, seeks
        self.f = S.BytesIO(data)
        self.at, self.once, self.raised = at, once, 0
        self.error = (kind or Fault)('no such sector')
        self.pos = 0
        self.total = len(data)
        self.name = 'FILE'
        if tell:
            self.tell = self._bad if tell == 2 else self._tell
            if tell == 1:
                self.seek = self._seek

    def _bad(self):
        raise OSError('tell')

    def _tell(self):
        return self.pos

    def _seek(self, pos, whence=0):
        self.f.seek(pos)
        self.pos = pos
        self.seeks -= 1

    def read(self, n=-1):
        if not (self.once and self.raised) and self.seeks <= 0:
            left = self.at - self.pos
            over = n is None or n < 0 or n > left
            if over and self.at > self.total:
                # the end comes first
                over = False
            if left <= 0 or over and not self.some:
                self.raised += 1
                raise self.error
            if over:
                n = left
        d = self.f.read(-1 if n is None else n)
        self.pos += len(d)
        return d

    def readline(self, n=-1):
        d = self.f.readline(-1 if n is None else n)
        self.f.seek(self.pos)
        if self.pos + len(d) > self.at or self.pos >= self.at:
            return self.read(max(len(d), 1))
        self.pos += len(d)
        self.f.seek(self.pos)
        return d

    def close(self):
        pass

    def __str__(self):
        return 'FILE'

    __repr__ = __str__


def records(S, kinds, gz=0, hi=500, bs=0, fills=2, tell=1, uses=None, opts=None, lo=10, part=None, exc=None, some=0):
    """a fault while iterating"""
    from warcio.archiveiterator import ArchiveIterator
    data, recs, pos = layout(S, kinds, gz, hi, 'norm', None, (), lo)
    S.cover('gzip' if gz else 'plain')
    if kinds[0][0] == 'a':
        S.cover('arc')
    at = S.int('at', 0, 100000)
    S.assume(at <= len(data) + 1)
    if some:
        S.cover('short read first')
    if part is not None:
        S.assume(pos[part][0] <= at)
        if part + 1 < len(pos):
            S.assume(at < pos[part + 1][0])
    f = Faulty(S, data, at, tell, kind={'value': ValueError, 'runtime': RuntimeError}.get(exc), some=some)
    if tell != 1:
        S.cover('no tell' if tell == 0 else 'tell fails')
    kw = dict(opts or {})
    if bs == 'any':
        kw['block_size'] = S.int('bs', 1, 20000)
        S.assume(len(data) <= kw['block_size'] * fills)
        S.cover('block boundary')
    elif bs:
        kw['block_size'] = bs
    n, caught, where = 0, None, None
    try:
        where = 'at a record'
        for r in ArchiveIterator(f, **kw):
            S.check(n < len(recs), 'no extra record')
            check_head(S, r, recs[n], 'record %d: ' % n)
            use = uses[n] if uses else 'all'
            where = 'in content'
            if use == 'all':
                S.check_eq(r.raw_stream.read(), recs[n].content, 'record %d: content' % n)
            elif use == 'pieces':
                got = b''
                while len(got) < 100000:
                    b = r.raw_stream.read(200)
                    S.check(recs[n].content[len(got):][:len(b)] == b, 'record %d: content' % n)
                    got = got + b
                    if not b:
                        break
                S.check_eq(len(got), len(recs[n].content), 'record %d: all of the content' % n)
                S.cover('pieces')
            else:
                S.cover('unread')
            where = 'at a record'
            n += 1
    except Exception as e:
        caught = e
    if f.raised:
        S.check(caught is f.error, 'the error reaches the caller')
        S.cover('in content' if where == 'in content' else 'in head' if n < len(recs) else 'at the end')
        if n and n < len(recs) and where != 'in content':
            S.cover('between records')
        S.check_eq(f.raised, 1, 'no reading on after the error')
    else:
        S.check(caught is None, 'no error')
        S.check_eq(n, len(recs), 'all records')
        S.check(at >= len(data), 'the end was reached')
        S.cover('not reached')


def reader(S, which, ops, hi=200, bs=0, fills=2, comp=None):
    """a fault below a reader: what came before it is right, and it is reported"""
    from warcio.bufferedreaders import BufferedReader, DecompressingBufferedReader, ChunkedDataReader
    from warcio.limitreader import LimitReader
    from warcio.digestverifyingreader import DigestVerifyingReader, DigestChecker
    body = S.blob('a', 10, hi) + b'\n' + S.blob('b', 10, hi)
    data = body
    if which == 'chunk':
        data = b'%x' % len(body) + b'\r\n' + body + b'\r\n'
        more = S.blob('c', 20, 90)
        data = data + b'%x' % len(more) + b'\r\n' + more + b'\r\n0\r\n\r\n'
        body = body + more
        S.cover('encoded')
    elif comp:
        data = S.gzip(body, 0, comp)
        S.cover('encoded')
    at = S.int('at', 0, 5000)
    S.assume(at <= len(data))
    f = Faulty(S, data, at)
    kw = {}
    if bs:
        kw['block_size'] = S.int('bs', 1, 5000)
        S.assume(len(data) <= kw['block_size'] * fills)
        S.cover('block boundary')
    if which == 'buffer':
        r = BufferedReader(f, decomp_type=comp and {'gzip': 'gzip', 'zlib': 'deflate', 'raw': 'deflate'}[comp], **kw)
    elif which == 'decomp':
        r = DecompressingBufferedReader(f, **kw)
    elif which == 'chunk':
        r = ChunkedDataReader(f, **kw)
    elif which == 'limit':
        r = LimitReader(f, len(data))
    else:
        r = DigestVerifyingReader(f, len(data), DigestChecker({'on': 'raise', 'log': 'log', 'yes': True}[which]), record_type='resource',
                                  block_digest='sha1:' + base64.b32encode(S.digest('sha1', data)).decode('ascii'))
        S.cover('digests')
    caught, got, ended = None, b'', False
    try:
        for i, op in enumerate(ops):
            k = S.int('k%d' % i, 1, 2 * hi)
            if op == 'read':
                b = r.read(k)
            elif op == 'line':
                b = r.readline(k)
                S.cover('lines')
            elif op == 'all':
                b = r.read()
            else:
                b = r.readline()
                S.cover('lines')
            S.check_eq(b, body[len(got):len(got) + len(b)], 'the data')
            S.check(len(b) > 0 or len(got) == len(body), 'no end before the end')
            got = got + b
        if ops[-1] == 'all':
            S.check(len(got) > 0, 'not empty')
            ended = len(r.read(1)) == 0
            S.check(not ended or len(got) == len(body), 'no end before the end')
    except Exception as e:
        caught = e
    if f.raised:
        S.check(caught is f.error, 'the error reaches the caller')
        S.cover('in content')
    else:
        S.check(caught is None, 'no error')
        if ended:
            S.cover('not reached')


class Source(Faulty):
    """payload source"""


class Out(object):
    """writes fail at position at, when a part of the data was written"""

    def __init__(self, S, at, flush=None):
        self.data, self.at, self.raised, self.fl = b'', at, 0, flush
        self.error = Fault('disk full')
        self.kth = None

    def fail_at(self, kth, part):
        """the kth write fails: nothing or all but a byte is written"""
        self.kth, self.part = kth, part

    def write(self, b):
        if self.kth is not None:
            if not self.kth:
                self.kth = None
                self.raised += 1
                if self.part and len(b):
                    self.data = self.data + b[:len(b) - 1]
                self.stop = len(self.data)
                raise self.error
            self.kth -= 1
        if self.at is not None and len(self.data) + len(b) > self.at:
            self.data = self.data + b[:self.at - len(self.data)]
            self.stop = self.at
            self.at = None
            self.raised += 1
            raise self.error
        self.data = self.data + b

    def flush(self):
        if self.fl is not None:
            if not self.fl:
                self.fl = None
                self.raised += 1
                raise self.error
            self.fl -= 1

    def tell(self):
        return len(self.data)


ID = '<urn:uuid:00000000-1111-4222-8333-44445555666%d>'


def make(S, w, kind, i, payload, length):
    from warcio.statusandheaders import StatusAndHeaders
    wh = {'WARC-Record-ID': ID % i, 'WARC-Date': '2020-01-02T03:04:05Z'}
    kw = dict(payload=payload, warc_headers_dict=wh)
    if length is not None:
        kw['length'] = length
    if kind in ('response', 'request'):
        kw['http_headers'] = StatusAndHeaders('200 OK', [('A', 'b')], protocol='HTTP/1.1')
    return w.create_warc_record('http://x/%d' % i, kind, **kw)


def source(S, kind, tell, length, hi=300, gz=0, head=0, seeks=0):
    """the payload cannot be read to its end"""
    from warcio.warcwriter import WARCWriter
    body = (b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n' if head else b'') + S.blob('p', 10, hi)
    first = S.blob('q', 10, hi)
    out = Out(S, None)
    w = WARCWriter(out, gzip=bool(gz))
    w.write_record(make(S, w, 'resource', 1, S.BytesIO(first), None))
    done = len(out.data)
    at = S.int('at', 0, 1000)
    S.assume(at <= len(body))
    f = Source(S, body, at, tell, some=0 if head else 1 - gz, seeks=seeks and S.pick('seeks', seeks + 1))
    if seeks:
        S.cover('read again')
    if not tell:
        S.cover('not seekable')
    caught = None
    try:
        if head:
            r = w.create_warc_record('http://x/2', kind, payload=f, warc_headers_dict={'WARC-Record-ID': ID % 2}, **({'length': len(body)} if length else {}))
        else:
            r = make(S, w, kind, 2, f, len(body) if length else None)
        w.write_record(r)
    except Exception as e:
        caught = e
    S.check(caught is (f.error if f.raised else None), 'the error reaches the caller')
    S.check(f.raised > 0 or at >= len(body) or seeks > 0, 'no end before the end')
    S.cover('payload source')
    # what follows starts after whatever was written
    n = len(out.data)
    w.write_record(make(S, w, 'resource', 3, S.BytesIO(first), None))
    tail = out.data[n:]
    if gz:
        ms = S.members(tail)
        S.check_eq(len(ms), 1, 'one member')
        tail = ms[0]
        one = S.members(out.data[:done])
        S.check_eq(len(one), 1, 'one member')
        one = one[0]
        S.cover('gzip')
    else:
        one = out.data[:done]
    S.check_eq(one[len(one) - 4 - len(first):], first + b'\r\n\r\n', 'the record before')
    S.check_eq(tail[:8], b'WARC/1.0', 'the record after')
    S.check_eq(tail[len(tail) - 4 - len(first):], first + b'\r\n\r\n', 'the record after')
    S.cover('next record whole')


def output(S, kinds, gz=0, hi=300, flush=None, tell=1, kth=None, part=0):
    """the output cannot be written"""
    from warcio.warcwriter import WARCWriter
    bodies = [S.blob('p%d' % i, 10, hi) for i in range(len(kinds))]

    def run(out):
        w = WARCWriter(out, gzip=bool(gz))
        ends, caught = [], None
        for i, k in enumerate(kinds):
            src = S.BytesIO(bodies[i]) if tell else Faulty(S, bodies[i], len(bodies[i]), 0)
            if not tell:
                src.at = 100000
            try:
                w.write_record(make(S, w, k, i, src, None))
            except Exception as e:
                S.check(caught is None, 'one error')
                caught = e
                ends.append(None)
                continue
            ends.append(len(out.data))
        return ends, caught
    good = Out(S, None)
    ends, e = run(good)
    S.check(e is None, 'no error')
    at = None
    if flush is None and kth is None:
        at = S.int('at', 0, 5000)
        S.assume(at < len(good.data))
    bad = Out(S, at, flush)
    if kth is not None:
        bad.fail_at(S.pick('kth', kth), part)
    bends, e = run(bad)
    if not bad.raised:
        S.check(e is None, 'no error')
        S.cover('not reached')
        return
    at = bad.stop if flush is None else None
    S.check(e is bad.error and bad.raised == 1, 'the error reaches the caller')
    S.cover('output' if flush is None else 'output at flush')
    k = bends.index(None)
    if not gz:
        before = ends[k - 1] if k else 0
        if flush is None:
            S.check(before <= at, 'the record that failed')
            S.check_eq(bad.data[:at], good.data[:at], 'what was written before')
            S.check_eq(bad.data[at:], good.data[ends[k]:], 'the records after')
        else:
            S.check_eq(bad.data, good.data, 'all is written')
        S.cover('plain')
    else:
        for i in range(k):
            a = S.members(bad.data[(ends[i - 1] if i else 0):ends[i]])
            b = S.members(good.data[(ends[i - 1] if i else 0):ends[i]])
            S.check_eq(a, b, 'the records before')
        if flush is None and k + 1 < len(kinds):
            S.check_eq(S.members(bad.data[at:]), S.members(good.data[ends[k]:]), 'the records after')
        S.cover('gzip')
    if k + 1 < len(kinds):
        S.cover('next record whole')


def tool(S, which, kinds, gz=0, hi=200, once=0, verbose=0, lo=10, idx=0, some=0):
    """the command line tools on a file that cannot be read to its end"""
    from warcio.checker import Checker
    from warcio.indexer import Indexer
    from warcio.extractor import Extractor
    from warcio.recompressor import Recompressor
    data, recs, pos = layout(S, kinds, gz, hi, 'norm', None, (), lo)
    at = S.int('at', 0, 10000)
    S.assume(at <= len(data) + 1)
    f = Faulty(S, data, at, 1, once, some=some)
    if which == 'check':
        class Cmd(object):
            inputs = [f]
        Cmd.verbose = bool(verbose)
        c = Checker(Cmd)
        res = S.run(c.process_all)
        S.check(res.exc is None, 'no traceback')
        if f.raised:
            S.check_eq(res.value, 1, 'the check fails')
            S.cover('not checked')
        else:
            S.check_eq(res.value, 0, 'the check passes')
            S.cover('checked')
    elif which == 'index':
        out = S.path('index.txt')
        x = Indexer(['offset', 'http:x-v'], [f], out)
        res = S.run(x.process_all)
        if f.raised:
            S.check(res.exc is f.error, 'the error reaches the caller')
        else:
            S.check(res.exc is None, 'no error')
        S.cover('indexed')
        lines = (S.get_file(out) or b'').split(b'\n')
        S.check(len(lines) <= len(recs) + 1, 'one line per record')
        for i in range(len(lines) - 1):
            S.check(lines[i].startswith(b'{"offset": "' + num(pos[i][0]) + b'"'), 'line %d' % i)
    elif which == 'extract':
        x = Extractor(f, pos[idx][0])
        res = S.run(lambda: x.extract(verbose == 1, False))
        if f.raised:
            S.check(res.exc is f.error, 'the error reaches the caller')
        else:
            S.check(res.exc is None, 'no error')
            tail = recs[idx].content
            S.check_eq(res.out[len(res.out) - len(tail):], tail, 'all is printed')
        S.cover('extracted')
    else:
        out = S.path('out.warc.gz')
        x = Recompressor(f, out, bool(verbose))
        res = S.run(x.recompress)
        S.check(res.exc is None, 'no traceback')
        if res.status == 0:
            S.check(once or not f.raised, 'not an incomplete file')
            ms = S.members(S.get_file(out))
            S.check_eq(len(ms), len(recs), 'number of records')
            for i, m in enumerate(ms):
                tail = recs[i].content + b'\r\n\r\n'
                S.check_eq(m[len(m) - len(tail):], tail, 'record %d' % i)
            if f.raised:
                S.cover('recompressed anyway')
        else:
            S.check_eq(res.status, 1, 'exit status')
            S.check(f.raised > 0, 'only when it could not be read')
            S.cover('not recompressed')


class BadFile(WireFile):
    """the connection breaks at a position"""

    def _got(self, data):
        if len(self.sock.seen) + len(data) > self.sock.at:
            self.sock.hit = True
            raise self.sock.error
        return WireFile._got(self, data)


class BadSock(Sock):
    def __init__(self, S, answers, at, send=None):
        Sock.__init__(self, S, answers)
        self.at, self.bad_send, self.hit = at, send, False
        self.error = ConnectionResetError(104, 'reset')

    def makefile(self, mode):
        f = BadFile(self)
        self.files.append(f)
        return f

    def sendall(self, data):
        if self.bad_send is not None:
            if not self.bad_send:
                self.bad_send = None
                self.hit = True
                raise self.error
            self.bad_send -= 1
        Sock.sendall(self, data)


def client_run(S, H, sock, path, body, how):
    out = []
    c = connect(H.HTTPConnection('h.org'), [sock])
    try:
        c.request('POST' if body else 'GET', path, body=body)
        r = c.getresponse()
        out.append(r.status)
        if how != 'all':
            out.append(r.read(how))
        out.append(r.read())
        r.close()
    except Exception as e:
        out.append([type(e).__name__, str(e)])
    c.close()
    return out


def capture(S, what, hi=40, how='all', body=0):
    """a captured exchange fails; the client sees the same, and the next one is recorded"""
    import warcio.capture_http as C
    from six.moves import http_client as H
    content = S.blob('a', 1, hi)
    a = b'HTTP/1.1 200 OK\r\nServer: x\r\nContent-Length: ' + num(len(content)) + b'\r\n\r\n' + content
    content = S.blob('b', 1, hi)
    b = b'HTTP/1.1 200 OK\r\nServer: x\r\nContent-Length: ' + num(len(content)) + b'\r\n\r\n' + content
    at, send = 100000, None
    if what == 'peer':
        at = S.int('at', 0, 200)
        S.assume(at <= len(a))
    elif what == 'send':
        send = S.pick('send', 3)
    body = b'first body' if body else None
    if isinstance(how, int):
        how = S.int('how', 1, hi)
    s0, s1 = [BadSock(S, a, at, send), Sock(S, b)], [BadSock(S, a, at, send), Sock(S, b)]
    calls, kw, out = [], {}, None

    def flt(req, resp, rec):
        calls.append(1)
        if len(calls) == 1:
            raise Fault('filter')
        return req, resp
    seen0 = [client_run(S, H, s0[0], '/one', body, how), client_run(S, H, s0[1], '/two', None, how)]
    if what == 'filter':
        kw['filter_func'] = flt
        S.cover('filter')
    elif what == 'writer':
        from warcio.warcwriter import WARCWriter
        out = Out(S, None)
        kw['warc_writer'] = WARCWriter(out, gzip=False)
        kth = S.pick('kth', 4)
        out.fail_at(kth, S.pick('part', 2))
        S.cover('writer')
    with C.capture_http(**kw) as w:
        seen = [client_run(S, H, s1[0], '/one', body, how)]
        n = len(out.data if out else w.get_contents())
        seen.append(client_run(S, H, s1[1], '/two', None, how))
    data = out.data if out else w.get_contents()
    S.check_eq(seen[1], seen0[1], 'what the client sees of the next exchange')
    S.check_eq([s.out() for s in s1], [s.out() for s in s0], 'what is sent')
    if what in ('peer', 'send'):
        S.check_eq(seen, seen0, 'what the client sees')
        S.check(s0[0].hit == s1[0].hit, 'the same fault')
        if s1[0].hit:
            S.cover('peer')
    S.check_eq(s1[0].open, False, 'the connection is closed')
    pairs(S, data[n:], [('http://h.org/two', s1[1].out(), b)])
    S.cover('next exchange recorded')


W1 = ['res', 'resp', 'req', 'rev', 'revh', 'info', 'nohttp', 'nl', 'wl', 'none', 'lf', 'low']
A1 = ['aresp', 'adns', 'anone', 'anl', 'awl']


def jobs(tier):
    J = []
    th = tier == 'thorough'
    hi = 2000 if th else 500
    for gz in (0, 1):
        for i, k in enumerate(W1 + A1):
            J.append(('records', dict(kinds=[k], gz=gz, tell=(1, 0, 2)[i % 3], uses=[('all', 'no')[i % 2]])))
            nxt = 'resp' if k[0] != 'a' else 'aresp'
            J.append(('records', dict(kinds=[k, nxt], gz=gz, hi=hi, part=0, tell=1)))
            J.append(('records', dict(kinds=[nxt, k], gz=gz, hi=hi, part=1, uses=['no', 'all'])))
        for k in ('resp', 'none', 'aresp') if not th else W1 + A1:
            J.append(('records', dict(kinds=[k], gz=gz, some=1, hi=60)))
        for ks in (['resp', 'res', 'req'], ['aresp', 'adns', 'aresp']):
            for uses in (['all', 'all', 'all'], ['no', 'no', 'no'], ['pieces', 'no', 'all']):
                J.append(('records', dict(kinds=ks, gz=gz, hi=150 if 'pieces' in uses else hi, uses=uses, tell=gz)))
        for ks in (['resp', 'res'], ['aresp', 'adns']):
            J.append(('records', dict(kinds=ks, gz=gz, hi=hi, bs='any', fills=3 if th else 2)))
            for bs in (1, 64, 100) if th else (100,):
                J.append(('records', dict(kinds=ks, gz=gz, hi=60, bs=bs, some=0 if gz else th)))
            for o in ('no_record_parse', 'check_digests', 'verify_http', 'ensure_http_headers', 'arc2warc'):
                if o in ('check_digests', 'verify_http'):
                    J.append(('records', dict(kinds=ks, gz=gz, opts={o: True})))
            for x in ('value', 'runtime'):
                J.append(('records', dict(kinds=ks, gz=gz, exc=x)))
    for which, comp in (('buffer', None), ('buffer', 'gzip'), ('buffer', 'zlib'), ('decomp', None), ('decomp', 'gzip'), ('chunk', None), ('limit', None), ('on', None),
                        ('log', None), ('yes', None)):
        for ops in (['read', 'read', 'all'], ['line', 'nl', 'all'], ['nl', 'read', 'all'], ['all']):
            J.append(('reader', dict(which=which, comp=comp, ops=ops)))
            if which in ('buffer', 'decomp', 'chunk') and (ops[0] != 'line' or th) and comp != 'gzip':
                J.append(('reader', dict(which=which, comp=comp, ops=ops if th else ops[-2:], bs=1, fills=2)))
    for kind in ('response', 'resource', 'request', 'metadata', 'revisit'):
        for tell in (0, 1):
            for ln in (0, 1):
                for gz in (0, 1):
                    if kind != 'revisit':
                        J.append(('source', dict(kind=kind, tell=tell, length=ln, gz=gz)))
                        if tell and kind in ('response', 'resource'):
                            J.append(('source', dict(kind=kind, tell=tell, length=ln, gz=gz, seeks=6)))
                if kind in ('response', 'request'):
                    J.append(('source', dict(kind='response', tell=tell, length=ln, head=1, gz=0 if kind == 'request' else 1)))
    for gz in (0, 1):
        J.append(('output', dict(kinds=['response'], gz=gz)))
        for ks in (['resource'], ['response', 'resource'], ['resource', 'response', 'resource']):
            for part in (0, 1):
                J.append(('output', dict(kinds=ks, gz=gz, kth=6 * len(ks), part=part)))
                J.append(('output', dict(kinds=ks, gz=gz, tell=0, kth=6 * len(ks), part=part)))
            for n in range(len(ks)):
                J.append(('output', dict(kinds=ks, gz=gz, flush=n)))
    for gz in (0, 1):
        for ks in (['res'], ['resp', 'res'], ['info', 'resp', 'req']):
            for v in (0, 1):
                J.append(('tool', dict(which='check', kinds=ks, gz=gz, verbose=v)))
                J.append(('tool', dict(which='check', kinds=ks[:2], gz=gz, verbose=v, once=1, some=1, hi=60)))
                J.append(('tool', dict(which='extract', kinds=ks, gz=gz, verbose=v, idx=len(ks) - 1)))
                for once in (0, 1):
                    J.append(('tool', dict(which='recompress', kinds=ks, gz=gz, verbose=0, once=once)))
            J.append(('tool', dict(which='index', kinds=ks, gz=gz)))
    for b in (0, 1):
        for how in ('all', 1):
            for what in ('peer', 'send', 'filter', 'writer'):
                J.append(('capture', dict(what=what, how=how, body=b)))
    return J
