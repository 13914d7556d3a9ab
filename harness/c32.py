from harness.c26 import pairs
from harness.arch import layout, check_head
from harness.common import num
from harness.net import Sock, WireFile, connect
from harness.sched import Sched, Locks
from harness.wr import split_record, header_of

COVERS = ['one context', 'own contexts', 'one writer', 'outside', 'switched', 'not switched', 'plain', 'gzip', 'filter', 'two exchanges', 'in parts', 'reversed', 'own files', 'reading', 'writing']
BOUNDS = ('2 (thorough also 3, with one switch) threads, each with 1 to 2 exchanges with bodies of arbitrary length 10 to 40: connections of one context, a context of its own each with its own '
          'writer or all with one writer, and threads outside of any; 2 threads that write or read files of their own (1 to 2 records each); every schedule with at most 2 (thorough 3) switches between the threads at the operations on sockets, outputs and locks '
          'besides those where a thread ends or waits; filters; buffer and file-like writers, plain and gzip')
OUTSIDE = 'more switches; switches inside operations other than those; one connection or one record used by two threads; captures by file name'




class TSock(Sock):
    def __init__(self, S, sched, answers):
        Sock.__init__(self, S, answers)
        self.sched = sched

    def sendall(self, data):
        self.sched.point()
        Sock.sendall(self, data)

    def makefile(self, mode):
        f = TFile(self)
        self.files.append(f)
        return f


class TFile(WireFile):
    def _got(self, data):
        r = WireFile._got(self, data)
        return r

    def read(self, n=-1):
        self.sock.sched.point()
        return WireFile.read(self, n)


class TOut(object):
    """output of a writer; another thread may go on at every write"""

    def __init__(self, sched):
        self.sched, self.data = sched, b''
        self.parts = []

    def write(self, b):
        self.sched.point()
        self.data = self.data + b
        return len(b)

    def flush(self):
        self.sched.point()

    def tell(self):
        return len(self.data)


def client(H, sock, path, how, host='h.org'):
    c = connect(H.HTTPConnection(host), [sock])
    return lambda: exchange(c, path, how)


def exchange(c, path, how):
    c.request('GET', path)
    r = c.getresponse()
    out = [r.status]
    if how:
        out.append(r.read(how))
    out.append(r.read())
    r.close()
    c.close()
    return out


def answer(S, nm, hi):
    b = S.blob(nm, 10, hi)
    return b'HTTP/1.1 200 OK\r\nServer: ' + nm.encode('latin-1') + b'\r\nContent-Length: ' + num(len(b)) + b'\r\n\r\n' + b, b


def split_pairs(S, data, gz):
    if gz:
        data = b''.join(S.members(data))
        S.cover('gzip')
    else:
        S.cover('plain')
    out = []
    while len(data):
        head, rest = split_record(S, data, 'record')
        n = int(header_of(head, b'Content-Length')[0])
        S.check_eq(rest[n:n + 4], b'\r\n\r\n', 'end of a record')
        out.append((head, rest[:n]))
        data = rest[n + 4:]
        S.check(len(out) < 20, 'an end')
    return out


def look(S, data, gz, want):
    """want: {url: (sent, answered)}: each pair once, response first, next to each other"""
    recs = split_pairs(S, data, gz)
    S.check_eq(len(recs), 2 * len(want), 'number of records')
    urls = []
    for i in range(0, len(recs), 2):
        (h1, b1), (h2, b2) = recs[i], recs[i + 1]
        S.check_eq(header_of(h1, b'WARC-Type') + header_of(h2, b'WARC-Type'), [b'response', b'request'], 'response, then request')
        url = header_of(h1, b'WARC-Target-URI')[0].decode('latin-1')
        S.check_eq(header_of(h2, b'WARC-Target-URI')[0].decode('latin-1'), url, 'same URL')
        S.check_eq(header_of(h2, b'WARC-Concurrent-To'), header_of(h1, b'WARC-Record-ID'), 'the request refers to its response')
        S.check(url in want and url not in urls, 'an exchange made, once')
        urls.append(url)
        q, a = want[url]
        S.check_eq(b1, a, 'bytes received')
        S.check_eq(b2, q, 'bytes sent')
    if urls != sorted(urls):
        S.cover('reversed')


def shared(S, mode, n=2, each=1, gz=0, hi=40, budget=2, how=0, flt=0, late=0, others=0):
    """n threads at once; mode: one context (connections made before), own contexts, one writer for all contexts"""
    from six.moves import http_client as H
    sched = Sched(S, budget)
    with Locks(sched):
        import warcio.capture_http as C
        from warcio.warcwriter import WARCWriter, BufferWARCWriter
        socks, want, bodies = [], {}, []
        for t in range(n + others):
            for e in range(each):
                a, b = answer(S, 't%de%d' % (t, e), hi)
                socks.append(TSock(S, sched, a))
                bodies.append((a, b))
        k = S.int('how', 1, hi) if how else 0
        if how:
            S.cover('in parts')
        calls = []

        def keep(req, resp, rec):
            sched.point()
            calls.append(1)
            return (req, resp) if not rec.url.endswith('t0e0') else (None, None)
        kw = {}
        if flt:
            kw['filter_func'] = keep
            S.cover('filter')
        outs = [TOut(sched) for t in range(n)]

        def path(t, e):
            return '/t%de%d' % (t, e)

        def runs(t):
            out = []
            for e in range(each):
                out.append(exchange(connect(H.HTTPConnection('h.org'), [socks[t * each + e]]), path(t, e), k))
            return out

        def own(t):
            def go():
                with C.capture_http(WARCWriter(outs[t], gzip=bool(gz)), **kw):
                    return runs(t)
            return go

        def outside(t):
            return lambda: runs(t)

        if mode == 'context':
            with C.capture_http(WARCWriter(outs[0], gzip=bool(gz)), **kw):
                conns = [[connect(H.HTTPConnection('h.org'), [socks[t * each + e]]) for e in range(each)] for t in range(n)]
                fns = [lambda t=t: [exchange(conns[t][e], path(t, e), k) for e in range(each)] for t in range(n)]
                res = sched.run(fns)
            S.cover('one context')
        elif mode == 'own':
            res = sched.run([own(t) for t in range(n)] + [outside(n + t) for t in range(others)])
            S.cover('own contexts')
        else:
            w = WARCWriter(outs[0], gzip=bool(gz))

            def go(t):
                def f():
                    with C.capture_http(w, **kw):
                        return runs(t)
                return f
            res = sched.run([go(t) for t in range(n)] + [outside(n + t) for t in range(others)])
            S.cover('one writer')
    S.check(not sched.deadlock, 'no thread waits for ever')
    if others:
        S.cover('outside')
    if each > 1:
        S.cover('two exchanges')
    S.cover('switched' if sched.switches else 'not switched')
    for t in range(n + others):
        for e in range(each):
            a, b = bodies[t * each + e]
            S.check(not isinstance(res[t], BaseException), 'thread %d: %r' % (t, res[t] if isinstance(res[t], BaseException) else ''))
            x = res[t][e]
            S.check_eq([x[0], b''.join(x[1:])], [200, b], 'what the client sees')
            S.check_eq(socks[t * each + e].seen, a, 'all is read')
    parts = {}
    for t in range(n):
        for e in range(each):
            if flt and t == 0 and e == 0:
                continue
            to = t if mode == 'own' else 0
            parts.setdefault(to, {})['http://h.org' + path(t, e)] = (socks[t * each + e].out(), bodies[t * each + e][0])
    for t in range(n):
        if mode != 'own' and t:
            break
        look(S, outs[t].data, gz, parts.get(t, {}))


class TIn(object):
    """a file; another thread may go on at every read"""

    def __init__(self, S, sched, data, most=None):
        self.f, self.sched, self.most = S.BytesIO(data), sched, most

    def read(self, n=-1):
        self.sched.point()
        return self.f.read(n if self.most is None or 0 <= n < self.most else self.most)

    def tell(self):
        return self.f.tell()


ID = '<urn:uuid:00000000-1111-4222-8333-44445555666%d>'


def writes(S, i, kinds, payloads, out, gz):
    from warcio.warcwriter import WARCWriter
    from warcio.statusandheaders import StatusAndHeaders

    def go():
        w = WARCWriter(out, gzip=bool(gz), warc_version='1.%d' % (i % 2))
        for n, k in enumerate(kinds):
            wh = {'WARC-Record-ID': ID % (4 * i + n), 'WARC-Date': '2020-01-02T03:04:05Z'}
            u = 'http://x/%d/%d' % (i, n)
            if k == 'pair':
                q = w.create_warc_record(u, 'request', warc_headers_dict=wh, http_headers=StatusAndHeaders('/ HTTP/1.1', [('H', str(i))], protocol='GET'))
                wh = dict(wh)
                wh['WARC-Record-ID'] = ID % (9 - i)
                p = w.create_warc_record(u, 'response', payload=S.BytesIO(payloads[n]), warc_headers_dict=wh,
                                         http_headers=StatusAndHeaders('200 OK', [('H', str(i))], protocol='HTTP/1.1'))
                w.write_request_response_pair(q, p)
            elif k == 'revisit':
                w.write_record(w.create_revisit_record(u, 'sha1:A', 'http://o/', '2019-01-01T00:00:00Z', warc_headers_dict=wh))
            elif k == 'info':
                r = w.create_warcinfo_record('f%d' % i, {'a': str(i)})
                r.rec_headers.replace_header('WARC-Record-ID', wh['WARC-Record-ID'])
                r.rec_headers.replace_header('WARC-Date', wh['WARC-Date'])
                w.write_record(r)
            else:
                kw = {}
                if k == 'response':
                    kw['http_headers'] = StatusAndHeaders('200 OK', [('H', str(i))], protocol='HTTP/1.1')
                w.write_record(w.create_warc_record(u, k, payload=S.BytesIO(payloads[n]), warc_headers_dict=wh, length=len(payloads[n]), **kw))
        return len(kinds)
    return go


def reads(S, i, src, recs, pos, opts, how):
    from warcio.archiveiterator import ArchiveIterator

    def go():
        it = ArchiveIterator(src, **opts)
        n = 0
        for r in it:
            S.check(n < len(recs), 'thread %d: no extra record' % i)
            check_head(S, r, recs[n], 'thread %d, record %d: ' % (i, n))
            a = r.raw_stream.read(how) if how else b''
            S.check_eq(a + r.raw_stream.read(), recs[n].content, 'thread %d, record %d: content' % (i, n))
            S.check_eq([it.get_record_offset(), it.get_record_length()], pos[n], 'thread %d, record %d: position' % (i, n))
            if opts.get('check_digests'):
                S.check_eq(r.digest_checker.passed, None, 'thread %d, record %d: no digest' % (i, n))
            n += 1
        return n
    return go


def files(S, tasks, budget=2, gz=(0, 1), hi=40, most=None, how=0, opts=None):
    """threads with files of their own; tasks: 'w kinds...' or 'r kinds...'"""
    sched = Sched(S, budget)
    S.cover('own files')
    fns, after, n = [], [], 0
    with Locks(sched):
        for i, t in enumerate(tasks):
            g = gz[i % len(gz)]
            kinds = t.split()[1:]
            if t[0] == 'w':
                bodies = [S.blob('w%d%d' % (i, k), 10, hi) for k in range(len(kinds))]
                alone, out = TOut(Sched(S, 0)), TOut(sched)
                writes(S, i, kinds, bodies, alone, g)()
                fns.append(writes(S, i, kinds, bodies, out, g))
                after.append((out, alone, g))
                S.cover('writing')
            else:
                data, recs, pos = layout(S, kinds, g, hi, 'norm', None, (), 10, n)
                n += len(kinds)
                k = S.int('how%d' % i, 1, hi) if how else 0
                fns.append(reads(S, i, TIn(S, sched, data, most), recs, pos, opts or {}, k))
                S.cover('reading')
        res = sched.run(fns)
    S.check(not sched.deadlock, 'no thread waits for ever')
    for i, t in enumerate(tasks):
        if isinstance(res[i], BaseException):
            raise res[i]
        S.check_eq(res[i], len(t.split()) - 1, 'thread %d: all records' % i)
    for out, alone, g in after:
        if g:
            S.check_eq(S.members(out.data), S.members(alone.data), 'what is written')
        else:
            S.check_eq(out.data, alone.data, 'what is written')
    S.cover('switched' if sched.switches else 'not switched')


def jobs(tier):
    J = []
    th = tier == 'thorough'
    for gz in ((0, 0), (1, 1)) if not th else ((0, 0), (1, 1), (0, 1)):
        for tasks, b in ((['w pair', 'w pair'], 1), (['w resource', 'w response'], 2), (['w resource info', 'w revisit pair'], 1), (['w response', 'r resp res'], 1)):
            J.append(('files', dict(tasks=tasks, gz=gz, most=200, budget=b + th)))
        for tasks in (['r resp res', 'r req nl'], ['r aresp adns', 'r resp rev'], ['r resp info', 'w response']):
            J.append(('files', dict(tasks=tasks, gz=gz, most=80, hi=11, budget=1)))
            J.append(('files', dict(tasks=tasks, gz=gz, most=200, how=1, hi=11, opts={'check_digests': True}, budget=1)))
            if th:
                J.append(('files', dict(tasks=tasks, gz=gz, most=250, hi=10, budget=2)))
                J.append(('files', dict(tasks=tasks, gz=gz, most=100, hi=40, budget=1)))
    b = 3 if th else 2
    for mode in ('context', 'own', 'writer'):
        for gz in (0, 1):
            J.append(('shared', dict(mode=mode, gz=gz, budget=b - (1 if gz and not th else 0))))
            J.append(('shared', dict(mode=mode, gz=gz, budget=b - 1, flt=1)))
            J.append(('shared', dict(mode=mode, gz=gz, budget=b - 1, how=1)))
        J.append(('shared', dict(mode=mode, each=2, budget=b - 1)))
        if mode != 'context':
            J.append(('shared', dict(mode=mode, n=1, others=1, budget=b - 1)))
        if th:
            J.append(('shared', dict(mode=mode, n=3, budget=1)))
    return J
