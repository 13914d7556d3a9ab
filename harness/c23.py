from harness.arch import layout, record, HEAD, HHDR, TYPES
from harness.common import fill, num, warc
from harness.wr import split_record, header_of

COVERS = ['plain', 'per record', 'one piece', 'some per member', 'arc', 'arc converted', 'verbose', 'not readable', 'kept digest',
          'odd http', 'no length', 'one member per record', 'one record', 'empty member', 'missing', 'request', 'revisit']
BOUNDS = ('files of 1 to 3 records (WARC of all shapes, ARC with and without file header; content of arbitrary length up to 2000, up to one newline, '
          'record-like text, or up to 4 (thorough 6) arbitrary bytes also where HTTP headers are expected), plain, gzipped per record, in one piece or '
          'several records per member, with empty members and 0 to 3 separating lines; records with digests, without a length; '
          'unreadable, missing and partly readable files; through the command line entry point, verbose or not')
OUTSIDE = 'empty files; payload of a revisit with HTTP headers (not written on purpose, C28); HTTP headers that are not ASCII (C14); larger files'


def parse_member(S, data, label):
    """fields of one written record: (version, [(name, value)], block)"""
    head, rest = split_record(S, data, label)
    lines = head.split(b'\r\n')
    hs = []
    for line in lines[1:]:
        c = line.find(b': ')
        S.check(c > 0, label + 'header line')
        hs.append((line[:c], line[c + 2:]))
    n = [v for k, v in hs if k.lower() == b'content-length']
    S.check_eq(len(n), 1, label + 'one Content-Length')
    block = rest[:len(rest) - 4]
    S.check_eq(rest[len(rest) - 4:], b'\r\n\r\n', label + 'terminated')
    S.check_eq(n[0], num(len(block)), label + 'Content-Length is right')
    return lines[0], hs, block


ADDED = (b'WARC-Block-Digest', b'WARC-Payload-Digest')


def check_written(S, data, x, label):
    """x: dict(version, headers [(name, value)] or None for ARC, block)"""
    vers, hs, block = parse_member(S, data, label)
    S.check_eq(block, x['block'], label + 'block')
    S.check_eq(vers, x['version'], label + 'version')
    names = [k for k, v in x['headers']]
    got = [(k, v) for k, v in hs if k in names or k not in ADDED]
    want = [(k, v) for k, v in x['headers']]
    if x.get('loose'):
        # a record without a length: header order may change, the length is added
        S.check_eq(sorted([k for k, v in got]), sorted(names + [b'Content-Length']), label + 'header names')
        for k, v in want:
            S.check_eq([b for a, b in got if a == k], [v], label + 'header value')
        return
    if x.get('arc'):
        got = [(k, v) for k, v in got if k != b'WARC-Record-ID']
        S.check_eq([k for k, v in hs].count(b'WARC-Record-ID'), 1, label + 'record id')
    S.check_eq(got, want, label + 'headers')


def expected(S, rec):
    """of a record of arch.record()"""
    d = rec.data
    if rec.fmt == 'arc':
        p = d.find(b'\n')
        block = d[p + 1:]
        return dict(version=b'WARC/1.0', block=block, arc=1, headers=[
            (b'WARC-Type', b'response'), (b'WARC-Target-URI', rec.uri.encode('latin-1')), (b'WARC-IP-Address', b'1.2.3.4'),
            (b'WARC-Date', b'2020-01-02T03:04:05Z'), (b'Content-Type', b'application/http;msgtype=response'),
            (b'Content-Length', num(len(block)))])
    p = d.find(b'\r\n\r\n')
    p = d.find(b'\n\n') + 2 if p < 0 or d[:9] == b'WARC/1.1\n' else p + 4
    block = d[p:]
    line = d[:d.find(b'\n')].rstrip().upper()
    return dict(version=line, block=block, headers=[(k.encode('latin-1'), v.encode('latin-1')) for k, v in rec.headers])


def special(S, kind, i, hi):
    """(bytes, expected) of records arch does not build"""
    nm = 's%d' % i
    if kind == 'dig':
        # digests already there (of anything) are kept
        S.cover('kept digest')
        block = S.blob(nm, 1, hi)
        extra = b'WARC-Block-Digest: sha1:GIVEN\r\nWARC-Payload-Digest: md5:OTHER\r\nContent-Type: a/b\r\n'
        hs = [(b'WARC-Block-Digest', b'sha1:GIVEN'), (b'WARC-Payload-Digest', b'md5:OTHER'), (b'Content-Type', b'a/b')]
        return warc(b'conversion', block, extra, end=b''), dict(version=b'WARC/1.0', block=block, headers=[
            (b'WARC-Type', b'conversion'), (b'WARC-Target-URI', b'http://x.org/')] + hs + [(b'Content-Length', num(len(block)))])
    if kind == 'nolen':
        # no length: the record goes to the end
        S.cover('no length')
        block = HEAD + S.blob(nm, 1, hi)
        return warc(b'response', block, b'Content-Type: a/b\r\nX-A: b\r\n', length=False, end=b''), dict(
            version=b'WARC/1.0', block=block, loose=1, headers=[
                (b'WARC-Type', b'response'), (b'WARC-Target-URI', b'http://x.org/'), (b'Content-Type', b'a/b'), (b'X-A', b'b')])
    if kind == 'filedesc':
        block = b'1 0 IA\nURL IP-address Archive-date Content-type Archive-length\n\n' + S.blob(nm, 1, hi)
        # the version block lines are part of the ARC file header only
        return b'filedesc://f.arc 0.0.0.0 20200102030405 text/plain ' + num(len(block)) + b'\n' + block, None
    rtype = {'q': b'request', 'p': b'response', 'v': b'revisit'}[kind[0]]
    if kind[0] == 'q':
        S.cover('request')
    if kind[0] == 'v':
        S.cover('revisit')
    if kind[1:] == 'icy':
        http = b'ICY 200 OK\r\nA: b\r\n\r\n'
    elif kind[1:] == 'noreason':
        http = b'HTTP/1.1 200\r\nA: b\r\n\r\n'
    elif kind[1:] == 'noproto':
        http = b'HTTP/1.1\r\n\r\n'
    elif kind[1:] == 'blank':
        http = b'\r\n'
    elif kind[1:] == 'encoded':
        http = b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Encoding: gzip\r\nContent-Length: 7\r\n\r\n'
    S.cover('odd http')
    block = http + (b'' if kind[0] == 'v' else S.blob(nm, 1, hi))
    return warc(rtype, block, b'X-A: b\r\n', end=b''), dict(version=b'WARC/1.0', block=block, headers=[
        (b'WARC-Type', rtype), (b'WARC-Target-URI', b'http://x.org/'), (b'X-A', b'b'), (b'Content-Length', num(len(block)))])


SPECIAL = ('dig', 'nolen', 'filedesc', 'picy', 'pnoreason', 'pnoproto', 'pblank', 'pencoded', 'qicy', 'qblank', 'vicy', 'vblank')


def recompress(S, kinds, form='plain', hi=2000, sep='norm', verbose=0, arb=None, empties=(), lo=0):
    """form: plain, each, one, or list of records per member"""
    from warcio.cli import main
    from warcio.archiveiterator import ArchiveIterator
    parts, exp = [], []
    for i, k in enumerate(kinds):
        if k in SPECIAL:
            d, x = special(S, k, i, hi)
        else:
            r = record(S, k, i, hi, arb, lo)
            d, x = r.data, expected(S, r)
        end = {'norm': b'\n' if k[0] == 'a' or k == 'filedesc' else b'\r\n\r\n', 'none': b'', 'more': b'\r\n\r\n\n\r\n'}[sep]
        if k == 'nolen':
            end = b''
        parts.append(d + end)
        exp.append(x)
    if form == 'plain':
        data = b''.join(parts)
        S.cover('plain')
    elif form == 'each':
        data = b''
        for i, p in enumerate(parts):
            if i in empties:
                data = data + S.gzip(b'')
                S.cover('empty member')
            data = data + S.gzip(p, 3 * i)
        S.cover('per record')
    elif form == 'one':
        data = S.gzip(b''.join(parts))
        S.cover('one piece')
    else:
        data, j = b'', 0
        for n in form:
            data = data + S.gzip(b''.join(parts[j:j + n]))
            j += n
        S.cover('some per member')
    name, out = S.put_file('in.warc', data), S.path('out.warc.gz')
    res = S.run(lambda: main(['recompress'] + (['-v'] if verbose else []) + [name, out]))
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check_eq(res.status, 0, 'exit status')
    reported(S, res, len(kinds), out)
    got = S.members(S.get_file(out))
    S.check_eq(len(got), len(kinds), 'one member per record')
    for i, m in enumerate(got):
        S.check(m is not None, 'complete gzip member')
        label = 'record %d: ' % i
        if exp[i] is None:
            # ARC file header: its lines after the version block
            vers, hs, block = parse_member(S, m, label)
            S.check_eq([v for k, v in hs if k in (b'WARC-Type', b'WARC-Filename', b'WARC-Date', b'WARC-IP-Address')],
                       [b'warcinfo', b'0.0.0.0', b'2020-01-02T03:04:05Z', b'f.arc'] if hs[2][0] == b'x' else
                       [v for k, v in hs if k in (b'WARC-Type', b'WARC-Filename', b'WARC-Date', b'WARC-IP-Address')], label + 'header')
            S.check_eq(header_of(m[:m.find(b'\r\n\r\n')], b'WARC-Type'), [b'warcinfo'], label + 'type')
            S.check_eq(header_of(m[:m.find(b'\r\n\r\n')], b'WARC-Filename'), [b'f.arc'], label + 'file name')
            whole = parts[i]
            p = whole.find(b'Archive-length\n') + len(b'Archive-length\n')
            S.check_eq(block, whole[p:len(whole) - (0 if sep == 'none' else 1 if sep == 'norm' else 7)], label + 'block')
            S.cover('arc converted')
            continue
        check_written(S, m, exp[i], label)
        if exp[i].get('arc'):
            S.cover('arc')
    S.cover('one member per record')
    if len(kinds) == 1:
        S.cover('one record')
    if verbose:
        S.cover('verbose')


def reported(S, res, n, out):
    p = res.text.find(' records read and recompressed to file: ' + out + '\n')
    S.check(p > 0, 'the number is reported')
    S.check(res.text[:p] == str(n) or res.text[:p].endswith('\n%d' % n), 'the right number is reported')


def any_http(S, rtype, spec, form, uri='http://x.org/'):
    """a record with arbitrary bytes where HTTP headers are expected: nothing of it is lost"""
    from warcio.cli import main
    from warcio.archiveiterator import ArchiveIterator
    block = fill(S, spec)
    rec = warc(rtype.encode('latin-1'), block, b'X-A: b\r\n', uri=uri.encode('latin-1'))
    other = warc(b'metadata', b'second', uri=None)
    data = rec + other if form == 'plain' else S.gzip(rec) + S.gzip(other) if form == 'each' else S.gzip(rec + other)
    name, out = S.put_file('in.warc', data), S.path('out.warc.gz')
    res = S.run(lambda: main(['recompress', name, out]))
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check_eq(res.status, 0, 'exit status')
    reported(S, res, 2, out)
    got = S.members(S.get_file(out))
    S.check_eq(len(got), 2, 'one member per record')
    vers, hs, blk = parse_member(S, got[0], 'record 0: ')
    parse_member(S, got[1], 'record 1: ')
    seen = []
    for d in (data, S.get_file(out)):
        if d is data and form == 'one':
            d = rec + other
        for r in ArchiveIterator(S.BytesIO(d)):
            h = r.http_headers
            seen.append((r.rec_type, r.rec_headers.get_header('WARC-Target-URI'), r.rec_headers.get_header('X-A'),
                         None if h is None else ((h.protocol + ' ' + h.statusline).strip(), [tuple(x) for x in h.headers]), r.raw_stream.read()))
    S.check_eq(len(seen), 4, 'records')
    for i in (0, 1):
        for a, b, what in zip(seen[i], seen[i + 2], ('type', 'uri', 'header', 'HTTP headers', 'content')):
            if what == 'HTTP headers':
                S.check((a is None) == (b is None), 'same HTTP headers')
                if a is None:
                    continue
            if what == 'content' and rtype == 'revisit':
                b = a  # (dropped on purpose: a revisit is written without payload)
            S.check_eq(a, b, 'same ' + what)
    S.cover('odd http')


def unreadable(S, what, verbose=0, hi=300):
    from warcio.cli import main
    good = warc(b'metadata', S.blob('g', 1, hi))
    out = S.path('out.warc.gz')
    if what == 'missing':
        name = S.path('nothing.warc')
        S.cover('missing')
    else:
        junk = b'no archive ' + S.blob('j', 0, hi) + b'\r\nmore\r\n'
        data = {'junk': junk, 'gzjunk': S.gzip(junk), 'after': good + junk, 'gzafter': S.gzip(good) + S.gzip(junk),
                'onegz': S.gzip(good + junk), 'arcjunk': b'http://x 1.2.3.4 text/plain 5\nabcde\n', 'oneline': b'x'}[what]
        name = S.put_file('in.warc', data)
    res = S.run(lambda: main(['recompress'] + (['-v'] if verbose else []) + [name, out]))
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check(res.status != 0, 'exit status is not 0')
    S.check('records read and recompressed' not in res.text, 'no success is reported')
    S.cover('not readable')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(kinds, form, **kw):
        out.append(('recompress', dict(kinds=kinds, form=form, **kw)))
    warcs = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low']]
    arcs = [['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl'], ['filedesc', 'aresp', 'adns']]
    for ks in warcs + arcs:
        for form in ('plain', 'each', 'one', [1, 2], [2, 1], [3]):
            for v in (0, 1):
                if v and q and form not in ('plain', 'one'):
                    continue
                o(ks, form, verbose=v, hi=60 if q else 2000, lo=1 if q else 0)
            if form != 'plain':
                o(ks, form, sep='more', hi=60, lo=1)
        o(ks, 'each', sep='none', hi=60, lo=1)
        o(ks, 'each', empties=[0, 1, 2], hi=60, lo=1)
    for k in ('res', 'resp', 'info', 'wl', 'rev', 'nohttp', 'none', 'nl', 'req', 'revh', 'lf', 'low', 'aresp', 'adns', 'awl', 'anl', 'anone') + SPECIAL:
        for form in ('plain', 'each'):
            o([k], form)
            if k != 'nolen':
                o([k, 'res' if k[0] != 'a' and k != 'filedesc' else 'adns'], form, hi=100)
                o(['res' if k[0] != 'a' and k != 'filedesc' else 'adns', k], 'one', hi=100)
            elif form == 'each':
                o(['resp', k], form, hi=100)
        if k != 'nolen':
            o([k, 'resp' if k[0] != 'a' and k != 'filedesc' else 'aresp', k], 'one', hi=50, verbose=1)
    for form in ('plain', 'each', 'one'):
        for k in ('res', 'resp', 'aresp'):
            o([k, 'adns' if k[0] == 'a' else 'res'], form, arb=[1, '\r\n', 1] if q else [2, '\r\n', 2], hi=50)
            o([k], form, arb=[2] if q else [4])
    for rt in ('response', 'request', 'revisit'):
        for form in ('plain', 'each') if q else ('plain', 'each', 'one'):
            for spec in ([3], ['\r\n', 1], ['\n', [1, 50]], ['HTTP/1.1 200 OK\r\n', 2], ['A', 2, 'b\r\n\r\n', 1], [' ', 2, '\r\n\r\nx']):
                if rt == 'revisit' and spec[-1] in (1, 'x', [1, 50]):
                    continue
                out.append(('any_http', dict(rtype=rt, spec=[[x, x, '0-127'] if isinstance(x, int) else x for x in spec], form=form)))
    for what in ('missing', 'junk', 'gzjunk', 'after', 'gzafter', 'onegz', 'arcjunk', 'oneline'):
        for v in (0, 1):
            out.append(('unreadable', dict(what=what, verbose=v)))
    return out
