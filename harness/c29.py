from harness.arch import record, check_head, NoTell, Short
from harness.common import fill

COVERS = ['rejected', 'accepted', 'bad first', 'bad later', 'good before bad', 'followed by good', 'empty member', 'blank lines', 'all consumed', 'part consumed',
          'not consumed', 'positions asked', 'small blocks', 'no tell', 'arc', 'not parsed', 'short reads', 'one piece', 'member by member source']
BOUNDS = ('every grouping of 1 to 3 (thorough 4) records (WARC and ARC of all kinds, content of arbitrary length up to 2000, with newlines, record-like text or 2 arbitrary '
          'bytes) into gzip members, with empty members, 0 to 3 separating lines; block sizes 1, 2, 17, 64, 100, 500 and default, arbitrary short '
          'reads (sizes 1 to 300); record content read, partly read, skipped, or record positions asked')
OUTSIDE = 'records of one member without a separating line (the first line of the next one is then taken for trailing data, C22); members of blank lines only (a blank first line is a known finding, C21); more than 4 records; data that is not gzip in between; known wrong lengths (C22)'

SEP = {'norm': b'\r\n\r\n', 'none': b'', 'more': b'\r\n\r\n\n\r\n', 'lf': b'\n\n', 'arc': b'\n'}


class PerMember(object):
    """source whose reads end at member boundaries"""

    def __init__(self, S, parts):
        self.fs = [S.BytesIO(p) for p in parts]
        self.pos = 0

    def read(self, n=-1):
        while self.fs:
            d = self.fs[0].read(n)
            if len(d):
                self.pos += len(d)
                return d
            self.fs.pop(0)
        return b''

    def tell(self):
        return self.pos


def groups(S, kinds, sizes, sep='norm', block=None, hi=60, lo=1, ops='all', empties=(), pads=0, arb=None, src='mem', kw=None, cuts=0):
    """sizes: records per member; empties: members before which an empty member comes"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    recs, parts, j = [], [], 0
    for m, n in enumerate(sizes):
        if m in empties:
            parts.append(S.gzip(b''))
            S.cover('empty member')
        body = b''
        for i in range(n):
            r = record(S, kinds[j], j, hi, arb, lo)
            if r.fmt == 'arc':
                S.cover('arc')
            recs.append(r)
            body = body + r.data + SEP['arc' if r.fmt == 'arc' and sep == 'norm' else sep]
            j += 1
        parts.append(S.gzip(body, pads))
    data = b''.join(parts)
    if src == 'notell':
        fh = NoTell(S.BytesIO(data))
        S.cover('no tell')
    elif src == 'members':
        fh = PerMember(S, parts)
        S.cover('member by member source')
    elif cuts:
        fh = Short(S, data, [S.int('c%d' % i, 1, 300) for i in range(cuts)])
        S.cover('short reads')
    else:
        fh = S.BytesIO(data)
    kw = dict(kw or {})
    if block:
        kw['block_size'] = block
        S.cover('small blocks')
    if kw.get('no_record_parse'):
        S.cover('not parsed')
    # the first record of the first member of several is the last one to come
    bad, last = None, 0
    for m, n in enumerate(sizes):
        if n > 1:
            bad = last
            if m:
                S.cover('bad later')
                S.cover('good before bad')
            else:
                S.cover('bad first')
            if m + 1 < len(sizes):
                S.cover('followed by good')
            break
        last += n
    it = ArchiveIterator(fh, **kw)
    seen, failed = 0, None
    try:
        for r in it:
            S.check(seen < len(recs) and (bad is None or seen <= bad), 'no further record')
            x = recs[seen]
            label = 'record %d: ' % seen
            seen += 1
            S.check_eq((r.format, r.rec_type), (x.fmt, x.rtype), label + 'type')
            S.check_eq([tuple(h) for h in r.rec_headers.headers], x.headers, label + 'headers')
            want = x.content
            if kw.get('no_record_parse') and x.http:
                S.check(r.http_headers is None, label + 'no HTTP headers')
                want = x.data[len(x.data) - int(dict(x.headers)['Content-Length' if x.fmt == 'warc' else 'length']):]
            elif not arb:
                check_head(S, r, x, label)
            if arb and r.http_headers is not None and not x.http:
                continue
            if ops == 'all' or ops == 'pos':
                S.check_eq(r.raw_stream.read(), want, label + 'content')
                S.cover('all consumed')
            elif ops == 'part':
                S.check_eq(r.raw_stream.read(1), want[:1], label + 'content')
                S.cover('part consumed')
            else:
                S.cover('not consumed')
            if ops == 'pos':
                it.get_record_length()
                it.get_record_offset()
                S.cover('positions asked')
    except ArchiveLoadFailed as e:
        failed = str(e)
    if bad is None:
        S.check(failed is None, 'one record per member is never rejected: %s' % failed)
        S.check_eq(seen, len(recs), 'all records')
        S.cover('accepted')
    else:
        S.check_eq(seen, bad + 1, 'the first record of that member is the last one')
        S.check(failed is not None, 'several records in a member are rejected')
        S.check('recompress' in failed, 'with the hint')
        S.cover('rejected')
    if sep == 'more':
        S.cover('blank lines')
    if len(sizes) == 1:
        S.cover('one piece')


def partitions(n):
    if n == 0:
        return [[]]
    return [[k] + p for k in range(1, n + 1) for p in partitions(n - k)]


def jobs(tier):
    q = tier == 'quick'
    out = []

    def g(kinds, sizes, **kw):
        out.append(('groups', dict(kinds=kinds, sizes=sizes, **kw)))
    sets = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low'],
            ['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    for ks in sets:
        for p in partitions(3):
            for ops in ('all', 'part', 'no', 'pos'):
                g(ks, p, ops=ops)
            for sep in ('more', 'none', 'lf'):
                if sep != 'none' or max(p) == 1:
                    g(ks, p, sep=sep)
            g(ks, p, empties=[0, 1, 2])
            g(ks, p, empties=[1], sep='more', ops='no')
            g(ks, p, src='notell', ops='no')
            g(ks, p, src='members')
            g(ks, p, src='members', ops='pos', sep='more')
            g(ks, p, kw=dict(no_record_parse=True), ops='all')
            g(ks, p, pads=3, sep='more')
            g(ks, p, cuts=1, hi=300)
            for b in (17, 64, 100, 500) if q else (1, 2, 17, 64, 100, 500, 1000):
                g(ks, p, block=b, hi=9, lo=1)
        for p in partitions(2):
            g(ks[:2], p, hi=2000, lo=0)
            g(ks[1:], p, hi=300, cuts=1 if q else 2)
            g(ks[:2], p, hi=6, lo=6, block=1)
            g(ks[:2], p, hi=9, lo=9, block=2)
            if ks[0] not in ('wl', 'none', 'revh', 'awl'):
                g([ks[0], ks[0]], p, arb=[2] if q else [3], hi=9)
        g(ks[:1], [1], hi=2000, lo=0)
    if not q:
        for ks in sets:
            for p in partitions(4):
                for ops in ('all', 'no'):
                    g(ks + ks[:1], p, ops=ops)
                    g(ks + ks[:1], p, ops=ops, sep='more', empties=[1, 3])
                g(ks, p[:0] or [1, 1, 1], block=33, hi=60, lo=0)
    return out
