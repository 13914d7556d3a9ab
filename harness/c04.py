from harness.arch import layout, check_head, NoTell, Short

COVERS = ['plain', 'gzip', 'arc', 'unread', 'partly read', 'fully read', 'asked first', 'no tell', 'block boundary',
          'start not 0', 'reopened', 'empty member', 'short reads']
BOUNDS = ('files of 1 to 3 records (WARC of all shapes, ARC; content of arbitrary length up to 10000 and up to one newline, or '
          'containing record-like text, or 2-4 arbitrary bytes), separated by 1 to 3 blank lines of either kind (none for gzip), plain or '
          'one gzip member per record with an arbitrary optional header field and with empty members between; every '
          'consumption (none, partly by read or readline of any size, all) and question order per record; any block size '
          'with at most 3 (thorough 4) fills, and small fixed sizes; up to 1 (thorough 2) short reads of any size; with and without tell(); start position 0 or not')
OUTSIDE = 'more fills; gzip members with more than one record (C29)'


def use(S, r, how, nm, content):
    """consume part of a record, check what is given"""
    if how == 'all':
        S.check_eq(r.raw_stream.read(), content, 'content')
        S.cover('fully read')
    elif how == 'read':
        n = S.int(nm + 'rd', 0, 12000)
        got = r.raw_stream.read(n)
        S.check_eq(got, content[:n], 'content')
        S.cover('partly read')
    elif how == 'line':
        n = S.int(nm + 'ln', 0, 12000)
        got = r.raw_stream.readline(n)
        p = content.find(b'\n')
        want = content[:n] if p < 0 else content[:p + 1][:n]
        S.check_eq(got, want, 'content line')
        S.cover('partly read')
    else:
        S.cover('unread')


def offsets(S, kinds, uses, asks, gz, bs, fills=3, hi=7000, sep='norm', tell=1, cuts=0, start=0, arb=None, empties=(), reopen=0):
    from warcio.archiveiterator import ArchiveIterator
    data, recs, pos = layout(S, kinds, gz, hi, sep, arb, empties)
    pre = b''
    if start:
        pre = S.blob('pre', 0, 5000)
        S.cover('start not 0')
    total = len(data)
    if bs == 'any':
        bs = S.int('bs', 1, 20000)
        S.assume(total <= bs * fills)
        S.cover('block boundary')
    kw = {'block_size': bs} if bs else {}
    cl = [S.int('cut%d' % i, 1, 9000) for i in range(cuts)]
    if cuts:
        S.cover('short reads')
    base = 0
    if start:
        f = S.BytesIO(pre + data)
        f.seek(len(pre))
        base = len(pre)
    else:
        f = Short(S, data, cl)
    if not tell:
        f = NoTell(f)
        base = 0
        S.cover('no tell')
    it = ArchiveIterator(f, **kw)
    n = 0
    for r in it:
        S.check(n < len(recs), 'no extra record')
        check_head(S, r, recs[n], 'record %d: ' % n)
        want = (base + pos[n][0], pos[n][1])
        if asks[n] == 'first':
            S.check_eq((it.get_record_offset(), it.get_record_length()), want, 'offset and length')
            S.cover('asked first')
        else:
            use(S, r, uses[n], 'u%d' % n, recs[n].content)
            if asks[n] == 'then':
                S.check_eq((it.get_record_offset(), it.get_record_length()), want, 'offset and length')
        n += 1
    S.check(n == len(recs), 'all records')
    S.cover('gzip' if gz else 'plain')
    if kinds[0][0] == 'a':
        S.cover('arc')
    if empties:
        S.cover('empty member')
    if reopen:
        # the file at the offset, cut at the length, has that record first
        for i in range(len(recs)):
            o, ln = pos[i]
            f = S.BytesIO(pre + data)
            f.seek(len(pre) + o)
            for r in ArchiveIterator(f):
                check_head(S, r, recs[i], 'at offset %d: ' % i)
                S.check_eq(r.raw_stream.read(), recs[i].content, 'content at offset')
                break
            for r in ArchiveIterator(S.BytesIO(data[o:o + ln])):
                check_head(S, r, recs[i], 'cut out %d: ' % i)
                S.check_eq(r.raw_stream.read(), recs[i].content, 'content cut out')
        S.cover('reopened')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(kinds, gz, uses=None, asks=None, bs=0, **kw):
        kw = dict(kinds=kinds, gz=gz, uses=uses or ['no'] * len(kinds), asks=asks or ['then'] * len(kinds), bs=bs, **kw)
        out.append(('offsets', kw))
    warcs = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low']]
    arcs = [['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    US = ['no', 'read', 'line', 'all']
    for ks in warcs + arcs:
        for gz in (0, 1, 7):
            for sep in ('norm', 'none', 'more', 'lf') if gz else ('norm', 'more', 'lf'):
                o(ks, gz, hi=2000, sep=sep, reopen=sep == 'norm')
            for u in range(4):
                us = [US[(u + j) % 4] for j in range(3)]
                if not q or gz < 2 and ks[0] != 'awl':
                    o(ks, gz, us, hi=3000)
            o(ks, gz, asks=['first', 'no', 'then'], uses=['no', 'line', 'read'], hi=3000)
            o(ks, gz, asks=['no', 'first', 'first'], uses=['read', 'no', 'no'], hi=3000)
            o(ks, gz, asks=['first', 'then', 'first'], uses=['no', 'all', 'no'], hi=1000, tell=0)
            o(ks, gz, asks=['first', 'then', 'first'], uses=['no', 'all', 'no'], hi=1000, start=1, reopen=1)
            if gz:
                o(ks, gz, empties=[1], hi=1000, uses=['no', 'read', 'line'], reopen=1)
                o(ks, gz, empties=[0, 1, 2], hi=1000)
    for ks in (['res', 'resp'], ['resp', 'nl'], ['none', 'res'], ['aresp', 'adns'], ['anl', 'aresp']):
        for gz in (0, 1, 7):
            if q and gz < 2 and 'nl' not in ks[0] + ks[1]:
                o(ks, gz, ['no', 'no'], bs='any', hi=4000, fills=2)
            if not q:
                o(ks, gz, ['no', 'line'], bs='any', hi=4000, fills=3)
                for us in (['no', 'no'], ['read', 'all'], ['line', 'read']):
                    o(ks, gz, us, bs='any', hi=10000, fills=4)
                o(ks, gz, ['line', 'read'], cuts=1, hi=1000)
            for bs in (1, 2, 3, 7, 16, 61, 100, 257):
                o(ks, gz, ['line', 'no'], bs=bs, hi=2 if q else 4, asks=['then', 'first'])
            if gz < 2:
                o(ks, gz, ['no', 'no'], cuts=1 if q else 2, hi=1000, tell=0)
    if q:
        o(['nl', 'none'], 1, ['line', 'no'], bs='any', hi=3000, fills=2)
        o(['res', 'none'], 0, ['no', 'no'], bs='any', hi=3000, fills=3)
    for gz in (0, 1):
        for ks in (['res', 'res'], ['resp', 'res'], ['aresp', 'adns']):
            o(ks, gz, ['line', 'no'], arb=[1, '\r\n', 1] if q else [2, '\r\n', 2])
            o(ks, gz, ['no', 'all'], arb=[2] if q else [4])
    if not q:
        for ks in warcs + arcs:
            for gz in (0, 1, 7):
                for u in range(4):
                    us = [US[(u + j) % 4] for j in range(3)]
                    o(ks, gz, us, bs='any', hi=3000, fills=3)
                    for a in ('first', 'no'):
                        o(ks, gz, us, asks=[a, 'then', a], hi=3000, cuts=1, tell=u % 2)
                for bs in (1, 2, 3, 4, 5, 8, 11, 13, 23, 32, 64, 128):
                    o(ks, gz, ['line', 'read', 'no'], bs=bs, hi=3)
    return out
