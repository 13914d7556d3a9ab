from harness.arch import layout, check_head, NoTell, Short
from harness.common import split_lines

COVERS = ['plain', 'gzip', 'arc', 'unread', 'two reads', 'by lines', 'sized lines', 'short reads', 'block boundary',
          'content stream', 'over-read', 'whole']
BOUNDS = ('files of 1 to 3 records (WARC and ARC of all shapes, content of arbitrary length up to 10000 with up to one '
          'newline, or record-like text, or up to 4 arbitrary bytes), plain or one gzip member each; per record: unread, '
          'two reads of any size and the rest, lines, lines of any size limit, read of everything, content stream; any block '
          'size with at most 3 fills and small fixed sizes; up to 1 (thorough 2) short reads of any size')
OUTSIDE = 'more fills or short reads than the bound; more reads per record than listed'


def use(S, r, how, nm, content):
    st = r.raw_stream
    if how == 'no':
        S.cover('unread')
    elif how == 'two':
        n, m = S.int(nm + 'a', 0, 12000), S.int(nm + 'b', 0, 12000)
        a = st.read(n)
        b = st.read(m)
        S.check_eq(a, content[:n], 'first read')
        S.check_eq(b, content[n:n + m], 'second read')
        S.check_eq(st.read(), content[n + m:], 'the rest')
        S.check_eq(st.read(5), b'', 'nothing after the end')
        S.check_eq(st.readline(), b'', 'nothing after the end')
        S.cover('two reads')
    elif how == 'lines':
        got = []
        while True:
            line = st.readline()
            if not line:
                break
            got.append(line)
        S.check_eq(got, split_lines(content), 'lines')
        S.cover('by lines')
    elif how == 'sized':
        n = S.int(nm + 'l', 1, 12000)
        a = st.readline(n)
        p = content.find(b'\n')
        want = (content if p < 0 else content[:p + 1])[:n]
        S.check_eq(a, want, 'limited line')
        S.check_eq(st.read(-1), content[len(want):], 'the rest')
        S.cover('sized lines')
    elif how == 'over':
        n = S.int(nm + 'o', 12000, 2 ** 20)
        S.check_eq(st.read(n), content, 'all by a big read')
        S.cover('over-read')
    elif how == 'cs':
        S.check_eq(r.content_stream().read(), content, 'content stream')
        S.cover('content stream')
    else:
        S.check_eq(st.read(), content, 'content')
        S.cover('whole')


def consume(S, kinds, uses, gz, bs, fills=3, hi=7000, cuts=0, arb=None, tell=1):
    from warcio.archiveiterator import ArchiveIterator
    data, recs, pos = layout(S, kinds, gz, hi, 'norm', arb)
    if bs == 'any':
        bs = S.int('bs', 1, 20000)
        S.assume(len(data) <= bs * fills)
        S.cover('block boundary')
    kw = {'block_size': bs} if bs else {}
    f = Short(S, data, [S.int('cut%d' % i, 1, 9000) for i in range(cuts)])
    if cuts:
        S.cover('short reads')
    it = ArchiveIterator(f if tell else NoTell(f), **kw)
    n = 0
    for r in it:
        S.check(n < len(recs), 'no extra record')
        check_head(S, r, recs[n], 'record %d: ' % n)
        use(S, r, uses[n], 'u%d' % n, recs[n].content)
        n += 1
    S.check(n == len(recs), 'all records')
    S.check_eq(it.err_count, 0, 'no errors counted')
    S.cover('gzip' if gz else 'plain')
    if kinds[0][0] == 'a':
        S.cover('arc')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(kinds, gz, uses, bs=0, **kw):
        out.append(('consume', dict(kinds=kinds, gz=gz, uses=uses, bs=bs, **kw)))
    warcs = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low']]
    arcs = [['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    US = ['no', 'two', 'lines', 'sized', 'over', 'cs', 'all']
    for ks in warcs + arcs:
        for gz in (0, 1):
            for u in range(7):
                us = [US[u], 'no', 'all'] if u % 3 == 0 else ['no', US[u], 'all'] if u % 3 == 1 else ['no', 'all', US[u]]
                o(ks, gz, us, hi=3000)
    for ks in (['res', 'resp'], ['resp', 'nl'], ['none', 'res'], ['aresp', 'adns'], ['anl', 'aresp']):
        for gz in (0, 1):
            for bs in (1, 2, 3, 5, 16, 61, 100, 257):
                for u in ('lines', 'two') if q else US:
                    o(ks, gz, [u, 'no'], bs=bs, hi=2 if q else 4)
            if 'nl' not in ks[0] + ks[1]:
                o(ks, gz, ['all', 'no'], bs='any', hi=4000, fills=2)
                o(ks, gz, ['no', 'all'], cuts=1, hi=1000)
            if not q:
                for u in US:
                    o(ks, gz, [u, 'no'], bs='any', hi=10000, fills=3)
                    o(ks, gz, [u, 'all'], cuts=1, hi=1000, tell=0)
                o(ks, gz, ['all', 'no'], cuts=2, hi=1000)
    for gz in (0, 1):
        for ks in (['res', 'res'], ['resp', 'res'], ['aresp', 'adns'], ['req', 'none']):
            o(ks, gz, ['lines', 'two'], arb=[1, '\r\n', 1] if q else [2, '\r\n', 2])
            o(ks, gz, ['all', 'sized'], arb=[3] if q else [4])
        o(['resp'], gz, ['sized'], bs='any', hi=3000, fills=2)
        o(['nl'], gz, ['lines'], bs='any', hi=3000, fills=2)
    if not q:
        for ks in warcs + arcs:
            for gz in (0, 1):
                for u in range(7):
                    us = [US[(u + j) % 7] for j in range(3)]
                    o(ks, gz, us, hi=5000)
                    for bs in (1, 2, 3, 4, 7, 11, 32):
                        o(ks, gz, us, hi=3, bs=bs)
    return out
