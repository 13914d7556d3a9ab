from harness.arch import layout, check_head, record, NoTell
from harness.c04 import use
from harness.common import num

COVERS = ['complete', 'shortened', 'nothing left', 'cut in header', 'cut in content', 'not an archive any more', 'plain', 'gzip', 'arc',
          'too short', 'too long', 'not a number', 'two wrong', 'partly read', 'wrong length, gzip', 'empty member', 'block boundary',
          'no tell', 'unread', 'fully read']
BOUNDS = ('files of 1 to 3 records (WARC of all shapes, ARC; content of arbitrary length up to 2000, up to one newline, or record-like '
          'text, or 2 arbitrary bytes), plain or one gzip member per record, with empty members and 0 to 3 separating lines, cut off at '
          'every byte; every consumption, small and arbitrary block sizes with at most 2 (thorough 3) fills; in a file of 3 records one or '
          'two declared lengths replaced by any number 0 to 6000 or by text that is not a length')
OUTSIDE = 'more records; what a record of wrong length does to the records after it'
SEPS = {0: ('more', 'lf'), 1: ('none', 'more'), 7: ('lf',)}
WARN = 'WARNING: Record not followed by newline'


def truncated(S, kinds, gz, uses=None, hi=2000, sep='norm', bs=0, fills=2, arb=None, empties=(), tell=1, part=None, lo=0):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    data, recs, pos = layout(S, kinds, gz, hi, sep, arb, empties, lo)
    total = len(data)
    first = 0
    if part is not None:
        # the cut is in the last record only
        first = pos[part][0]
    cut = S.int('cut', 0, 100000)
    S.assume(first <= cut)
    S.assume(cut <= total)
    have = data[:cut]
    if bs == 'any':
        bs = S.int('bs', 1, 20000)
        S.assume(cut <= bs * fills)
        S.cover('block boundary')
    kw = {'block_size': bs} if bs else {}
    f = S.BytesIO(have)
    if not tell:
        f = NoTell(f)
        S.cover('no tell')
    it = ArchiveIterator(f, **kw)
    uses = uses or ['all'] * len(kinds)
    n, short, failed = 0, False, False
    try:
        for r in it:
            S.check(n < len(recs), 'no extra record')
            S.check(not short, 'at most one shortened record')
            label = 'record %d: ' % n
            if pos[n][0] + pos[n][1] <= cut:
                check_head(S, r, recs[n], label)
                use(S, r, uses[n], 'u%d' % n, recs[n].content)
                S.cover('complete')
                if uses[n] == 'no':
                    S.cover('unread')
            else:
                short = True
                got = r.raw_stream.read()
                want = recs[n].content
                S.check(len(got) <= len(want), label + 'not more than the content')
                S.check_eq(got, want[:len(got)], label + 'prefix of the content')
                S.cover('shortened')
                S.cover('cut in content' if len(got) else 'cut in header')
                if r.rec_type is not None and pos[n][0] + len(recs[n].data) <= cut and not gz:
                    S.check(False, label + 'not complete')
            n += 1
    except ArchiveLoadFailed:
        # the first line of the next record is cut
        failed = True
        S.cover('not an archive any more')
    done = 0
    for o, ln in pos:
        if o + ln <= cut:
            done += 1
    S.check(n >= done, 'every complete record is found')
    S.check(not (failed and short), 'no error after the shortened record')
    if failed:
        # only a first line that is cut, not a whole one
        S.check(done < len(pos), 'no error when nothing is cut')
        rest = cut - pos[done][0]
        S.check(rest > 0, 'no error between records')
        if not gz:
            p = recs[done].data.find(b'\n')
            S.check(rest <= p, 'no error behind the first line')
    if n == 0:
        S.cover('nothing left')
    S.cover('gzip' if gz else 'plain')
    if kinds[0][0] == 'a':
        S.cover('arc')
    if empties:
        S.cover('empty member')


def missized(S, kinds, gz, wrong, hi=60, text=None, uses=None, upto=12, frm=0):
    """wrong: indexes of records whose declared length is replaced"""
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    data, recs, starts = b'', [], []
    ends, sizes = [], []
    pos = 0
    for i, k in enumerate(kinds):
        r = record(S, k, i, hi if i in wrong else 9, None, 0 if i in wrong else 1)
        d = r.data
        arc = k[0] == 'a'
        true = r.headers[-1][1]
        key = b' text/plain ' if arc else b'Content-Length: '
        if arc and k == 'adns':
            key = b' text/dns '
        p = d.find(key) + len(key)
        q = p + len(true)
        nl = 1 if arc or k == 'lf' else 2
        top = q + nl + (0 if arc else nl)
        decl = None
        if i in wrong:
            if text is None:
                block = len(d) - top
                decl = S.int('decl%d' % i, frm, 6000)
                if upto:
                    S.assume(decl <= block + upto)
                S.assume(decl != block)
                tx = num(decl)
            else:
                tx = text.encode('latin-1')
                decl = 0
            d2 = d[:p] + tx + d[q:]
            r.headers = r.headers[:-1] + [(r.headers[-1][0], tx.decode('latin-1'))]
            top2 = top - len(true) + len(tx)
        else:
            d2, top2 = d, top
        sizes.append(len(d) - top)
        sep = b'\n' if arc else b'\r\n\r\n'
        if gz:
            ends.append((d2, top2, decl, sep))
            data = data + S.gzip(d2 + sep)
        else:
            ends.append((pos, top2, decl, sep))
            data = data + d2 + sep
            pos = pos + len(d2) + len(sep)
        recs.append(r)
    noted = 0
    res = [None]

    def go():
        it = ArchiveIterator(S.BytesIO(data))
        out = []
        res[0] = (it, out)
        try:
            for r in it:
                i = len(out)
                if i <= wrong[-1] and not (i and out[-1] == 'lost'):
                    label = 'record %d: ' % i
                    rec = recs[i]
                    if i in wrong:
                        S.check_eq([tuple(h) for h in r.rec_headers.headers], rec.headers, label + 'headers')
                        out.append('lost' if more(i) else 'wrong')
                        continue
                    check_head(S, r, rec, label)
                    use(S, r, uses[i] if uses else 'all', 'u%d' % i, rec.content)
                out.append('rec')
        except ArchiveLoadFailed:
            out.append('failed')

    def rest(i):
        """what follows the declared end of record i"""
        a, top, decl, sep = ends[i]
        if gz:
            return (a + sep)[top + decl:]
        return data[a + top + decl:]

    def more(i):
        # record i swallows data of the next one, or the data left in it is more than one line
        a, top, decl, sep = ends[i]
        block = sizes[i]
        if decl > block:
            return True
        left = recs[i].data[len(recs[i].data) - (block - decl):]
        p = left.find(b'\n')
        return p >= 0 and len(left[p:].strip()) > 0
    out = S.run(go)
    S.check(out.exc is None, 'nothing else is raised: %r' % (out.exc,))
    it, got = res[0]
    lost = False
    for i in wrong:
        if lost:
            break
        line = rest(i)
        p = line.find(b'\n')
        if p >= 0:
            line = line[:p]
        if len(line.strip()):
            noted += 1
        lost = more(i)
        S.cover('too long' if lost else 'too short')
    first = wrong[0]
    S.check(len(got) > first, 'the records before and the record itself are found')
    S.check(all(x == 'rec' for x in got[:first]), 'the records before')
    if lost:
        S.check(it.err_count >= noted, 'error count')
        S.check(out.err.count(WARN) >= noted, 'warnings')
    else:
        S.check_eq(it.err_count, noted, 'error count')
        S.check_eq(out.err.count(WARN), noted, 'warnings')
        if not gz:
            S.check_eq(len(got), len(recs), 'all records are found')
    if text:
        S.cover('not a number')
    if noted == 2:
        S.cover('two wrong')
    if gz and noted:
        S.cover('wrong length, gzip')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def t(kinds, gz, **kw):
        if q and kw.get('hi', 2000) <= 9:
            kw['lo'] = 1
        out.append(('truncated', dict(kinds=kinds, gz=gz, **kw)))
    warcs = [['res', 'resp', 'info'], ['wl', 'rev', 'nohttp'], ['none', 'nl', 'req'], ['revh', 'lf', 'low']]
    arcs = [['aresp', 'adns', 'aresp'], ['awl', 'anone', 'anl']]
    NO = ['no', 'no', 'no']
    for ks in warcs + arcs:
        for gz in (0, 1, 7):
            if gz < 7 or not q:
                t(ks, gz, uses=NO if q else ['all', 'no', 'read'], hi=9 if q and ks[0] != 'aresp' else 2000)
            t(ks, gz, uses=['all', 'no', 'all'], part=2, hi=200 if not q or gz == 1 else 9)
            for sep in SEPS[gz] if q else ('none', 'more', 'lf')[gz == 0:]:
                t(ks, gz, sep=sep, hi=9 if q else 200, part=1, uses=NO, tell=sep != 'more')
            if gz == 7 or not q and gz:
                t(ks, gz, hi=9 if q else 200, empties=[1, 2], uses=NO)
    for gz in (0, 1, 7):
        for ks in (['res', 'resp'], ['aresp', 'adns']):
            t(ks, gz, uses=['read', 'no'], part=1, hi=99)
            t(ks, gz, uses=['line', 'no'], part=1, hi=99)
    two = [['none', 'none'], ['none', 'rev'], ['anone', 'anone']]
    for ks in two[1:] if q else two + [['res', 'resp'], ['resp', 'nl'], ['none', 'req'], ['aresp', 'adns'], ['anl', 'aresp']]:
        for gz in (0, 1):
            for bs in ((16,) if gz else (3,)) if q else (1, 2, 3, 4, 5, 8, 16, 61, 100):
                t(ks, gz, uses=['line', 'no'], bs=bs, hi=2, part=1)
    for ks in (['none', 'rev'],) if q else (['none', 'res'], ['none', 'resp'], ['res', 'none'], ['aresp', 'adns'], ['nl', 'none']):
        for gz in (0, 1):
            t(ks, gz, uses=['no', 'no'], bs='any', hi=9 if q else 300, fills=2 if q else 3, part=1)
    for ks in (['res', 'resp'], ['none', 'req'], ['aresp', 'adns']):
        for gz in (0, 1):
            t(ks, gz, uses=['all', 'no'], arb=[1] if q else [1, '\r\n', 1], part=1)
    if not q:
        for ks in warcs + arcs:
            for gz in (0, 1, 7):
                for us in (['no', 'read', 'no'], ['line', 'no', 'all'], ['all', 'line', 'no']):
                    t(ks, gz, uses=us, hi=1000)

    def m(kinds, gz, wrong, **kw):
        out.append(('missized', dict(kinds=kinds, gz=gz, wrong=wrong, **kw)))
    for ks in (['res', 'nohttp', 'resp'], ['info', 'req', 'lf'], ['aresp', 'adns', 'aresp']):
        for gz in (0, 1):
            for w in ([0], [1], [2]):
                m(ks, gz, w, uses=['no', 'read', 'line'], hi=20 if q else 200, upto=12 if q else 150)
                m(ks, gz, w, frm=4000, upto=0, hi=9)
                for tx in ('-1', 'x'):
                    m(ks, gz, w, text=tx)
            m(ks, gz, [0, 2], text='-12')
    for ks in (['res', 'res', 'low'], ['adns', 'adns', 'aresp']) + (() if q else (['resp', 'res', 'req'], ['lf', 'low', 'resp'])):
        for w in ([0, 1], [0, 2], [1, 2]):
            m(ks, 0, w, hi=20 if q else 100, upto=6 if q else 60)
    return out
