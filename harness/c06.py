from harness.common import Src, lines_data, seqs

COVERS = ['window exhausted', 'data shorter than window', 'readline hit newline', 'wrapped twice', 'unwrapped']
BOUNDS = ('limit 0..2^33, underlying data of up to 3 lines each of arbitrary length up to 2^33 (or up to 4 '
          'fully arbitrary bytes), up to 3 (quick) / 4 (thorough) calls of read/readline, each with no size or '
          'any size in -2^33..2^33; every short-read piece size')
OUTSIDE = 'longer call sequences (state is one counter, each call is covered from every reachable counter value)'
BIG = 2 ** 33


def take(S, r, kind, size):
    f = r.read if kind == 'r' else r.readline
    if size is None:
        return f()
    return f(size)


def window(S, ops, lines, raw, short):
    from warcio.limitreader import LimitReader
    if raw:
        data = S.bytes('d', raw, ranges=((10, 10), (65, 90)))
    else:
        data = lines_data(S, 'l', lines, 0, BIG)
    limit = S.int('limit', 0, BIG)
    cuts = [S.int('cut%d' % i, 0, BIG) for i in range(short)]
    src = Src(S, data, cuts)
    r = LimitReader(src, limit)
    got = b''
    avail = len(data)
    for i, (kind, mode) in enumerate(ops):
        size = None if mode == 'n' else S.int('s%d' % i, -BIG, BIG)
        before = len(got)
        out = take(S, r, kind, size)
        if size is not None and size >= 0:
            S.check(len(out) <= size, 'a bounded call returns no more than asked')
        if kind == 'l':
            p = out.find(b'\n')
            S.check(p < 0 or p == len(out) - 1, 'readline stops at the newline')
            if p >= 0:
                S.cover('readline hit newline')
        elif not short:
            room = min(limit, avail) - before
            if size is None or size < 0:
                S.check(len(out) == room, 'unbounded read returns the rest of the window')
            else:
                S.check(len(out) == min(size, room), 'read returns what is asked and available')
        if len(out) == 0:
            S.check((size is not None and size == 0) or before >= limit or before >= avail,
                    'empty result only at the end')
        got = got + out
        S.check(r.tell() == len(got), 'tell() counts the returned bytes')
    S.check(len(got) <= limit, 'never beyond the limit')
    S.check_eq(got, data[:len(got)], 'returned bytes are the next bytes of the stream')
    tot = sum(len(t) for t in src.taken)
    S.check(tot == len(got), 'every byte taken from the stream is returned, none beyond the limit')
    if len(got) == limit:
        S.cover('window exhausted')
    if avail < limit and len(got) == avail:
        S.cover('data shorter than window')
    S.observe('got', len(got))


def wrap(S, lines, twice):
    from warcio.limitreader import LimitReader
    data = lines_data(S, 'l', lines, 0, BIG)
    src = S.BytesIO(data)
    a = S.int('a', -BIG, BIG)
    st = LimitReader.wrap_stream(src, a if S.bool('int') else str(a))
    if a < 0:
        S.check(st is src, 'a negative length leaves the stream unwrapped')
        S.cover('unwrapped')
        return
    S.check(isinstance(st, LimitReader), 'wrapped')
    want = min(a, len(data))
    pre = b''
    if twice:
        if S.bool('consume'):
            pre = st.read(S.int('pre', 0, BIG))
        b = S.int('b', -BIG, BIG)
        st2 = LimitReader.wrap_stream(st, b)
        if b >= 0:
            want = min(want, len(pre) + b)
            S.cover('wrapped twice')
        st = st2
    got = pre + st.read()
    S.check_eq(got, data[:want], 'the smaller limit wins')
    S.check(len(st.read()) == 0, 'nothing after the window')


def badlen(S, n):
    """a length that is not an integer leaves the stream alone"""
    from warcio.limitreader import LimitReader
    src = S.BytesIO(b'abc')
    t = S.str('t', n, ranges=((0, 255),)) if n >= 0 else None
    st = LimitReader.wrap_stream(src, t)
    try:
        v = int(t)
    except (ValueError, TypeError):
        S.check(st is src, 'a bad length leaves the stream unwrapped')
        S.cover('bad length')
        return
    if v >= 0:
        S.check(len(st.read()) == min(v, 3), 'a textual length limits')
    else:
        S.check(st is src, 'a negative length leaves the stream unwrapped')



def jobs(tier):
    out = []
    alpha = ['rn', 'rs', 'ln', 'ls']
    for ops in seqs(2, alpha):
        out.append(('window', dict(ops=ops, lines=1, raw=0, short=0)))
        out.append(('window', dict(ops=ops, lines=0, raw=3, short=0)))
    for ops in seqs(3, ['rs', 'ls']):
        out.append(('window', dict(ops=ops, lines=2, raw=0, short=0)))
    for ops in seqs(2, ['rn', 'rs']):
        out.append(('window', dict(ops=ops, lines=1, raw=0, short=2)))
    if tier == 'thorough':
        for ops in seqs(3, alpha):
            out.append(('window', dict(ops=ops, lines=3, raw=0, short=0)))
            out.append(('window', dict(ops=ops, lines=0, raw=4, short=0)))
        for ops in seqs(4, ['rs', 'ls']):
            out.append(('window', dict(ops=ops, lines=2, raw=0, short=0)))
        for ops in seqs(3, alpha):
            out.append(('window', dict(ops=ops, lines=2, raw=0, short=3)))
    for twice in (0, 1):
        out.append(('wrap', dict(lines=1, twice=twice)))
    for n in (-1, 0, 1, 2) + ((3,) if tier == 'thorough' else ()):
        out.append(('badlen', dict(n=n)))
    return out
