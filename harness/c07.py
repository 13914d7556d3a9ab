from harness.common import Src, lines_data, seqs, fill

COVERS = ['line spans blocks', 'short reads', 'block ends at newline', 'end of data', 'bounded readline']
BOUNDS = ('block size 1..2^20, data of up to 3 lines of arbitrary length spanning up to 4 blocks (or up to 4 '
          'arbitrary bytes), 0-3 short reads of any size, up to 3 (thorough 4) calls of read/readline with no size, '
          'or any size -2..2^22')
OUTSIDE = 'more than 4 block fills per run'


def ops(S, seq, lines, raw, short, blocks, bsmax):
    from warcio.bufferedreaders import BufferedReader
    if raw:
        data = S.bytes('d', raw, ranges=((10, 10), (65, 90)))
    else:
        data = lines_data(S, 'l', lines, 0, bsmax)
    bs = S.int('bs', 1, bsmax)
    S.assume(len(data) <= bs * blocks)
    cuts = [S.int('cut%d' % i, 1, bsmax) for i in range(short)]
    src = Src(S, data, cuts)
    r = BufferedReader(src, block_size=bs)
    got = b''
    avail = len(data)
    for i, op in enumerate(seq):
        size = None if op[1] == 'n' else S.int('s%d' % i, -2, 4 * bsmax)
        before = len(got)
        if op[0] == 'r':
            out = r.read() if size is None else r.read(size)
            room = avail - before
            if size is None or size < 0:
                S.check(len(out) == room, 'read() returns everything')
            else:
                S.check(len(out) == min(size, room), 'read(n) returns n bytes unless the data ends')
        else:
            out = r.readline() if size is None else r.readline(size)
            rest = data[before:]
            p = rest.find(b'\n')
            want = len(rest) if p < 0 else p + 1
            if size is not None and size >= 0:
                if size < want:
                    S.cover('bounded readline')
                want = min(want, size)
            S.check_eq(len(out), want, 'readline stops at the first newline, its limit or the end')
            if p >= 0 and len(out) > bs:
                S.cover('line spans blocks')
            if p >= 0 and (before + want) % 4 == 0 and before + want == bs:
                S.cover('block ends at newline')
        got = got + out
        taken = sum(len(t) for t in src.taken)
        S.check_eq(r.tell(), taken, 'tell() is the number of bytes buffered so far')
        S.check_eq(taken - r.rem_length(), len(got), 'rem_length() are the unread ones')
        for t in src.taken:
            S.check(len(t) <= bs, 'never more than a block is asked for')
    S.check_eq(got, data[:len(got)], 'bytes in order, none lost')
    if len(got) == avail:
        S.cover('end of data')
        S.check_eq(r.read(), b'', 'nothing after the end')
        S.check_eq(r.readline(), b'', 'no line after the end')
        S.check_eq(r.read(5), b'', 'nothing after the end')
    else:
        S.check_eq(got + r.read(), data, 'the rest can be read')
    if short and len(src.taken) > 1:
        S.cover('short reads')
    S.observe('got', len(got))


def start(S, n, m, bs):
    """starting_data comes first; default block size; close()"""
    from warcio.bufferedreaders import BufferedReader
    a = S.blob('a', 0, n)
    b = S.blob('b', 0, m)
    r = BufferedReader(S.BytesIO(b), starting_data=a) if not bs else \
        BufferedReader(S.BytesIO(b), block_size=bs, starting_data=a)
    S.check_eq(r.read(), a + b, 'starting data, then the stream')
    S.check_eq(r.tell(), len(a) + len(b), 'tell')


def jobs(tier):
    q = tier == 'quick'
    out = []
    alpha = ['rn', 'rs', 'ln', 'ls']
    K = 2 ** 20
    for s in seqs(1, alpha):
        out.append(('ops', dict(seq=s, lines=2, raw=0, short=0, blocks=3, bsmax=K)))
        out.append(('ops', dict(seq=s, lines=1, raw=0, short=2, blocks=3, bsmax=K)))
    for s in seqs(2, alpha):
        out.append(('ops', dict(seq=s, lines=0, raw=3, short=0, blocks=3, bsmax=3)))
        out.append(('ops', dict(seq=s, lines=1, raw=0, short=0, blocks=2, bsmax=K)))
    for s in seqs(3, ['rs', 'ls']):
        out.append(('ops', dict(seq=s, lines=1, raw=0, short=0, blocks=2, bsmax=K)))
    out.append(('start', dict(n=40000, m=40000, bs=0)))
    out.append(('start', dict(n=100, m=100, bs=40)))
    if not q:
        for s in seqs(3, alpha):
            out.append(('ops', dict(seq=s, lines=2, raw=0, short=0, blocks=3, bsmax=K)))
            out.append(('ops', dict(seq=s, lines=1, raw=0, short=2, blocks=3, bsmax=K)))
            out.append(('ops', dict(seq=s, lines=0, raw=4, short=1, blocks=4, bsmax=4)))
        for s in seqs(4, ['rs', 'ls']):
            out.append(('ops', dict(seq=s, lines=1, raw=0, short=0, blocks=3, bsmax=K)))
    return out
