from harness.common import Src, lines_data, seqs, fill

COVERS = ['member ends at block end', 'next member', 'empty member', 'plain data', 'raw deflate', 'zlib deflate',
          'all members', 'header split']
BOUNDS = ('1-3 gzip members with contents of arbitrary length (up to 2^16 bytes, up to 1 newline) and header fields of '
          'arbitrary length 0..300, zlib and raw deflate streams; block sizes 1..2^17 giving up to 4 fills per run, '
          'or every block size 1..16 with contents up to 4 bytes, up to 3 short reads of any size, read / readline with any size; plain data: '
          '1-4 arbitrary bytes, or arbitrary length')
OUTSIDE = 'compressed-block structure (zlib itself): a member is modelled as a stored block; more fills'
K = 2 ** 16


def drain(S, r, how, label):
    if how == 'all':
        return r.read()
    out = b''
    if how == 'sized':
        n = S.int(label + '.n', 1, 4 * K)
        out = r.read(n)
        if len(out) < n:
            return out
        return out + r.read()
    while True:
        line = r.readline()
        if not line:
            return out
        out = out + line


def body(S, nm, kind, hi):
    if kind == 'e':
        return b''
    if kind == 'l':
        return S.blob(nm + 'a', 0, hi) + b'\n' + S.blob(nm + 'b', 0, hi)
    return S.blob(nm, 0, hi)


def members(S, kinds, how, everything, short, fills, hi, pad, bsfix):
    from warcio.bufferedreaders import DecompressingBufferedReader
    bodies, data = [], b''
    for i, k in enumerate(kinds):
        b = body(S, 'm%d' % i, k, hi)
        p = S.int('pad%d' % i, 1, pad) if pad and S.bool('haspad%d' % i) else 0
        bodies.append(b)
        data = data + S.gzip(b, p)
        if not b:
            S.cover('empty member')
    bs = bsfix or S.int('bs', 1, 2 * K)
    S.assume(len(data) <= bs * fills)
    cuts = [S.int('cut%d' % i, 1, K) for i in range(short)]
    src = Src(S, data, cuts)
    r = DecompressingBufferedReader(src, block_size=bs, read_all_members=bool(everything))
    if everything:
        got = drain(S, r, how, 'all')
        want = b''
        for b in bodies:
            want = want + b
        S.check_eq(got, want, 'all members are concatenated')
        S.cover('all members')
        S.check_eq(r.read(), b'', 'nothing after the last member')
        return
    for i, b in enumerate(bodies):
        got = drain(S, r, how, 'm%d' % i)
        S.check_eq(got, b, 'the content of the current member')
        S.check_eq(r.read(), b'', 'the reader stops at the end of the member')
        nxt = r.read_next_member()
        S.check(bool(nxt) is (i + 1 < len(bodies)), 'read_next_member tells whether there is a next member')
        if nxt:
            S.cover('next member')
    S.check_eq(r.read(), b'', 'nothing after the last member')
    pos = 0
    for t in src.taken:
        pos = pos + len(t)
        if pos == len(S.gzip(bodies[0])) and not pad:
            S.cover('member ends at block end')
    if len(src.taken[0]) < 10:
        S.cover('header split')


def plain(S, n, blob, kind, how, bsmax, fills):
    """data that is not compressed comes back unchanged"""
    from warcio.bufferedreaders import DecompressingBufferedReader
    if n:
        data = S.bytes('d', n)
        if kind == 'gzip':
            S.assume(data[0] != 0x1f)
        else:
            # neither a zlib header nor the start of a deflate block (reserved block type)
            S.assume((data[0] & 7) == 7)
            if n > 1:
                S.assume((data[0] & 15) != 8 or (data[0] * 256 + data[1]) % 31 != 0)
    else:
        data = b'W' + S.blob('d', 0, blob)
    bs = S.int('bs', 1, bsmax)
    S.assume(len(data) <= bs * fills)
    r = DecompressingBufferedReader(S.BytesIO(data), block_size=bs, decomp_type=kind)
    S.check_eq(drain(S, r, how, 'p'), data, 'data that is not compressed is returned unchanged')
    S.check_eq(r.read(), b'', 'nothing more')
    S.cover('plain data')


def deflate(S, kind, short, hi, how, fills, bsfix):
    from warcio.bufferedreaders import DecompressingBufferedReader
    b = body(S, 'm', 'b', hi)
    data = S.gzip(b, 0, kind)
    bs = bsfix or S.int('bs', 1, 2 * K)
    S.assume(len(data) <= bs * fills)
    cuts = [S.int('cut%d' % i, 1, K) for i in range(short)]
    r = DecompressingBufferedReader(Src(S, data, cuts), block_size=bs, decomp_type='deflate')
    S.check_eq(drain(S, r, how, 'd'), b, 'the deflated content')
    S.cover('zlib deflate' if kind == 'zlib' else 'raw deflate')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def mem(kinds, how='all', everything=0, short=0, fills=2, hi=K, pad=0, bsfix=0):
        out.append(('members', dict(kinds=kinds, how=how, everything=everything, short=short, fills=fills, hi=hi,
                                    pad=pad, bsfix=bsfix)))
    for how in ('all', 'lines', 'sized'):
        for e in (0, 1):
            mem(['b'], how, e, pad=300)
            mem(['l', 'b'], how, e, fills=2)
            mem(['b', 'b'], how, e, short=1, fills=2)
    for e in (0, 1):
        mem(['b', 'e', 'b'], 'all', e)
        mem(['e', 'b'], 'all', e)
        mem(['e'], 'all', e)
        mem(['b', 'b', 'b'], 'all', e, fills=2)
        for bs in (1, 2, 3, 5, 10, 16):
            mem(['b', 'b'], 'all', e, fills=100, hi=4, bsfix=bs)
    for kind in ('gzip', 'deflate'):
        for how in ('all', 'lines', 'sized'):
            out.append(('plain', dict(n=0, blob=K, kind=kind, how=how, bsmax=K, fills=3)))
        for n in (1, 2, 3):
            out.append(('plain', dict(n=n, blob=0, kind=kind, how='all', bsmax=4, fills=4)))
    for kind in ('zlib', 'raw'):
        for how in ('all', 'sized'):
            out.append(('deflate', dict(kind=kind, short=2, hi=K, how=how, fills=2, bsfix=0)))
        for bs in (1, 2, 7):
            out.append(('deflate', dict(kind=kind, short=0, hi=4, how='all', fills=100, bsfix=bs)))
    if not q:
        for how in ('all', 'lines', 'sized'):
            for e in (0, 1):
                mem(['l', 'b'], how, e, fills=3, short=1, pad=20)
                mem(['b', 'b'], how, e, short=3, fills=3)
                mem(['b', 'b', 'b'], how, e, fills=3)
        for e in (0, 1):
            for bs in range(1, 33):
                mem(['b', 'e', 'b'], 'all', e, fills=200, hi=6, bsfix=bs)
                mem(['l', 'b'], 'lines', e, fills=200, hi=3, bsfix=bs)
        for n in (4,):
            for kind in ('gzip', 'deflate'):
                out.append(('plain', dict(n=n, blob=0, kind=kind, how='all', bsmax=5, fills=5)))
    return out
