from harness.common import Src, fill

COVERS = ['hex upper', 'leading zeros', 'extension', 'long extension', 'many chunks', 'compressed', 'cut in chunk',
          'compressed cut', 'not really compressed', 'limited reads', 'lines across chunks', 'via limit reader', 'empty body']
BOUNDS = ('0-4 chunks of arbitrary size: every size spelled with 1-4 arbitrary hex digits in any case and with leading '
          'zeros (up to 2^16 bytes each), extensions of 2 arbitrary bytes or any length up to 2^13; read/readline '
          'with any size; gzip/zlib/raw deflate payloads of any length with every chunk division into up to 3 chunks; '
          'the underlying stream a file, a limited or a buffered stream of any block size (up to 2 fills); every cut position inside a chunk')
OUTSIDE = 'more chunks per body; trailer headers after the final chunk'
HEX = ((48, 57), (65, 70), (97, 102))


def chunk(S, nm, digits, ext, content=None, few=0):
    """one chunk: (wire bytes, body bytes); digits: number of hex digits"""
    d = S.bytes(nm + 'd', digits, ranges=HEX[:1] if few else HEX)
    n = int(d, 16)
    if content is None:
        c = S.blob(nm, 1, 16 ** digits)
        S.assume(len(c) == n)
    else:
        S.assume(n == len(content))
        c = content
    line = d
    if ext == 'any':
        line = line + b';' + S.bytes(nm + 'e', 2, ranges=((0, 9), (11, 255)))
        S.cover('extension')
    elif ext == 'long':
        line = line + b';x=' + S.blob(nm + 'e', 0, 8000)
        S.cover('long extension')
    elif ext == 'zeros':
        line = b'0000' + line
        S.cover('leading zeros')
    elif ext == 'blank':
        line = line + b' '
    if 65 <= d[0] <= 70:
        S.cover('hex upper')
    return line + b'\r\n' + c + b'\r\n', c, len(line) + 2


def last(S, end):
    return {'0': b'0\r\n\r\n', '00': b'0000\r\n\r\n', 'e': b'0;ext=1\r\n\r\n'}[end]


def source(S, wire, via, extra):
    from warcio.limitreader import LimitReader
    from warcio.bufferedreaders import BufferedReader
    if via == 'limit':
        S.cover('via limit reader')
        return LimitReader(S.BytesIO(wire + extra), len(wire))
    if via == 'buff':
        bs = S.int('bs', 8, 10 ** 5)
        S.assume(len(wire) <= 2 * bs)
        return BufferedReader(S.BytesIO(wire), block_size=bs)
    return S.BytesIO(wire)


def consume(S, r, want, seq):
    got = b''
    for i, op in enumerate(seq):
        before = len(got)
        room = len(want) - before
        if op == 'r':
            n = S.int('n%d' % i, 0, 2 ** 18)
            out = r.read(n)
            S.check(len(out) == min(n, room), 'read(n) gives n bytes unless the body ends')
            S.cover('limited reads')
        elif op == 'l':
            out = r.readline()
            p = want[before:].find(b'\n')
            S.check_eq(len(out), room if p < 0 else p + 1, 'readline ends at the newline or the end')
            S.cover('lines across chunks')
        elif op == 'L':
            n = S.int('n%d' % i, 1, 2 ** 18)
            out = r.readline(n)
            p = want[before:].find(b'\n')
            S.check_eq(len(out), min(n, room if p < 0 else p + 1), 'readline(n)')
        else:
            out = r.read()
            S.check_eq(len(out), room, 'read() gives the rest')
        got = got + out
    S.check_eq(got, want[:len(got)], 'the body, in order')
    S.check_eq(got + r.read(), want, 'exactly the body')
    S.check_eq(r.read(), b'', 'nothing after the body')
    S.check_eq(r.readline(), b'', 'no line after the body')


def bodies(S, digits, exts, end, seq, via, newline, few):
    from warcio.bufferedreaders import ChunkedDataReader
    wire, want = b'', b''
    for i, d in enumerate(digits):
        content = None
        if newline:
            content = S.blob('c%dx' % i, 0, 16 ** d) + b'\n' + S.blob('c%dy' % i, 0, 16 ** d)
        w, c, _ = chunk(S, 'c%d' % i, d, exts[i], content, few)
        wire, want = wire + w, want + c
    wire = wire + last(S, end)
    S.cover('many chunks' if len(digits) > 1 else 'empty body' if not digits else 'one chunk')
    src = source(S, wire, via, b'following data')
    r = ChunkedDataReader(src)
    consume(S, r, want, seq)


def cut(S, digits, kind):
    """cut off inside the last chunk"""
    from warcio.bufferedreaders import ChunkedDataReader
    wire, want = b'', b''
    for i, d in enumerate(digits):
        w, c, h = chunk(S, 'c%d' % i, d, '')
        if i == len(digits) - 1:
            k = S.int('keep', 0, 16 ** 4)
            S.assume(k < len(c))
            w, c = w[:h + k], c[:k]
        wire, want = wire + w, want + c
    S.cover('cut in chunk')
    r = ChunkedDataReader(S.BytesIO(wire))
    consume(S, r, want, ['r'] if kind == 'r' else ['l'] if kind == 'l' else [])


def packed(S, kind, nchunks, hi, seq, upper, cutit, pad):
    """compressed body divided into chunks anywhere"""
    from warcio.bufferedreaders import ChunkedDataReader
    body = S.blob('m', 0, hi)
    data = S.gzip(body, pad, kind)
    rest = data
    wire = b''
    for i in range(nchunks):
        if i < nchunks - 1:
            k = S.int('cut%d' % i, 1, hi)
            S.assume(k < len(rest))
            c, rest = rest[:k], rest[k:]
        else:
            c = rest
        size = '%x' % len(c)
        line = size.encode('latin-1') + b'\r\n'
        if cutit and i == nchunks - 1:
            k = S.int('keep', 0, hi)
            S.assume(k < len(c))
            wire = wire + line + c[:k]
        else:
            wire = wire + line + c + b'\r\n'
    name = 'gzip' if kind == 'gzip' else 'deflate'
    if upper:
        name = name.upper()
    if cutit:
        # everything that was present comes out
        whole, off = (23 + pad, 15 + pad) if kind == 'gzip' else (11, 7) if kind == 'zlib' else (5, 5)
        cutpos = len(data) - len(c) + k
        if kind != 'gzip':
            # a single byte of deflate cannot be told from plain data
            S.assume(cutpos > 1)
        have = min(max(cutpos - off, 0), len(body))
        S.cover('compressed cut')
        S.check_eq(ChunkedDataReader(S.BytesIO(wire), decomp_type=name).read(), body[:have], 'all content present')
        return
    wire = wire + b'0\r\n\r\n'
    S.cover('compressed')
    r = ChunkedDataReader(S.BytesIO(wire), decomp_type=name)
    consume(S, r, body, seq)


def unpacked(S, digits, kind, seq):
    """declared compressed but it is not: de-chunked data as is"""
    from warcio.bufferedreaders import ChunkedDataReader
    wire, want = b'', b''
    for i, d in enumerate(digits):
        c = S.blob('t%d' % i, 0, 16 ** d)
        if i == 0:
            c = b'W' + c
        w, c, _ = chunk(S, 'c%d' % i, d, '', c)
        wire, want = wire + w, want + c
    r = ChunkedDataReader(S.BytesIO(wire + b'0\r\n\r\n'), decomp_type=kind)
    S.cover('not really compressed')
    consume(S, r, want, seq)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def b(digits, exts=None, end='0', seq=(), via='', newline=0, few=0):
        out.append(('bodies', dict(digits=digits, exts=exts or [''] * len(digits), end=end, seq=list(seq), via=via,
                                   newline=newline, few=few)))
    b([], end='0')
    b([], end='00', seq='l')
    for via in ('', 'limit', 'buff'):
        for seq in ('', 'r', 'l', 'L'):
            b([1], seq=seq, via=via)
            if via != 'buff':
                b([2, 1], seq=seq, via=via, newline=1 if seq and seq in 'lL' else 0)
        b([4, 4] if not via else [2, 2] if via == 'limit' else [1, 1], via=via, seq='rr' if via != 'buff' else '', few=1)
    b([2], via='buff', seq='r')
    b([2, 2], ['any', ''])
    b([1, 2], ['', 'any'], 'e', 'r')
    b([3, 1], ['long', 'zeros'])
    b([1, 3], ['zeros', 'long'], '00', 'l')
    b([1, 1], ['blank', 'any'], 'e')
    b([1, 1, 1, 1], seq='r')
    b([3, 2], seq='lr', newline=1, few=1)
    b([3, 2, 1], seq='r', few=1)
    for k in ('', 'r', 'l'):
        cutd = [[1], [4], [2, 2]]
        for d in cutd:
            out.append(('cut', dict(digits=d, kind=k)))
    for kind in ('gzip', 'zlib', 'raw'):
        for n in (1, 2, 3) if kind == 'gzip' else (1, 2):
            out.append(('packed', dict(kind=kind, nchunks=n, hi=2 ** 14, seq=['r'] if n < 3 else [], upper=n == 1, cutit=0,
                                       pad=9 if kind == 'gzip' and n == 2 else 0)))
        out.append(('packed', dict(kind=kind, nchunks=2, hi=2 ** 14, seq=[], upper=0, cutit=1, pad=0)))
    for kind in ('gzip', 'deflate'):
        out.append(('unpacked', dict(digits=[3], kind=kind, seq=['r'])))
        out.append(('unpacked', dict(digits=[2, 2], kind=kind, seq=['l'])))
    if not q:
        for via in ('', 'limit', 'buff'):
            for seq in ('rrr', 'lrl', 'LrL', 'llll'):
                b([3, 3, 3], seq=seq, via=via, newline=1 if 'l' in seq.lower() else 0)
                b([1, 1, 1, 1, 1], seq=seq, via=via)
        for e1 in ('any', 'long', 'zeros', 'blank', ''):
            for e2 in ('any', 'long', 'zeros', 'blank', ''):
                b([2, 2], [e1, e2], 'e', 'r')
                b([4, 1, 2], [e1, '', e2], '0', 'l')
        for kind in ('gzip', 'zlib', 'raw'):
            out.append(('packed', dict(kind=kind, nchunks=4, hi=2 ** 14, seq=[], upper=0, cutit=0, pad=0)))
            out.append(('packed', dict(kind=kind, nchunks=3, hi=2 ** 14, seq=['r', 'r'], upper=0, cutit=0, pad=0)))
            out.append(('packed', dict(kind=kind, nchunks=3, hi=2 ** 14, seq=[], upper=0, cutit=1, pad=0)))
    return out
