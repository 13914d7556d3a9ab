from harness.common import fill, seqs

COVERS = ['first line no header', 'malformed after chunks', 'missing terminator', 'cut chunk', 'well-formed',
          'huge size', 'strict raised', 'strict fine', 'bad end']
BOUNDS = ('every byte string of up to 5 (thorough 7) bytes over all values (the first line over a structural alphabet '
          'beyond that), templates of up to two chunks with 1-4 arbitrary bytes at every structural position (size '
          'line, its CRLF, chunk terminator, final chunk) and contents of arbitrary length; strict and default mode; '
          'read(), read(n) of any size and line-wise reading')
OUTSIDE = 'more irregular places at once; malformed chunks combined with a content encoding only for non-raising'
HEXD = b'0123456789abcdefABCDEF'
LIM = 2 ** 31


def header(S, line):
    """chunk size if line is a chunk header, else None"""
    if line[-2:] != b'\r\n':
        return None
    size = line[:-2].split(b';')[0].strip()
    if not size:
        return None
    for c in range(len(size)):
        if size[c] not in HEXD:
            return None
    n = int(size, 16)
    if n > LIM:
        S.cover('huge size')
        return None
    return n


def reference(S, data):
    """(output in default mode, strict mode raises)"""
    out = b''
    first = True
    while True:
        p = data.find(b'\n')
        line = data if p < 0 else data[:p + 1]
        n = header(S, line)
        if n is None:
            S.cover('first line no header' if first else 'malformed after chunks')
            return out + data, True
        first = False
        rest = data[len(line):]
        if n == 0:
            if rest[:2] == b'\r\n':
                S.cover('well-formed')
                return out, False
            S.cover('bad end')
            return out + line + rest[2:], True
        if len(rest) < n:
            S.cover('cut chunk')
            return out + rest, True
        chunk = rest[:n]
        if rest[n:n + 2] != b'\r\n':
            # the two bytes in place of the terminator are dropped
            S.cover('missing terminator')
            return out + line + chunk + rest[n + 2:], True
        out = out + chunk
        data = rest[n + 2:]


def wire(S, data, mode):
    from warcio.bufferedreaders import ChunkedDataReader, ChunkedDataException
    want, bad = reference(S, data)
    if mode == 'strict':
        r = ChunkedDataReader(S.BytesIO(data), raise_exceptions=True)
        try:
            got = r.read()
        except ChunkedDataException:
            S.check(bad, 'strict mode raises only on malformed data')
            S.cover('strict raised')
            return
        S.check(not bad, 'strict mode raises on malformed data')
        S.check_eq(got, want, 'strict mode decodes')
        S.cover('strict fine')
        return
    r = ChunkedDataReader(S.BytesIO(data))
    if mode == 'all':
        got = r.read()
    elif mode == 'sized':
        n = S.int('n', 0, 2 ** 18)
        got = r.read(n)
        S.check(len(got) == min(n, len(want)), 'read(n) gives n bytes unless the data ends')
        got = got + r.read()
    else:
        got = b''
        while True:
            line = r.readline()
            if not line:
                break
            got = got + line
            if mode == 'line1':
                got = got + r.read()
    S.check_eq(got, want, 'decoded chunks, then the remaining data')
    S.check_eq(r.read(), b'', 'nothing more')
    S.observe('got', len(got))


def template(S, spec, mode):
    wire(S, fill(S, spec), mode)


def encoded(S, spec, kind):
    """with a content encoding nothing is raised either"""
    from warcio.bufferedreaders import ChunkedDataReader
    r = ChunkedDataReader(S.BytesIO(fill(S, spec)), decomp_type=kind)
    data = r.read()
    S.check(len(data) >= 0, 'terminates')
    S.check_eq(r.read(), b'', 'nothing more')


STRUCT = '10-10,13-13,48-50,59-59,97-97,120-120'
ANY = '0-255'


def jobs(tier):
    q = tier == 'quick'
    out = []
    modes = ['all', 'strict', 'lines', 'sized', 'line1']

    def t(spec, ms=('all', 'strict')):
        for m in ms:
            out.append(('template', dict(spec=spec, mode=m)))
    t([[0, 4, ANY]])
    t([[5, 5, STRUCT]])
    t([[0, 4, STRUCT]], modes)
    # size line
    t([2, '\r\n', [0, 30], '\r\n0\r\n\r\n'])
    t([1, '\r\n', [0, 30], '\r\n0\r\n\r\n'], modes)
    t([[3, 3, STRUCT], '\r\n', [0, 30], '\r\n0\r\n\r\n'])
    t([2, '5\r\nhello\r\n0\r\n\r\n'])
    t(['5', 2, '\r\nhello\r\n0\r\n\r\n'])
    t(['5', 2, 'hello\r\n0\r\n\r\n'], modes)
    t(['5', [3, 3, STRUCT], 'hello\r\n0\r\n\r\n'])
    t(['5;', 2, '\r\nhello\r\n0\r\n\r\n'])
    t([1, '0000000\r\nabc'])
    t(['8000000', 1, '\r\nabc'])
    t(['7fffffff', 1, '\r\nabc'])
    t(['0', [1, 1, '48-57'], '10000', 1, '\r\nabc'])
    t([[0, 20000], '\r\n', [0, 20000]], modes)
    t([[0, 40000], '\n', [0, 10]], ['all'])
    t(['-', 1, '\r\nabcdef'])
    t(['+3\r\nabc\r\n0\r\n\r\n'])
    t(['0x3\r\nabc\r\n0\r\n\r\n'])
    t(['1_0\r\nabcdefghijabcdef\r\n0\r\n\r\n'])
    # chunk terminator, second size line, final chunk
    t(['3\r\nabc', 2, '4\r\nwxyz\r\n0\r\n\r\n'], modes)
    t(['3\r\nabc', [0, 3, ANY]], modes)
    t(['3\r\nabc\r\n', 2, '\r\n', [0, 30]])
    t(['3\r\nabc\r\n', 2, [0, 30], '\n', [0, 3]], modes)
    t(['4\r\n', [0, 3, ANY]])
    t(['3\r\nabc\r\n4\r\nwx', [0, 5, STRUCT]])
    t(['3\r\nabc\r\n0', [0, 4, ANY]])
    t(['3\r\nabc\r\n0\r\n', [0, 3, ANY]], modes)
    t(['0\r\n', 2, [0, 50]])
    t(['a\r\n', [0, 40], 2, [0, 5]])
    for kind in ('gzip', 'deflate'):
        for spec in (['3\r\nWbc\r\n', 2, '\r\nxx'], ['7\r\nWbcdefg', 2, 'abc\r\n'], ['70\r\nW', [0, 130], 2],
                     ['W', 2, '\r\n', [0, 30]]):
            out.append(('encoded', dict(spec=spec, kind=kind)))
    out.append(('encoded', dict(spec=[[0, 3, STRUCT]], kind='gzip')))
    if not q:
        t([[5, 5, ANY]])
        t([[6, 7, STRUCT]])
        t([3, '\r\n', [0, 30], '\r\n0\r\n\r\n'], modes)
        t(['5', 3, 'hello\r\n0\r\n\r\n'])
        t([[9, 9, '48-56'], '\r\nabc'])
        t([4, '\r\n', [0, 30], '\r\n0\r\n\r\n'], modes)
        t(['5', 4, 'hello\r\n0\r\n\r\n'])
        t(['3\r\nabc', 4, '\r\nwxyz\r\n0\r\n\r\n'], modes)
        t(['3\r\nabc\r\n', 4, [0, 30], '\n', [0, 3]], modes)
        t(['3\r\nabc\r\n', [0, 5, ANY]], modes)
        t([2, 'abc', 2, '0\r\n\r\n'])
        t(['3', 2, 'abc', 2, '0', 2, '\r\n'])
    return out
