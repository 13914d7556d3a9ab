"""Shared pieces of the harnesses (run symbolically and, for replays, on the real code)."""


class Src(object):
    """underlying stream: delivers data in pieces, remembers what was taken.

    cuts: list of piece sizes, consumed one per read call; a size of 0 / an
    exhausted list means 'as much as asked'.
    """

    def __init__(self, S, data, cuts=()):
        self.S = S
        self.inner = S.BytesIO(data)
        self.cuts = list(cuts)
        self.taken = []
        self.calls = 0

    def _n(self, n):
        self.calls += 1
        if self.cuts:
            c = self.cuts.pop(0)
            if c > 0:
                if n is None or n < 0 or n > c:
                    return c
        if n is None:
            return -1
        return n

    def read(self, n=None):
        r = self.inner.read(self._n(n))
        self.taken.append(r)
        return r

    def readline(self, n=None):
        self.calls += 1
        r = self.inner.readline(-1 if n is None else n)
        self.taken.append(r)
        return r

    def close(self):
        pass


def lines_data(S, name, n, lo, hi):
    """n lines of arbitrary length lo..hi (and an unterminated last one)"""
    out = b''
    for i in range(n):
        out = out + S.blob('%s%d' % (name, i), lo, hi) + b'\n'
    return out + S.blob(name + 'x', lo, hi)


def fill(S, spec, name='x'):
    """bytes from a template: text is literal, n is n arbitrary bytes, [lo, hi] is a run of
    arbitrary length, [lo, hi, 'a-b,..'] arbitrary bytes (count lo..hi) of given code ranges"""
    out = b''
    for i, p in enumerate(spec):
        nm = '%s%d' % (name, i)
        if isinstance(p, str):
            out = out + p.encode('latin-1')
        elif isinstance(p, int):
            out = out + S.bytes(nm, p)
        elif len(p) == 3:
            out = out + S.bytes(nm, p[0], p[1], ranges=ranges(p[2]))
        else:
            out = out + S.blob(nm, p[0], p[1])
    return out


def ranges(text):
    return tuple(tuple(int(x) for x in r.split('-')) for r in text.split(','))


def decode_line(line):
    try:
        return line.decode('utf-8')
    except UnicodeDecodeError:
        return line.decode('latin-1')


def split_lines(data):
    out = []
    while len(data):
        p = data.find(b'\n')
        if p < 0:
            out.append(data)
            break
        out.append(data[:p + 1])
        data = data[p + 1:]
    return out


def seqs(n, alphabet):
    if n == 0:
        return [()]
    return [s + (a,) for s in seqs(n - 1, alphabet) for a in alphabet]


def num(n):
    """decimal text of a number as bytes"""
    return str(n).encode('latin-1')


def warc(wtype, block, headers=b'', uri=b'http://x.org/', length=None, version=b'WARC/1.0', end=b'\r\n\r\n'):
    """bytes of one WARC record"""
    out = version + b'\r\nWARC-Type: ' + wtype + b'\r\n'
    if uri is not None:
        out = out + b'WARC-Target-URI: ' + uri + b'\r\n'
    out = out + headers
    if length is not False:
        out = out + b'Content-Length: ' + num(len(block) if length is None else length) + b'\r\n'
    return out + b'\r\n' + block + end


def anycase(S, name, text, which):
    """text (str) with the letters at positions `which` in arbitrary case, as bytes"""
    out = b''
    for i, ch in enumerate(text):
        if i in which and ch.isalpha():
            lo = ord(ch.lower())
            out = out + S.bytes('%s%d' % (name, i), 1, ranges=((lo - 32, lo - 32), (lo, lo)))
        else:
            out = out + ch.encode('latin-1')
    return out


def chunked(S, parts, end=b'0\r\n\r\n'):
    out = b''
    for p in parts:
        if len(p):
            out = out + ('%x' % len(p)).encode('latin-1') + b'\r\n' + p + b'\r\n'
    return out + end
