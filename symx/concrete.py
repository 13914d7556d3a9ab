"""Concrete side of the harness API: the same harness on the unmodified code
with the real libraries (runs under the repository's own interpreter)."""
import hashlib
import io
import os
import random
import shutil
import sys
import tempfile
import zlib

LETTERS = 'ghijklmnopqrstuvw'


def pattern(name, n):
    return ''.join(random.Random('blob ' + name).choices(LETTERS, k=n))


class Violated(Exception):
    pass


class Assumption(BaseException):
    pass


class MissingInput(BaseException):
    """the vector does not name an input the real run asks for"""


class Vec(dict):
    def __missing__(self, k):
        raise MissingInput(k)


class Result(object):
    def __init__(self, status, value, out, text, err, exc=None):
        self.status, self.value, self.out, self.text, self.err, self.exc = status, value, out, text, err, exc


class _CountingStd(object):
    def __init__(self, data=b''):
        self.buffer = io.BytesIO(data)
        self.buffer.close = lambda: None
        self.t = io.StringIO()
        self.encoding = 'utf-8'
        self.closed = False

    def write(self, s):
        return self.t.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        pass

    def writelines(self, it):
        for x in it:
            self.write(x)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class NoCloseBytesIO(io.BytesIO):
    def close(self):
        pass


class ConcSession(object):
    symbolic = False

    def __init__(self, vector):
        self.vec = Vec(vector)
        self.observed = []
        self.covers = []
        self.tmp = None
        self._patches = []

    def cleanup(self):
        for undo in reversed(self._patches):
            undo()
        self._patches = []
        if self.tmp:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def int(self, name, lo, hi):
        return self.vec[name]

    def pick(self, name, n):
        return self.vec[name]

    def choice(self, name, options):
        return options[self.vec[name]]

    def bool(self, name):
        return self.vec[name] == 1

    def bytes(self, name, n, hi=None, ranges=None):
        return bytes(self.vec[name])

    def str(self, name, n, hi=None, ranges=None):
        return ''.join(map(chr, self.vec[name]))

    def blob(self, name, lo, hi, kind='b'):
        d = self.vec[name]
        s = list(pattern(name, d['len']))
        for k, c in d['over'].items():
            if int(k) < len(s):
                s[int(k)] = chr(c)
        s = ''.join(s)
        return s.encode() if kind == 'b' else s

    def text_blob(self, name, lo, hi):
        return self.blob(name, lo, hi, 's')

    def now(self, name, lo, hi, micros=False, zone=0):
        """freeze datetime.now() at a given second"""
        import datetime as D
        import time
        secs = self.vec[name]
        us = D.timedelta(microseconds=self.vec[name + 'us'] if micros else 0)
        real = D.datetime
        tz = os.environ.get('TZ')
        os.environ['TZ'] = 'SXT%s%02d:%02d' % ('-' if zone > 0 else '+', abs(zone) // 60, abs(zone) % 60)
        time.tzset()

        def undo_tz():
            if tz is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = tz
            time.tzset()
        self._patches.append(undo_tz)
        usn = self.vec[name + 'us'] if micros else 0
        old = {k: getattr(time, k) for k in ('time', 'time_ns', 'gmtime', 'localtime')}
        time.time = lambda: secs + usn / 1e6 if usn else secs
        time.time_ns = lambda: secs * 10 ** 9 + usn * 1000
        time.gmtime = lambda t=None: old['gmtime'](secs if t is None else t)
        time.localtime = lambda t=None: old['localtime'](secs if t is None else t)

        def undo_time():
            for k, f in old.items():
                setattr(time, k, f)
        self._patches.append(undo_time)

        class Frozen(real):
            @classmethod
            def now(cls, tz=None):
                return real.fromtimestamp(secs, tz) + us

            @classmethod
            def utcnow(cls):
                return real.fromtimestamp(secs, D.timezone.utc).replace(tzinfo=None) + us
        D.datetime = Frozen
        for m in list(sys.modules.values()):
            if getattr(m, '__name__', '').startswith('warcio') and getattr(m, 'datetime', None) is real:
                m.datetime = Frozen

                def undo(m=m):
                    m.datetime = real
                self._patches.append(undo)

        def undo():
            D.datetime = real
        self._patches.append(undo)
        return (secs, self.vec[name + 'us']) if micros else secs

    def assume(self, c):
        if not c:
            raise Assumption()

    def cover(self, name):
        self.covers.append(name)

    def check(self, cond, label):
        if not cond:
            raise Violated(label)

    def check_eq(self, a, b, label):
        if not self._same(a, b):
            raise Violated('%s: %s != %s' % (label, repr(a)[:600], repr(b)[:600]))

    def _same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._same(x, y) for x, y in zip(a, b))
        return a == b

    def fail(self, label):
        raise Violated(label)

    def observe(self, name, val):
        self.observed.append((name, val))

    def digest(self, algo, data):
        return hashlib.new(algo, data).digest()

    def gzip(self, data, pad=0, kind='gzip'):
        blocks = []
        # (the model has one block of any size)
        for p in range(0, max(len(data), 1), 65535):
            part = data[p:p + 65535]
            blocks.append((b'\x01' if p + 65535 >= len(data) else b'\x00') + len(part).to_bytes(2, 'little') +
                          (len(part) ^ 0xffff).to_bytes(2, 'little') + part)
        body = b''.join(blocks)
        if kind == 'raw':
            return body
        if kind == 'zlib':
            return b'\x78\x01' + body + zlib.adler32(data).to_bytes(4, 'big')
        head = b'\x1f\x8b\x08' + (b'\x10' if pad else b'\x00') + b'\0\0\0\0\0\xff'
        if pad:
            head += b'c' * (pad - 1) + b'\0'
        return head + body + zlib.crc32(data).to_bytes(4, 'little') + len(data).to_bytes(4, 'little')

    def compressed_without_newlines(self):
        pass

    def gzip_layout(self, data, pad=0):
        return 23 + pad + len(data), 15 + pad

    def members(self, data):
        out = []
        while data:
            d = zlib.decompressobj(31)
            try:
                r = d.decompress(data)
            except zlib.error:
                out.append(None)
                break
            if not d.eof:
                out.append(None)
                break
            out.append(r)
            data = d.unused_data
        return out

    def _dir(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix='symx')
        return self.tmp

    def path(self, name):
        return os.path.join(self._dir(), name)

    def put_file(self, name, data):
        p = self.path(name)
        with open(p, 'wb') as f:
            f.write(data)
        return p

    def get_file(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()

    def link_file(self, path, name):
        os.link(path, self.path(name))
        return self.path(name)

    def list_files(self):
        return sorted(self.path(x) for x in os.listdir(self._dir()))

    def quote(self, s, safe='/'):
        from urllib.parse import quote
        return quote(s, safe)

    def unquote(self, s):
        from urllib.parse import unquote
        return unquote(s)

    def BytesIO(self, data=b''):
        return io.BytesIO(data)

    def run(self, fn, stdin=b''):
        saved = sys.stdout, sys.stderr, sys.stdin
        out, err, inp = _CountingStd(), _CountingStd(), _CountingStd(stdin)
        sys.stdout, sys.stderr, sys.stdin = out, err, inp
        status, value, exc = 0, None, None
        try:
            value = fn()
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            exc = e
            status = 1
        finally:
            sys.stdout, sys.stderr, sys.stdin = saved
        return Result(status, value, out.buffer.getvalue(), out.t.getvalue(), err.t.getvalue(), exc)
