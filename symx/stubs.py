"""Models of the library modules the code under test uses.

Each keeps the documented contract of the real one; every counterexample is
replayed with the real modules.
"""
import builtins
import io as _io
import os as _os
import types
import uuid as _uuid
import zlib as _zlib
import hashlib as _hashlib
import base64 as _base64
import shutil as _shutil
import tempfile as _tempfile
import json as _json
import time as _time
from . import terms as tm
from .engine import eng, EngineSignal
from . import values as v
from . import ops
from .values import (SymInt, SymSeq, Blob, BlobSrc, T, V, is_t, mk, toks_of, kind_of, br, nb, cut,
                     toks_len, t_add, t_sub, t_cmp, le, lt, ge, gt, realize)


def _bytes_like(x):
    if kind_of(x) != 'b':
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    return toks_of(x)


# ---------------------------------------------------------------- io
class SymBytesIO(object):
    def __init__(self, data=b'', text=False):
        self._toks = list(_bytes_like(data)) if data is not None else []
        self._pos = 0
        self._rest = list(self._toks)
        self.closed = False
        self.mode = 'rb+'

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _norm_rest(self):
        if self._rest is None:
            n = toks_len(self._toks)
            self._rest = [] if ge(T(self._pos), n) else cut(self._toks, T(self._pos))[1]
        return self._rest

    def _take(self, k):
        """k: term/int >= 0, or None"""
        rest = self._norm_rest()
        if k is None:
            got, self._rest = rest, []
        else:
            got, self._rest = cut(rest, k)
        self._pos = V(t_add(T(self._pos), toks_len(got)))
        return mk('b', got)

    def read(self, n=-1):
        self._chk()
        if n is None:
            return self._take(None)
        if n < 0:
            return self._take(None)
        return self._take(T(n))

    read1 = read

    def readline(self, n=-1):
        self._chk()
        rest = self._norm_rest()
        window = rest
        if n is not None and not (n < 0):
            window = cut(rest, T(n))[0]
        i = v.find_tok(window, [10])
        got = window if i < 0 else window[:i + 1]
        if got is rest:
            return self._take(None)
        return self._take(toks_len(got))

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        eng().tick()
        r = self.readline()
        if not r:
            raise StopIteration
        return r

    def readinto(self, buf):
        self._chk()
        n = ops.sx_len(buf)
        data = self.read(n)
        if type(buf) is ops.SymBA:
            buf.set_prefix(data)
        else:
            data = ops.concretize(data, 'readinto a native buffer')
            buf[:len(data)] = data
        return ops.sx_len(data)

    readinto1 = readinto

    def peek(self, n=0):
        return mk('b', self._norm_rest())

    def write(self, data):
        self._chk()
        toks = _bytes_like(data)
        if not toks:
            return 0
        ln = toks_len(toks)
        rest = self._norm_rest()
        if not rest:
            n = toks_len(self._toks)
            gap = t_sub(T(self._pos), n)
            if (is_t(gap) or gap > 0) and gt(gap, 0):
                gap = eng().realize(gap) if is_t(gap) else gap
                self._toks = self._toks + [0] * gap
            self._toks = v.merge(self._toks + list(toks))
        else:
            head = cut(self._toks, T(self._pos))[0]
            n = toks_len(rest)
            tail = [] if ge(ln, n) else cut(rest, ln)[1]
            self._toks = head + list(toks) + tail
            self._rest = tail
        self._pos = V(t_add(T(self._pos), ln))
        return V(ln)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def seek(self, off, whence=0):
        self._chk()
        if whence == 1:
            off = self._pos + off
        elif whence == 2:
            off = V(toks_len(self._toks)) + off
        if off < 0:
            raise ValueError('negative seek value')
        self._pos = off
        if type(off) is int and off == 0:
            self._rest = list(self._toks)
        else:
            self._rest = None
        return off

    def tell(self):
        self._chk()
        return self._pos

    def truncate(self, n=None):
        self._chk()
        if n is None:
            n = self._pos
        if n < V(toks_len(self._toks)):
            self._toks = cut(self._toks, T(n))[0]
        self._rest = None
        return n

    def getvalue(self):
        self._chk()
        return mk('b', self._toks)

    def getbuffer(self):
        return self.getvalue()

    def close(self):
        self.closed = True

    def flush(self):
        self._chk()

    def readable(self):
        return True
    writable = seekable = readable

    def isatty(self):
        return False

    def fileno(self):
        raise _io.UnsupportedOperation('fileno')

    def rollover(self):
        pass

    def detach(self):
        return self

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    name = None


class SymStringIO(object):
    def __init__(self, init='', newline=None):
        self._parts = [init] if init else []
        self.closed = False

    def write(self, s):
        if kind_of(s) != 's':
            raise TypeError("string argument expected, got '%s'" % type(s).__name__)
        self._parts.append(s)
        return ops.sx_len(s)

    def getvalue(self):
        return v.seq_join('', self._parts)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def isatty(self):
        return False

    def read(self, n=-1):
        eng().give_up('StringIO.read')


class SymBufferedReader(object):
    """io.BufferedReader over a raw stream with readinto / read"""

    def __init__(self, raw, buffer_size=8192):
        self.raw = raw
        self._buf = b''
        self._eof = False
        self.bs = buffer_size
        self.closed = False

    def _fill(self):
        if hasattr(self.raw, 'readinto'):
            b = ops.SymBA(bytes(0))
            src = bytes(self.bs)
            b = ops.SymBA(src)
            n = self.raw.readinto(b)
            data = ops.sx_getitem(b.val, slice(0, n)) if n else b''
        else:
            data = self.raw.read(self.bs)
        if not data:
            return False
        self._buf = self._buf + data
        return True

    def read(self, n=-1):
        if n is None or n < 0:
            while self._fill():
                eng().tick()
            r, self._buf = self._buf, b''
            return r
        while ops.sx_len(self._buf) < n:
            eng().tick()
            if not self._fill():
                break
        r = ops.sx_getitem(self._buf, slice(0, n))
        self._buf = ops.sx_getitem(self._buf, slice(n, None))
        return r

    def readline(self, n=-1):
        if n is None:
            n = -1
        while True:
            eng().tick()
            i = ops.lift(self._buf).find(b'\n')
            if i >= 0:
                end = i + 1
                if n >= 0 and n < end:
                    end = n
                break
            if n >= 0 and ops.sx_len(self._buf) >= n:
                end = n
                break
            if not self._fill():
                end = ops.sx_len(self._buf)
                break
        r = ops.sx_getitem(self._buf, slice(0, end))
        self._buf = ops.sx_getitem(self._buf, slice(end, None))
        return r

    def readinto(self, buf):
        data = self.read(ops.sx_len(buf))
        buf.set_prefix(data)
        return ops.sx_len(data)

    def read1(self, n=-1):
        if not self._buf:
            self._fill()
        if n is None or n < 0:
            r, self._buf = self._buf, b''
            return r
        r = ops.sx_getitem(self._buf, slice(0, n))
        self._buf = ops.sx_getitem(self._buf, slice(n, None))
        return r

    def peek(self, n=0):
        if not self._buf:
            self._fill()
        return self._buf

    def readable(self):
        return True

    def flush(self):
        pass

    def close(self):
        self.closed = True
        self.raw.close()

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if not r:
            raise StopIteration
        return r


def _mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def _delegate(name, real, **attrs):
    """stub that overrides some attributes and keeps the rest of the real one"""
    m = types.ModuleType(name)
    for k, x in real.__dict__.items():
        if not k.startswith('__'):
            m.__dict__[k] = x
    m.__dict__.update(attrs)
    return m


class SymBufferedIOBase(_io.BufferedIOBase):
    # as _pyio.IOBase
    def readline(self, size=-1):
        if size is None:
            size = -1
        res = b''
        while size < 0 or ops.sx_len(res) < size:
            n = 1
            if hasattr(self, 'peek'):
                ahead = self.peek(1)
                if ahead:
                    k = ops.lift(ahead).find(b'\n') + 1
                    n = k if k else ops.sx_len(ahead)
                    if size >= 0 and n > size:
                        n = size
            b = self.read(n)
            if not b:
                break
            res = res + b
            if ops.lift(res).endswith(b'\n'):
                break
        return res

    def __next__(self):
        eng().tick()
        line = self.readline()
        if not line:
            raise StopIteration
        return line


class _Policy(object):
    def header_fetch_parse(self, name, value):
        return value

    def header_max_count(self, name):
        return None


def _email_parser():
    import email.parser as real

    class Parser(object):
        # header blocks only, as http.client uses it
        def __init__(self, _class=None, **kw):
            self.cls = _class

        def parsestr(self, text, headersonly=False):
            if kind_of(text) and type(text) is not v.SymSeq:
                return real.Parser(_class=self.cls).parsestr(text)
            m = self.cls()
            m.policy = _Policy()
            for line in ops.lift(text).splitlines():
                if not line:
                    break
                i = ops.lift(line).find(':')
                if i <= 0 or line[0] in ' \t':
                    eng().give_up('unusual header line')
                m._headers.append((line[:i], ops.lift(ops.lift(line[i + 1:]).lstrip(' \t')).rstrip('\r\n')))
            return m
    return _delegate('email.parser', real, Parser=Parser)


def patch_http_client(m):
    import email.message
    m.email = types.SimpleNamespace(parser=_email_parser(), message=email.message)
    real = m.urlsplit

    def urlsplit(url, *a, **k):
        if type(url) is not v.SymSeq:
            return real(url, *a, **k)
        # scheme and host of absolute URLs without brackets, all that is used
        i = url.find('://')
        if i < 0 or a or k or url.find('[') >= 0 or url.find(']') >= 0:
            eng().give_up('urlsplit of symbolic text')
        n = url.sx_len()
        rest, j = url[i + 3:], 0
        while i + 3 + j < n:
            c = rest[j]
            if c == '/' or c == '?' or c == '#':
                break
            j += 1
        return (url[:i], rest[:j], rest[j:], '', '')
    m.urlsplit = urlsplit


io_stub = _delegate('io', _io, BufferedIOBase=SymBufferedIOBase, BytesIO=SymBytesIO, StringIO=SymStringIO, BufferedReader=SymBufferedReader)


# ---------------------------------------------------------------- files
class VFile(object):
    def __init__(self):
        self.data = b''


def files():
    return eng().registry.setdefault('files', {})


class SymFile(SymBytesIO):
    def __init__(self, vf, mode, name):
        data = vf.data if 'w' not in mode and 'x' not in mode else b''
        SymBytesIO.__init__(self, data)
        self.vf, self.fmode, self.name = vf, mode, name
        if 'a' in mode:
            self.seek(0, 2)
        self._sync()

    def _sync(self):
        if 'r' not in self.fmode or '+' in self.fmode:
            self.vf.data = mk('b', self._toks)

    def write(self, data):
        if 'r' in self.fmode and '+' not in self.fmode:
            raise _io.UnsupportedOperation('not writable')
        r = SymBytesIO.write(self, data)
        self._sync()
        return r

    def read(self, n=-1):
        if 'r' not in self.fmode and '+' not in self.fmode:
            raise _io.UnsupportedOperation('not readable')
        return SymBytesIO.read(self, n)

    def truncate(self, n=None):
        r = SymBytesIO.truncate(self, n)
        self._sync()
        return r


class SymTextFile(object):
    def __init__(self, raw):
        self.raw = raw
        self.buffer = raw
        self.closed = False

    def write(self, s):
        if kind_of(s) != 's':
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        self.raw.write(v.encode(ops.lift(s), 'utf-8'))
        return ops.sx_len(s)

    def read(self, n=-1):
        return v.decode(self.raw.read(n))

    def readline(self):
        return v.decode(self.raw.readline())

    def __iter__(self):
        while True:
            x = self.readline()
            if not x:
                return
            yield x

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise _io.UnsupportedOperation('fileno')

    def writelines(self, it):
        for x in it:
            self.write(x)

    def close(self):
        self.closed = True
        self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sx_open(path, mode='r', *a, **k):
    path = ops.concretize(path, 'open') if ops.has_sym(path) else path
    if isinstance(path, bytes):
        path = path.decode()
    if _ours(path):
        path = _os.path.normpath(path)
    fs = files()
    text = 'b' not in mode
    m = mode.replace('b', '').replace('t', '')
    if 'r' in m:
        if path not in fs:
            raise FileNotFoundError(2, 'No such file or directory', path)
    elif 'x' in m and path in fs:
        raise FileExistsError(17, 'File exists', path)
    elif path not in fs:
        fs[path] = VFile()
    f = SymFile(fs[path], m, path)
    f.mode = mode
    return SymTextFile(f) if text else f


# ---------------------------------------------------------------- zlib
MAGIC = {'gzip': [0x1f, 0x8b], 'zlib': [0x78, 0x01], 'raw': []}
TAIL = {'gzip': 8, 'zlib': 4, 'raw': 0}
HEAD = {'gzip': 15, 'zlib': 7, 'raw': 5}


class Member(object):
    """one compressed stream: abstractly laid out like a single stored block"""

    def __init__(self, kind, payload, pad=0, name='gz', total=None):
        e = eng()
        self.kind = kind
        self.src = BlobSrc(e.fresh_name(name), 'opaque', meta=self)
        self.payload = payload
        self.head = t_add(HEAD[kind], pad)
        if payload is not None:
            self.plen = toks_len(payload)
            self.total = t_add(t_add(self.head, self.plen), TAIL[kind])
        e.registry.setdefault('members', []).append(self)

    def tokens(self):
        m = MAGIC[self.kind]
        return m + [Blob(self.src, len(m), t_sub(self.total, len(m)))]


def gzip_tokens(data, pad=0, kind='gzip'):
    return Member(kind, list(toks_of(data)), pad).tokens()


class CompressObj(object):
    def __init__(self, level=-1, method=8, wbits=15, *a, **k):
        self.kind = 'raw' if wbits < 0 else 'gzip' if wbits > 15 else 'zlib'
        self.toks = []
        self.member = None
        self.done = False
        self.sent = None

    def _start(self):
        self.member = Member(self.kind, None, name='cz')
        m = MAGIC[self.kind]
        self.sent = 10 if self.kind == 'gzip' else 2 if self.kind == 'zlib' else 0
        if self.sent > len(m):
            return m + [Blob(self.member.src, len(m), self.sent - len(m))]
        return list(m)

    def compress(self, data):
        toks = _bytes_like(data)
        if self.done:
            raise _zlib.error('Error -2 while compressing data: inconsistent stream state')
        out = self._start() if self.member is None else []
        self.toks += toks
        return mk('b', out)

    def flush(self, mode=4):
        if self.done:
            if mode == 4:
                raise _zlib.error('Error -2 while finishing compression: inconsistent stream state')
            return b''
        if mode == 0:
            return b''
        out = self._start() if self.member is None else []
        m = self.member
        if mode != 4:
            m.total = None
            return mk('b', out + [Blob(m.src, self.sent, 1)]) if False else mk('b', out)
        self.done = True
        m.payload = self.toks
        m.plen = toks_len(self.toks)
        m.total = t_add(t_add(m.head, m.plen), TAIL[self.kind])
        return mk('b', out + [Blob(m.src, self.sent, t_sub(m.total, self.sent))])

    def copy(self):
        eng().give_up('compressobj.copy')


class DecompressObj(object):
    def __init__(self, wbits=15, *a, **k):
        self.wbits = wbits
        self.kinds = (['raw'] if wbits < 0 else ['zlib'] if wbits <= 15 else
                      ['gzip'] if wbits <= 31 else ['gzip', 'zlib'])
        self.hdr = []           # header bytes seen before the member is known
        self.member = None
        self.c = 0              # compressed bytes consumed
        self.unused_data = b''
        self.unconsumed_tail = b''
        self.eof = False
        self.failed = False

    def _err(self, msg='Error -3 while decompressing data: incorrect header check'):
        self.failed = True
        raise _zlib.error(msg)

    def decompress(self, data, max_length=0):
        if not (max_length == 0):
            eng().give_up('decompress max_length')
        toks = list(_bytes_like(data))
        if not toks:
            return b''
        if self.eof:
            self.unused_data = self.unused_data + mk('b', toks)
            return b''
        if self.failed:
            self._err('Error -3 while decompressing data: invalid data')
        if self.member is None:
            toks = self._header(toks)
            if self.member is None:
                return b''
        return self._body(toks)

    def _header(self, toks):
        if self.kinds == ['raw']:
            x = toks[0]
            if type(x) is Blob and isinstance(x.src.meta, Member):
                if x.src.meta.kind == 'raw' and not is_t(x.off) and x.off == 0:
                    self.member = x.src.meta
                    return toks
                eng().give_up('raw inflate of other data')
            if type(x) is Blob:
                eng().give_up('raw inflate of a blob')
            self.hdr.append(x)
            x0 = self.hdr[0]
            bt = v.norm((x0 // 2) % 4) if is_t(x0) else (x0 >> 1) & 3
            if br(t_cmp('==', bt, 3)):
                self._err('Error -3 while decompressing data: invalid block type')
            if not br(t_cmp('==', bt, 0)):
                eng().give_up('raw inflate of plain data')
            need = 5 - len(self.hdr) + 1
            h = self.hdr[:-1] + toks[:need]
            if any(type(y) is Blob for y in h):
                eng().give_up('raw inflate of a blob')
            if len(h) < 5:
                self.hdr = h
                return []
            ln = h[1] + h[2] * 256 + h[3] + h[4] * 256
            if br(v.t_and([t_cmp('==', h[1] + h[3], 255), t_cmp('==', h[2] + h[4], 255)])):
                eng().give_up('raw inflate of plain data')
            self._err('Error -3 while decompressing data: invalid stored block lengths')
        while toks and len(self.hdr) < 2:
            x = toks[0]
            if type(x) is Blob:
                # a window of a blob: look at its first element
                if isinstance(x.src.meta, Member) and x.src.meta.kind == 'raw' and \
                        (self.hdr == [1] if self.hdr else br(t_cmp('==', x.off, 0))):
                    # the header of a stored block
                    self.hdr.append(0x100 if self.hdr else 1)
                    toks = ([] if v.eq(x.ln, 1) else [Blob(x.src, t_add(x.off, 1), t_sub(x.ln, 1))]) + toks[1:]
                    continue
                if isinstance(x.src.meta, Member):
                    if not self.hdr:
                        # starts inside a compressed stream: garbage
                        eng().give_up('inflate from the middle of a stream')
                    eng().give_up('inflate of mixed data')
                e = x.src.elem(x.off)
                rest = [] if v.eq(x.ln, 1) else [Blob(x.src, t_add(x.off, 1), t_sub(x.ln, 1))]
                toks = rest + toks[1:]
                x = e
            else:
                toks = toks[1:]
            self.hdr.append(x)
        if len(self.hdr) < 2:
            return []
        a, b = self.hdr
        kind = None
        if 'gzip' in self.kinds and br(v.t_and([t_cmp('==', a, 0x1f), t_cmp('==', b, 0x8b)])):
            kind = 'gzip'
        elif 'zlib' in self.kinds:
            h = a * 256 + b
            if br(v.t_and([t_cmp('==', v.norm(h % 31), 0), t_cmp('==', v.norm(a % 16), 8),
                           t_cmp('<', a, 128)])):
                kind = 'zlib'
        if kind is None:
            self._err()
        self.c = 2
        if not toks:
            self.hdr.append(kind)
            self.member = 'later'
            self.kind = kind
            return []
        self.kind = kind
        self._bind(toks)
        return toks

    def _bind(self, toks):
        x = toks[0]
        if type(x) is Blob and isinstance(x.src.meta, Member) and x.src.meta.kind == self.kind \
                and not is_t(x.off) and x.off == 2:
            self.member = x.src.meta
        elif type(x) is not Blob and br(t_cmp('!=', x, 8)):
            if self.kind == 'gzip':
                self._err('Error -3 while decompressing data: unknown compression method')
            eng().give_up('corrupt compressed data')
        else:
            eng().give_up('corrupt compressed data')

    def _body(self, toks):
        if not toks:
            return b''
        if self.member == 'later':
            self._bind(toks)
        m = self.member
        if m.payload is None:
            eng().give_up('unfinished compressed stream')
        e0 = self._emitted()
        i = 0
        while i < len(toks):
            x = toks[i]
            if type(x) is Blob and x.src is m.src and br(t_cmp('==', x.off, self.c)):
                self.c = t_add(self.c, x.ln)
                i += 1
                if br(t_cmp('==', self.c, m.total)):
                    self.eof = True
                    break
                continue
            # foreign data inside the stream
            if type(x) is Blob and x.src is m.src:
                eng().give_up('compressed stream with a gap')
            self.failed = True
            if br(t_cmp('<', self.c, m.head)) is None:
                pass
            eng().give_up('foreign data inside a compressed stream')
        out = cut(cut(m.payload, self._emitted())[0], e0)[1]
        if self.eof:
            self.unused_data = mk('b', toks[i:])
        return mk('b', out)

    def _emitted(self):
        m = self.member
        d = t_sub(self.c, m.head)
        if le(d, 0):
            return 0
        if ge(d, m.plen):
            return m.plen
        return d

    def flush(self, length=None):
        return b''

    def copy(self):
        eng().give_up('decompressobj.copy')


def z_compress(data, level=-1, wbits=15):
    c = CompressObj(level, 8, wbits)
    return c.compress(data) + c.flush()


def z_decompress(data, wbits=15, bufsize=0):
    d = DecompressObj(wbits)
    r = d.decompress(data)
    if not d.eof:
        raise _zlib.error('Error -5 while decompressing data: incomplete or truncated stream')
    return r


def z_crc32(data, val=0):
    return _zlib.crc32(ops.concretize(data, 'crc32'), realize(val))


zlib_stub = _delegate('zlib', _zlib, compressobj=CompressObj, decompressobj=DecompressObj,
                      compress=z_compress, decompress=z_decompress, crc32=z_crc32)


def split_members(data):
    """[payload tokens or None] of a byte string made of gzip members; None
    marks something that is not one complete member"""
    toks = list(toks_of(data))
    out = []
    while toks:
        d = DecompressObj(31)
        try:
            r = d.decompress(mk('b', toks))
        except _zlib.error:
            out.append(None)
            break
        if not d.eof:
            out.append(None)
            break
        out.append(r)
        toks = list(toks_of(d.unused_data))
    return out


# ---------------------------------------------------------------- hashlib
_DLEN = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}


def digest_of(algo, content):
    """digest bytes; equal contents have equal digests and only those"""
    reg = eng().registry.setdefault('digests', {}).setdefault(algo, [])
    toks = toks_of(content)
    conc = all(type(x) is int for x in toks)
    if conc and not any(not c for _, c, _ in reg):
        d = _hashlib.new(algo, bytes(toks)).digest()
    else:
        d = None
    for old, oconc, od in reg:
        if conc and oconc:
            if old == toks:
                return od
            continue
        if br(v.toks_eq(old, toks)):
            return od
    if conc:
        d = _hashlib.new(algo, bytes(toks)).digest()
    else:
        d = _hashlib.new(algo, b'symbolic content %d' % len(reg)).digest()
    reg.append((list(toks), conc, d))
    return d


class SymHash(object):
    def __init__(self, name, data=b''):
        self.name = name
        self.digest_size = _DLEN[name]
        self.block_size = 64
        self.toks = list(_bytes_like(data))

    def update(self, data):
        self.toks = v.merge(self.toks + list(_bytes_like(data)))

    def digest(self):
        return digest_of(self.name, mk('b', self.toks))

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        h = SymHash(self.name)
        h.toks = list(self.toks)
        return h


def h_new(name, data=b'', **k):
    name = ops.concretize(name, 'hashlib.new') if ops.has_sym(name) else name
    n = name.lower().replace('-', '')
    if n not in _DLEN:
        _hashlib.new(name)      # raises as the real one does
        eng().give_up('hash algorithm ' + name)
    return SymHash(n, data)


hashlib_stub = _delegate('hashlib', _hashlib, new=h_new,
                         **{n: (lambda n: lambda data=b'', **k: SymHash(n, data))(n) for n in _DLEN})


# ---------------------------------------------------------------- base64
def _chars(x):
    if kind_of(x) == 's':
        for c in toks_of(x):
            if type(c) is not Blob and not br(t_cmp('<', c, 128)):
                raise ValueError('string argument should contain only ASCII characters')
    toks = toks_of(x)
    out = []
    for c in toks:
        if type(c) is Blob:
            if c.src.kind == 'dec':
                out += v.explode_dec(c)
            else:
                eng().give_up('base64 of blob')
        else:
            out.append(c)
    return out


def _pick(c, table):
    """index of char c by table of (lo, hi, base); None if absent (forks)"""
    for lo, hi, base in table:
        if br(v.in_ranges(c, [(lo, hi)])):
            return v.norm(c - lo + base) if is_t(c) else c - lo + base
    return None


import binascii as _binascii


def _symchars(x):
    return ops.has_sym(x)


def b16decode(s, casefold=False):
    if not _symchars(s):
        return _base64.b16decode(s, casefold)
    ch = _chars(s)
    tab = [(48, 57, 0), (65, 70, 10)] + ([(97, 102, 10)] if casefold else [])
    vals = []
    for c in ch:
        d = _pick(c, tab)
        if d is None:
            raise _binascii.Error('Non-base16 digit found')
        vals.append(d)
    if len(vals) % 2:
        raise _binascii.Error('Odd-length string')
    return mk('b', [v.norm(a * 16 + b) if (is_t(a) or is_t(b)) else a * 16 + b
                    for a, b in zip(vals[::2], vals[1::2])])


def _bits_group(toks, n_in, n_out, bits):
    """big-endian regroup: n_in bytes -> n_out digits of `bits` bits"""
    tot = 0
    for x in toks:
        tot = tot * 256 + x
    out = []
    for i in range(n_out):
        sh = bits * (n_out - 1 - i)
        if is_t(tot):
            out.append(v.norm((tot // (1 << sh)) % (1 << bits)))
        else:
            out.append((tot >> sh) & ((1 << bits) - 1))
    return out


def b32encode(s):
    if not _symchars(s):
        return _base64.b32encode(s)
    toks = list(toks_of(s))
    if any(type(x) is Blob for x in toks):
        eng().give_up('b32encode of blob')
    left = len(toks) % 5
    if left:
        pad = 5 - left
        toks = toks + [0] * pad
    out = []
    for i in range(0, len(toks), 5):
        for d in _bits_group(toks[i:i + 5], 5, 8, 5):
            if is_t(d):
                out.append(v.norm(tm.If(d < 26, d + 65, d + 24)))
            else:
                out.append(d + 65 if d < 26 else d + 24)
    if left:
        k = {1: 6, 2: 4, 3: 3, 4: 1}[left]
        out[-k:] = [61] * k
    return mk('b', out)


def b64decode(s, altchars=None, validate=False):
    if not _symchars(s):
        return _base64.b64decode(s, altchars, validate)
    ch = _chars(s)
    if altchars is not None:
        a0, a1 = toks_of(altchars)
        out = []
        for c in ch:
            if br(t_cmp('==', c, a0)):
                out.append(43)
            elif br(t_cmp('==', c, a1)):
                out.append(47)
            else:
                out.append(c)
        ch = out
    tab = [(65, 90, 0), (97, 122, 26), (48, 57, 52), (43, 43, 62), (47, 47, 63)]
    vals = []
    pads = 0
    quads = 0
    res = []
    cur = []
    for c in ch:
        if br(t_cmp('==', c, 61)):
            pads += 1
            if len(cur) >= 2 and len(cur) + pads >= 4:
                # end of data (non-strict: stop at a complete quad)
                if len(cur) == 2:
                    n = cur[0] * 64 + cur[1]
                    res.append(v.norm(n // 16) if is_t(n) else n >> 4)
                else:
                    n = (cur[0] * 64 + cur[1]) * 64 + cur[2]
                    n2 = v.norm(n // 4) if is_t(n) else n >> 2
                    res += _bits_group([], 0, 0, 8) or [
                        v.norm(n2 // 256) if is_t(n2) else n2 >> 8,
                        v.norm(n2 % 256) if is_t(n2) else n2 & 255]
                return mk('b', res)
            continue
        d = _pick(c, tab)
        if d is None:
            continue
        pads = 0
        cur.append(d)
        if len(cur) == 4:
            n = ((cur[0] * 64 + cur[1]) * 64 + cur[2]) * 64 + cur[3]
            if is_t(n):
                res += [v.norm(n // 65536), v.norm((n // 256) % 256), v.norm(n % 256)]
            else:
                res += [n >> 16, (n >> 8) & 255, n & 255]
            cur = []
    if cur:
        raise _binascii.Error('Incorrect padding')
    return mk('b', res)


def b32decode(s, casefold=False, map01=None):
    if not _symchars(s):
        return _base64.b32decode(s, casefold, map01)
    eng().give_up('b32decode of symbolic text')


def b64encode(s, altchars=None):
    return _base64.b64encode(ops.concretize(s, 'b64encode'), altchars)


def b16encode(s):
    return _base64.b16encode(ops.concretize(s, 'b16encode'))


def urlsafe_b64decode(s):
    return b64decode(s, b'-_')


base64_stub = _delegate('base64', _base64, b16decode=b16decode, b32encode=b32encode, b64decode=b64decode,
                        b32decode=b32decode, b64encode=b64encode, b16encode=b16encode,
                        standard_b64decode=b64decode, urlsafe_b64decode=urlsafe_b64decode)


# ---------------------------------------------------------------- os, shutil: on the files of the session
def _ours(p):
    return isinstance(p, str) and p.startswith('/sx/')


def _on_files(real, mine):
    def f(*args, **kw):
        if args and _ours(args[0]):
            return mine(*[_os.path.normpath(a) if _ours(a) else a for a in args], **kw)
        return real(*args, **kw)
    return f


def _vfile(p):
    if p not in files():
        raise FileNotFoundError(2, 'No such file or directory', p)
    return files()[p]


def _os_remove(p, **k):
    _vfile(p)
    del files()[p]


def _os_rename(a, b, **k):
    f = _vfile(a)
    del files()[a]
    files()[b] = f


def _os_same(a, b):
    return _vfile(a) is _vfile(b)


def _sh_copy(a, b, **k):
    f = _vfile(a)
    if a == b:
        raise _shutil.SameFileError(a)
    g = files().setdefault(b, VFile())
    g.data = f.data
    return b


def _sh_move(a, b, **k):
    _os_rename(a, b)
    return b


def _os_truncate(p, n):
    f = _vfile(p)
    g = SymFile(f, 'r+', p)
    g.truncate(n)


def _os_isfile(p):
    return p in files()


path_stub = _delegate('posixpath', _os.path, exists=_on_files(_os.path.exists, _os_isfile), isfile=_on_files(_os.path.isfile, _os_isfile),
                      lexists=_on_files(_os.path.lexists, _os_isfile), getsize=_on_files(_os.path.getsize, lambda p: ops.sx_len(_vfile(p).data)),
                      samefile=_on_files(_os.path.samefile, _os_same), realpath=_on_files(_os.path.realpath, lambda p, **k: _os.path.normpath(p)))
os_stub = _delegate('os', _os, path=path_stub, remove=_on_files(_os.remove, _os_remove), unlink=_on_files(_os.unlink, _os_remove),
                    rename=_on_files(_os.rename, _os_rename), replace=_on_files(_os.replace, _os_rename), truncate=_on_files(_os.truncate, _os_truncate))
shutil_stub = _delegate('shutil', _shutil, copyfile=_on_files(_shutil.copyfile, _sh_copy), copy=_on_files(_shutil.copy, _sh_copy),
                        copy2=_on_files(_shutil.copy2, _sh_copy), move=_on_files(_shutil.move, _sh_move))


# ---------------------------------------------------------------- tempfile, uuid, sys, ...
def _tmp(*a, **k):
    return SymBytesIO()


class SymSpooled(SymBytesIO):
    def __init__(self, max_size=0, mode='w+b', *a, **k):
        SymBytesIO.__init__(self)


tempfile_stub = _delegate('tempfile', _tempfile, TemporaryFile=_tmp, SpooledTemporaryFile=SymSpooled,
                          NamedTemporaryFile=_tmp)


def _uuid4():
    e = eng()
    n = e.counter.get('uuid', 0)
    e.counter['uuid'] = n + 1
    return _uuid.UUID(int=0x12345678123441238123000000000000 + n)


uuid_stub = _delegate('uuid', _uuid, uuid4=_uuid4, uuid1=_uuid4)


class SymStd(object):
    """text stream with a byte buffer"""

    def __init__(self, data=b''):
        self.buffer = SymBytesIO(data)
        self.buffer.close = lambda: None
        self.text = SymStringIO()
        self.closed = False

    def write(self, s):
        return self.text.write(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class SysProxy(types.ModuleType):
    def __getattr__(self, name):
        import sys
        if name in ('stdout', 'stderr', 'stdin'):
            reg = eng().registry
            if name not in reg:
                reg[name] = SymStd()
            return reg[name]
        return getattr(sys, name)

    def exc_info(self):
        import sys
        return sys.exc_info()

    def audit(self, *a):
        pass


sys_stub = SysProxy('sys')


def _sys_set(name, val):
    eng().registry[name] = val


def h_print(*a, sep=' ', end='\n', file=None, flush=False):
    out = file if file is not None else sys_stub.stdout
    parts = [ops.sx_str(x) for x in a]
    out.write(v.seq_join(' ' if sep is None else sep, parts) + ('\n' if end is None else end))


ops.HANDLERS[print] = h_print


class _NoLog(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


logging_stub = _mod('logging', getLogger=lambda *a: _NoLog(), basicConfig=lambda *a, **k: None,
                    DEBUG=10, INFO=20, WARNING=30, ERROR=40, NullHandler=object)
traceback_stub = _mod('traceback', print_exc=lambda *a, **k: sys_stub.stderr.write('Traceback\n'),
                      format_exc=lambda *a, **k: 'Traceback\n')
socket_real = __import__('socket')
socket_stub = _delegate('socket', socket_real, gethostname=lambda: 'sxhost')


def sx_quote(s, safe='/', encoding=None, errors=None):
    if type(s) is not SymSeq:
        from urllib.parse import quote
        return quote(s, safe, encoding, errors)
    if s.kind == 's':
        s = s.encode(encoding or 'utf-8', errors or 'strict')
    if type(s) is not SymSeq:
        from urllib.parse import quote
        return quote(s, safe)
    safe_codes = [ord(c) for c in (safe if isinstance(safe, str) else safe.decode('latin-1'))]
    ok = v.ranges_of([c for c in range(128) if chr(c).isalnum() or chr(c) in '_.-~'] +
                     [c for c in safe_codes if c < 128])
    out = []
    for c in s.toks:
        if type(c) is Blob:
            out.append(c)
            continue
        if br(v.in_ranges(c, ok)):
            out.append(c)
            continue
        out.append(37)
        if not is_t(c):
            out += [ord(x) for x in '%02X' % c]
        else:
            for d in (v.norm(c // 16), v.norm(c % 16)):
                out.append(v.hexdigit(d, True))
    return mk('s', out)


def sx_unquote_to_bytes(s):
    if type(s) is not SymSeq:
        from urllib.parse import unquote_to_bytes
        return unquote_to_bytes(s)
    if s.kind == 's':
        s = s.encode('utf-8')
    toks = toks_of(s)
    out = []
    i = 0
    tab = [(48, 57, 0), (65, 70, 10), (97, 102, 10)]
    while i < len(toks):
        c = toks[i]
        if type(c) is not Blob and i + 2 < len(toks) and type(toks[i + 1]) is not Blob \
                and type(toks[i + 2]) is not Blob and br(t_cmp('==', c, 37)):
            a = v.unhex(toks[i + 1])
            b = v.unhex(toks[i + 2]) if a is not None else None
            if a is not None and b is not None:
                out.append(v.norm(a * 16 + b) if is_t(a) or is_t(b) else a * 16 + b)
                i += 3
                continue
        out.append(c)
        i += 1
    return mk('b', out)


def sx_unquote(s, encoding='utf-8', errors='replace'):
    if type(s) is not SymSeq:
        from urllib.parse import unquote
        return unquote(s, encoding, errors)
    return v.decode(sx_unquote_to_bytes(s), encoding, errors)


def _parse_mod(real_name):
    import urllib.parse as up
    return _delegate(real_name, up, quote=sx_quote, unquote=sx_unquote, unquote_to_bytes=sx_unquote_to_bytes)


# ---------------------------------------------------------------- json
def _jstr(s):
    """ensure_ascii string literal"""
    if type(s) is not SymSeq:
        return _json.dumps(s)
    out = [34]

    def hex4(c):
        ds = []
        for sh in (4096, 256, 16, 1):
            d = v.norm((c // sh) % 16) if is_t(c) else (c // sh) % 16
            ds.append(v.hexdigit(d))
        return [92, 117] + ds
    for c in s.toks:
        if type(c) is Blob:
            out.append(c)
        elif not is_t(c):
            out += [ord(x) for x in _json.dumps(chr(c))[1:-1]]
        elif br(tm.And(c >= 32, c < 127, c != 34, c != 92)):
            out.append(c)
        else:
            done = False
            for code, rep in ((34, '\\"'), (92, '\\\\'), (10, '\\n'), (13, '\\r'), (9, '\\t'),
                              (8, '\\b'), (12, '\\f')):
                if br(nb(c == code)):
                    out += [ord(x) for x in rep]
                    done = True
                    break
            if done:
                continue
            if br(nb(c == 127)):
                out.append(127)
            elif br(nb(c < 0x10000)):
                out += hex4(c)
            else:
                n = v.norm(c - 0x10000)
                out += hex4(v.norm(0xd800 + n // 1024)) + hex4(v.norm(0xdc00 + n % 1024))
    out.append(34)
    return mk('s', out)


def sx_dumps(o, **k):
    if not ops.has_sym(o, 4):
        return _json.dumps(o, **k)
    if any(x not in ('ensure_ascii', 'default', 'cls', 'check_circular', 'allow_nan') for x in k) \
            or not k.get('ensure_ascii', True):
        if set(k) - {'separators', 'sort_keys'} or k.get('sort_keys'):
            eng().give_up('json.dumps options')
    isep, ksep = k.get('separators') or (', ', ': ')

    def enc(x):
        t = type(x)
        if t is SymSeq:
            return _jstr(x)
        if t is SymInt:
            return ops.sx_str(x)
        if isinstance(x, dict):
            return '{' + v.seq_join(isep, [enc(kk) + ksep + enc(vv) for kk, vv in x.items()]) + '}'
        if isinstance(x, (list, tuple)):
            return '[' + v.seq_join(isep, [enc(y) for y in x]) + ']'
        return _json.dumps(x)
    return enc(o)


json_stub = _delegate('json', _json, dumps=sx_dumps)


# ---------------------------------------------------------------- argparse
def _make_argparse():
    import argparse as ap

    class ArgumentParser(ap.ArgumentParser):
        """symbolic arguments travel through the real parser as plain words"""

        def parse_known_args(self, args=None, namespace=None):
            if args is None:
                return ap.ArgumentParser.parse_known_args(self, args, namespace)
            table, words = {}, []
            for a in args:
                if type(a) is SymSeq:
                    w = 'sxarg%dxx' % len(table)
                    table[w] = a
                    a = w
                words.append(a)
            ns, rest = ap.ArgumentParser.parse_known_args(self, words, namespace)
            if table:
                for k, x in list(vars(ns).items()):
                    if isinstance(x, str) and x in table:
                        setattr(ns, k, table[x])
                    elif isinstance(x, list):
                        setattr(ns, k, [table.get(y, y) if isinstance(y, str) else y for y in x])
                rest = [table.get(y, y) for y in rest]
            return ns, rest

        def _print_message(self, message, file=None):
            pass
    return _delegate('argparse', ap, ArgumentParser=ArgumentParser)


argparse_stub = _make_argparse()


# ---------------------------------------------------------------- six
def make_six(loader):
    import collections.abc as cabc
    six = _mod('six', PY2=False, PY3=True, binary_type=bytes, text_type=str, string_types=(str,),
               integer_types=(int,), class_types=(type,), iteritems=lambda d, **k: iter(d.items()),
               itervalues=lambda d, **k: iter(d.values()), iterkeys=lambda d, **k: iter(d.keys()),
               next=next, advance_iterator=next, Iterator=object, int2byte=lambda i: ops.h_bytes([i]),
               BytesIO=SymBytesIO, StringIO=SymStringIO, b=lambda s: s.encode('latin-1'), u=lambda s: s,
               byte2int=lambda b: ops.sx_getitem(b, 0), iterbytes=iter, MAXSIZE=2**63 - 1,
               ensure_str=lambda s, encoding='utf-8', errors='strict':
               s if kind_of(s) == 's' else v.decode(s, encoding, errors),
               ensure_text=lambda s, encoding='utf-8', errors='strict':
               s if kind_of(s) == 's' else v.decode(s, encoding, errors),
               ensure_binary=lambda s, encoding='utf-8', errors='strict':
               s if kind_of(s) == 'b' else v.encode(ops.lift(s), encoding, errors))
    six.__path__ = []
    import functools

    def reraise(tp, value, tb=None):
        raise value.with_traceback(tb)
    six.reraise = reraise
    six.wraps = functools.wraps
    parse = _parse_mod('six.moves.urllib.parse')
    urllib = _mod('six.moves.urllib', parse=parse)
    urllib.__path__ = []

    class Moves(types.ModuleType):
        def __getattr__(self, name):
            if name == 'http_client':
                return loader.load('http.client')
            raise AttributeError(name)
    moves = Moves('six.moves')
    moves.__path__ = []
    moves.range, moves.zip, moves.map, moves.filter = range, zip, map, filter
    moves.input, moves.reduce, moves.xrange = input, functools.reduce, range
    moves.urllib, moves.cStringIO, moves.StringIO = urllib, SymStringIO, SymStringIO
    moves.builtins = builtins
    six.moves = moves
    uparse = _parse_mod('urllib.parse')
    ul = _mod('urllib', parse=uparse)
    ul.__path__ = []
    return {'six': six, 'six.moves': moves, 'six.moves.urllib': urllib, 'six.moves.urllib.parse': parse,
            'six.moves.http_client': lambda: loader.load('http.client'),
            'urllib': ul, 'urllib.parse': uparse}


# ---------------------------------------------------------------- time
def sx_time():
    e = eng()
    now = e.registry.get('now')
    if now is not None:
        return now
    return 1700000000


def _leap(y):
    """y is a leap year; the divisions share one decomposition y = 400 a + 100 b + 4 c + r"""
    r4, r100, r400 = y % 4, y % 100, y % 400
    return tm.And(r4 == 0, tm.Or(r100 != 0, r400 == 0))


def _month_len(y, m):
    return tm.If(m == 2, tm.If(_leap(y), 29, 28), tm.If(tm.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def _month_start(m, leap):
    out = tm.IntVal(0)
    for i, n in enumerate((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30)):
        out = out + tm.If(m > i + 1, n, 0)
    return out + tm.If(tm.And(m > 2, leap), 1, 0)


def _reg_month(y, m, start):
    eng().registry.setdefault('months', []).append((y, m, start))


def _month_ord(y, m):
    """ordinal of the day before the first of the month, as a term (known ones are reused)"""
    e = eng()
    regs = e.registry.get('months', ())
    for y0, m0, start in regs:
        if tm.tkey(y0) == tm.tkey(y) and tm.tkey(m0) == tm.tkey(m):
            return start
    for y0, m0, start in regs:
        if e.holds(tm.And(tm.L(y) == tm.L(y0), tm.L(m) == tm.L(m0))):
            return start
    y1 = tm.L(y) - 1
    start = y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400 + _month_start(tm.L(m), _leap(tm.L(y)))
    _reg_month(y, m, start)
    return start


def sx_ymd2ord(year, month, day):
    if not ops.has_sym((year, month, day)):
        import _pydatetime
        return _pydatetime._ymd2ord(year, month, day)
    assert 1 <= month <= 12, 'month must be in 1..12'
    y, m, d = v.T(year), v.T(month), v.T(day)
    if type(day) is not int or day > 28:
        assert 1 <= day <= V(v.norm(_month_len(tm.L(y), tm.L(m)))), 'day must be in 1..dim'
    return V(v.norm(_month_ord(y, m) + d))


def sx_days_in_month(year, month):
    if not ops.has_sym((year, month)):
        import _pydatetime
        return _pydatetime._days_in_month(year, month)
    assert 1 <= month <= 12, month
    return V(v.norm(_month_len(tm.L(v.T(year)), tm.L(v.T(month)))))


def sx_days_before_month(year, month):
    if not ops.has_sym((year, month)):
        import _pydatetime
        return _pydatetime._days_before_month(year, month)
    assert 1 <= month <= 12, month
    return V(v.norm(_month_start(tm.L(v.T(month)), _leap(tm.L(v.T(year))))))


def patch_pydatetime(m):
    """calendar arithmetic of the standard library without forks (same function on the integers)"""
    m._ord2ymd = sx_ord2ymd
    m._ymd2ord, m._days_in_month, m._days_before_month = sx_ymd2ord, sx_days_in_month, sx_days_before_month


def patch_calendar(m):
    orig = m.monthrange

    def monthrange(year, month):
        if not ops.has_sym((year, month)):
            return orig(year, month)
        if not 1 <= month <= 12:
            raise m.IllegalMonthError(month)
        if not 1 <= year <= 9999:
            year = 2000 + year % 400
        return (sx_ymd2ord(year, month, 1) + 6) % 7, sx_days_in_month(year, month)
    m.monthrange = monthrange


def sx_gmtime(secs=None):
    if secs is None:
        secs = sx_time()
    if isinstance(secs, float):
        secs = int(secs)
    if type(secs) is not SymInt:
        return _time.gmtime(secs)
    t = secs.t
    n = v.norm(t // 86400 + 719163)
    y, mo, d = _ymd(n)
    rem = tm.L(v.norm(t % 86400))
    return STime([V(v.norm(x)) for x in (y, mo, d, rem // 3600, rem // 60 % 60, rem % 60, (tm.L(n) + 6) % 7,
                                         tm.L(n) - tm.L(_year_start(y)))] + [0])


def _ymd(n):
    """year, month, day of an ordinal; the calendar is one to one, so known months are reused"""
    e = eng()
    n = tm.L(n)
    regs = e.registry.get('months', ())
    for y, mo, start in regs:
        if tm.tkey(n - start) == 1:
            return y, mo, 1
    for y, mo, start in regs:
        d = tm.L(v.norm(n - start))
        if e.holds(tm.And(d >= 1, d <= _month_len(tm.L(y), tm.L(mo)))):
            return y, mo, d
    base = e.fresh_name('gm')
    # year - 1 = 400 q4 + 100 q1 + 4 qq + r: everything below is linear
    q4, q1, qq, r, mo, d = [tm.Int('%s_%s' % (base, n)) for n in ('q4', 'q1', 'qq', 'r', 'mo', 'd')]
    e.assume_term(tm.And(q4 >= 0, q4 <= 24, q1 >= 0, q1 <= 3, qq >= 0, qq <= 24, r >= 0, r <= 3,
                         mo >= 1, mo <= 12, d >= 1, d <= 31))
    y = v.norm(400 * q4 + 100 * q1 + 4 * qq + r + 1)
    leap = tm.And(r == 3, tm.Or(qq != 24, q1 == 3))
    mlen = tm.If(tm.Or(mo == 4, mo == 6, mo == 9, mo == 11), 30, tm.If(mo == 2, tm.If(leap, 29, 28), 31))
    e.assume_term(d <= mlen)
    start = v.norm(146097 * q4 + 36524 * q1 + 1461 * qq + 365 * r + _month_start(mo, leap))
    _reg_month(y, mo, start)
    e.assume_term(n == start + d)
    return y, mo, d


def sx_ord2ymd(n):
    if type(n) is not SymInt:
        import _pydatetime
        return _pydatetime._ord2ymd(n)
    return tuple(V(v.norm(x)) for x in _ymd(n.t))


def _year_start(y):
    y1 = tm.L(y) - 1
    return y1 * 365 + y1 // 4 - y1 // 100 + y1 // 400


class STime(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])
    tm_gmtoff = 0
    tm_zone = 'UTC'


def sx_struct_time(seq):
    return STime(tuple(seq))


_DN = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
_MN = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September',
       'October', 'November', 'December']


def sx_strftime(fmt, tt=None):
    if tt is None:
        tt = sx_gmtime()
    if not ops.has_sym(tuple(tt)):
        return _time.strftime(fmt, tuple(tt))
    Y, M, D, h, m, s, wd, yd = list(tt)[:8]
    out = ''
    i = 0
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out = out + c
            i += 1
            continue
        f = fmt[i + 1]
        i += 2
        if f == 'Y':
            # glibc does not pad %Y
            out = out + ops.sx_str(Y)
        elif f in 'mdHMSyj':
            x = {'m': M, 'd': D, 'H': h, 'M': m, 'S': s, 'y': Y % 100, 'j': yd}[f]
            out = out + ops.sx_format(x, '03' if f == 'j' else '02')
        elif f == 'F':
            out = out + ops.sx_str(Y) + '-' + ops.sx_format(M, '02') + '-' + ops.sx_format(D, '02')
        elif f == 'T':
            out = out + ops.sx_format(h, '02') + ':' + ops.sx_format(m, '02') + ':' + ops.sx_format(s, '02')
        elif f == 'a':
            out = out + _DN[wd][:3]
        elif f == 'A':
            out = out + _DN[wd]
        elif f in 'bh':
            out = out + _MN[M - 1][:3]
        elif f == 'B':
            out = out + _MN[M - 1]
        elif f == '%':
            out = out + '%'
        else:
            eng().give_up('strftime %' + f)
    return out


time_stub = _delegate('time', _time, time=sx_time, gmtime=sx_gmtime, localtime=lambda *a: sx_localtime(*a),
                      strftime=sx_strftime, struct_time=sx_struct_time, timezone=0, altzone=0,
                      daylight=0, tzname=('UTC', 'UTC'), sleep=lambda *a: None,
                      mktime=lambda tt: eng().give_up('mktime'))


class _Frac(object):
    """fraction of a second, only ever multiplied by a million"""

    def __init__(self, us):
        self.us = us

    def __mul__(self, n):
        if n != 1000000:
            eng().give_up('fraction of a second')
        return self.us
    __rmul__ = __mul__


def sx_localtime(secs=None):
    zone = eng().registry.get('zone') or 0
    return sx_gmtime((sx_time() if secs is None else secs) + 60 * zone)


class _MathProxy(types.ModuleType):
    def __getattr__(self, n):
        import math
        return getattr(math, n)

    @staticmethod
    def modf(x):
        if type(x) is SymInt:
            reg = eng().registry
            if x is reg.get('now') and 'now_us' in reg:
                return _Frac(reg['now_us']), x
            return 0, x
        import math
        return math.modf(x)

    @staticmethod
    def copysign(a, b):
        import math
        if type(b) is SymInt or type(a) is SymInt:
            return abs(a) if b >= 0 else -abs(a)
        return math.copysign(a, b)

    @staticmethod
    def floor(x):
        import math
        return x if type(x) is SymInt else math.floor(x)

    @staticmethod
    def isfinite(x):
        import math
        return True if type(x) is SymInt else math.isfinite(x)


math_stub = _MathProxy('math')
