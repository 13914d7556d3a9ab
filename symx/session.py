"""Symbolic side of the harness API."""
import random
from . import terms as tm
from . import engine as E
from .engine import eng, CheckViolated
from . import values as v
from . import ops, stubs
from .values import SymInt, SymSeq, Blob, BlobSrc, T, V, is_t, mk, toks_of, br, nb

LETTERS = 'ghijklmnopqrstuvw'


def pattern(name, n):
    return ''.join(random.Random('blob ' + name).choices(LETTERS, k=n))


class Result(object):
    def __init__(self, status, value, out, text, err, exc=None):
        self.status, self.value, self.out, self.text, self.err, self.exc = status, value, out, text, err, exc


class SymSession(object):
    symbolic = True

    def __init__(self, engine, loader):
        self.e = engine
        self.loader = loader

    # -- inputs
    def _reg(self, name, kind, payload):
        if name in self.e.names:
            raise RuntimeError('duplicate input name ' + name)
        self.e.names.add(name)
        self.e.inputs.append((name, kind, payload))

    def int(self, name, lo, hi):
        if lo == hi:
            self._reg(name, 'const', lo)
            return lo
        t = tm.Int('i_' + name)
        self.e.assume_term(tm.And(t >= lo, t <= hi))
        self._reg(name, 'int', t)
        return SymInt(t)

    def pick(self, name, n):
        """0..n-1, forked"""
        if n == 1:
            self._reg(name, 'const', 0)
            return 0
        t = tm.Int('c_' + name)
        self.e.assume_term(tm.And(t >= 0, t < n))
        self._reg(name, 'int', t)
        for i in range(n - 1):
            if self.e.branch(t == i):
                return i
        return n - 1

    def choice(self, name, options):
        return options[self.pick(name, len(options))]

    def bool(self, name):
        return self.pick(name, 2) == 1

    def _chars(self, name, n, ranges):
        out = []
        for i in range(n):
            t = tm.Int('b_%s_%d' % (name, i))
            self.e.assume_term(v.in_ranges(t, ranges))
            out.append(t)
        return out

    def bytes(self, name, n, hi=None, ranges=((0, 255),)):
        """n (or n..hi) arbitrary bytes"""
        if hi is not None and hi != n:
            n = n + self.pick(name + '.len', hi - n + 1)
        toks = self._chars(name, n, ranges)
        self._reg(name, 'bytes', toks)
        return mk('b', toks)

    def str(self, name, n, hi=None, ranges=((32, 126),)):
        if hi is not None and hi != n:
            n = n + self.pick(name + '.len', hi - n + 1)
        toks = self._chars(name, n, ranges)
        self._reg(name, 'str', toks)
        return mk('s', toks)

    def blob(self, name, lo, hi, kind='b'):
        """bytes of arbitrary length lo..hi; content letters g..w, generic"""
        src = BlobSrc('in_' + name, 'text')
        n = tm.Int('n_' + name)
        self.e.assume_term(tm.And(n >= lo, n <= hi))
        self._reg(name, 'blob' + kind, (src, n))
        if lo <= 0 and self.e.branch(n <= 0):
            return b'' if kind == 'b' else ''
        return SymSeq(kind, [Blob(src, 0, n)])

    def text_blob(self, name, lo, hi):
        return self.blob(name, lo, hi, 's')

    def now(self, name, lo, hi, micros=False, zone=0):
        """the clock stands at a second (and microsecond); zone: minutes that local time is ahead"""
        x = self.int(name, lo, hi)
        reg = self.e.registry
        reg['now'], reg['zone'] = x, zone
        if micros:
            reg['now_us'] = self.int(name + 'us', 0, 999999)
            return x, reg['now_us']
        return x

    # -- properties
    def assume(self, c):
        if not c:
            self.e.abort()

    def cover(self, name):
        self.e.path_covers.append(name)

    def _violate(self, label, model, detail=''):
        self.e.model = model
        self.e.aborting = True
        raise CheckViolated(label, detail)

    def check(self, cond, label):
        if type(cond) is SymInt:
            cond = bool(cond)
        r = self.e.prove(bool(cond))
        if r is not True:
            self._violate(label, r)

    def check_eq(self, a, b, label):
        self._eq(a, b, label)

    def _eq(self, a, b, label):
        ka, kb = v.kind_of(a), v.kind_of(b)
        sa, sb = ops.has_sym(a, 4), ops.has_sym(b, 4)
        if not sa and not sb:
            self._prove(a == b, label, a, b)
        elif ka or kb:
            if ka != kb:
                self._prove(False, label, a, b)
            else:
                self._prove(v.toks_eq(toks_of(a), toks_of(b)), label, a, b)
        elif type(a) is SymInt or type(b) is SymInt:
            if not (isinstance(a, int) and isinstance(b, int)):
                self._prove(False, label, a, b)
            else:
                self._prove(v.t_cmp('==', T(a), T(b)), label, a, b)
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                self._prove(False, label, a, b)
            for i, (x, y) in enumerate(zip(a, b)):
                self._eq(x, y, label)
        else:
            self._prove(bool(a == b), label, a, b)

    def _prove(self, c, label, a, b):
        r = self.e.prove(c)
        if r is not True:
            self._violate(label, r, '%r != %r' % (a, b))

    def fail(self, label):
        self.check(False, label)

    def observe(self, name, val):
        self.e.observed.append((name, val))

    # -- oracles and environment
    def digest(self, algo, data):
        return stubs.digest_of(algo, data)

    def gzip(self, data, pad=0, kind='gzip'):
        return mk('b', stubs.gzip_tokens(data, T(pad), kind))

    def compressed_without_newlines(self):
        """compressed data contains no newline byte on the paths of this run"""
        self.e.registry['no_newline'] = True

    def gzip_layout(self, data, pad=0):
        """(total length, offset of the first payload byte) of gzip(data, pad)"""
        return V(v.t_add(v.t_add(23, T(pad)), v.toks_len(toks_of(data)))), V(v.t_add(15, T(pad)))

    def members(self, data):
        return stubs.split_members(data)

    def path(self, name):
        return '/sx/' + name

    def put_file(self, name, data):
        f = stubs.VFile()
        f.data = data
        stubs.files()['/sx/' + name] = f
        return '/sx/' + name

    def get_file(self, path):
        f = stubs.files().get(path)
        return None if f is None else f.data

    def link_file(self, path, name):
        stubs.files()['/sx/' + name] = stubs.files()[path]
        return '/sx/' + name

    def list_files(self):
        return sorted(stubs.files())

    def quote(self, s, safe='/'):
        return stubs.sx_quote(s, safe)

    def unquote(self, s):
        return stubs.sx_unquote(s)

    def BytesIO(self, data=b''):
        return stubs.SymBytesIO(data)

    def uuid(self, i):
        import uuid
        return str(uuid.UUID(int=0x12345678123441238123000000000000 + i))

    def run(self, fn, stdin=b''):
        reg = self.e.registry
        saved = {k: reg.get(k) for k in ('stdout', 'stderr', 'stdin')}
        for k in saved:
            reg[k] = stubs.SymStd(stdin if k == 'stdin' else b'')
        status, value, exc = 0, None, None
        try:
            value = ops.sx_call(fn)
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            exc = e
            status = 1
        res = Result(status, value, reg['stdout'].buffer.getvalue(), reg['stdout'].text.getvalue(),
                     reg['stderr'].text.getvalue(), exc)
        for k, x in saved.items():
            if x is None:
                reg.pop(k, None)
            else:
                reg[k] = x
        return res


# ---------------------------------------------------------------- model -> values
def ev(m, t):
    if not is_t(t):
        return t
    return m.lin(t)


class Conc(object):
    """evaluates symbolic values under a model"""

    def __init__(self, engine, model):
        self.e, self.m = engine, model
        self.cache = {}

    def blob_src(self, src, upto):
        name = src.name
        base = name[3:] if name.startswith('in_') else name
        over = {ev(self.m, off): ev(self.m, t) for off, t in self.e.blob_elems.get(name, [])}
        return base, over

    def content(self, src, off, ln):
        if src.kind == 'dec':
            return str(ev(self.m, src.n))[off:off + ln]
        if src.kind == 'upper':
            return self.content(src.meta, off, ln).upper()
        if src.kind == 'opaque':
            return '?' * min(ln, 16)
        base, over = self.blob_src(src, 0)
        full = pattern(base, off + ln)
        out = list(full[off:])
        for i, c in over.items():
            if off <= i < off + ln:
                out[i - off] = chr(c)
        return ''.join(out)

    def val(self, x):
        t = type(x)
        if t is SymInt:
            return ev(self.m, x.t)
        if t is SymSeq:
            out = []
            for k in x.toks:
                if type(k) is Blob:
                    out.append(self.content(k.src, ev(self.m, k.off), ev(self.m, k.ln)))
                else:
                    out.append(chr(ev(self.m, k)))
            s = ''.join(out)
            return s.encode('latin-1') if x.kind == 'b' else s
        if t is ops.SymBA:
            return self.val(x.val)
        if t is list or t is tuple:
            return [self.val(y) for y in x]
        if isinstance(x, dict):
            return {self.val(k): self.val(y) for k, y in x.items()}
        return x

    def vector(self):
        out = {}
        for name, kind, p in self.e.inputs:
            if kind == 'const':
                out[name] = p
            elif kind == 'int':
                out[name] = ev(self.m, p)
            elif kind == 'bytes' or kind == 'str':
                out[name] = [ev(self.m, t) for t in p]
            else:
                src, n = p
                _, over = self.blob_src(src, 0)
                out[name] = {'len': ev(self.m, n), 'over': {str(k): c for k, c in over.items()}}
        return out
