"""Symbolic integers, byte strings and strings.

A SymSeq is a list of tokens: a concrete code, a z3 Int term (one symbolic
byte / code point) or a Blob: a run of symbolic *length*, i.e. a window
[off, off+ln) of an unbounded source.  Invariant: every Blob in a SymSeq has
ln > 0 on the current path.
"""
import unicodedata
from . import terms as tm
from .engine import eng, Incomplete

IntVal = tm.IntVal
is_t = tm.is_t


# ---------------------------------------------------------------- terms
def norm(t):
    return t


def nb(c):
    return c


def t_add(a, b):
    return a + b


def t_sub(a, b):
    return a - b


def t_cmp(op, a, b):
    if op == '<':
        return a < b
    if op == '<=':
        return a <= b
    if op == '==':
        return a == b
    if op == '>':
        return a > b
    if op == '>=':
        return a >= b
    return a != b


def br(c):
    if c is True or c is False:
        return c
    return eng().branch(c)


def lt(a, b):
    return br(t_cmp('<', a, b))


def le(a, b):
    return br(t_cmp('<=', a, b))


def ge(a, b):
    return br(t_cmp('>=', a, b))


def gt(a, b):
    return br(t_cmp('>', a, b))


def eq(a, b):
    return br(t_cmp('==', a, b))


def t_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return tm.And(out)


def t_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return tm.Or(out)


def t_not(c):
    if c is True or c is False:
        return not c
    return tm.Not(c)


def T(x):
    """python value -> int or term"""
    if type(x) is SymInt:
        return x.t
    if x is True or x is False:
        return int(x)
    return x


def V(t):
    """term -> python value"""
    t = norm(t)
    return SymInt(t) if is_t(t) else t


def hexdigit(d, up=False):
    """code of the hex digit of value d; unhex() finds the value back"""
    if not is_t(d):
        return ord('0123456789ABCDEF'[d] if up else '0123456789abcdef'[d])
    t = tm.If(d < 10, d + 48, d + (55 if up else 87))
    if is_t(t):
        eng().registry.setdefault('hex', {})[tm.tkey(t)] = d
    return t


def unhex(c):
    """value of a hex digit character, None if it is none (forks)"""
    if is_t(c):
        d = eng().registry.get('hex', {}).get(tm.tkey(c))
        if d is not None:
            return d
    for lo, hi, base in ((48, 57, 0), (65, 70, 10), (97, 102, 10)):
        if br(in_ranges(c, [(lo, hi)])):
            return c - lo + base
    return None


def in_ranges(t, ranges):
    if not is_t(t):
        return any(a <= t <= b for a, b in ranges)
    return t_or([(t == a) if a == b else tm.And(t >= a, t <= b) for a, b in ranges])


def ranges_of(codes):
    codes = sorted(set(codes))
    out = []
    for c in codes:
        if out and c == out[-1][1] + 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(r) for r in out]


# ---------------------------------------------------------------- integers
def _num(o):
    return type(o) is SymInt or (isinstance(o, int) and type(o) is not SymInt)


class SymInt(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def _bin(self, o, f):
        if not _num(o):
            if isinstance(o, float):
                return f(realize(self), o)
            return NotImplemented
        return V(f(self.t, T(o)))

    def __add__(self, o):
        if type(o) is float and o == 0.0:
            return self         # an integral float; only its value matters
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is SymSeq or isinstance(o, (str, bytes, list, tuple)) and type(o) is not SymInt:
            return o * realize(self)
        if type(o) is SymInt:
            o = realize(o)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def _divmod(self, o):
        if type(o) is SymInt:
            o = realize(o)
        if not _num(o):
            return None
        if o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if o < 0:
            q, r = (-self)._divmod(-o)
            return q, -r
        return V(self.t // o), V(self.t % o)

    def __floordiv__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[0]

    def __mod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r[1]

    def __divmod__(self, o):
        r = self._divmod(o)
        return NotImplemented if r is None else r

    def __rfloordiv__(self, o): return o // realize(self)
    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            from . import ops
            return ops.sx_mod(o, self)
        return o % realize(self)
    def __rdivmod__(self, o): return divmod(o, realize(self))
    def __truediv__(self, o): return realize(self) / (realize(o) if type(o) is SymInt else o)
    def __rtruediv__(self, o): return o / realize(self)
    def __pow__(self, o, m=None): return pow(realize(self), o, m) if m is not None else realize(self) ** o
    def __rpow__(self, o): return o ** realize(self)

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return V(self.t % (o + 1))
        return realize(self) & (realize(o) if type(o) is SymInt else o)
    __rand__ = __and__

    def __or__(self, o): return realize(self) | (realize(o) if type(o) is SymInt else o)
    __ror__ = __or__
    def __xor__(self, o): return realize(self) ^ (realize(o) if type(o) is SymInt else o)
    __rxor__ = __xor__
    def __lshift__(self, o): return V(self.t * (1 << (realize(o) if type(o) is SymInt else o)))
    def __rshift__(self, o): return V(self.t // (1 << (realize(o) if type(o) is SymInt else o)))
    def __rlshift__(self, o): return o << realize(self)
    def __rrshift__(self, o): return o >> realize(self)
    def __neg__(self): return V(-self.t)
    def __pos__(self): return self
    def __invert__(self): return V(-self.t - 1)
    def __abs__(self):
        if eng().holds(self.t >= 0):
            return self
        return self if self > 0 else -self
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def _cmp(self, op, o):
        if not _num(o):
            if isinstance(o, float) and abs(o) < 1e15:
                if o == int(o):
                    return br(t_cmp(op, self.t, int(o)))
                if op in ('==', '!='):
                    return op == '!='
                f = int(o // 1)
                return br(t_cmp('<=' if op in ('<', '<=') else '>', self.t, f))
            if isinstance(o, float):
                v = realize(self)
                return {'<': v < o, '<=': v <= o, '==': v == o, '>': v > o, '>=': v >= o, '!=': v != o}[op]
            return NotImplemented
        return br(t_cmp(op, self.t, T(o)))

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)

    def __eq__(self, o):
        r = self._cmp('==', o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp('!=', o)
        return True if r is NotImplemented else r

    def __bool__(self): return br(nb(self.t != 0))
    def __index__(self): return realize(self)
    def __int__(self): return realize(self)
    def __float__(self): return float(realize(self))
    def __hash__(self): return hash(realize(self))
    def __format__(self, spec):
        from . import ops
        return ops.sx_format(self, spec)
    def __str__(self): return str(realize(self))
    __repr__ = __str__
    def bit_length(self): return realize(self).bit_length()

    @property
    def real(self): return self

    def conjugate(self): return self

    def is_integer(self): return True


def realize(x):
    """concrete value of x, forking over its values"""
    if type(x) is SymInt:
        eng().stats['realized'] += 1
        return eng().realize(x.t)
    return x


# ---------------------------------------------------------------- blobs
TEXT_LO, TEXT_HI = ord('g'), ord('w')
DIGITS = [(48, 57)]


class BlobSrc(object):
    __slots__ = ('name', 'kind', 'ranges', 'n', 'size', 'fn', 'meta')

    def __init__(self, name, kind, size=None, n=None, meta=None):
        self.name, self.kind, self.size, self.n, self.meta = name, kind, size, n, meta
        self.ranges = {'text': [(TEXT_LO, TEXT_HI)], 'upper': [(TEXT_LO - 32, TEXT_HI - 32)], 'opaque': [(0, 255)], 'dec': DIGITS}[kind]
        self.fn = None

    def can(self, code_or_ranges):
        """may some element be this code / in these ranges?"""
        if isinstance(code_or_ranges, int):
            return any(a <= code_or_ranges <= b for a, b in self.ranges)
        return any(a <= d and c <= b for a, b in self.ranges for c, d in code_or_ranges)

    def elem(self, off):
        e = eng()
        if self.kind == 'upper':
            return self.meta.elem(off) - 32
        if self.fn is None:
            self.fn = tm.Function('F_' + self.name)
        t = self.fn(IntVal(off) if not is_t(off) else off)
        e.assume_term(in_ranges(t, self.ranges))
        if self.kind == 'opaque' and e.registry.get('no_newline'):
            e.assume_term(t != 10)
        e.blob_elems.setdefault(self.name, []).append((off, t))
        return t


def upper_src(src):
    reg = eng().registry
    u = reg.get(('upper', src.name))
    if u is None:
        u = reg[('upper', src.name)] = BlobSrc(src.name + '^', 'upper', meta=src)
    return u


class Blob(object):
    __slots__ = ('src', 'off', 'ln')

    def __init__(self, src, off, ln):
        self.src, self.off, self.ln = src, off, ln

    def __repr__(self):
        return '<%s+%s:%s>' % (self.src.name, self.off, self.ln)


MAXDIG = 10


def dec_len(n):
    """length term of the decimal rendering of n >= 0"""
    t = IntVal(MAXDIG + 1)
    for k in range(MAXDIG, 0, -1):
        t = tm.If(n < 10 ** k, IntVal(k), t)
    return t


def dec_token(n):
    src = BlobSrc(eng().fresh_name('dec'), 'dec', n=n)
    ln = tm.Int('dl_' + src.name)
    eng().assume_term(ln == dec_len(n))
    return Blob(src, 0, ln)


def dec_toks(n):
    """decimal digits of int/term n (may be negative), as tokens"""
    if not is_t(n):
        return [ord(c) for c in str(n)]
    if br(nb(n < 0)):
        return [45] + dec_toks(norm(-n))
    if not br(nb(n < 10 ** MAXDIG)):
        eng().give_up('number with more than %d digits' % MAXDIG)
    return [dec_token(n)]


def explode_dec(b):
    """digits of a dec blob as separate tokens (forks on digit count)"""
    e = eng()
    n = b.src.n
    key = ('dec', b.src.name)
    digs = e.registry.get(key)
    if digs is None:
        k = 1
        while k <= MAXDIG and not br(nb(n < 10 ** k)):
            k += 1
        ds = []
        tot = IntVal(0)
        for i in range(k):
            d = tm.Int('%s_d%d' % (b.src.name, i))
            e.assume_term(tm.And(d >= (1 if i == 0 and k > 1 else 0), d <= 9))
            tot = tot * 10 + d
            ds.append(d)
        e.assume_term(n == tot)
        digs = [norm(d + 48) for d in ds]
        e.registry[key] = digs
    off, ln = b.off, b.ln
    if is_t(off):
        off = e.realize(off)
    if is_t(ln):
        ln = e.realize(ln)
    return digs[off:off + ln]


def toks_len(toks):
    n = 0
    t = None
    for x in toks:
        if type(x) is Blob:
            t = x.ln if t is None else t + x.ln
        else:
            n += 1
    if t is None:
        return n
    return norm(t + n if n else t)


def merge(toks):
    """join adjacent windows of the same source"""
    out = []
    for x in toks:
        if type(x) is Blob and out and type(out[-1]) is Blob and out[-1].src is x.src:
            p = out[-1]
            d = t_sub(t_add(p.off, p.ln), x.off)
            if not is_t(d) and d == 0:
                out[-1] = Blob(p.src, p.off, t_add(p.ln, x.ln))
                continue
        out.append(x)
    return out


def cut(toks, k):
    """split tokens at position k (0 <= k <= length)"""
    if not is_t(k):
        # fast path over plain characters
        i = 0
        n = len(toks)
        while i < n and k > 0 and type(toks[i]) is not Blob:
            i += 1
            k -= 1
        if k == 0 or i == n:
            return toks[:i], toks[i:]
    else:
        i = 0
    left = list(toks[:i])
    n = len(toks)
    while i < n:
        x = toks[i]
        if not is_t(k) and k <= 0:
            break
        if type(x) is Blob:
            if x.src.kind == 'dec' and not (ge(k, x.ln)):
                toks = list(toks[:i]) + explode_dec(x) + list(toks[i + 1:])
                n = len(toks)
                continue
            if ge(k, x.ln):
                left.append(x)
                k = t_sub(k, x.ln)
                i += 1
                continue
            if le(k, 0):
                break
            left.append(Blob(x.src, x.off, k))
            right = [Blob(x.src, t_add(x.off, k), t_sub(x.ln, k))] + list(toks[i + 1:])
            return left, right
        if is_t(k):
            if le(k, 0):
                break
            # whole runs of characters at a time, halving where the cut falls inside
            r = 1
            while i + r < n and type(toks[i + r]) is not Blob:
                r += 1
            while r > 1:
                if ge(k, r):
                    left.extend(toks[i:i + r])
                    k = t_sub(k, r)
                    i += r
                    break
                r //= 2
            if r > 1:
                continue
        left.append(x)
        k = t_sub(k, 1)
        i += 1
    return left, list(toks[i:])


def toks_eq(a, b):
    """term (or bool) for content equality; forks only to align blobs"""
    la, lb = toks_len(a), toks_len(b)
    conds = []
    if is_t(la) or is_t(lb):
        if not br(t_cmp('==', la, lb)):
            return False
    elif la != lb:
        return False
    a, b = list(a), list(b)
    a.reverse()
    b.reverse()
    while a and b:
        x, y = a[-1], b[-1]
        if type(x) is not Blob and type(y) is not Blob:
            c = t_cmp('==', x, y)
            if c is False:
                return False
            if c is not True:
                conds.append(c)
            a.pop()
            b.pop()
            continue
        if type(x) is Blob and type(y) is Blob:
            if x.src is y.src:
                d = t_sub(x.off, y.off)
                if is_t(d) and br(nb(d == 0)):
                    d = 0
                if not is_t(d) and d == 0:
                    a.pop()
                    b.pop()
                    lx, ly = x.ln, y.ln
                    c = t_sub(lx, ly)
                    if not is_t(c) and c == 0:
                        continue
                    if eq(lx, ly):
                        continue
                    if lt(lx, ly):
                        b.append(Blob(y.src, t_add(y.off, lx), t_sub(ly, lx)))
                    else:
                        a.append(Blob(x.src, t_add(x.off, ly), t_sub(lx, ly)))
                    continue
            if x.src.kind == 'dec' and y.src.kind == 'dec':
                d1 = t_sub(x.ln, x.src.n) if False else None
                fx = not is_t(x.off) and x.off == 0
                fy = not is_t(y.off) and y.off == 0
                if fx and fy and len(a) == len(b) == 1:
                    conds.append(nb(x.src.n == y.src.n))
                    a.pop()
                    b.pop()
                    continue
            if x.src.kind == 'dec':
                a.pop()
                a.extend(reversed(explode_dec(x)))
                continue
            if y.src.kind == 'dec':
                b.pop()
                b.extend(reversed(explode_dec(y)))
                continue
            # different windows: blob contents are generic
            ex, ey = x.src.elem(x.off), y.src.elem(y.off)
            eng().assume_term(ex != ey)
            return False
        # blob vs char
        if type(x) is Blob:
            bl, ch, stk = x, y, a
        else:
            bl, ch, stk = y, x, b
        if bl.src.kind == 'dec':
            stk.pop()
            stk.extend(reversed(explode_dec(bl)))
            continue
        if not is_t(ch) and not bl.src.can(ch):
            return False
        c = t_cmp('==', bl.src.elem(bl.off), ch)
        if c is False:
            return False
        conds.append(c)
        a.pop()
        b.pop()
        if not eq(bl.ln, 1):
            stk.append(Blob(bl.src, t_add(bl.off, 1), t_sub(bl.ln, 1)))
    if a or b:
        return False
    return t_and(conds)


# ---------------------------------------------------------------- character classes
WS_B = [(9, 13), (32, 32)]
WS_S = ranges_of([c for c in range(0x3100) if chr(c).isspace()])
ND = ranges_of([c for c in range(0x110000) if unicodedata.decimal(chr(c), None) is not None])
ND_STARTS = [c for c in range(0x110000) if unicodedata.decimal(chr(c), None) == 0]
DIGIT_S = None
def _casemap(fn):
    """(multi, [(delta, first, last, stride)]) of the simple case mapping beyond ASCII"""
    multi, single = [], {}
    for c in range(128, 0x110000):
        r = fn(chr(c))
        if r == chr(c):
            continue
        if len(r) > 1:
            multi.append(c)
        else:
            single.setdefault(ord(r) - c, []).append(c)
    runs = []
    for d, cs in single.items():
        i = 0
        while i < len(cs):
            j = i
            st = cs[i + 1] - cs[i] if i + 1 < len(cs) and cs[i + 1] - cs[i] <= 2 else 1
            while j + 1 < len(cs) and cs[j + 1] - cs[j] == st:
                j += 1
            runs.append((d, cs[i], cs[j], st))
            i = j + 1
    return ranges_of(multi), runs


LOWER = _casemap(str.lower)
UPPER = _casemap(str.upper)


def case_tok(kind, c, up):
    """token list for the case mapping of one character"""
    if not is_t(c):
        if kind == 'b':
            return [ord(bytes([c]).upper() if up else bytes([c]).lower())]
        return [ord(x) for x in (chr(c).upper() if up else chr(c).lower())]
    if kind == 'b':
        if up:
            return [norm(tm.If(tm.And(c >= 97, c <= 122), c - 32, c))]
        return [norm(tm.If(tm.And(c >= 65, c <= 90), c + 32, c))]
    if br(nb(c < 128)):
        if up:
            return [norm(tm.If(tm.And(c >= 97, c <= 122), c - 32, c))]
        return [norm(tm.If(tm.And(c >= 65, c <= 90), c + 32, c))]
    multi, runs = UPPER if up else LOWER
    if not up:
        multi = multi + [(0x3a3, 0x3a3)]
    lo, hi = tm.bounds(c)
    lo = 128 if lo is None else lo
    hi = 0x10ffff if hi is None else hi
    ms = [(x, y) for x, y in multi if y >= lo and x <= hi]
    if ms and br(in_ranges(c, ms)):
        if not up and br(nb(c == 0x3a3)):
            eng().give_up('lower() of capital sigma depends on its context')
        k = eng().realize(c)
        return [ord(x) for x in (chr(k).upper() if up else chr(k).lower())]
    groups = {}
    for d, x, y, st in runs:
        if y >= lo and x <= hi:
            cond = c == x if x == y else tm.And(c >= x, c <= y) if st == 1 else \
                tm.And(c >= x, c <= y, (c - x) % 2 == 0)
            groups.setdefault(d, []).append(cond)
    t = c
    for d, cs in groups.items():
        t = tm.If(tm.Or(cs), c + d, t)
    return [norm(t)]


# ---------------------------------------------------------------- sequences
def toks_of(x):
    t = type(x)
    if t is SymSeq:
        return x.toks
    if t is bytes or t is bytearray:
        return list(x)
    if t is str:
        return [ord(c) for c in x]
    if t is memoryview:
        return list(bytes(x))
    if hasattr(x, '_sx_seq'):
        return toks_of(x._sx_seq())
    if isinstance(x, (bytes, bytearray)):
        return list(bytes(x))
    if isinstance(x, str):
        return [ord(c) for c in str.__str__(x)]
    raise TypeError('a bytes-like object is required, not %r' % t.__name__)


def kind_of(x):
    t = type(x)
    if t is SymSeq:
        return x.kind
    if isinstance(x, str):
        return 's'
    if isinstance(x, (bytes, bytearray, memoryview)) or hasattr(x, '_sx_seq'):
        return 'b'
    return None


def mk(kind, toks):
    sym = False
    blob = False
    for x in toks:
        tx = type(x)
        if tx is Blob:
            blob = True
        elif tx is not int:
            sym = True
    if not sym and not blob:
        return bytes(toks) if kind == 'b' else ''.join(map(chr, toks))
    if blob:
        toks = merge(toks)
    return SymSeq(kind, list(toks))


def _need(self, x):
    k = kind_of(x)
    if k != self.kind:
        if self.kind == 'b':
            raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
        raise TypeError("must be str, not %s" % type(x).__name__)
    return toks_of(x)


def match_at(toks, i, needle):
    """term: needle occurs at token i (False when it runs off the end)"""
    conds = []
    n = len(toks)
    for c in needle:
        if i >= n:
            return False
        x = toks[i]
        if type(x) is Blob:
            if is_t(c):
                eng().give_up('symbolic needle against blob')
            if not x.src.can(c):
                return False
            if len(needle) == 1:
                eng().give_up('search for a character that may occur in a blob')
            # generic content: a text blob holds no modelled marker
            if x.src.kind in ('text', 'upper'):
                e = x.src.elem(x.off)
                eng().assume_term(e != c)
                return False
            eng().give_up('search in opaque data')
        if type(c) is Blob:
            eng().give_up('blob needle')
        r = t_cmp('==', x, c)
        if r is False:
            return False
        conds.append(r)
        i += 1
    return t_and(conds)


def find_tok(toks, needle, start=0, stop=None):
    """token index of the first occurrence, or -1; forks"""
    if any(type(c) is Blob for c in needle):
        eng().give_up('blob needle')
    n = len(toks) if stop is None else stop
    m = len(needle)
    if m == 0:
        return start
    for i in range(start, n):
        x = toks[i]
        if type(x) is Blob:
            if is_t(needle[0]):
                eng().give_up('symbolic needle against blob')
            if not x.src.can(needle[0]):
                continue
            if x.src.kind == 'opaque':
                if needle == [10] and eng().registry.get('no_newline'):
                    continue
                eng().give_up('search in opaque data')
            if x.src.kind == 'dec':
                eng().give_up('search for digits in a number')
            # text blob and needle starts with a letter: generic contents
            if m == 1:
                eng().give_up('search for a character that may occur in a blob')
            continue
        c = match_at(toks, i, needle)
        if c is not False and br(c):
            return i
    return -1


def rfind_tok(toks, needle):
    if any(type(c) is Blob for c in needle):
        eng().give_up('blob needle')
    for i in range(len(toks) - 1, -1, -1):
        x = toks[i]
        if type(x) is Blob:
            if not is_t(needle[0]) and not x.src.can(needle[0]):
                continue
            eng().give_up('rfind in blob')
        c = match_at(toks, i, needle)
        if c is not False and br(c):
            return i
    return -1


def tok_in(x, ranges):
    """bool: token in the character class (forks)"""
    if type(x) is Blob:
        if not x.src.can(ranges):
            return False
        if all(any(c <= a and b <= d for c, d in ranges) for a, b in x.src.ranges):
            return True
        eng().give_up('character class on blob')
    return br(nb(in_ranges(x, ranges)) if is_t(x) else in_ranges(x, ranges))


def strip_toks(toks, ranges, left, right):
    toks = list(toks)
    if right:
        while toks:
            if type(toks[-1]) is Blob and toks[-1].src.kind == 'dec' and toks[-1].src.can(ranges):
                toks[-1:] = explode_dec(toks[-1])
            if not tok_in(toks[-1], ranges):
                break
            toks.pop()
    if left:
        i = 0
        while i < len(toks):
            if type(toks[i]) is Blob and toks[i].src.kind == 'dec' and toks[i].src.can(ranges):
                toks[i:i + 1] = explode_dec(toks[i])
            if not tok_in(toks[i], ranges):
                break
            i += 1
        toks = toks[i:]
    return toks


class SymSeq(object):
    __slots__ = ('kind', 'toks', '_len')

    def __init__(self, kind, toks):
        self.kind, self.toks = kind, toks
        self._len = None

    @property
    def __class__(self):
        return bytes if self.kind == 'b' else str

    # -- length / truth
    def sx_len(self):
        if self._len is None:
            self._len = V(toks_len(self.toks))
        return self._len

    def __len__(self):
        return realize(self.sx_len())

    # as a memoryview
    nbytes = property(lambda self: self.sx_len())
    itemsize = 1

    def __bool__(self):
        return bool(self.toks)      # blobs are never empty

    def __repr__(self):
        out = []
        for x in self.toks:
            if type(x) is int:
                out.append(chr(x) if 32 <= x < 127 else '\\x%02x' % x)
            else:
                out.append('{%s}' % (x,))
        return self.kind + '"' + ''.join(out) + '"'

    def __str__(self):
        if self.kind == 's':
            raise Incomplete('str() of symbolic text outside the engine')
        return repr(self)

    def __hash__(self):
        eng().give_up('hash of symbolic text')

    # -- comparison
    def __eq__(self, o):
        if kind_of(o) != self.kind:
            return False
        return br(toks_eq(self.toks, toks_of(o)))

    def __ne__(self, o):
        return not self.__eq__(o)

    def _lt(self, o, orequal):
        a, b = list(self.toks), list(_need(self, o))
        i = 0
        while True:
            if i >= len(a) or i >= len(b):
                if i >= len(a) and i >= len(b):
                    return orequal
                return i >= len(a)
            x, y = a[i], b[i]
            if type(x) is Blob and x.src.kind == 'dec':
                a[i:i + 1] = explode_dec(x)
                continue
            if type(y) is Blob and y.src.kind == 'dec':
                b[i:i + 1] = explode_dec(y)
                continue
            if type(x) is Blob and type(y) is Blob:
                if x.src is y.src and not is_t(t_sub(x.off, y.off)) and t_sub(x.off, y.off) == 0 \
                        and not is_t(t_sub(x.ln, y.ln)) and t_sub(x.ln, y.ln) == 0:
                    i += 1
                    continue
                eng().give_up('ordering of blobs')
            if type(x) is Blob or type(y) is Blob:
                eng().give_up('ordering of blobs')
            if br(t_cmp('==', x, y)):
                i += 1
                continue
            return br(t_cmp('<', x, y))

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return not self._lt(o, True)

    def __ge__(self, o):
        return not self._lt(o, False)

    # -- concatenation
    def __add__(self, o):
        if kind_of(o) != self.kind:
            raise TypeError("can't concat %s to %s" % (type(o).__name__, 'bytes' if self.kind == 'b' else 'str'))
        return mk(self.kind, self.toks + toks_of(o))

    def __radd__(self, o):
        if kind_of(o) != self.kind:
            raise TypeError("can't concat")
        return mk(self.kind, toks_of(o) + self.toks)

    def __mul__(self, n):
        return mk(self.kind, self.toks * max(0, realize(n)))
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import ops
        return ops.sx_mod(self, args)

    def __rmod__(self, fmt):
        from . import ops
        return ops.sx_mod(fmt, self)

    # -- indexing
    def _clampidx(self, k, n):
        """slice bound -> 0..n"""
        k, n = T(k), T(n)
        if lt(k, 0):
            k = t_add(k, n)
            if lt(k, 0):
                return 0
        if gt(k, n):
            return n
        return norm(k)

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = self.sx_len()
            if i.step is not None and i.step != 1:
                if i.step == -1 and i.start is None and i.stop is None:
                    if any(type(x) is Blob for x in self.toks):
                        eng().give_up('reversing a blob')
                    return mk(self.kind, self.toks[::-1])
                if any(type(x) is Blob for x in self.toks):
                    eng().give_up('stepped slice of blob')
                return mk(self.kind, self.toks[slice(realize(i.start), realize(i.stop), realize(i.step))])
            toks = self.toks
            a = 0 if i.start is None else self._clampidx(i.start, n)
            if i.stop is None:
                return mk(self.kind, cut(toks, a)[1])
            b = self._clampidx(i.stop, n)
            if not is_t(a) and a == 0:
                return mk(self.kind, cut(toks, b)[0])
            if ge(a, b):
                return b'' if self.kind == 'b' else ''
            left, right = cut(toks, b)
            return mk(self.kind, cut(left, a)[1])
        n = T(self.sx_len())
        k = T(i)
        if lt(k, 0):
            k = t_add(k, n)
        if lt(k, 0) or ge(k, n):
            raise IndexError('index out of range')
        right = cut(self.toks, k)[1]
        x = right[0]
        if type(x) is Blob:
            if x.src.kind == 'dec':
                x = explode_dec(x)[0]
            else:
                x = x.src.elem(x.off)
        if self.kind == 'b':
            return V(x)
        return mk('s', [x])

    def __iter__(self):
        toks = list(self.toks)
        i = 0
        while i < len(toks):
            x = toks[i]
            if type(x) is Blob:
                if x.src.kind == 'dec':
                    toks[i:i + 1] = explode_dec(x)
                    continue
                eng().tick()
                e = x.src.elem(x.off)
                if not eq(x.ln, 1):
                    toks.insert(i + 1, Blob(x.src, t_add(x.off, 1), t_sub(x.ln, 1)))
                x = e
            i += 1
            yield V(x) if self.kind == 'b' else mk('s', [x])

    def __contains__(self, sub):
        if self.kind == 'b' and _num(sub):
            needle = [T(sub)]
        else:
            needle = _need(self, sub)
        if len(needle) == 1 and type(needle[0]) is not Blob and not any(type(x) is Blob for x in self.toks):
            # one decision, wherever it occurs
            n = needle[0]
            known = [x for x in self.toks if not is_t(x)]
            cs = [in_ranges(n, ranges_of(known))] if is_t(n) and known else [n in known]
            return br(t_or(cs + [t_cmp('==', x, n) for x in self.toks if is_t(x)]))
        return find_tok(self.toks, needle) >= 0

    # -- searching
    def _window(self, start, end):
        toks = self.toks
        base = 0
        n = self.sx_len()
        if end is not None:
            toks = cut(toks, self._clampidx(end, n))[0]
        if start is not None:
            base = self._clampidx(start, n)
            if gt(base, toks_len(toks)):
                return None, 0
            toks = cut(toks, base)[1]
        return toks, base

    def _needle(self, sub):
        if self.kind == 'b' and _num(sub):
            return [T(sub)]
        return _need(self, sub)

    def find(self, sub, start=None, end=None):
        needle = self._needle(sub)
        toks, base = self._window(start, end)
        if toks is None:
            return -1
        i = find_tok(toks, needle)
        if i < 0:
            return -1
        return V(t_add(base, toks_len(toks[:i])))

    def rfind(self, sub, start=None, end=None):
        needle = self._needle(sub)
        toks, base = self._window(start, end)
        if toks is None:
            return -1
        i = rfind_tok(toks, needle)
        if i < 0:
            return -1
        return V(t_add(base, toks_len(toks[:i])))

    def index(self, *a):
        r = self.find(*a)
        if type(r) is int and r == -1:
            raise ValueError('subsection not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if type(r) is int and r == -1:
            raise ValueError('subsection not found')
        return r

    def count(self, sub, start=None, end=None):
        needle = self._needle(sub)
        toks, _ = self._window(start, end)
        if toks is None:
            return 0
        n = i = 0
        if not needle:
            return V(t_add(toks_len(toks), 1))
        while True:
            i = find_tok(toks, needle, i)
            if i < 0:
                return n
            n += 1
            i += len(needle)

    def startswith(self, prefix, start=None, end=None):
        if isinstance(prefix, tuple):
            for p in prefix:
                if self.startswith(p, start, end):
                    return True
            return False
        needle = _need(self, prefix)
        toks, _ = self._window(start, end)
        if toks is None:
            return False
        if not needle:
            return True
        return self._prefix(toks, needle)

    def _prefix(self, toks, needle):
        if gt(toks_len(needle), toks_len(toks)):
            return False
        left, _ = cut(toks, toks_len(needle))
        return br(toks_eq(left, needle))

    def endswith(self, suffix, start=None, end=None):
        if isinstance(suffix, tuple):
            for p in suffix:
                if self.endswith(p, start, end):
                    return True
            return False
        needle = _need(self, suffix)
        toks, _ = self._window(start, end)
        if toks is None:
            return False
        if not needle:
            return True
        # token-wise from the right
        if len(toks) >= len(needle) and not any(type(x) is Blob for x in toks[-len(needle):]) \
                and not any(type(x) is Blob for x in needle):
            return br(t_and([t_cmp('==', a, b) for a, b in zip(toks[-len(needle):], needle)]))
        n, m = toks_len(toks), toks_len(needle)
        if gt(m, n):
            return False
        return br(toks_eq(cut(toks, t_sub(n, m))[1], needle))

    def removeprefix(self, p):
        return self[len(toks_of(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:self.sx_len() - len(toks_of(p))] if p and self.endswith(p) else self

    # -- splitting
    def _mk(self, toks):
        return mk(self.kind, toks)

    def partition(self, sep):
        needle = _need(self, sep)
        if not needle:
            raise ValueError('empty separator')
        i = find_tok(self.toks, needle)
        e = b'' if self.kind == 'b' else ''
        if i < 0:
            return (self, e, e)
        return (self._mk(self.toks[:i]), sep, self._mk(self.toks[i + len(needle):]))

    def rpartition(self, sep):
        needle = _need(self, sep)
        if not needle:
            raise ValueError('empty separator')
        i = rfind_tok(self.toks, needle)
        e = b'' if self.kind == 'b' else ''
        if i < 0:
            return (e, e, self)
        return (self._mk(self.toks[:i]), sep, self._mk(self.toks[i + len(needle):]))

    def split(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        toks = self.toks
        out = []
        if sep is None:
            ws = WS_B if self.kind == 'b' else WS_S
            i, n = 0, len(toks)
            while True:
                while i < n and tok_in(toks[i], ws):
                    i += 1
                if i >= n:
                    return out
                if maxsplit == 0:
                    out.append(self._mk(strip_toks(toks[i:], ws, False, True)))
                    return out
                j = i
                while j < n and not tok_in(toks[j], ws):
                    j += 1
                out.append(self._mk(toks[i:j]))
                maxsplit -= 1
                i = j
        needle = _need(self, sep)
        if not needle:
            raise ValueError('empty separator')
        start = 0
        while maxsplit != 0:
            i = find_tok(toks, needle, start)
            if i < 0:
                break
            out.append(self._mk(toks[start:i]))
            start = i + len(needle)
            maxsplit -= 1
        out.append(self._mk(toks[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        toks = list(self.toks)
        out = []
        if sep is None:
            ws = WS_B if self.kind == 'b' else WS_S
            while True:
                while toks and tok_in(toks[-1], ws):
                    toks.pop()
                if not toks:
                    break
                if maxsplit == 0:
                    out.append(self._mk(strip_toks(toks, ws, True, False)))
                    break
                j = len(toks)
                while j > 0 and not tok_in(toks[j - 1], ws):
                    j -= 1
                out.append(self._mk(toks[j:]))
                toks = toks[:j]
                maxsplit -= 1
            out.reverse()
            return out
        needle = _need(self, sep)
        if not needle:
            raise ValueError('empty separator')
        while maxsplit != 0:
            i = rfind_tok(toks, needle)
            if i < 0:
                break
            out.append(self._mk(toks[i + len(needle):]))
            toks = toks[:i]
            maxsplit -= 1
        out.append(self._mk(toks))
        out.reverse()
        return out

    def splitlines(self, keepends=False):
        nl = [(10, 10), (13, 13)]
        if self.kind == 's':
            nl = [(10, 13), (0x1c, 0x1e), (0x85, 0x85), (0x2028, 0x2029)]
        toks = self.toks
        out = []
        i = start = 0
        n = len(toks)
        while i < n:
            if tok_in(toks[i], nl):
                end = i
                if br(t_cmp('==', toks[i], 13)) and i + 1 < n and type(toks[i + 1]) is not Blob \
                        and br(t_cmp('==', toks[i + 1], 10)):
                    i += 1
                i += 1
                out.append(self._mk(toks[start:i if keepends else end]))
                start = i
            else:
                i += 1
        if start < n:
            out.append(self._mk(toks[start:]))
        return out

    # -- trimming / replacing
    def _stripset(self, chars):
        if chars is None:
            return WS_B if self.kind == 'b' else WS_S
        t = _need(self, chars)
        if any(type(c) is not int for c in t):
            eng().give_up('symbolic strip set')
        return ranges_of(t)

    def strip(self, chars=None):
        return self._mk(strip_toks(self.toks, self._stripset(chars), True, True))

    def lstrip(self, chars=None):
        return self._mk(strip_toks(self.toks, self._stripset(chars), True, False))

    def rstrip(self, chars=None):
        return self._mk(strip_toks(self.toks, self._stripset(chars), False, True))

    def replace(self, old, new, count=-1):
        needle, rep = _need(self, old), _need(self, new)
        count = realize(count)
        if not needle:
            eng().give_up('replace of empty text')
        toks = self.toks
        out = []
        start = 0
        while count != 0:
            i = find_tok(toks, needle, start)
            if i < 0:
                break
            out += toks[start:i] + rep
            start = i + len(needle)
            count -= 1
        return self._mk(out + toks[start:])

    def translate(self, table, delete=b''):
        eng().give_up('translate')

    # -- case
    def _case(self, up):
        out = []
        for x in self.toks:
            if type(x) is Blob:
                if x.src.kind == 'dec' or x.src.kind == ('upper' if up else 'text'):
                    out.append(x)
                    continue
                if x.src.kind in ('text', 'upper'):
                    out.append(Blob(x.src.meta if x.src.kind == 'upper' else upper_src(x.src), x.off, x.ln))
                    continue
                eng().give_up('case mapping of blob')
            out += case_tok(self.kind, x, up)
        return self._mk(out)

    def lower(self):
        return self._case(False)

    def upper(self):
        return self._case(True)

    def casefold(self):
        for x in self.toks:
            if is_t(x) and not br(nb(x < 128)):
                eng().give_up('casefold beyond ASCII')
        return self._case(False)

    def swapcase(self):
        eng().give_up('swapcase')

    def title(self):
        return self._title(False)

    def capitalize(self):
        return self._title(True)

    def _title(self, first_only):
        out = []
        prev = False
        for n, x in enumerate(self.toks):
            if type(x) is Blob:
                eng().give_up('title of blob')
            if is_t(x) and not br(nb(x < 128)):
                eng().give_up('title beyond ASCII')
            up = (n == 0) if first_only else not prev
            out += case_tok(self.kind, x, up)
            prev = tok_in(x, [(65, 90), (97, 122)])
        return self._mk(out)

    # -- classification
    def _all(self, ranges):
        if not self.toks:
            return False
        for x in self.toks:
            if not tok_in(x, ranges):
                return False
        return True

    def isdigit(self):
        global DIGIT_S
        if self.kind == 'b':
            return self._all(DIGITS)
        if DIGIT_S is None:
            DIGIT_S = ranges_of([c for c in range(0x110000) if chr(c).isdigit()])
        return self._all(DIGIT_S)

    def isdecimal(self):
        return self._all(ND)

    def isnumeric(self):
        for x in self.toks:
            if is_t(x) and not br(nb(x < 128)):
                eng().give_up('isnumeric beyond ASCII')
        return self._all(DIGITS)

    def isspace(self):
        return self._all(WS_B if self.kind == 'b' else WS_S)

    def isascii(self):
        for x in self.toks:
            if type(x) is Blob:
                if x.src.kind == 'opaque':
                    eng().give_up('isascii of opaque data')
                continue
            if not br(t_cmp('<', x, 128)):
                return False
        return True

    def _ascii_guard(self):
        if self.kind == 's':
            for x in self.toks:
                if is_t(x) and not br(nb(x < 128)):
                    eng().give_up('classification beyond ASCII')

    def isalpha(self):
        self._ascii_guard()
        return self._all([(65, 90), (97, 122)])

    def isalnum(self):
        self._ascii_guard()
        return self._all([(48, 57), (65, 90), (97, 122)])

    def isupper(self):
        self._ascii_guard()
        any_ = False
        for x in self.toks:
            if tok_in(x, [(97, 122)]):
                return False
            any_ = any_ or tok_in(x, [(65, 90)])
        return any_

    def islower(self):
        self._ascii_guard()
        any_ = False
        for x in self.toks:
            if tok_in(x, [(65, 90)]):
                return False
            any_ = any_ or tok_in(x, [(97, 122)])
        return any_

    def isprintable(self):
        self._ascii_guard()
        for x in self.toks:
            if not tok_in(x, [(32, 126)]):
                return False
        return True

    # -- padding
    def zfill(self, n):
        pad = n - self.sx_len()
        pad = realize(pad)
        if pad <= 0:
            return self
        if self.toks and self.startswith(self._mk([43])) or self.startswith(self._mk([45])):
            return self._mk(self.toks[:1] + [48] * pad + self.toks[1:])
        return self._mk([48] * pad + self.toks)

    def ljust(self, n, fill=None):
        pad = realize(n - self.sx_len())
        f = toks_of(fill) if fill is not None else [32]
        return self._mk(self.toks + f * max(0, pad))

    def rjust(self, n, fill=None):
        pad = realize(n - self.sx_len())
        f = toks_of(fill) if fill is not None else [32]
        return self._mk(f * max(0, pad) + self.toks)

    def center(self, n, fill=None):
        eng().give_up('center')

    def join(self, it):
        return seq_join(self, it)

    def format(self, *a, **k):
        eng().give_up('symbolic format string')

    def expandtabs(self, n=8):
        eng().give_up('expandtabs')

    # -- codecs
    def encode(self, encoding='utf-8', errors='strict'):
        if self.kind != 's':
            raise AttributeError("'bytes' object has no attribute 'encode'")
        return encode(self, encoding, errors)

    def decode(self, encoding='utf-8', errors='strict'):
        if self.kind != 'b':
            raise AttributeError("'str' object has no attribute 'decode'")
        return decode(self, encoding, errors)

    def hex(self, *a):
        out = []
        for v in self:
            v = T(v)
            if not is_t(v):
                out += [ord(c) for c in '%02x' % v]
                continue
            for d in (norm(v // 16), norm(v % 16)):
                out.append(hexdigit(d))
        return mk('s', out)

    def tobytes(self):
        return self

    def __bytes__(self):
        raise Incomplete('bytes() of symbolic data outside the engine')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        eng().give_up('pickling symbolic data')


def seq_join(sep, it):
    kind = kind_of(sep)
    st = toks_of(sep)
    out = []
    for n, x in enumerate(list(it)):
        if kind_of(x) != kind:
            raise TypeError('sequence item %d: expected %s instance, %s found' %
                            (n, 'str' if kind == 's' else 'a bytes-like object', type(x).__name__))
        if n:
            out += st
        out += toks_of(x)
    return mk(kind, out)


# ---------------------------------------------------------------- codecs
def _enc_name(e):
    return str(e).lower().replace('_', '-')


def _uerr(enc, why, x, start=0):
    if why == 'enc':
        return UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
    return UnicodeDecodeError(enc, b'?', 0, 1, 'invalid byte')


def encode(x, encoding='utf-8', errors='strict'):
    enc = _enc_name(encoding)
    out = []
    if enc == 'idna':
        # plain ASCII names pass unchanged
        n = 0
        for i, c in enumerate(x.toks):
            if type(c) is Blob or not br(nb(c < 128)):
                eng().give_up('codec idna')
            if eq(c, 46):
                if n == 0:
                    raise UnicodeError('label empty or too long')
                n = 0
            else:
                n += 1
            if n > 63:
                raise UnicodeError('label empty or too long')
        return mk('b', x.toks)
    if enc in ('utf-8', 'utf8'):
        for c in x.toks:
            if type(c) is Blob:
                out.append(c)
                continue
            if not is_t(c):
                try:
                    out += list(chr(c).encode('utf-8', errors))
                except UnicodeEncodeError:
                    raise _uerr('utf-8', 'enc', x)
                continue
            if br(nb(c < 0x80)):
                out.append(c)
            elif br(nb(c < 0x800)):
                out += [norm(0xC0 + c // 64), norm(0x80 + c % 64)]
            elif br(nb(c < 0x10000)):
                if br(nb(tm.And(c >= 0xD800, c <= 0xDFFF))):
                    if errors == 'strict':
                        raise _uerr('utf-8', 'enc', x)
                    eng().give_up('surrogate with error handler')
                out += [norm(0xE0 + c // 4096), norm(0x80 + (c // 64) % 64), norm(0x80 + c % 64)]
            else:
                out += [norm(0xF0 + c // 262144), norm(0x80 + (c // 4096) % 64),
                        norm(0x80 + (c // 64) % 64), norm(0x80 + c % 64)]
        return mk('b', out)
    lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256,
           'iso8859-1': 256}.get(enc)
    if lim is None:
        eng().give_up('codec ' + enc)
    for c in x.toks:
        if type(c) is Blob:
            out.append(c)
        elif br(t_cmp('<', c, lim)):
            out.append(c)
        elif errors == 'strict':
            raise _uerr(enc, 'enc', x)
        elif errors == 'ignore':
            pass
        elif errors == 'replace':
            out.append(63)
        else:
            eng().give_up('encode error handler')
    return mk('b', out)


def decode(x, encoding='utf-8', errors='strict'):
    enc = _enc_name(encoding)
    toks = toks_of(x)
    out = []
    for t in toks:
        if type(t) is Blob and t.src.kind == 'opaque':
            eng().give_up('decoding opaque data')
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        return mk('s', toks)
    if enc in ('ascii', 'us-ascii'):
        for c in toks:
            if type(c) is Blob or br(t_cmp('<', c, 128)):
                out.append(c)
            elif errors == 'strict':
                raise _uerr(enc, 'dec', x)
            elif errors == 'ignore':
                pass
            elif errors == 'replace':
                out.append(0xFFFD)
            else:
                eng().give_up('decode error handler')
        return mk('s', out)
    if enc not in ('utf-8', 'utf8'):
        eng().give_up('codec ' + enc)

    def bad(i):
        if errors == 'strict':
            raise _uerr('utf-8', 'dec', x)
        if errors == 'ignore':
            return
        if errors == 'replace':
            out.append(0xFFFD)
            return
        if errors == 'surrogateescape':
            out.append(t_add(0xDC00, toks[i]))
            return
        eng().give_up('decode error handler')

    def cont(i, lo=0x80, hi=0xBF):
        if i >= len(toks) or type(toks[i]) is Blob:
            return False
        return br(t_and([t_cmp('>=', toks[i], lo), t_cmp('<=', toks[i], hi)]))

    i, n = 0, len(toks)
    while i < n:
        b = toks[i]
        if type(b) is Blob or br(t_cmp('<', b, 0x80)):
            out.append(b)
            i += 1
            continue
        if br(t_and([t_cmp('>=', b, 0xC2), t_cmp('<=', b, 0xDF)])):
            if cont(i + 1):
                out.append(norm((b - 0xC0) * 64 + (toks[i + 1] - 0x80)))
                i += 2
                continue
            bad(i)
            i += 1
            continue
        if br(t_and([t_cmp('>=', b, 0xE0), t_cmp('<=', b, 0xEF)])):
            lo, hi = 0x80, 0xBF
            if br(t_cmp('==', b, 0xE0)):
                lo = 0xA0
            elif br(t_cmp('==', b, 0xED)):
                hi = 0x9F
            if not cont(i + 1, lo, hi):
                bad(i)
                i += 1
                continue
            if not cont(i + 2):
                bad(i)
                i += 2 if errors == 'replace' else 1
                if errors not in ('replace', 'ignore'):
                    pass
                continue
            out.append(norm((b - 0xE0) * 4096 + (toks[i + 1] - 0x80) * 64 + (toks[i + 2] - 0x80)))
            i += 3
            continue
        if br(t_and([t_cmp('>=', b, 0xF0), t_cmp('<=', b, 0xF4)])):
            lo, hi = 0x80, 0xBF
            if br(t_cmp('==', b, 0xF0)):
                lo = 0x90
            elif br(t_cmp('==', b, 0xF4)):
                hi = 0x8F
            k = 1
            ok = cont(i + 1, lo, hi)
            if ok:
                k = 2
                ok = cont(i + 2)
                if ok:
                    k = 3
                    ok = cont(i + 3)
            if not ok:
                bad(i)
                i += k if errors == 'replace' else 1
                continue
            out.append(norm((b - 0xF0) * 262144 + (toks[i + 1] - 0x80) * 4096 +
                            (toks[i + 2] - 0x80) * 64 + (toks[i + 3] - 0x80)))
            i += 4
            continue
        bad(i)
        i += 1
    return mk('s', out)


# ---------------------------------------------------------------- int()
def parse_int(x, base=10):
    """int(text, base)"""
    kind = x.kind
    toks = list(x.toks)

    def invalid():
        raise ValueError('invalid literal for int() with base %d' % base)

    toks = strip_toks(toks, WS_B if kind == 'b' else WS_S, True, True)
    if len(toks) == 1 and type(toks[0]) is Blob and toks[0].src.kind == 'dec' and base == 10:
        d = toks[0]
        if not is_t(d.off) and d.off == 0 and br(nb(d.ln == dec_len(d.src.n))):
            return V(d.src.n)
    exp = []
    for t in toks:
        if type(t) is Blob:
            if t.src.kind == 'dec':
                exp += explode_dec(t)
            elif t.src.kind in ('text', 'upper'):
                if base > 16:
                    eng().give_up('int() of blob in high base')
                invalid()
            else:
                eng().give_up('int() of opaque data')
        else:
            exp.append(t)
    toks = exp
    if base == 16:
        whole = eng().registry.get('hexnum')
        if whole and all(is_t(t) for t in toks):
            val = whole.get(tuple(tm.tkey(t) for t in toks))
            if val is not None:
                return V(val)
    i, n = 0, len(toks)
    if n == 0:
        invalid()
    neg = False

    def is_(k, *codes):
        return k < n and br(t_or([t_cmp('==', toks[k], c) for c in codes]))
    if is_(i, 43):
        i += 1
    elif is_(i, 45):
        neg = True
        i += 1
    if base == 0:
        eng().give_up('int() base 0')
    pref = {16: (120, 88), 8: (111, 79), 2: (98, 66)}.get(base)
    if pref and is_(i, 48) and is_(i + 1, *pref):
        i += 2
        if is_(i, 95):
            i += 1
    if i >= n:
        invalid()
    val = 0
    prev_us = True      # no underscore first
    nd = 0
    while i < n:
        c = toks[i]
        d = _digit(c, base, kind)
        if d is None:
            if not is_(i, 95) or prev_us:
                invalid()
            prev_us = True
        else:
            prev_us = False
            val = norm(val * base + d) if (is_t(val) or is_t(d)) else val * base + d
            nd += 1
        i += 1
    if prev_us:
        invalid()
    return V(-val if neg else val)


def _digit(c, base, kind):
    if not is_t(c):
        if kind == 's':
            v = unicodedata.decimal(chr(c), None)
        else:
            v = c - 48 if 48 <= c <= 57 else None
        if v is not None:
            return v if v < base else None
        if 97 <= c <= 122 and c - 87 < base:
            return c - 87
        if 65 <= c <= 90 and c - 55 < base:
            return c - 55
        return None
    if base == 16:
        d = eng().registry.get('hex', {}).get(tm.tkey(c))
        if d is not None:
            return d
    top = min(base, 10)
    if br(nb(tm.And(c >= 48, c < 48 + top))):
        return norm(c - 48)
    if base > 10:
        if br(nb(tm.And(c >= 97, c < 97 + base - 10))):
            return norm(c - 87)
        if br(nb(tm.And(c >= 65, c < 65 + base - 10))):
            return norm(c - 55)
    if kind == 's' and br(nb(tm.And(c >= 128, in_ranges(c, ND)))):
        t = IntVal(0)
        for z in ND_STARTS:
            if z >= 128:
                t = tm.If(tm.And(c >= z, c < z + 10), c - z, t)
        t = norm(t)
        if base < 10 and not br(nb(t < base)):
            return None
        return t
    return None
