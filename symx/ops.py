"""Operations the instrumented code is routed through."""
import builtins
import collections as _coll
import functools as _ft
import types
import string as _string
from . import terms as tm
from .engine import eng, EngineSignal
from . import values as v
from .values import SymInt, SymSeq, Blob, T, V, is_t, mk, toks_of, kind_of, br, nb, realize

FT, MT = types.FunctionType, types.MethodType
BT = types.BuiltinFunctionType
MD = type(str.lower)
WD = type(str.__len__)
CMD = type(dict.__dict__['fromkeys'])


def has_sym(x, depth=2):
    t = type(x)
    if t is SymSeq or t is SymInt:
        return True
    if t is SymBA:
        return True
    if depth:
        if t is tuple or t is list or t is set or t is frozenset:
            for y in x:
                if has_sym(y, depth - 1):
                    return True
        elif t is dict or issubclass(t, dict):
            for k, y in x.items():
                if has_sym(k, depth - 1) or has_sym(y, depth - 1):
                    return True
        elif t is slice:
            return has_sym(x.start, 0) or has_sym(x.stop, 0) or has_sym(x.step, 0)
    return False


def concretize(x, why):
    """pin symbolic data to one value; the path is no longer exhaustive"""
    t = type(x)
    e = eng()
    if t is SymInt:
        e.inexact('concretised: ' + why)
        val = e.value_hint(x.t)
        e.assume_term(x.t == val)
        return val
    if t is SymSeq:
        out = []
        e.inexact('concretised: ' + why)
        for tok in x.toks:
            if type(tok) is Blob:
                e.give_up('blob passed to ' + why)
            if is_t(tok):
                val = e.value_hint(tok)
                e.assume_term(tok == val)
                tok = val
            out.append(tok)
        return mk(x.kind, out)
    if t is SymBA:
        return bytearray(concretize(x.val, why))
    if t is tuple:
        return tuple(concretize(y, why) for y in x)
    if t is list:
        return [concretize(y, why) for y in x]
    if t is dict:
        return {concretize(k, why): concretize(y, why) for k, y in x.items()}
    return x


# ---------------------------------------------------------------- mutable byte buffer
class SymBA(object):
    """bytearray / memoryview of one (window into a shared cell)"""

    def __init__(self, val=b'', cell=None, start=0, stop=None):
        self.cell = [val] if cell is None else cell
        self.start, self.stop = start, stop

    @property
    def __class__(self):
        return bytearray

    @property
    def val(self):
        x = self.cell[0]
        if self.start == 0 and self.stop is None:
            return x
        return sx_getitem(x, slice(self.start, self.stop))

    def _sx_seq(self):
        return self.val

    def sx_len(self):
        return sx_len(self.val)

    def __len__(self):
        return realize(self.sx_len())

    def set_prefix(self, data):
        """buffer[:len(data)] = data, length kept (readinto)"""
        n = sx_len(data)
        s = self.start
        x = self.cell[0]
        head = sx_getitem(x, slice(0, s))
        tail = sx_getitem(x, slice(s + n, None))
        self.cell[0] = head + data + tail

    def __getitem__(self, i):
        return sx_getitem(self.val, i)

    def view(self, sl):
        a, b, _ = sl.start, sl.stop, sl.step
        n = self.sx_len()
        a = 0 if a is None else a
        if a < 0:
            a = a + n
        b = n if b is None else b
        if b < 0:
            b = b + n
        if b > n:
            b = n
        return SymBA(cell=self.cell, start=self.start + a, stop=self.start + b)

    def __setitem__(self, i, val):
        x = self.cell[0]
        if isinstance(i, slice):
            n = self.sx_len()
            a = 0 if i.start is None else i.start
            b = n if i.stop is None else i.stop
            self.cell[0] = (sx_getitem(x, slice(0, self.start + a)) + mk('b', toks_of(val)) +
                            sx_getitem(x, slice(self.start + b, None)))
        else:
            self.cell[0] = (sx_getitem(x, slice(0, self.start + i)) + mk('b', [T(val)]) +
                            sx_getitem(x, slice(self.start + i + 1, None)))

    def extend(self, data):
        self.cell[0] = self.cell[0] + mk('b', toks_of(data) if kind_of(data) else [T(y) for y in data])

    def append(self, b):
        self.cell[0] = self.cell[0] + mk('b', [T(b)])

    def clear(self):
        self.cell[0] = b''

    def __iadd__(self, data):
        self.extend(data)
        return self

    def __add__(self, o):
        return SymBA(self.val + mk('b', toks_of(o)))

    def __radd__(self, o):
        return mk('b', toks_of(o)) + self.val

    def __eq__(self, o):
        if kind_of(o) != 'b':
            return False
        return br(v.toks_eq(toks_of(self.val), toks_of(o)))

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return bool(self.sx_len() != 0)

    def __iter__(self):
        return iter(self.val)

    def __contains__(self, x):
        return sx_in(x, self.val)

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __delitem__(self, i):
        if isinstance(i, slice):
            n = self.sx_len()
            a = 0 if i.start is None else i.start
            b = n if i.stop is None else i.stop
            x = self.cell[0]
            self.cell[0] = sx_getitem(x, slice(0, a)) + sx_getitem(x, slice(b, None))
        else:
            eng().give_up('del bytearray item')

    def release(self):
        pass

    def tobytes(self):
        return self.val

    def cast(self, *a):
        return self

    @property
    def nbytes(self):
        return self.sx_len()

    itemsize = 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(lift(self.val), name)


def lift(x):
    if type(x) is SymSeq:
        return x
    return SymSeq(kind_of(x), toks_of(x))


def lower_(r):
    """normalise results of methods called on a lifted concrete receiver"""
    t = type(r)
    if t is SymSeq:
        return mk(r.kind, r.toks)
    if t is list:
        return [lower_(x) for x in r]
    if t is tuple:
        return tuple(lower_(x) for x in r)
    return r


# ---------------------------------------------------------------- text rendering
def opaque_text():
    e = eng()
    src = v.BlobSrc(e.fresh_name('otext'), 'opaque')
    n = tm.Int(src.name + '_len')
    e.assume_term(n >= 1)
    return SymSeq('s', [Blob(src, 0, n)])


def sx_repr(x):
    if not has_sym(x, 4):
        return repr(x)
    t = type(x)
    if t is SymInt:
        return sx_str(x)
    if t is SymSeq:
        for tok in x.toks:
            if type(tok) is Blob:
                if tok.src.kind != 'opaque':
                    continue
                return opaque_text()
            if is_t(tok):
                if not br(tm.And(tok >= 32, tok < 127, tok != 39, tok != 34, tok != 92)):
                    return opaque_text()
            elif not (32 <= tok < 127 and tok not in (39, 34, 92)):
                if tok in (10, 13, 9):
                    continue
                return opaque_text()
        esc = {10: [92, 110], 13: [92, 114], 9: [92, 116]}
        toks = []
        for tok in x.toks:
            toks += esc.get(tok, [tok]) if type(tok) is int else [tok]
        return mk('s', ([ord('b')] if x.kind == 'b' else []) + [39] + toks + [39])
    if t in (list, tuple):
        parts = [sx_repr(y) for y in x]
        body = v.seq_join(', ', parts)
        if t is list:
            return '[' + body + ']'
        return '(' + body + (',)' if len(parts) == 1 else ')')
    if t is dict:
        return '{' + v.seq_join(', ', [sx_repr(k) + ': ' + sx_repr(y) for k, y in x.items()]) + '}'
    return opaque_text()


def sx_str(x='', *a, **k):
    t = type(x)
    if t is SymSeq:
        if x.kind == 's':
            return x
        if a or k:
            return v.decode(x, *a, **k)
        return sx_repr(x)
    if t is SymBA:
        if a or k:
            return v.decode(x, *a, **k)
        return opaque_text()
    if t is SymInt:
        return mk('s', v.dec_toks(x.t))
    if a or k:
        return str(x, *a, **k)
    if isinstance(x, BaseException) and type(x).__str__ in (BaseException.__str__, Exception.__str__):
        if not has_sym(x.args):
            return str(x)
        if len(x.args) == 1:
            return sx_str(x.args[0])
        return sx_repr(x.args)
    if isinstance(x, KeyError) and has_sym(x.args):
        return sx_repr(x.args[0])
    m = getattr(t, '__str__', None)
    if type(m) is FT:
        return m(x)
    m = getattr(t, '__repr__', None)
    if type(m) is FT and t.__str__ is object.__str__:
        return m(x)
    if has_sym(x, 4):
        return sx_repr(x)
    return str(x)


def fixed_digits(n, w):
    """exactly w decimal digits of 0 <= n < 10**w"""
    e = eng()
    base = e.fresh_name('fd')
    ds = []
    tot = tm.IntVal(0)
    for i in range(w):
        d = tm.Int('%s_%d' % (base, i))
        e.assume_term(tm.And(d >= 0, d <= 9))
        tot = tot * 10 + d
        ds.append(d)
    e.assume_term(n == tot)
    return [v.norm(d + 48) for d in ds]


def sx_format(x, spec=''):
    t = type(x)
    if type(spec) is SymSeq:
        eng().give_up('symbolic format spec')
    if t not in (SymInt, SymSeq):
        m = getattr(t, '__format__', None)
        if type(m) is FT:
            return m(x, spec)
        if spec == '':
            return sx_str(x)
        return format(x, spec)
    if spec == '' or (t is SymSeq and spec == 's'):
        return sx_str(x)
    if t is SymInt:
        n = x.t
        s = spec
        if s in ('d',):
            return sx_str(x)
        if s and s[-1] == 'd':
            s = s[:-1]
        if s.isdigit() and s[0] == '0' and len(s) > 1:
            w = int(s)
            if br(nb(n >= 0)):
                if br(nb(n < 10 ** w)):
                    return mk('s', fixed_digits(n, w))
                return sx_str(x)
            return format(realize(x), spec)
        if s.isdigit():
            return sx_str(x).rjust(int(s)) if type(sx_str(x)) is SymSeq else str(sx_str(x)).rjust(int(s))
        if spec in ('x', 'X') and br(nb(n >= 0)):
            k = 1
            while k < 9 and not br(nb(n < 16 ** k)):
                k += 1
            e = eng()
            base = e.fresh_name('hx')
            ds = []
            tot = tm.IntVal(0)
            for i in range(k):
                d = tm.Int('%s_%d' % (base, i))
                e.assume_term(tm.And(d >= 0, d <= 15))
                tot = tot * 16 + d
                ds.append(d)
            e.assume_term(n == tot)
            off = 87 if spec == 'x' else 55
            out = [v.hexdigit(d, off == 55) for d in ds]
            e.registry.setdefault('hexnum', {})[tuple(tm.tkey(c) for c in out)] = n
            return mk('s', out)
        return format(realize(x), spec)
    # padded text
    s = spec
    if s.endswith('s'):
        s = s[:-1]
    fill = ' '
    if len(s) > 1 and s[1] in '<>':
        fill, s = s[0], s[1:]
    if s[:1] in '<>' and s[1:].isdigit():
        return x.ljust(int(s[1:]), fill) if s[0] == '<' else x.rjust(int(s[1:]), fill)
    if s.startswith('.') and s[1:].isdigit():
        return x[:int(s[1:])]
    eng().give_up('format spec ' + spec)


_fmt = _string.Formatter()


def sx_str_format(fmt, a, k):
    if not has_sym(a, 3) and not has_sym(k, 3) and not any(
            type(getattr(type(y), '__str__', None)) is FT or isinstance(y, BaseException)
            for y in list(a) + list(k.values())):
        return fmt.format(*a, **k)
    out = ''
    auto = 0
    for lit, field, spec, conv in _fmt.parse(fmt):
        if lit:
            out = out + lit
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        head, rest = _string._string.formatter_field_name_split(field)
        val = a[head] if isinstance(head, int) else k[head]
        for is_attr, name in rest:
            val = getattr(val, name) if is_attr else sx_getitem(val, name)
        if spec and '{' in spec:
            spec = sx_str_format(spec, a, k)
        if conv == 'r':
            val = sx_repr(val)
        elif conv == 's':
            val = sx_str(val)
        out = out + sx_format(val, spec or '')
    return out


def sx_fstr(*parts):
    out = ''
    for p in parts:
        if type(p) is tuple:
            val, conv, spec = p
            if conv == 114:
                val = sx_repr(val)
            elif conv == 115:
                val = sx_str(val)
            elif conv == 97:
                val = sx_repr(val)
            p = sx_format(val, spec)
        out = out + p
    return out


def sx_mod(a, b):
    ta = type(a)
    if ta is SymSeq:
        eng().give_up('symbolic % template')
    if ta is not str and ta is not bytes:
        return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not has_sym(b, 3) and not any(type(getattr(type(y), '__str__', None)) is FT for y in args):
        return a % b
    isb = ta is bytes
    if isb:
        a = a.decode('latin-1')
    out = []
    i = 0
    ai = 0
    while i < len(a):
        c = a[i]
        if c != '%':
            out.append(ord(c))
            i += 1
            continue
        i += 1
        key = None
        if a[i] == '(':
            j = a.index(')', i)
            key = a[i + 1:j]
            i = j + 1
        j = i
        while a[j] in '0123456789.+- #*':
            j += 1
        flags, conv = a[i:j], a[j]
        i = j + 1
        if conv == '%':
            out.append(37)
            continue
        if '*' in flags:
            w = args[ai]
            ai += 1
            flags = flags.replace('*', str(realize(w)))
        if key is not None:
            val = sx_getitem(b, key)
        else:
            if ai >= len(args):
                raise TypeError('not enough arguments for format string')
            val = args[ai]
            ai += 1
        if conv in 'sr' or (conv in 'sb' and isb):
            if isb:
                if kind_of(val) != 'b':
                    raise TypeError('%b requires a bytes-like object')
                r = mk('b', toks_of(val))
            else:
                r = sx_str(val) if conv == 's' else sx_repr(val)
            if flags:
                n = int(flags.lstrip('-'))
                r = lift(r).ljust(n) if flags[0] == '-' else lift(r).rjust(n)
            out += toks_of(r)
        elif conv in 'diu':
            if kind_of(val):
                raise TypeError('%d format: a real number is required')
            if flags and not (flags.isdigit()):
                val = realize(val)
                out += toks_of(('%' + flags + conv) % val)
            elif type(val) is SymInt:
                out += toks_of(sx_format(val, flags + 'd' if flags else ''))
            else:
                out += toks_of(('%' + flags + conv) % val)
        elif conv in 'xX':
            out += toks_of(sx_format(val, conv) if type(val) is SymInt and not flags
                           else ('%' + flags + conv) % realize(val))
        elif conv == 'c':
            out += [T(val)] if not kind_of(val) else toks_of(val)
        else:
            out += toks_of(('%' + flags + conv) % realize(val))
    if ai < len(args) and not isinstance(b, dict) and kind_of(b) is None:
        if isinstance(b, tuple):
            raise TypeError('not all arguments converted during string formatting')
    return mk('b' if isb else 's', out)


# ---------------------------------------------------------------- containers
_MISSING = object()


def _symkeys(d):
    for k in (dict.__iter__(d) if isinstance(d, dict) else d):
        if type(k) is SymSeq or type(k) is SymInt:
            return True
        if type(k) is tuple and has_sym(k):
            return True
    return False


def _same_type(a, b):
    ka, kb = kind_of(a), kind_of(b)
    return ka == kb


def find_key(d, key):
    """the stored key equal to `key` (forks), or _MISSING"""
    if not has_sym(key) and not _symkeys(d):
        return key if key in d else _MISSING
    for k in list(dict.__iter__(d)):
        if k is key:
            return k
        if _same_type(k, key) and k == key:
            return k
    return _MISSING


def dict_set(d, key, val):
    k = find_key(d, key)
    if k is _MISSING:
        k = HashKey.wrap(key)
        setter(d, k, val)
    else:
        setter(d, k, val)


def setter(d, k, val):
    global HASH_OK
    HASH_OK += 1
    try:
        d[k] = val
    finally:
        HASH_OK -= 1


HASH_OK = 0


class HashKey:
    @staticmethod
    def wrap(k):
        return k


def _seq_hash(self):
    if HASH_OK:
        return id(self) >> 4
    eng().give_up('hash of symbolic text')


SymSeq.__hash__ = _seq_hash
DICTS = (dict,)


def is_dict(x):
    return isinstance(x, dict)


def raw_pop(d, k):
    global HASH_OK
    HASH_OK += 1
    try:
        return dict.pop(d, k)
    finally:
        HASH_OK -= 1


def raw_get(d, k):
    global HASH_OK
    HASH_OK += 1
    try:
        return d[k]
    finally:
        HASH_OK -= 1


def dict_method(d, name, a, k):
    """dict methods with symbolic keys around; NotImplemented = go native"""
    if name in ('get', 'setdefault', 'pop', '__getitem__', '__contains__'):
        if not a or not (has_sym(a[0]) or _symkeys(d)):
            return NotImplemented
        key = find_key(d, a[0])
        if name == '__contains__':
            return key is not _MISSING
        if key is not _MISSING:
            return raw_pop(d, key) if name == 'pop' else raw_get(d, key)
        if name == 'get':
            return a[1] if len(a) > 1 else k.get('default')
        if name == 'setdefault':
            val = a[1] if len(a) > 1 else None
            dict_set(d, a[0], val)
            return val
        if name == 'pop' and len(a) > 1:
            return a[1]
        raise KeyError(a[0])
    if name == 'update':
        src = a[0] if a else {}
        pairs = list(src.items()) if hasattr(src, 'items') else [tuple(p) for p in src]
        if any(has_sym(p[0]) for p in pairs) or _symkeys(d):
            for kk, vv in pairs:
                dict_set(d, kk, vv)
            for kk, vv in k.items():
                dict_set(d, kk, vv)
            return None
        dict.update(d, pairs, **k) if type(d).__setitem__ is dict.__setitem__ else type(d).update(d, pairs, **k)
        return None
    if name == 'copy' and _symkeys(d):
        return build_dict(type(d), list(d.items()))
    return NotImplemented


def build_dict(cls, pairs):
    d = cls()
    for kk, vv in pairs:
        dict_set(d, kk, vv)
    return d


class SymSet(object):
    """set holding symbolic members"""

    def __init__(self, items=()):
        self.items = []
        for x in items:
            self.add(x)

    @property
    def __class__(self):
        return set

    def add(self, x):
        if not sx_in(x, self.items):
            self.items.append(x)

    def discard(self, x):
        for i, y in enumerate(self.items):
            if x == y:
                del self.items[i]
                return True
        return False

    def remove(self, x):
        if not self.discard(x):
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return sx_in(x, self.items)

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def copy(self):
        s = SymSet()
        s.items = list(self.items)
        return s

    def __or__(self, o):
        s = self.copy()
        s.update(o)
        return s

    def union(self, *o):
        s = self.copy()
        s.update(*o)
        return s

    def __eq__(self, o):
        return len(self) == len(o) and all(sx_in(x, o) for x in self.items)

    def __hash__(self):
        raise TypeError('unhashable')


def set_method(s, name, a, k):
    global HASH_OK
    if name == 'update' and (_symkeys(s) or any(has_sym(y, 1) or not isinstance(y, (list, tuple, set, frozenset, dict))
                                                for y in a)):
        for y in a:
            for z in y:
                set_method(s, 'add', (z,), {}) is NotImplemented and s.add(z)
        return None
    if name in ('union', 'difference', 'intersection', 'issubset', 'issuperset', 'symmetric_difference', 'isdisjoint',
                'difference_update', 'intersection_update') and (_symkeys(s) or has_sym(a)):
        if name == 'union':
            r = SymSet(s)
            r.update(*a)
            return r
        eng().give_up('set.%s of symbolic members' % name)
    if name in ('add', 'discard', 'remove', '__contains__') and a and (has_sym(a[0]) or _symkeys(s)):
        if name in ('discard', 'remove', '__contains__'):
            for y in list(s):
                if _same_type(y, a[0]) and y == a[0]:
                    if name == '__contains__':
                        return True
                    HASH_OK += 1
                    try:
                        set.remove(s, y)
                    finally:
                        HASH_OK -= 1
                    return None
            if name == 'remove':
                raise KeyError(a[0])
            return False if name == '__contains__' else None
        for y in list(s):
            if _same_type(y, a[0]) and y == a[0]:
                return None
        HASH_OK += 1
        try:
            set.add(s, a[0])
        finally:
            HASH_OK -= 1
        return None
    return NotImplemented


def sx_getitem(obj, idx):
    t = type(obj)
    if t is dict or isinstance(obj, dict):
        if type(getattr(t, '__getitem__')) is FT:
            return obj[idx]
        if has_sym(idx) or _symkeys(obj):
            k = find_key(obj, idx)
            if k is _MISSING:
                miss = getattr(t, '__missing__', None)
                if miss is not None:
                    if not isinstance(obj, _coll.defaultdict) or obj.default_factory is None:
                        eng().give_up('mapping with __missing__ and a symbolic key')
                    val = sx_call(obj.default_factory)
                    dict_set(obj, idx, val)
                    return val
                raise KeyError(idx)
            return raw_get(obj, k)
        return obj[idx]
    if (t is bytes or t is str) and type(idx) is not int:
        if has_sym(idx, 1):
            return lower_(lift(obj)[idx])
        return obj[idx]
    if t is SymBA and isinstance(idx, slice) and getattr(obj, 'is_view', False):
        r = obj.view(idx)
        r.is_view = True
        return r
    return obj[idx]


def sx_setitem(obj, idx, val):
    if isinstance(obj, dict) and type(getattr(type(obj), '__setitem__')) is not FT:
        if has_sym(idx) or _symkeys(obj):
            dict_set(obj, idx, val)
            return
    if type(obj) is bytearray and (has_sym(val) or has_sym(idx)):
        eng().give_up('symbolic store into native bytearray')
    obj[idx] = val


def sx_delitem(obj, idx):
    if isinstance(obj, dict) and type(getattr(type(obj), '__delitem__')) is not FT:
        if has_sym(idx) or _symkeys(obj):
            k = find_key(obj, idx)
            if k is _MISSING:
                raise KeyError(idx)
            raw_pop(obj, k)
            return
    del obj[idx]


def sx_mkdict(pairs):
    """dict display or comprehension; a pair (None, mapping, 0) is **mapping"""
    d = {}
    for p in pairs:
        if len(p) == 3:
            m = p[1]
            for kk in m.keys():
                sx_setitem(d, kk, sx_getitem(m, kk))
        else:
            sx_setitem(d, p[0], p[1])
    return d


def sx_mkset(items):
    s = set()
    for x in items:
        if set_method(s, 'add', (x,), {}) is NotImplemented:
            s.add(x)
    return s


def lru_call(f, a, k):
    """functools.cache / lru_cache: the cache of one path"""
    cache = eng().registry.setdefault('lru', {}).setdefault(id(f), (f, []))[1]
    key = (a, tuple(k.items()))
    for kk, val in cache:
        if kk[1] == key[1] and len(kk[0]) == len(a) and all(y is z or (_same_type(y, z) and y == z)
                                                           for y, z in zip(kk[0], a)):
            return val
    val = f.__wrapped__(*a, **k)
    cache.append((key, val))
    return val


LRU = type(_ft.lru_cache(None)(lambda: 0))


def sx_in(x, c):
    t = type(c)
    if isinstance(c, dict) and type(getattr(t, '__contains__')) is not FT:
        return find_key(c, x) is not _MISSING
    if t is set or t is frozenset:
        if has_sym(x) or _symkeys(c):
            if type(x) is SymInt and all(type(y) is int for y in c):
                return br(v.in_ranges(T(x), v.ranges_of(c)))
            for y in list(c):
                if _same_type(y, x) and y == x:
                    return True
            return False
        return x in c
    if t in (type({}.keys()), type({}.values())):
        return any(y is x or y == x for y in list(c))
    if t is str or t is bytes:
        if has_sym(x, 0):
            return lift(c).__contains__(x)
        return x in c
    m = getattr(t, '__contains__', None)
    if type(m) is FT:
        return bool(m(c, x))
    if t in (list, tuple):
        if type(x) is SymInt and len(c) > 1 and all(type(y) is int for y in c):
            return br(v.in_ranges(T(x), v.ranges_of(c)))
        for y in c:
            if y is x or y == x:
                return True
        return False
    if isinstance(c, range) and type(x) is SymInt:
        if c.step == 1 and not has_sym(c.start) and not has_sym(c.stop):
            return br(v.in_ranges(T(x), [(c.start, c.stop - 1)])) if len(c) else False
        for y in c:
            if x == y:
                return True
        return False
    return x in c


def sx_len(x):
    t = type(x)
    if t is SymSeq or t is SymBA:
        return x.sx_len()
    m = getattr(t, '__len__', None)
    if type(m) is FT:
        return m(x)
    return len(x)


# ---------------------------------------------------------------- builtins
def h_int(x=0, *a, **k):
    base = k.get('base', a[0] if a else None)
    t = type(x)
    if t is SymBA:
        x = x.val
        t = type(x)
    if t is SymInt:
        if base is not None:
            raise TypeError("int() can't convert non-string with explicit base")
        return x
    if t is SymSeq:
        return v.parse_int(x, 10 if base is None else realize(base))
    if base is not None:
        return int(x, realize(base))
    m = getattr(t, '__int__', None)
    if type(m) is FT:
        return m(x)
    return int(x)


def h_bytes(x=b'', *a, **k):
    t = type(x)
    if t is SymSeq:
        if x.kind == 's':
            if not a and not k:
                raise TypeError('string argument without an encoding')
            return v.encode(x, *a, **k)
        return x
    if t is SymBA:
        return x.val
    if t is SymInt:
        x = realize(x)
    if t in (list, tuple) and has_sym(x):
        for y in x:
            if not (0 <= y <= 255):
                raise ValueError('bytes must be in range(0, 256)')
        return mk('b', [T(y) for y in x])
    m = getattr(t, '__bytes__', None)
    if type(m) is FT:
        return m(x)
    if not isinstance(x, (bytes, str, int, bytearray, memoryview)) and hasattr(x, '__iter__'):
        return h_bytes(list(x))
    return bytes(x, *a, **k)


def h_bytearray(x=b'', *a, **k):
    t = type(x)
    if isinstance(x, int):
        n = x
        if type(n) is SymInt:
            if n <= 0:
                return SymBA(b'')
            src = v.BlobSrc(eng().fresh_name('zero'), 'opaque')
            return SymBA(SymSeq('b', [Blob(src, 0, n.t)]))
        return SymBA(bytes(n))
    return SymBA(h_bytes(x, *a, **k))


def h_memoryview(x):
    if type(x) is SymBA:
        r = SymBA(cell=x.cell, start=x.start, stop=x.stop)
        r.is_view = True
        return r
    if type(x) is SymSeq and x.kind == 'b':
        return x
    if type(x) is SymSeq:
        raise TypeError("memoryview: a bytes-like object is required, not 'str'")
    return memoryview(x)


def h_map(f, *its):
    for args in zip(*its):
        yield sx_call(f, *args)


def h_filter(f, it):
    for x in it:
        if (x if f is None else sx_call(f, x)):
            yield x


def h_ord(c):
    if type(c) is SymSeq:
        if c.sx_len() != 1:
            raise TypeError('ord() expected a character')
        x = c.toks[0]
        if type(x) is Blob:
            x = x.src.elem(x.off) if x.src.kind != 'dec' else v.explode_dec(x)[0]
        return V(x)
    return ord(c)


def h_chr(i):
    if type(i) is SymInt:
        if not (0 <= i <= 0x10ffff):
            raise ValueError('chr() arg not in range(0x110000)')
        return mk('s', [i.t])
    return chr(i)


def h_range(*a):
    if not any(type(x) is SymInt for x in a):
        return range(*a)

    def gen():
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        else:
            start, stop = a[0], a[1]
            if len(a) > 2:
                step = realize(a[2])
        i = start
        while (i < stop) if step > 0 else (i > stop):
            eng().tick()
            yield i
            i = i + step
    return gen()


def h_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        pairs = [tuple(p) for p in (a[0].items() if hasattr(a[0], 'items') else a[0])]
        if any(has_sym(p[0]) for p in pairs):
            d = build_dict(dict, pairs)
            d.update(k)
            return d
        return dict(pairs, **k)
    if a and _symkeys(a[0]):
        d = build_dict(dict, list(a[0].items()))
        d.update(k)
        return d
    return dict(*a, **k)


def h_set(*a):
    if a:
        items = list(a[0])
        if any(has_sym(x) for x in items):
            return SymSet(items)
        return set(items)
    return set()


def h_frozenset(*a):
    if a:
        items = list(a[0])
        if any(has_sym(x) for x in items):
            return SymSet(items)
        return frozenset(items)
    return frozenset()


def h_type(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        if t is SymSeq:
            return bytes if a[0].kind == 'b' else str
        if t is SymInt:
            return int
        if t is SymBA:
            return bytearray
        if t is SymSet:
            return set
        return t
    return type(*a, **k)


def h_reversed(x):
    if type(x) is SymSeq:
        return iter(list(x)[::-1])
    return reversed(x)


def h_hash(x):
    if type(x) is SymSeq:
        eng().give_up('hash()')
    return hash(x)


def h_float(x=0.0):
    if has_sym(x):
        x = concretize(x, 'float()') if type(x) is not SymInt else realize(x)
    return float(x)


def h_getattr(o, name, *d):
    if type(name) is SymSeq:
        name = concretize(name, 'getattr')
    return getattr(o, name, *d)


def h_hasattr(o, name):
    if type(name) is SymSeq:
        name = concretize(name, 'hasattr')
    if type(o) is SymSeq:
        return hasattr(b'' if o.kind == 'b' else '', name)
    return hasattr(o, name)


def h_next(it, *d):
    return next(it, *d)


def h_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def h_format(x, spec=''):
    return sx_format(x, spec)


def h_hex(x):
    if type(x) is SymInt:
        if x < 0:
            return '-0x' + sx_format(-x, 'x')
        return '0x' + sx_format(x, 'x')
    return hex(x)


def h_any(it):
    for x in it:
        if x:
            return True
    return False


def h_all(it):
    for x in it:
        if not x:
            return False
    return True


def h_round(x, *a):
    if type(x) is SymInt:
        return x
    return round(x, *a)


def h_bool(x=False):
    return bool(x)


def h_iter(x, *a):
    if a:
        def gen():
            while True:
                val = sx_call(x)
                eng().tick()
                if val == a[0]:
                    return
                yield val
        return gen()
    return iter(x)


def h_partial(f, *a, **k):
    def part(*b, **kk):
        return sx_call(f, *a, *b, **dict(k, **kk))
    return part


import functools as _ft
import itertools as _it

def _minmax(fn, flip):
    def run(*a, **k):
        if len(a) == 2 and not k and (type(a[0]) is SymInt or type(a[1]) is SymInt) and \
                v._num(a[0]) and v._num(a[1]):
            x, y = a
            le, ge = v.t_cmp('<=', v.T(x), v.T(y)), v.t_cmp('>=', v.T(x), v.T(y))
            if flip:
                le, ge = ge, le
            e = eng()
            if e.holds(le):
                return x
            if e.holds(ge):
                return y
            return x if e.branch(le) else y
        return fn(*a, **k)
    return run


HANDLERS = {
    min: _minmax(min, False), max: _minmax(max, True),
    len: sx_len, int: h_int, str: sx_str, bytes: h_bytes, bytearray: h_bytearray,
    memoryview: h_memoryview, map: h_map, filter: h_filter, ord: h_ord, chr: h_chr,
    range: h_range, dict: h_dict, set: h_set, frozenset: h_frozenset, type: h_type,
    reversed: h_reversed, hash: h_hash, float: h_float, getattr: h_getattr, hasattr: h_hasattr,
    sum: h_sum, format: h_format, hex: h_hex, any: h_any, all: h_all, repr: sx_repr, ascii: sx_repr,
    round: h_round, iter: h_iter, _ft.partial: h_partial,
}
# C functions that are safe with symbolic arguments (they only call back into
# Python-level protocols or merely store their arguments)
SAFE = {isinstance, issubclass, min, max, sorted, abs, divmod, callable, id, list, tuple, zip, enumerate,
        next, setattr, delattr, bool, pow, print, slice, super, property, staticmethod, classmethod,
        object, vars, dir, _ft.reduce, _it.chain, _it.islice, _it.repeat, _it.takewhile, _it.dropwhile,
        object.__new__, object.__init__, _it.chain.from_iterable, _it.zip_longest, Exception,
        _ft.update_wrapper, _ft.cmp_to_key}
SAFE_OBJ = (list, tuple, types.GeneratorType)


def _builtin_exc(f):
    return isinstance(f, type) and issubclass(f, BaseException)


def sx_call(f, /, *a, **k):
    t = type(f)
    if t is FT or t is MT:
        return f(*a, **k)
    if t is type:
        h = HANDLERS.get(f)
        if h is not None:
            return h(*a, **k)
        if f in SAFE or not f.__module__ == 'builtins':
            return _cls_call(f, a, k)
        return f(*a, **k)
    if t is BT:
        try:
            h = HANDLERS.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(*a, **k)
        s = f.__self__
        ts = type(s)
        if ts is types.ModuleType or s is None:
            if f in SAFE or not (has_sym(a) or has_sym(k)):
                return f(*a, **k)
            mod = getattr(s, '__name__', '')
            if mod in ('_operator', 'itertools', '_functools', '_collections', '_asyncio'):
                return _operator_call(f, a, k)
            return f(*concretize(a, f.__name__), **concretize(k, f.__name__))
        if ts is str or ts is bytes:
            name = f.__name__
            if name == 'join':
                return v.seq_join(s, a[0])
            if name == 'format':
                return sx_str_format(s, a, k)
            if has_sym(a) or (k and has_sym(k)):
                return lower_(getattr(lift(s), name)(*a, **k))
            return f(*a, **k)
        if isinstance(s, dict):
            r = dict_method(s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
            return f(*a, **k)
        if ts is set:
            r = set_method(s, f.__name__, a, k)
            if r is not NotImplemented:
                return r
            return f(*a, **k)
        if ts in (list, tuple, types.GeneratorType) or ts.__module__ in ('collections', '_thread', 'itertools'):
            return f(*a, **k)
        if f.__name__ in ('__init__', '__new__', '__setattr__', '__init_subclass__'):
            return f(*a, **k)
        if isinstance(s, type) and (f.__name__ == 'fromkeys'):
            d = s()
            for x in a[0]:
                dict_set(d, x, a[1] if len(a) > 1 else None)
            return d
        if s is str and f.__name__ == 'maketrans' or s is bytes:
            if not has_sym(a):
                return f(*a, **k)
            if f.__name__ == 'fromhex':
                return f(*concretize(a, 'fromhex'))
        if has_sym(a) or has_sym(k):
            return f(*concretize(a, f.__name__), **concretize(k, f.__name__))
        return f(*a, **k)
    if t is LRU:
        return lru_call(f, a, k)
    if t is MD or t is WD:
        if a:
            ta = type(a[0])
            if ta is SymSeq:
                return getattr(a[0], f.__name__)(*a[1:], **k)
            if (ta is str or ta is bytes) and (has_sym(a[1:]) or f.__name__ in ('join', 'format')):
                return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
            if isinstance(a[0], dict):
                r = dict_method(a[0], f.__name__, a[1:], k)
                if r is not NotImplemented:
                    return r
        return f(*a, **k)
    return f(*a, **k)


def _cls_call(f, a, k):
    return f(*a, **k)


def _operator_call(f, a, k):
    n = f.__name__
    if n == 'getitem':
        return sx_getitem(*a)
    if n == 'contains':
        return sx_in(a[1], a[0])
    if n == 'mod':
        return sx_mod(*a)
    if n == 'index' and type(a[0]) is SymInt:
        return a[0]
    return f(*a, **k)


def sx_tick():
    eng().tick()
