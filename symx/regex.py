"""A small backtracking regex matcher over symbolic text."""
import re as _re
import types
from re import _parser, _constants as C
from .engine import eng
from . import values as v, ops
from .values import SymSeq, Blob, T, V, is_t, mk, toks_of, kind_of, br, nb, t_cmp


class Unsupported(Exception):
    pass


CATS = {}


def _cat(cat, kind):
    key = (cat, kind)
    if key in CATS:
        return CATS[key]
    n = str(cat)
    neg = 'NOT_' in n
    if 'DIGIT' in n:
        r = v.DIGITS if kind == 'b' else v.ND
    elif 'SPACE' in n:
        r = v.WS_B if kind == 'b' else v.WS_S
    elif 'WORD' in n:
        if kind == 'b':
            r = [(48, 57), (65, 90), (95, 95), (97, 122)]
        else:
            r = v.ranges_of([c for c in range(0x110000) if chr(c).isalnum() or c == 95])
    else:
        raise Unsupported(n)
    CATS[key] = (r, neg)
    return CATS[key]


class SymPattern(object):
    def __init__(self, pat, flags=0):
        self.real = _re.compile(pat, flags)
        self.pattern, self.flags = pat, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self.kind = 's' if isinstance(pat, str) else 'b'
        self.tree = _parser.parse(pat, flags)
        self.icase = bool(self.real.flags & _re.I)
        self.dotall = bool(self.real.flags & _re.S)
        self.multi = bool(self.real.flags & _re.M)
        self.ascii = bool(self.real.flags & _re.A) or self.kind == 'b'

    # -- character tests
    def _ck(self):
        return 'b' if self.ascii else self.kind

    def _in(self, x, items):
        if type(x) is Blob:
            eng().give_up('regex on blob')
        neg = False
        conds = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                conds.append(self._lit(x, av))
            elif op is C.RANGE:
                lo, hi = av
                conds.append(v.in_ranges(x, [(lo, hi)]))
                if self.icase:
                    conds.append(v.in_ranges(x, v.ranges_of(
                        [ord(chr(c).swapcase()) for c in range(lo, hi + 1) if len(chr(c).swapcase()) == 1])))
            elif op is C.CATEGORY:
                r, n = _cat(av, self._ck())
                c = v.in_ranges(x, r)
                conds.append(v.t_not(c) if n else c)
            else:
                raise Unsupported(str(op))
        c = v.t_or(conds)
        return v.t_not(c) if neg else c

    def _lit(self, x, code):
        if self.icase:
            s = {code}
            for f in (chr(code).lower(), chr(code).upper()):
                if len(f) == 1:
                    s.add(ord(f))
            return v.in_ranges(x, v.ranges_of(s))
        return t_cmp('==', x, code)

    def _one(self, op, av, x):
        """single-character test as a condition, or None"""
        if op is C.LITERAL:
            if type(x) is Blob:
                eng().give_up('regex on blob')
            return self._lit(x, av)
        if op is C.NOT_LITERAL:
            if type(x) is Blob:
                eng().give_up('regex on blob')
            return v.t_not(self._lit(x, av))
        if op is C.IN:
            return self._in(x, av)
        if op is C.ANY:
            if type(x) is Blob:
                eng().give_up('regex on blob')
            return True if self.dotall else t_cmp('!=', x, 10)
        return None

    # -- matching: continuation passing, returns end index or None
    def _m(self, seq, i, toks, pos, g, k):
        eng().tick()
        if i == len(seq):
            return k(pos, g)
        op, av = seq[i]

        def nxt(p, gg):
            return self._m(seq, i + 1, toks, p, gg, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            if pos >= len(toks):
                return None
            if not br(nb(self._one(op, av, toks[pos])) if is_t(toks[pos]) else self._one(op, av, toks[pos])):
                return None
            return nxt(pos + 1, g)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._m(list(alt), 0, toks, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, add, dele, p = av
            if add or dele:
                raise Unsupported('inline flags')

            def done(e, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (pos, e)
                return nxt(e, gg)
            return self._m(list(p), 0, toks, pos, g, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
            lo, hi, p = av
            p = list(p)
            hi = 10 ** 9 if hi is C.MAXREPEAT else hi
            if len(p) == 1 and op is C.MAX_REPEAT and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                ends = [pos]
                q = pos
                while len(ends) - 1 < hi and q < len(toks):
                    eng().tick()
                    c = self._one(p[0][0], p[0][1], toks[q])
                    if not br(nb(c)):
                        break
                    q += 1
                    ends.append(q)
                for n in range(len(ends) - 1, lo - 1, -1):
                    r = nxt(ends[n], g)
                    if r is not None:
                        return r
                return None

            def rep(n, p0, gg):
                def again(e, g2):
                    if e == p0 and n >= lo:
                        return None
                    return rep(n + 1, e, g2)
                if op is C.MIN_REPEAT:
                    if n >= lo:
                        r = nxt(p0, gg)
                        if r is not None:
                            return r
                    return self._m(p, 0, toks, p0, gg, again) if n < hi else None
                if n < hi:
                    r = self._m(p, 0, toks, p0, gg, again)
                    if r is not None:
                        return r
                return nxt(p0, gg) if n >= lo else None
            return rep(0, pos, g)
        if op is C.AT:
            n = str(av)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0
                if not ok and self.multi and av is C.AT_BEGINNING:
                    ok = br(t_cmp('==', toks[pos - 1], 10))
            elif av is C.AT_END_STRING:
                ok = pos == len(toks)
            elif av is C.AT_END:
                ok = pos == len(toks)
                if not ok and (self.multi or pos == len(toks) - 1):
                    ok = type(toks[pos]) is not Blob and br(t_cmp('==', toks[pos], 10))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                r, _ = _cat(C.CATEGORY_WORD, self._ck())
                a = pos > 0 and br(nb(v.in_ranges(toks[pos - 1], r)) if is_t(toks[pos - 1])
                                   else v.in_ranges(toks[pos - 1], r))
                b = pos < len(toks) and br(nb(v.in_ranges(toks[pos], r)) if is_t(toks[pos])
                                           else v.in_ranges(toks[pos], r))
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(n)
            return nxt(pos, g) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise Unsupported('lookbehind')
            box = []

            def got(e, gg):
                box.append(gg)
                return e
            r = self._m(list(p), 0, toks, pos, g, got)
            if op is C.ASSERT:
                return nxt(pos, box[-1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            for x in toks[a:b]:
                if pos >= len(toks) or not br(t_cmp('==', toks[pos], x)):
                    return None
                pos += 1
            return nxt(pos, g)
        raise Unsupported(str(op))

    def _try(self, toks, pos, full=False):
        out = []

        def end(e, g):
            if full and e != len(toks):
                return None
            out.append(g)
            return e
        r = self._m(list(self.tree), 0, toks, pos, {}, end)
        if r is None:
            return None
        return r, out[-1]

    def _prep(self, s):
        if kind_of(s) != self.kind:
            raise TypeError('cannot use a %s pattern on a %s-like object' % (
                ('string', 'bytes') if self.kind == 's' else ('bytes', 'string')))
        toks = []
        for x in toks_of(s):
            if type(x) is Blob and x.src.kind == 'dec':
                toks += v.explode_dec(x)
            else:
                toks.append(x)
        return toks

    def _run(self, f, *a):
        try:
            return f(*a)
        except Unsupported as e:
            eng().give_up('regex feature ' + str(e))

    def match(self, s, pos=0, endpos=None):
        if type(s) is not SymSeq:
            return self.real.match(s) if not pos else self.real.match(s, realize_(pos))
        toks = self._prep(s)
        r = self._run(self._try, toks, realize_(pos))
        return SymMatch(self, s, toks, realize_(pos), r) if r else None

    def fullmatch(self, s):
        if type(s) is not SymSeq:
            return self.real.fullmatch(s)
        toks = self._prep(s)
        r = self._run(self._try, toks, 0, True)
        return SymMatch(self, s, toks, 0, r) if r else None

    def _search(self, toks, pos):
        for p in range(pos, len(toks) + 1):
            r = self._run(self._try, toks, p)
            if r:
                return p, r
        return None

    def search(self, s, pos=0):
        if type(s) is not SymSeq:
            return self.real.search(s, realize_(pos))
        toks = self._prep(s)
        r = self._search(toks, realize_(pos))
        return SymMatch(self, s, toks, r[0], r[1]) if r else None

    def finditer(self, s):
        if type(s) is not SymSeq:
            yield from self.real.finditer(s)
            return
        toks = self._prep(s)
        pos = 0
        while pos <= len(toks):
            r = self._search(toks, pos)
            if not r:
                return
            m = SymMatch(self, s, toks, r[0], r[1])
            yield m
            pos = m._end if m._end > r[0] else r[0] + 1

    def findall(self, s):
        if type(s) is not SymSeq:
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or '')
            else:
                out.append(m.groups(''))
        return out

    def split(self, s, maxsplit=0):
        if type(s) is not SymSeq:
            return self.real.split(s, maxsplit)
        toks = self._prep(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(self.kind, toks[last:m._start]))
            out.extend(m.groups())
            last = m._end
            n += 1
        out.append(mk(self.kind, toks[last:]))
        return out

    def subn(self, rep, s, count=0):
        if type(s) is not SymSeq and not ops.has_sym(rep):
            return self.real.subn(rep, s, count)
        if type(s) is not SymSeq:
            s = ops.lift(s)
        toks = self._prep(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out += toks[last:m._start]
            if callable(rep):
                out += toks_of(ops.sx_call(rep, m))
            else:
                out += self._template(rep, m)
            last = m._end
            n += 1
        out += toks[last:]
        return mk(self.kind, out), n

    def _template(self, rep, m):
        if type(rep) is SymSeq:
            for c in rep.toks:
                if is_t(c) and br(nb(c == 92)):
                    eng().give_up('symbolic template')
            return toks_of(rep)
        out = []
        for piece in _parser.parse_template(rep, self.real) if True else ():
            if isinstance(piece, int):
                out += toks_of(m.group(piece) or '')
            else:
                out += toks_of(piece)
        return out

    def sub(self, rep, s, count=0):
        return self.subn(rep, s, count)[0]


def realize_(x):
    return v.realize(x)


class SymMatch(object):
    def __init__(self, pat, s, toks, start, r):
        self.re, self.string, self._toks = pat, s, toks
        self._start, self._end, self._g = start, r[0], r[1]

    def _span(self, i):
        if isinstance(i, str):
            i = self.re.groupindex[i]
        if i == 0:
            return (self._start, self._end)
        if i > self.re.groups:
            raise IndexError('no such group')
        return self._g.get(i)

    def group(self, *ids):
        if not ids:
            ids = (0,)
        out = []
        for i in ids:
            sp = self._span(i)
            out.append(None if sp is None else mk(self.re.kind, self._toks[sp[0]:sp[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, i):
        return self.group(i)

    def groups(self, default=None):
        r = tuple(self.group(i) for i in range(1, self.re.groups + 1))
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: self.group(k) for k in self.re.groupindex}

    def _p(self, i):
        return V(v.toks_len(self._toks[:i]))

    def start(self, i=0):
        sp = self._span(i)
        return -1 if sp is None else self._p(sp[0])

    def end(self, i=0):
        sp = self._span(i)
        return -1 if sp is None else self._p(sp[1])

    def span(self, i=0):
        return (self.start(i), self.end(i))

    def __bool__(self):
        return True


_cache = {}


def compile(pat, flags=0):
    if isinstance(pat, SymPattern):
        return pat
    if type(pat) is SymSeq:
        eng().give_up('symbolic regex')
    key = (pat, int(flags))
    if key not in _cache:
        _cache[key] = SymPattern(pat, flags)
    return _cache[key]


def escape(p):
    if type(p) is SymSeq:
        eng().give_up('re.escape')
    return _re.escape(p)


def make():
    m = types.ModuleType('re')
    for k, x in _re.__dict__.items():
        if not k.startswith('__'):
            m.__dict__[k] = x
    m.compile, m.escape = compile, escape
    for n in ('match', 'fullmatch', 'search', 'split', 'findall', 'finditer'):
        setattr(m, n, (lambda n: lambda p, s, *a, **k: getattr(compile(p, k.pop('flags', 0)), n)(s, *a, **k))(n))
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    m.Pattern = SymPattern
    m.Match = SymMatch
    return m
