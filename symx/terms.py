"""Integer terms and conditions, kept linear and interval-annotated in Python;
handed to z3 only for the queries that intervals cannot decide.

An Atom is a z3 constant or a non-linear sub-term (If / div / mod / function
application).  A Lin is sum(coef * atom) + const with at least one atom.
Atoms are created per path, so the bounds learnt on a path live on them.
"""
import z3

_z3names = {}


class Atom(object):
    __slots__ = ('id', 'kind', 'key', 'args', 'lo', 'hi', '_z')

    def __init__(self, kind, key, args, lo=None, hi=None):
        self.kind, self.key, self.args, self.lo, self.hi = kind, key, args, lo, hi
        self._z = None
        self.id = TAB.n
        TAB.n += 1

    def z(self):
        if self._z is None:
            k = self.kind
            if k == 'c':
                z = _z3names.get(self.key)
                if z is None:
                    z = _z3names[self.key] = z3.Int(self.key)
                self._z = z
            elif k == 'if':
                c, a, b = self.args
                self._z = z3.If(bz(c), tz(a), tz(b))
            elif k == 'div':
                self._z = tz(self.args[0]) / self.args[1]
            elif k == 'mod':
                self._z = tz(self.args[0]) % self.args[1]
            elif k == 'mul':
                self._z = tz(self.args[0]) * tz(self.args[1])
            else:
                self._z = self.args[0](*[tz(x) for x in self.args[1:]])
        return self._z

    def __repr__(self):
        return str(self.z())


class Table(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.n = 0
        self.atoms = {}
        self.known = {}
        if len(_z3names) > 200000:
            _z3names.clear()


TAB = Table()


def atom(kind, key, args, lo=None, hi=None):
    a = TAB.atoms.get(key)
    if a is None:
        a = TAB.atoms[key] = Atom(kind, key, args, lo, hi)
    return a


class Lin(object):
    __slots__ = ('d', 'c')
    __hash__ = object.__hash__

    def __init__(self, d, c):
        self.d, self.c = d, c

    def __add__(self, o):
        if type(o) is Lin:
            d = dict(self.d)
            for a, k in o.d.items():
                k2 = d.get(a, 0) + k
                if k2:
                    d[a] = k2
                else:
                    del d[a]
            c = self.c + o.c
            return Lin(d, c) if d else c
        if not o:
            return self
        return Lin(self.d, self.c + o)
    __radd__ = __add__

    def __neg__(self):
        return Lin({a: -k for a, k in self.d.items()}, -self.c)

    def __sub__(self, o):
        if type(o) is Lin:
            d = dict(self.d)
            for a, k in o.d.items():
                k2 = d.get(a, 0) - k
                if k2:
                    d[a] = k2
                else:
                    del d[a]
            c = self.c - o.c
            return Lin(d, c) if d else c
        if not o:
            return self
        return Lin(self.d, self.c - o)

    def __rsub__(self, o):
        return Lin({a: -k for a, k in self.d.items()}, o - self.c)

    def __mul__(self, o):
        if type(o) is Lin:
            return of(atom('mul', ('mul', tkey(self), tkey(o)), (self, o)))
        if o == 0:
            return 0
        return Lin({a: k * o for a, k in self.d.items()}, self.c * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        """floor division by a positive constant (as z3's integer division)"""
        assert type(o) is int and o > 0, o
        if o == 1:
            return self
        if all(k % o == 0 for k in self.d.values()):
            return Lin({a: k // o for a, k in self.d.items()}, self.c // o)
        lo, hi = bounds(self)
        lo = None if lo is None else lo // o
        hi = None if hi is None else hi // o
        if lo is not None and lo == hi:
            return lo
        if self.c == 0 and len(self.d) == 1:
            (a, k), = self.d.items()
            if k == 1 and a.kind == 'div':          # (x div m) div o
                return a.args[0] // (a.args[1] * o)
        # k*o*y + r: the multiple of o comes out
        out = {a: k // o for a, k in self.d.items() if k % o == 0}
        if out or self.c >= o or self.c < 0:
            rest = {a: k for a, k in self.d.items() if k % o}
            q = self.c // o
            inner = Lin(rest, self.c - q * o) // o
            return (Lin(out, q) if out else q) + inner
        return of(atom('div', ('div', tkey(self), o), (self, o), lo, hi))
    __floordiv__ = __truediv__

    def __mod__(self, o):
        assert type(o) is int and o > 0, o
        if all(k % o == 0 for k in self.d.values()):
            return self.c % o
        return self - (self // o) * o

    def __le__(self, o): return le0(self - o)
    def __lt__(self, o): return le0(self - o + 1)
    def __ge__(self, o): return le0(o - self)
    def __gt__(self, o): return le0(o - self + 1)
    def __eq__(self, o): return eq0(self - o)
    def __ne__(self, o): return Not(eq0(self - o))

    def __bool__(self):
        raise TypeError('truth value of a term')

    def z(self):
        t = None
        for a, k in self.d.items():
            z = a.z()
            if k != 1:
                z = z * k
            t = z if t is None else t + z
        return t + self.c if self.c else t

    def __repr__(self):
        return str(self.z())


def of(a):
    return Lin({a: 1}, 0)


def tz(x):
    return x.z() if type(x) is Lin else z3.IntVal(x)


def L(x):
    """an int or a term as a term"""
    return x if type(x) is Lin else IntVal(x)


def tkey(x):
    if type(x) is Lin:
        return (x.c,) + tuple(sorted(((a.id, k) for a, k in x.d.items())))
    return x


def Int(name, lo=None, hi=None):
    return of(atom('c', name, None, lo, hi))


def IntVal(x):
    return x


def bounds(x):
    if type(x) is not Lin:
        return x, x
    lo = hi = x.c
    for a, k in x.d.items():
        if a.kind == 'div':
            y, m = a.args
            if k % m == 0 and len(x.d) > 1:
                # k = -m*s: contains s * (y mod m)
                s = -k // m
                r = x - (y - Lin({a: m}, 0)) * s
                if type(r) is not Lin or len(r.d) < len(x.d) - 1 or \
                        (len(r.d) < len(x.d)):
                    rl, rh = bounds(r)
                    e1, e2 = (0, s * (m - 1)) if s > 0 else (s * (m - 1), 0)
                    l2 = None if rl is None else rl + e1
                    h2 = None if rh is None else rh + e2
                    l1, h1 = _plain(x)
                    return (l2 if l1 is None else l1 if l2 is None else max(l1, l2),
                            h2 if h1 is None else h1 if h2 is None else min(h1, h2))
    return _plain(x)


def _plain(x):
    lo = hi = x.c
    for a, k in x.d.items():
        al, ah = a.lo, a.hi
        if k < 0:
            al, ah = ah, al
        lo = None if lo is None or al is None else lo + k * al
        hi = None if hi is None or ah is None else hi + k * ah
    return lo, hi


def le0(x):
    if type(x) is not Lin:
        return x <= 0
    lo, hi = bounds(x)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    return Cmp('<', x)


def eq0(x):
    if type(x) is not Lin:
        return x == 0
    lo, hi = bounds(x)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    if lo == 0 and hi == 0:
        return True
    if len(x.d) == 1:
        (a, k), = x.d.items()
        if x.c % k:
            return False
        if k != 1:
            x = Lin({a: 1}, x.c // k)
    else:
        k = next(iter(x.d.values()))
        # canonical sign: the atom created first is positive
        f = min(x.d, key=lambda a: a.id)
        if x.d[f] < 0:
            x = -x
    return Cmp('=', x)


class Bool(object):
    __slots__ = ()

    def __bool__(self):
        from .engine import eng
        return eng().branch(self)


class Cmp(Bool):
    """lin <= 0 ('<') or lin == 0 ('=')"""
    __slots__ = ('op', 'x', '_k')

    def __init__(self, op, x):
        self.op, self.x = op, x
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.op,) + tkey(self.x)
        return self._k

    def z(self):
        x = self.x
        if len(x.d) == 1:
            (a, k), = x.d.items()
            if k == 1:
                return a.z() <= -x.c if self.op == '<' else a.z() == -x.c
            if k == -1:
                return a.z() >= x.c if self.op == '<' else a.z() == x.c
        return x.z() <= 0 if self.op == '<' else x.z() == 0

    def ev(self, m):
        v = m.lin(self.x)
        return v <= 0 if self.op == '<' else v == 0

    def quick(self):
        lo, hi = bounds(self.x)
        if self.op == '<':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
        return TAB.known.get(self.key())

    def learn(self, v):
        x = self.x
        TAB.known[self.key()] = v
        if self.op == '<':
            n = 1 - x
            TAB.known[('<',) + tkey(n)] = not v
            if len(x.d) == 1:
                if not v:
                    x = n
                (a, k), = x.d.items()
                if k > 0:
                    b = (-x.c) // k
                    if a.hi is None or b < a.hi:
                        a.hi = b
                else:
                    b = -((-x.c) // -k)      # a >= ceil(c / -k)
                    if a.lo is None or b > a.lo:
                        a.lo = b
        elif len(x.d) == 1:
            (a, k), = x.d.items()
            b = -x.c // k
            if v:
                a.lo = a.hi = b
            else:
                if a.lo == b:
                    a.lo = b + 1
                if a.hi == b:
                    a.hi = b - 1


class Nary(Bool):
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = cs

    def key(self):
        return (type(self).__name__,) + tuple(c.key() for c in self.cs)


class AndB(Nary):
    __slots__ = ()

    def z(self):
        return z3.And([c.z() for c in self.cs])

    def ev(self, m):
        return all(c.ev(m) for c in self.cs)

    def quick(self):
        r = True
        for c in self.cs:
            q = c.quick()
            if q is False:
                return False
            if q is None:
                r = None
        return r if r else TAB.known.get(self.key())

    def learn(self, v):
        if v:
            for c in self.cs:
                c.learn(True)
        else:
            TAB.known[self.key()] = v
            u = [c for c in self.cs if c.quick() is not True]
            if len(u) == 1:
                u[0].learn(False)


class OrB(Nary):
    __slots__ = ()

    def z(self):
        return z3.Or([c.z() for c in self.cs])

    def ev(self, m):
        return any(c.ev(m) for c in self.cs)

    def quick(self):
        r = False
        for c in self.cs:
            q = c.quick()
            if q is True:
                return True
            if q is None:
                r = None
        return r if r is False else TAB.known.get(self.key())

    def learn(self, v):
        if not v:
            for c in self.cs:
                c.learn(False)
        else:
            TAB.known[self.key()] = v
            u = [c for c in self.cs if c.quick() is not False]
            if len(u) == 1:
                u[0].learn(True)
            elif u:
                # all alternatives about one atom: its hull
                at = None
                los, his = [], []
                for c in u:
                    h = hull(c)
                    if h is None or (at is not None and h[0] is not at):
                        return
                    at = h[0]
                    los.append(h[1])
                    his.append(h[2])
                lo = None if None in los else min(los)
                hi = None if None in his else max(his)
                if lo is not None and (at.lo is None or lo > at.lo):
                    at.lo = lo
                if hi is not None and (at.hi is None or hi < at.hi):
                    at.hi = hi


def hull(c):
    """(atom, lo, hi) when c constrains exactly one atom with coefficient 1 / -1"""
    if type(c) is Cmp:
        if len(c.x.d) != 1:
            return None
        (a, k), = c.x.d.items()
        if abs(k) != 1:
            return None
        if c.op == '=':
            b = -c.x.c // k
            return a, b, b
        if k == 1:
            return a, a.lo, -c.x.c
        return a, c.x.c, a.hi
    if type(c) is AndB:
        at = None
        lo = hi = None
        for x in c.cs:
            h = hull(x)
            if h is None or (at is not None and h[0] is not at):
                return None
            at = h[0]
            if h[1] is not None:
                lo = h[1] if lo is None else max(lo, h[1])
            if h[2] is not None:
                hi = h[2] if hi is None else min(hi, h[2])
        return at, lo, hi
    return None


class NotB(Bool):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x

    def key(self):
        return ('not', self.x.key())

    def z(self):
        return z3.Not(self.x.z())

    def ev(self, m):
        return not self.x.ev(m)

    def quick(self):
        q = self.x.quick()
        return None if q is None else not q

    def learn(self, v):
        self.x.learn(not v)


def Not(c):
    if c is True or c is False:
        return not c
    if type(c) is NotB:
        return c.x
    if type(c) is Cmp and c.op == '<':
        return le0(1 - c.x)
    return NotB(c)


def _flat(cs):
    if len(cs) == 1 and isinstance(cs[0], (list, tuple)):
        return cs[0]
    return cs


def And(*cs):
    out = []
    for c in _flat(cs):
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else AndB(out)


def Or(*cs):
    out = []
    for c in _flat(cs):
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else OrB(out)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if type(c) is not bool:
        q = c.quick()
        if q is not None:
            c = q
    if c is True:
        return a
    if c is False:
        return b
    ka, kb = tkey(a), tkey(b)
    if ka == kb:
        return a
    l1, h1 = bounds(a)
    l2, h2 = bounds(b)
    lo = None if l1 is None or l2 is None else min(l1, l2)
    hi = None if h1 is None or h2 is None else max(h1, h2)
    return of(atom('if', ('if', c.key(), ka, kb), (c, a, b), lo, hi))


_funs = {}


def Function(name):
    f = _funs.get(name)
    if f is None:
        f = _funs[name] = z3.Function(name, z3.IntSort(), z3.IntSort())

    def app(x):
        return of(atom('app', ('app', name, tkey(x)), (f, x)))
    return app


def bz(c):
    if c is True or c is False:
        return z3.BoolVal(c)
    return c.z()


class Model(object):
    """a z3 model, evaluated in Python"""
    __slots__ = ('m', 'vals')

    def __init__(self, m):
        self.m = m
        self.vals = {}

    def lin(self, x):
        if type(x) is not Lin:
            return x
        s = x.c
        for a, k in x.d.items():
            s += k * self.atom(a)
        return s

    def atom(self, a):
        k = a.kind
        if k == 'c':
            v = self.vals.get(a.key)
            if v is None:
                r = self.m[a.z()]
                v = self.vals[a.key] = r.as_long() if r is not None else 0
            return v
        if k == 'if':
            c, x, y = a.args
            return self.lin(x) if c.ev(self) else self.lin(y)
        if k == 'div':
            return self.lin(a.args[0]) // a.args[1]
        if k == 'mod':
            return self.lin(a.args[0]) % a.args[1]
        if k == 'mul':
            return self.lin(a.args[0]) * self.lin(a.args[1])
        return self.m.eval(a.z(), model_completion=True).as_long()

    def ev(self, c):
        if c is True or c is False:
            return c
        return c.ev(self)


def is_t(x):
    return type(x) is Lin
