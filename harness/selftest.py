import functools, collections
class A: pass
@functools.lru_cache(maxsize=None)
def norm(x): return [x.lower()]
def f(S):
    x = S.bytes('x', 2)
    x = x.decode('latin-1')
    d = {x: 1, 'ab': 2}
    S.check(d['ab'] == 2, 'a')
    n = len(d)
    S.check((n == 1) == (x == 'ab'), 'n')
    d2 = {k: v for k, v in [(x, 1), ('zz', 5)]}
    d2['zz'] += 3
    S.check(d2['zz'] == 8, 'b')
    del d2[x]
    S.check(x not in d2, 'c')
    s = {x, 'q'}
    S.check('q' in s and x in s, 'd')
    a = A(); a.v = '%s-%s'
    a.v %= (x, 'k')
    y = '%s'
    y %= x
    S.check(y == x, 'e')
    dd = collections.defaultdict(list)
    dd[x].append(1)
    dd['ab'].append(1)
    S.check((len(dd) == 1) == (x == 'ab'), 'f')
    S.check(norm(x) is norm(x), 'g')
    o = collections.OrderedDict()
    o.update((k, v) for k, v in [('a', x), ('b', 2)])
    S.check(o['a'] == x, 'h')
    o.update((k, v) for k, v in [(x, 1), ('b', 2)])
    S.check(o[x] == 1, 'i')
    s = set(); s.update(k for k in (x, 'ab')); s.add('ab')
    S.check((len(s) == 1) == (x == 'ab'), 'j')
    S.check(len({k for k in (x, x)}) == 1, 'k')


def jobs(tier):
    return [('f', {})]
