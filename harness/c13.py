COVERS = ['get hit', 'get miss', 'replace hit', 'replace appended', 'remove hit', 'remove miss', 'two matches',
          'case differs', 'code kept', 'line replaced', 'range', 'range replaces', 'equal', 'different']
BOUNDS = ('header lists of 0-3 (thorough 0-4) headers whose names are arbitrary strings of 1-2 characters '
          '(ASCII and Latin-1 letters), values distinct; sequences of up to 2 (3) operations with arbitrary names; status lines that '
          'begin with up to 3 (thorough 4) arbitrary characters; ranges of any numbers up to 10000; comparison of any two such collections')
OUTSIDE = 'longer names, longer lists; a range added where one of its headers is repeated; status codes written with signs, underscores, white space or other digits than 0-9'
NAMES = ((65, 67), (97, 99), (45, 45), (192, 193), (224, 225))


def same(a, b):
    return a.lower() == b.lower()


def step(S, h, model, op, name, i):
    """one operation against the model list; returns the new model"""
    hits = [k for k in range(len(model)) if same(model[k][0], name)]
    if len(hits) > 1:
        S.cover('two matches')
    if op in ('get', 'item', 'getd'):
        if op == 'getd':
            got = h.get_header(name, 'DEF')
        elif op == 'item':
            got = h[name]
        else:
            got = h.get_header(name)
        if hits:
            S.check_eq(got, model[hits[0]][1], 'lookup returns the first matching header')
            S.cover('get hit')
            if not model[hits[0]][0] == name:
                S.cover('case differs')
            S.check((name in h) == bool(model[hits[0]][1]), 'membership')
        else:
            S.check_eq(got, 'DEF' if op == 'getd' else None, 'lookup of an absent header gives the default')
            S.cover('get miss')
            S.check(name not in h, 'membership of an absent header')
        S.check_eq(h.get(name, 'Z'), model[hits[0]][1] if hits else 'Z', 'get() is the same lookup')
        new = model
    elif op in ('replace', 'setitem'):
        val = 'new%d' % i
        if op == 'replace':
            old = h.replace_header(name, val)
        else:
            h[name] = val
        new = list(h.headers)
        if hits:
            S.check(len(new) == len(model), 'replace keeps the number of headers')
            diff = [k for k in range(len(model)) if new[k][1] != model[k][1]]
            S.check(len(diff) == 1 and diff[0] in hits, 'replace changes exactly one matching header')
            S.check_eq(new[diff[0]][1], val, 'replace sets the new value')
            if op == 'replace':
                S.check_eq(old, model[diff[0]][1], 'replace returns the old value')
            for k in range(len(model)):
                S.check_eq(new[k][0], model[k][0], 'replace keeps names and order')
            S.cover('replace hit')
        else:
            if op == 'replace':
                S.check_eq(old, None, 'replace of an absent header returns None')
            S.check_eq([list(x) for x in new], [list(x) for x in model] + [[name, val]], 'replace appends')
            S.cover('replace appended')
    elif op in ('remove', 'delitem'):
        if op == 'remove':
            got = h.remove_header(name)
            S.check(got is bool(hits), 'remove tells whether it removed')
        else:
            del h[name]
        new = list(h.headers)
        if hits:
            S.check(len(new) == len(model) - 1, 'remove deletes exactly one header')
            gone = [k for k in range(len(model)) if model[k][1] not in [x[1] for x in new]]
            S.check(len(gone) == 1 and gone[0] in hits, 'remove deletes a matching header')
            S.check_eq([list(x) for x in new], [list(x) for k, x in enumerate(model) if k != gone[0]],
                       'remove keeps all others')
            S.cover('remove hit')
        else:
            S.check_eq([list(x) for x in new], [list(x) for x in model], 'remove of an absent header changes nothing')
            S.cover('remove miss')
    else:
        h.add_header(name, 'new%d' % i)
        new = [tuple(x) for x in model] + [(name, 'new%d' % i)]
    S.check_eq([list(x) for x in h.headers], [list(x) for x in new], 'headers are as modelled')
    return list(h.headers)


def ops(S, n, seq, nlen, full):
    from warcio.statusandheaders import StatusAndHeaders
    rng = ((33, 57), (59, 126), (161, 255)) if full else NAMES
    model = [(S.str('n%d' % i, nlen, ranges=rng), 'v%d' % i) for i in range(n)]
    h = StatusAndHeaders('200 OK', list(model), protocol='HTTP/1.0')
    for i, op in enumerate(seq):
        name = S.str('q%d' % i, nlen, ranges=rng)
        model = step(S, h, model, op, name, i)
    S.check_eq(h.statusline, '200 OK', 'status line untouched')
    S.observe('headers', [list(x) for x in h.headers])


def words(S, n, seq):
    """names as they occur in practice, in any letter case"""
    from warcio.statusandheaders import StatusAndHeaders
    base = ['WARC-Type', 'Content-Length', 'content-length']
    model = []
    for i in range(n):
        w = S.choice('w%d' % i, base)
        model.append((anycase(S, 'c%d' % i, w), 'v%d' % i))
    h = StatusAndHeaders('', list(model))
    for i, op in enumerate(seq):
        name = anycase(S, 'q%d' % i, S.choice('qw%d' % i, base[:2]))
        model = step(S, h, model, op, name, i)


def anycase(S, nm, w):
    out = ''
    for i, c in enumerate(w):
        if i < 2 and c.isalpha():
            x = S.str('%s_%d' % (nm, i), 1, ranges=((ord(c.upper()), ord(c.upper())), (ord(c.lower()), ord(c.lower()))))
            out = out + x
        else:
            out = out + c
    return out


def empty(S):
    """values may be empty"""
    from warcio.statusandheaders import StatusAndHeaders
    h = StatusAndHeaders('', [('A', ''), ('a', 'x'), ('B', '')])
    S.check_eq(h.get_header('a', 'D'), '', 'an empty value is a value')
    S.check_eq(h.replace_header('b', 'y'), '', 'old empty value')
    S.check_eq(h.get_header('B'), 'y', 'replaced')
    S.check(h.remove_header('c') is False, 'absent')


def status(S, n, tail, rng=None, pre=''):
    """status line = n arbitrary characters and a tail"""
    from warcio.statusandheaders import StatusAndHeaders
    w = pre + S.str('w', n, ranges=rng or ((32, 126), (160, 255)))
    line = w + tail
    h = StatusAndHeaders(line, [('A', 'b')], protocol='HTTP/1.0')
    word = line.split(' ')[0]
    S.check_eq(h.get_statuscode(), word, 'the code is the first word')
    ok = h.validate_statusline('204 No Content')
    digits, odd = len(word) > 0, False
    zero = True
    for c in word:
        if not '0' <= c <= '9':
            digits = False
            if c in '+_' or ord(c) > 127:
                odd = True
        elif c != '0':
            zero = False
    if digits and not zero:
        S.check(ok is True, 'a number is a code')
        S.check_eq(h.statusline, line, 'a valid status line is kept')
        S.cover('code kept')
    elif not odd:
        S.check(ok is False, 'not a code')
        S.check_eq(h.statusline, '204 No Content', 'the status line is replaced')
        S.cover('line replaced')
    S.check_eq([tuple(x) for x in h.headers], [('A', 'b')], 'no header changes')
    S.check_eq(h.protocol, 'HTTP/1.0', 'the protocol stays')


def rangeof(S, names, hi):
    """a partial response"""
    from warcio.statusandheaders import StatusAndHeaders
    start, n, total = S.int('start', 0, hi), S.int('n', 1, hi), S.int('total', 1, hi)
    model = [(nm, 'v%d' % i) for i, nm in enumerate(names)]
    h = StatusAndHeaders('200 OK', list(model), protocol='HTTP/1.1')
    got = h.add_range(start, n, total)
    S.check(got is h, 'returns the headers')
    new = [('content-range', 'bytes %d-%d/%d' % (start, start + n - 1, total)), ('content-length', '%d' % n), ('accept-ranges', 'bytes')]
    rest = list(h.headers)
    for nm, val in new:
        S.check_eq(h.get_header(nm), val, nm)
        if nm in [x.lower() for x in names]:
            k = [x.lower() for x in names].index(nm)
            model[k] = (names[k], val)
            S.cover('range replaces')
        else:
            model.append((None, val))
    S.check_eq(len(rest), len(model), 'number of headers')
    for (a, b), (c, d) in zip(rest, model):
        S.check_eq(b, d, 'values')
        if c is not None:
            S.check_eq(a, c, 'names stay')
    S.check_eq(h.statusline, '206 Partial Content', 'status')
    S.check_eq(h.protocol, 'HTTP/1.1', 'the protocol stays')
    S.cover('range')


def equality(S, n, m):
    """equal exactly when all parts are"""
    from warcio.statusandheaders import StatusAndHeaders
    parts = []
    for k, cnt in (('a', n), ('b', m)):
        st = S.str(k + 's', 1, ranges=((65, 67),))
        pr = S.str(k + 'p', 1, ranges=((65, 67),))
        hd = [(S.str('%sn%d' % (k, i), 1, ranges=((65, 66), (97, 98))), S.str('%sv%d' % (k, i), 1, ranges=((65, 66),))) for i in range(cnt)]
        parts.append((st, pr, hd))
    a, b = [StatusAndHeaders(st, list(hd), protocol=pr) for st, pr, hd in parts]
    same = parts[0][0] == parts[1][0] and parts[0][1] == parts[1][1] and n == m
    if same:
        for x, y in zip(parts[0][2], parts[1][2]):
            if not (x[0] == y[0] and x[1] == y[1]):
                same = False
    S.check((a == b) is bool(same), 'equality')
    S.check((a != b) is (not same), 'inequality')
    S.check(not (a == None) and a != None, 'not equal to nothing')
    S.check(bool(a), 'with a status line or headers it is true')
    S.check(not StatusAndHeaders('', [], protocol=parts[0][1]), 'without any it is not')
    S.check(bool(StatusAndHeaders('', [('A', 'b')])) and bool(StatusAndHeaders('x', [])), 'one of them is enough')
    S.cover('equal' if same else 'different')


def jobs(tier):
    q = tier == 'quick'
    O = ['get', 'item', 'getd', 'replace', 'setitem', 'remove', 'delitem', 'add']
    out = [('empty', {})]
    for op in O:
        for n in (0, 1, 2, 3) + (() if q else (4,)):
            out.append(('ops', dict(n=n, seq=[op], nlen=1, full=0)))
        out.append(('ops', dict(n=2, seq=[op], nlen=1, full=1)))
        out.append(('ops', dict(n=2, seq=[op], nlen=2, full=0)))
        out.append(('words', dict(n=2, seq=[op])))
    for n in (1, 2, 3) + (() if q else (4,)):
        for tail in ('', ' OK', ' 2 OK'):
            out.append(('status', dict(n=n, tail=tail)))
        out.append(('status', dict(n=n, tail=' OK', rng=[[48, 57]])))
    out.append(('status', dict(n=2, tail='0 OK', pre='2')))
    out.append(('status', dict(n=0, tail='')))
    out.append(('status', dict(n=0, tail=' ')))
    for names in ([], ['A'], ['content-length'], ['Content-Length', 'Content-Range', 'X', 'ACCEPT-RANGES'], ['accept-ranges', 'A', 'a', 'CONTENT-length']):
        out.append(('rangeof', dict(names=names, hi=10000)))
    for a, b in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2)):
        out.append(('equality', dict(n=a, m=b)))
    M = ['get', 'replace', 'remove', 'add', 'setitem', 'delitem']
    for a in M:
        for b in M[:4]:
            out.append(('ops', dict(n=1, seq=[a, b], nlen=1, full=0)))
            if not q:
                out.append(('ops', dict(n=2, seq=[a, b], nlen=1, full=0)))
                for c in M[:4]:
                    out.append(('ops', dict(n=1, seq=[a, b, c], nlen=1, full=0)))
    return out
