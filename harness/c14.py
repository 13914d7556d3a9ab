COVERS = ['non-ascii value', 'ascii value', 'param encoded', 'filtered', 'utf-8 survives', 'empty value',
          'non-ascii status line', 'mixed text and params']
BOUNDS = ('1-3 headers; values are templates with up to 2 (thorough 3) arbitrary code points U+0020..U+10FFFF at any '
          'place, or ASCII text of arbitrary length; names, status lines and protocols with arbitrary characters; '
          'every header filter decision')
OUTSIDE = 'values containing line breaks or surrogates (not well-formed); more headers'
UNI = ((32, 0xd7ff), (0xe000, 0x10ffff))
PRINT = ((32, 126),)
TOKEN = ((33, 57), (59, 126))


def asc(S, t):
    try:
        return t.encode('ascii')
    except UnicodeEncodeError:
        return None


def check_ascii(S, out):
    try:
        out.decode('ascii')
    except UnicodeDecodeError:
        S.fail('serialised headers are pure ASCII')


def reparse(data):
    from io import BytesIO
    from warcio.statusandheaders import StatusAndHeadersParser
    return StatusAndHeadersParser(['HTTP/1.0', 'HTTP/1.1']).parse(BytesIO(data))


def text(S, nm, spec, rng):
    out = ''
    for i, p in enumerate(spec):
        if isinstance(p, str):
            out = out + p
        elif isinstance(p, int):
            out = out + S.str('%s_%d' % (nm, i), p, ranges=rng)
        else:
            out = out + S.text_blob('%s_%d' % (nm, i), p[0], p[1])
    return out


def value(S, spec, before, after):
    """one header with an arbitrary value between plain ones"""
    from warcio.statusandheaders import StatusAndHeaders
    v = text(S, 'v', spec, UNI)
    S.assume(v.strip() == v)
    hs = [('A', 'plain ' + before), ('X-Val', v), ('B', after)]
    h = StatusAndHeaders('200 OK', list(hs), protocol='HTTP/1.0')
    h.compute_headers_buffer()
    out = h.headers_buff
    check_ascii(S, out)
    got = reparse(out)
    S.check_eq(got.protocol, 'HTTP/1.0', 'protocol')
    S.check_eq(got.statusline, '200 OK', 'status line')
    S.check_eq([x[0] for x in got.headers], ['A', 'X-Val', 'B'], 'names and order')
    S.check_eq([got.headers[0][1], got.headers[2][1]], ['plain ' + before, after], 'other values unchanged')
    enc = got.headers[1][1]
    if asc(S, v) is not None:
        S.check_eq(enc, v, 'an ASCII value is unchanged')
        S.cover('ascii value')
    elif ';' not in v:
        S.check_eq(S.unquote(enc), v, 'decoding the encoded value gives the text')
        S.cover('non-ascii value')
    S.observe('out', enc)


def params(S, pre, quoted, post, n):
    """name="value" parameters are encoded one by one"""
    from warcio.statusandheaders import StatusAndHeaders
    x = S.str('x', n, ranges=((32, 33), (35, 38), (40, 58), (60, 0xd7ff), (0xe000, 0x10ffff)))
    S.assume(x.strip() == x)
    q = '"' if quoted else ''
    v = pre + 'filename=' + q + x + q + post
    h = StatusAndHeaders('200 OK', [('A', v)], protocol='HTTP/1.0')
    out = h.to_ascii_bytes()
    check_ascii(S, out)
    got = reparse(out).headers[0][1]
    if asc(S, v) is not None:
        S.check_eq(got, v, 'an ASCII value is unchanged')
        return
    if asc(S, pre + post) is None:
        S.check_eq(S.unquote(got), v, 'text outside parameters: the whole value is encoded')
        S.cover('mixed text and params')
        return
    S.check_eq(got, pre + "filename*=UTF-8''" + S.quote(x) + post, 'parameter value encoded as UTF-8')
    S.cover('param encoded')


def roundtrip(S, nh, nv):
    """well-formed ASCII block: same protocol, status line and header list"""
    from warcio.statusandheaders import StatusAndHeaders
    hs = []
    for i in range(nh):
        n = S.str('n%d' % i, 1, ranges=TOKEN) + S.text_blob('nb%d' % i, 0, 1000)
        v = S.str('v%d' % i, 0, nv, ranges=PRINT) + S.text_blob('vb%d' % i, 0, 100000)
        S.assume(v.strip() == v)
        if not v:
            S.cover('empty value')
        hs.append((n, v))
    st = S.str('st', 0, nv, ranges=PRINT) + S.text_blob('sb', 0, 1000)
    S.assume(st.strip() == st)
    h = StatusAndHeaders(st, list(hs), protocol='HTTP/1.1')
    out = h.to_ascii_bytes()
    check_ascii(S, out)
    got = reparse(out)
    S.check_eq(got.protocol, 'HTTP/1.1', 'protocol')
    S.check_eq(got.statusline, st, 'status line')
    S.check_eq([list(x) for x in got.headers], [list(x) for x in hs], 'header list')
    S.check_eq(h.to_bytes(), out, 'the UTF-8 form of ASCII headers is the same')
    if hs:
        S.check(got == StatusAndHeaders(st, list(hs), protocol='HTTP/1.1'), 'equal objects')


def statusline(S, n, where):
    """writing succeeds whatever the status line, the protocol and the names hold"""
    from warcio.statusandheaders import StatusAndHeaders
    x = S.str('x', n, ranges=((33, 57), (59, 0xd7ff), (0xe000, 0x10ffff)))
    st = 'OK' + x if where == 0 else 'OK'
    nm = 'N' + x if where == 1 else 'N'
    pr = 'HTTP/1.0' if where < 2 else 'G' + x
    h = StatusAndHeaders('200 ' + st, [(nm, 'v'), ('B', 'c')], protocol=pr)
    out = h.to_ascii_bytes()
    check_ascii(S, out)
    if asc(S, x) is None:
        S.cover('non-ascii status line')
        S.check(out.endswith(b'\r\nB: c\r\n\r\n'), 'the rest of the block is unchanged')
        if where != 1:
            S.check(b'\r\nN: v\r\n' in out, 'headers are unchanged')
    else:
        S.check_eq(out, (pr + ' 200 ' + st + '\r\n' + nm + ': v\r\nB: c\r\n\r\n').encode('ascii'), 'ASCII is unchanged')


def warc_utf8(S, n):
    """WARC headers carry any Unicode text"""
    from warcio.statusandheaders import StatusAndHeaders, StatusAndHeadersParser
    v = S.str('v', n, ranges=UNI)
    S.assume(v.strip() == v)
    h = StatusAndHeaders('', [('WARC-Type', 'x'), ('X', v), ('Y', 'z')], protocol='WARC/1.0')
    data = h.to_bytes(encoding='utf-8')
    got = StatusAndHeadersParser(['WARC/1.0', 'WARC/1.1']).parse(S.BytesIO(data))
    S.check_eq([list(x) for x in got.headers], [['WARC-Type', 'x'], ['X', v], ['Y', 'z']], 'headers survive')
    S.check_eq(got.protocol, 'WARC/1.0', 'protocol')
    S.cover('utf-8 survives')
    S.observe('v', got.headers[1][1])


def filtered(S, n, uni):
    """a header filter drops exactly what it rejects"""
    from warcio.statusandheaders import StatusAndHeaders
    rng = UNI if uni else PRINT
    hs = []
    for i in range(n):
        v = S.str('v%d' % i, 1, ranges=rng)
        S.assume(v.strip() == v)
        hs.append(('H%d' % i, 'v' + v))
    drop = [S.bool('d%d' % i) for i in range(n)]
    names = ['H%d' % i for i in range(n) if drop[i]]

    def flt(h):
        return None if h[0] in names else h
    full = StatusAndHeaders('200 OK', list(hs), protocol='HTTP/1.0')
    h = StatusAndHeaders('200 OK', list(hs), protocol='HTTP/1.0')
    out = h.to_ascii_bytes(flt)
    check_ascii(S, out)
    ref = reparse(full.to_ascii_bytes()).headers
    S.check_eq([list(x) for x in reparse(out).headers], [list(ref[i]) for i in range(n) if not drop[i]],
               'exactly the rejected headers are dropped')
    S.check_eq([x[0] for x in h.headers], [x[0] for x in hs], 'the header list itself keeps all headers')
    if names:
        S.cover('filtered')


def jobs(tier):
    q = tier == 'quick'
    out = []
    k = 2 if q else 3
    for spec in ([k], [[0, 20], 1, [0, 20]], ['a%', 2], ['a%4', 2], ['%2f', 1], ['a; b=c', k], [1, '; b="', 1, '"; c=', 1], [1, ';', 1]):
        out.append(('value', dict(spec=spec, before='x', after='y; z="1"')))
    for pre in ('attachment; ', 'inline;', 'a=b; ', u'\xe9; '):
        for quoted in (0, 1):
            for post in ('', '; x=y' if not q else ';'):
                if 'a=b' in pre or '=' in post:
                    continue
                out.append(('params', dict(pre=pre, quoted=quoted, post=post, n=1 if pre[0] > 'z' and q else 2)))
    out.append(('roundtrip', dict(nh=1, nv=2)))
    out.append(('roundtrip', dict(nh=2, nv=1)))
    out.append(('roundtrip', dict(nh=0, nv=2)))
    if not q:
        out.append(('value', dict(spec=[[0, 1000], 1, [0, 1000]], before='x', after='y; z="1"')))
        out.append(('roundtrip', dict(nh=3, nv=1)))
        out.append(('roundtrip', dict(nh=1, nv=4)))
    for w in (0, 1, 2):
        out.append(('statusline', dict(n=1, where=w)))
        out.append(('statusline', dict(n=2, where=w)))
    out.append(('warc_utf8', dict(n=k)))
    out.append(('filtered', dict(n=2, uni=0)))
    out.append(('filtered', dict(n=2, uni=1)))
    out.append(('filtered', dict(n=3, uni=0)))
    return out
