from harness.common import fill, decode_line, split_lines, Src

COVERS = ['continuation', 'line without colon', 'latin-1 line', 'end of input inside headers', 'eof error',
          'blank status line', 'bad status line', 'long value']
BOUNDS = ('header-block templates with 1-4 arbitrary bytes (0..255) at every structural position, names and values '
          'of arbitrary length up to 2^20, every truncation point, every buffer block size')
OUTSIDE = 'blocks with more than one or two irregular places at once'
PROTOS = ['HTTP/1.0', 'HTTP/1.1', 'WARC/1.0']


def reference(S, data, verify):
    """(protocol, statusline, headers, consumed) by the statement; None: EOF; 'bad'"""
    lines = split_lines(data)
    if not lines:
        return None
    used = len(lines[0])
    first = decode_line(lines[0]).rstrip()
    if not first:
        S.cover('blank status line')
        return '', '', [], used
    if verify:
        proto = None
        for p in PROTOS:
            if first[:len(p)].upper() == p:
                proto = p
                rest = first[len(p):]
                break
        if proto is None:
            return 'bad'
        status = rest.strip()
    else:
        p = first.find(' ')
        if p < 0:
            proto, status = first, ''
        else:
            proto, status = first[:p], first[p + 1:].strip()
    headers = []
    drop = False
    started = False
    ended = False
    for raw in lines[1:]:
        used = used + len(raw)
        line = decode_line(raw).rstrip()
        if not line:
            ended = True
            break
        if started and (line[0] == ' ' or line[0] == '\t'):
            S.cover('continuation')
            if not drop:
                headers[-1] = (headers[-1][0], headers[-1][1] + line)
            continue
        started = True
        c = line.find(':')
        drop = c < 0
        if drop:
            S.cover('line without colon')
        else:
            headers.append((line[:c].rstrip(' \t'), line[c + 1:].lstrip()))
    if not ended:
        S.cover('end of input inside headers')
    return proto, status, headers, used


def parse(S, spec, verify, cutlen, small):
    from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeadersParserException
    from warcio.bufferedreaders import BufferedReader
    data = fill(S, spec)
    if cutlen:
        data = data[:S.int('cut', 0, cutlen)]
    if small:
        bs = S.int('bs', 1, small)
        stream = BufferedReader(S.BytesIO(data), block_size=bs)
    else:
        stream = S.BytesIO(data)
    want = reference(S, data, verify)
    parser = StatusAndHeadersParser(PROTOS, verify=bool(verify))
    try:
        got = parser.parse(stream)
    except EOFError:
        S.check(want is None, 'EOFError exactly on an empty stream')
        S.cover('eof error')
        return
    except StatusAndHeadersParserException as e:
        S.check(want == 'bad', 'status line is only rejected when it has no known prefix')
        S.check_eq(e.statusline, decode_line(split_lines(data)[0]), 'the exception carries the first line')
        S.cover('bad status line')
        return
    S.check(want is not None and want != 'bad', 'input must be rejected')
    proto, status, headers, used = want
    S.check_eq(got.protocol, proto, 'protocol')
    S.check_eq(got.statusline, status, 'status line')
    S.check_eq([list(h) for h in got.headers], [list(h) for h in headers], 'headers')
    rest = stream.read()
    S.check_eq(rest, data[used:], 'stream is left at the body')
    if isinstance(data, bytes) and len(data) > 0:
        pass
    if len(headers) and len(headers[0][1]) > 100:
        S.cover('long value')
    S.observe('headers', [list(h) for h in got.headers][:3] if len(data) < 200 else len(got.headers))


def latin(S, n):
    """a header line that is not UTF-8 is decoded as ISO-8859-1, others are not affected"""
    from warcio.statusandheaders import StatusAndHeadersParser
    a = S.bytes('a', n, ranges=((33, 57), (59, 126), (128, 255)))
    b = S.bytes('b', n, ranges=((33, 57), (59, 126), (128, 255)))
    data = b'HTTP/1.0 200 OK\r\nA: x' + a + b'\r\nB: y' + b + b'\r\n\r\n'
    got = StatusAndHeadersParser(['HTTP/1.0']).parse(S.BytesIO(data))
    for i, x in ((0, b'x' + a), (1, b'y' + b)):
        try:
            t = x.decode('utf-8')
        except UnicodeDecodeError:
            t = x.decode('latin-1')
            S.cover('latin-1 line')
        S.check_eq(got.headers[i][1], t.rstrip(), 'decoded value')


def jobs(tier):
    q = tier == 'quick'
    out = []

    def add(spec, verify=1, cutlen=0, small=0):
        out.append(('parse', dict(spec=spec, verify=verify, cutlen=cutlen, small=small)))
    k = 2 if q else 3
    end = '\r\nC: d\r\n\r\nbo'
    H = 'HTTP/1.0 200 OK\r\n'
    add([H + 'A', k, 'b' + end])
    add([H + 'A: b', k, 'c' + end])
    add([H, k, 'A: b\r\n c\r\nC:d\r\n\r\nbo'])
    add([H + 'A: b\r\n', k, 'B: c' + end])
    add([H + 'A: b\r\nB: c', k, '\r\nbo'])
    add([H + 'A: b\r\n\r\n', k])
    add([H + 'A : b: c \t\r\n\tcont: x\r\nBad\r\n more: y\r\nC: d', k])
    add(['HTTP/1.0', k, 'OK\r\nA: b\r\n\r\n'])
    add([k, '/1.1 200 OK\r\nA: b\r\n\r\n'])
    add([k, 'T 200 OK\r\nA: b\r\n\r\n'], verify=0)
    add([k + 1], verify=0)
    add([k + 1], verify=1)
    add(['HTTP/1.0 200\nA:', [k, k + 1, '9-10,13-13,32-32,58-58,65-66'], '\n ', [1, 2, '9-10,13-13,32-32,58-58,65-66'],
         'z\nB:c\n\nbo'])
    add([H + 'A: ', [0, 2 ** 20], '\r\n ', [0, 2 ** 20], '\r\nB:', [0, 2 ** 20], '\r\n\r\n', [0, 100]])
    add([H, [1, 2 ** 20], ':', [1, 2 ** 20], '\r\n', [1, 5], '\r\n', [1, 5], ': x\r\n\r\n', [0, 100]])
    full = H + 'A: b\r\n c\r\nBad\r\n x\r\nB : d:e\r\n\r\nbody'
    add([full], cutlen=len(full))
    add([full], cutlen=len(full), verify=0)
    add([full], small=60)
    add([H + 'A: b', 1, 'c' + end], small=60)
    add([H + 'A: ', [0, 40], end], small=70)
    out.append(('latin', dict(n=2 if q else 3)))
    if not q:
        add([H + 'A: b', 2, 'c' + end], small=60)
        add([H + 'A', 1, 'b\r\n', 2, 'C', 1, 'd\r\n\r\nbo'])
        add([H + 'A: b', 1, '\n', 2, 'c', 1, 'x\r\n\r\nbo'])
    return out
