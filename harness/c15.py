import base64
from harness.common import fill, num, split_lines

COVERS = ['passed', 'failed', 'neither', 'block', 'payload', 'both', 'revisit', 'segment', 'unknown algorithm', 'raise', 'log',
          'off', 'http', 'empty block', 'empty payload', 'cut off', 'one character', 'base16 lower', 'base64 url', 'unread',
          'malformed value', 'not parsed']
BOUNDS = ('resource, response (with and without HTTP headers), revisit and segment records, block content of arbitrary length up to '
          '8000 or up to 3 arbitrary bytes, also cut off by the end of the file; block and payload digest each absent, right, of '
          'other content (arbitrary bytes), of unknown or no algorithm, malformed; md5, sha1, sha256, sha512 in base32, base16 '
          '(both cases), base64 and url-safe base64, with one arbitrary alphanumeric character in place of any one, shortened or '
          'extended; modes True, raise, log, off; read at once, in two parts of any size, by lines, not at all, via the content stream; plain and gzip')
OUTSIDE = ('the hash functions (uninterpreted and collision-free), hash algorithms without a fixed digest size (shake); base64 values '
           'with characters outside the alphabet; problem texts')
HEAD = b'HTTP/1.0 200 OK\r\nContent-Type: text/plain\r\n\r\n'


def encode(d, enc):
    if enc == 'b32':
        return base64.b32encode(d).decode('latin-1')
    if enc == 'b16':
        return base64.b16encode(d).decode('latin-1')
    if enc == 'b16l':
        return base64.b16encode(d).decode('latin-1').lower()
    if enc == 'b64':
        return base64.b64encode(d).decode('latin-1')
    return base64.urlsafe_b64encode(d).decode('latin-1')


def text(S, kind, nm, content, algo, enc):
    """(digest text or None, does it match, is it of unknown algorithm)"""
    if kind == 'no':
        return None, None
    if kind == 'ok':
        return algo + ':' + encode(S.digest(algo, content), enc), True
    if kind == 'other':
        other = S.bytes(nm, 1)
        return algo + ':' + encode(S.digest(algo, other), enc), bool(other == content)
    if kind == 'wrong':
        return algo + ':' + encode(S.digest(algo, content + b'!'), enc), False
    if kind == 'alg':
        return 'nohash:' + encode(S.digest('sha1', content), enc), False
    if kind == 'noalg':
        return encode(S.digest('sha1', content), enc), False
    if kind == 'short':
        return algo + ':' + encode(S.digest(algo, content), enc)[:-1 - S.pick(nm, 3)].rstrip('='), False
    if kind == 'long':
        return algo + ':' + encode(S.digest(algo, content), enc).rstrip('=') + 'A', False
    if kind == 'bad':
        S.cover('malformed value')
        return algo + ':' + S.str(nm, 0, 5, ranges=((65, 90), (97, 122))), False
    if kind == 'badhex':
        S.cover('malformed value')
        return algo + ':' + 'Z' * (2 * len(S.digest(algo, content))), False
    # one arbitrary character in place of one
    good = encode(S.digest(algo, content), enc)
    i = int(kind)
    c = S.str(nm, 1, ranges=((48, 57), (65, 90), (97, 122)))
    S.cover('one character')
    same = c == good[i] or enc[:3] == 'b16' and (c.lower() == good[i].lower())
    return algo + ':' + good[:i] + c + good[i + 1:], bool(same)


def verify(S, rtype, uri, body, bk, pk, algo='sha1', enc='b32', mode=True, read='all', seg=0, gz=0, cut=0, second=0, noparse=0, head=HEAD):
    from warcio.archiveiterator import ArchiveIterator
    from warcio.exceptions import ArchiveLoadFailed
    payload = fill(S, body, 'p')
    http = rtype in ('response', 'revisit') and uri.startswith('http:')
    head = head if http else b''
    block = head + payload
    if http and noparse:
        S.cover('not parsed')
    if http:
        S.cover('http')
    btext, bok = text(S, bk, 'bd', block, algo, enc)
    ptext, pok = text(S, pk, 'pd', payload, algo, enc)
    data = b'WARC/1.0\r\nWARC-Type: ' + rtype.encode('latin-1') + b'\r\nWARC-Target-URI: ' + uri.encode('latin-1') + b'\r\n'
    if btext is not None:
        data = data + b'WARC-Block-Digest: ' + btext.encode('latin-1') + b'\r\n'
    if ptext is not None:
        data = data + b'warc-payload-digest: ' + ptext.encode('latin-1') + b'\r\n'
    if seg:
        data = data + b'WARC-Segment-Number: 1\r\n'
    n = len(block)
    if cut:
        # the file ends before the block does: the digest is of what is there
        n = n + S.int('missing', 1, 5000)
        S.cover('cut off')
    data = data + b'Content-Length: ' + num(n) + b'\r\n\r\n' + block
    if not cut:
        data = data + b'\r\n\r\n'
    if second:
        data = data + b'WARC/1.0\r\nWARC-Type: metadata\r\nContent-Length: 0\r\n\r\n\r\n\r\n'
    if gz:
        data = S.gzip(data)
    if rtype == 'revisit':
        bok = pok = None
        S.cover('revisit')
    if seg:
        pok = None
        S.cover('segment')
    if noparse and http and len(block) and pk not in ('alg', 'noalg'):
        pok = None
    if not mode:
        bok = pok = None
        S.cover('off')
    want = False if bok is False or pok is False else True if bok or pok else None
    fails = (bok is False) + (pok is False)
    state = []

    def go():
        it = ArchiveIterator(S.BytesIO(data), check_digests=mode, no_record_parse=bool(noparse))
        n = 0
        for r in it:
            n += 1
            if n > 1:
                S.check(r.digest_checker.passed is None, 'the record after it is not affected')
                continue
            state.append(r)
            st = r.raw_stream
            if read == 'all':
                st.read()
                st.read()
            elif read == 'two':
                st.read(S.int('r1', 0, 9000))
                st.read(S.int('r2', 0, 9000))
                st.read()
                st.read(10)
            elif read == 'lines':
                while st.readline():
                    pass
            elif read == 'content':
                S.check_eq(r.content_stream().read(), (block if noparse else payload), 'content')
                r.content_stream().read()
            else:
                S.cover('unread')
        return n
    res = S.run(go)
    if mode == 'raise':
        if fails:
            S.check(isinstance(res.exc, ArchiveLoadFailed), 'a mismatch raises')
        else:
            S.check(res.exc is None, 'no mismatch, nothing raised')
        S.cover('raise')
        S.observe('v', [fails > 0])
        return
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    S.check_eq(res.value, 1 + second, 'number of records')
    c = state[0].digest_checker
    S.check(c.passed is want, 'verdict %r, expected %r' % (c.passed, want))
    S.check_eq(len(c.problems), fails, 'one problem per failing digest')
    for p in c.problems:
        S.check(('block' in p) or ('payload' in p), 'the problem names the digest')
    S.check_eq(sum(['block digest' in p for p in c.problems]), int(bok is False), 'block problems')
    if mode == 'log':
        S.cover('log')
        S.check_eq(res.err, ''.join([p + '\n' for p in c.problems]), 'problems on stderr')
    else:
        S.check_eq(res.err, '', 'nothing on stderr')
    S.cover('passed' if want else 'neither' if want is None else 'failed')
    S.cover('both' if bok is not None and pok is not None else 'block' if bok is not None else 'payload')
    if bk == 'alg' or pk == 'noalg':
        S.cover('unknown algorithm')
    if not len(block):
        S.cover('empty block')
    elif http and not len(payload):
        S.cover('empty payload')
    if enc == 'b16l':
        S.cover('base16 lower')
    if enc == 'b64u':
        S.cover('base64 url')
    S.observe('v', [c.passed, len(c.problems)])


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(rtype='resource', uri='http://x/', body=None, bk='no', pk='no', **kw):
        kw = dict(rtype=rtype, uri=uri, body=body or [[0, 3000]], bk=bk, pk=pk, **kw)
        out.append(('verify', kw))
    KS = ['no', 'ok', 'wrong', 'alg', 'noalg', 'badhex']
    for bk in KS:
        for pk in KS:
            o('response', bk=bk, pk=pk)
            o('resource', bk=bk, pk=pk)
    for bk in ('no', 'ok', 'other'):
        for pk in ('no', 'ok', 'other'):
            o('response', 'dns:x', [0], bk, pk)
            o('resource', body=[1], bk=bk, pk=pk, second=1)
            o('response', body=[1], bk=bk, pk=pk)
            for mode in ('raise', 'log', False):
                o('response', bk=bk, pk=pk, mode=mode)
                o('resource', bk=bk, pk=pk, mode=mode)
            for read in ('two', 'lines', 'no', 'content'):
                o('response', bk=bk, pk=pk, read=read, second=1)
                o('resource', bk=bk, pk=pk, read=read)
                o('response', body=[[0, 20], '\n', [0, 20]], bk=bk, pk=pk, read=read)
            o('revisit', bk=bk, pk=pk)
            o('revisit', 'dns:x', bk=bk, pk=pk, mode='raise')
            o('response', bk=bk, pk=pk, seg=1)
            o('response', bk=bk, pk=pk, gz=1)
            o('response', bk=bk, pk=pk, noparse=1)
            o('resource', bk=bk, pk=pk, noparse=1)
            o('response', bk=bk, pk=pk, cut=1)
            o('resource', bk=bk, pk=pk, cut=1, read='no', gz=1)
    for mode in ('raise', 'log'):
        for k in ('alg', 'noalg', 'badhex', 'wrong'):
            o('response', bk=k, pk='ok', mode=mode)
            o('response', bk='ok', pk=k, mode=mode)
    for algo, n in (('md5', 16), ('sha1', 20), ('sha256', 32), ('sha512', 64)):
        for enc in ('b32', 'b16', 'b16l', 'b64', 'b64u'):
            ln = len(encode(b'x' * n, enc).rstrip('=')) - 1
            for k in ('ok', 'wrong', 'other', 'short', 'bad', '0', str(ln // 2)) + (() if enc == 'b64' else ('long',)):
                o('resource', bk=k, algo=algo, enc=enc)
                if not q or k in ('ok', 'wrong'):
                    o('response', pk=k, algo=algo, enc=enc)
            if not q:
                for i in range(ln):
                    o('resource', bk=str(i), algo=algo, enc=enc)
    if not q:
        for bk in KS + ['other']:
            for pk in KS + ['other']:
                for read in ('all', 'two', 'lines', 'no', 'content'):
                    for rt in ('response', 'resource'):
                        for body in ([[0, 20000]], [2], [1, '\n', 1]):
                            o(rt, bk=bk, pk=pk, read=read, body=body, second=1, gz=rt == 'response')
                            o(rt, bk=bk, pk=pk, read=read, body=body, cut=1)
    return out
