import base64
from harness.common import fill, num

COVERS = ['fails', 'all pass', 'cannot load', 'missing file', 'several inputs', 'verbose', 'failing not last', 'gzip',
          'no digest', 'revisit', 'multi-record gzip', 'encoded payload', 'two failing in a file', 'cut off']
BOUNDS = ('1 to 3 (thorough 4) input files of 1 to 3 records each in every listed order; records with right, wrong (also depending on '
          'arbitrary bytes), unknown or no block and payload digests, revisits, chunked or gzip-encoded payloads with bytes after their end; '
          'files that are not WARC, start right and continue wrong, hold several records in one gzip member, are cut off or do not exist; '
          'content of arbitrary length up to 3000 (up to 60 with several records); verbose or not; through the command line entry point')
OUTSIDE = 'remote (fsspec) inputs; wording of the output beyond file name, offset and the problems of the digest checker'


def dig(S, data):
    return b'sha1:' + base64.b32encode(S.digest('sha1', data))


def rec(S, kind, nm, rng):
    """(bytes, number of problems expected)"""
    rtype, http, pay, bd, pd, bad = b'resource', b'', None, None, None, 0
    small = (rng[0], min(rng[1], 300))
    cut = False
    if kind == 'cut':
        cut, kind = True, 'bwrong'
    k = kind.split('.')
    if k[0] == 'chunk':
        rtype, http = b'response', b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
        pay = b'3\r\nabc\r\n0\r\n\r\n' + S.blob(nm, *small)
    elif k[0] == 'gz':
        rtype, http = b'response', b'HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\n\r\n'
        pay = S.gzip(b'abc') + S.blob(nm, *small)
    elif k[0] == 'resp':
        rtype, http = b'response', b'HTTP/1.1 200 OK\r\nA: b\r\n\r\n'
    elif k[0] == 'rev':
        rtype = b'revisit'
    if pay is None:
        pay = S.blob(nm, *rng)
    block = http + pay
    what = k[-1]
    if what in ('bok', 'ok'):
        bd = dig(S, block)
    if what in ('pok', 'ok'):
        pd = dig(S, pay)
    if what in ('bwrong', 'wrong'):
        bd = dig(S, block + b'!')
        bad += 1
    if what in ('pwrong', 'wrong'):
        pd = dig(S, pay + b'!')
        bad += 1
    if what == 'alg':
        bd, bad = b'nohash:x', 1
    if what == 'sym':
        # wrong or right, depending on the bytes
        x = S.bytes(nm + 'y', 1)
        block = pay = S.bytes(nm + 'z', 1)
        pd = dig(S, x)
        bad = 0 if x == pay else 1
    if k[0] == 'rev':
        bad = 0
        S.cover('revisit')
    if what == 'no':
        S.cover('no digest')
    if k[0] in ('chunk', 'gz'):
        S.cover('encoded payload')
    out = b'WARC/1.0\r\nWARC-Type: ' + rtype + b'\r\nWARC-Record-ID: <id:' + nm.encode('latin-1') + b'>\r\nWARC-Target-URI: http://x/\r\n'
    if bd:
        out = out + b'WARC-Block-Digest: ' + bd + b'\r\n'
    if pd:
        out = out + b'WARC-Payload-Digest: ' + pd + b'\r\n'
    if cut:
        S.cover('cut off')
        return out + b'Content-Length: ' + num(len(block) + 1000) + b'\r\n\r\n' + block, bad
    return out + b'Content-Length: ' + num(len(block)) + b'\r\n\r\n' + block + b'\r\n\r\n', bad


def check_files(S, files, gz=0, verbose=0):
    """files: list of lists of record kinds, or 'missing'/'junk'"""
    from warcio.cli import main
    names, expect, loaded_bad = [], [], []
    one = len(files) == 1 and len([k for k in files[0] if k not in ('multi', 'broken')]) == 1
    for i, ks in enumerate(files):
        nm = 'f%d.warc' % i
        if ks == 'missing':
            names.append(S.path(nm))
            expect.append([])
            loaded_bad.append(True)
            S.cover('missing file')
            continue
        if ks == 'junk':
            names.append(S.put_file(nm, b'not a warc ' + S.blob(nm, 0, 300 if len(files) == 1 else 0) + b'\r\n'))
            expect.append([])
            loaded_bad.append(True)
            S.cover('cannot load')
            continue
        data, off, fails = b'', 0, []
        multi = ks[0] == 'multi'
        broken = ks[-1] == 'broken'
        use = [k for k in ks if k not in ('multi', 'broken')]
        for j, k in enumerate(use):
            b, bad = rec(S, k, 'p%d%d' % (i, j), (0, 3000) if one else (1, 60))
            if bad and not (multi and j):
                fails.append((off, bad, '<id:p%d%d>' % (i, j)))
            if gz and not multi:
                b = S.gzip(b)
            data, off = data + b, off + len(b)
        if broken:
            data = data + (S.gzip(b'junk first line\r\n') if gz else b'junk first line\r\n')
            S.cover('cannot load')
        if multi:
            data = S.gzip(data)
            S.cover('multi-record gzip')
        names.append(S.put_file(nm, data))
        expect.append(fails)
        loaded_bad.append(broken or multi)
        if len(fails) > 1:
            S.cover('two failing in a file')
        if fails and fails[-1][0] + 1 < off and (i + 1 < len(files) or fails[-1][2][-2] != str(len(use) - 1)):
            S.cover('failing not last')
    args = ['check'] + (['-v'] if verbose else []) + names
    res = S.run(lambda: main(args))
    S.check(res.exc is None, 'nothing is raised: %r' % (res.exc,))
    bad = any(loaded_bad) or any(expect)
    S.check_eq(res.status, 1 if bad else 0, 'exit status')
    S.cover('fails' if any(expect) else 'all pass' if not bad else 'cannot load')
    # group the output by file
    lines = res.text.split('\n')
    cur, seen = None, [[] for _ in names]
    reported = [False for _ in names]
    inrec = False
    for line in lines:
        if line in names:
            cur = names.index(line)
            inrec = False
            reported[cur] = True
        elif line.startswith('  offset '):
            seen[cur].append([line, []])
            inrec = True
        elif line.startswith('    ') and inrec:
            seen[cur][-1][1].append(line)
        elif line:
            inrec = False
            S.check(cur is not None, 'output belongs to a file: ' + line)
    for i in range(len(names)):
        if loaded_bad[i]:
            S.check(reported[i], 'a file that cannot be loaded is reported')
        fails = expect[i]
        got = [x for x in seen[i] if any('digest failed' in p or 'unknown hash' in p for p in x[1])]
        S.check_eq(len(got), len(fails), 'failing records listed')
        for (off, n, rid), (line, probs) in zip(fails, got):
            S.check(line.startswith('  offset ' + str(off) + ' '), 'offset of the failing record')
            S.check(rid in line, 'id of the failing record')
            S.check_eq(len(probs), n, 'all problems listed')
        if not verbose:
            S.check_eq(len(seen[i]), len(fails), 'only failing records are listed')
    if verbose:
        S.cover('verbose')
    if len(names) > 1:
        S.cover('several inputs')
    if gz:
        S.cover('gzip')
    S.observe('status', res.status)


def jobs(tier):
    q = tier == 'quick'
    out = []

    def o(files, **kw):
        out.append(('check_files', dict(files=files, **kw)))
    single = [['ok'], ['wrong'], ['pwrong'], ['bwrong'], ['alg'], ['no'], ['rev.wrong'], ['resp.ok'], ['resp.wrong'], ['resp.pwrong'],
              ['chunk.ok'], ['chunk.wrong'], ['gz.ok'], ['gz.wrong'], ['chunk.bwrong'], ['gz.pwrong'], ['sym'], ['cut'],
              ['ok', 'wrong'], ['wrong', 'ok'], ['ok', 'pwrong', 'ok'], ['resp.wrong', 'no', 'alg'], ['chunk.wrong', 'gz.ok', 'resp.bwrong'],
              ['sym', 'sym'], ['wrong', 'rev.wrong'], ['ok', 'cut'], ['wrong', 'ok', 'ok']]
    for s in single:
        for gz in (0, 1):
            for v in (0, 1):
                o([s], gz=gz, verbose=v)
    bad = ['missing', 'junk', ['multi', 'ok', 'ok'], ['multi', 'wrong', 'ok'], ['ok', 'broken'], ['wrong', 'broken']]
    for b in bad:
        for v in (0, 1):
            for gz in (0, 1):
                o([b], verbose=v, gz=gz)
                o([b, ['ok']], verbose=v, gz=gz)
                o([['ok'], b, ['wrong']], verbose=v, gz=gz)
                o([b, 'junk' if b == 'missing' else 'missing', ['wrong', 'ok']], verbose=v, gz=gz)
    for v in (0, 1):
        for fs in ([['ok'], ['wrong'], ['ok']], [['wrong'], ['ok']], [['ok'], ['ok'], ['no']], [['sym'], ['sym']], [['resp.wrong', 'ok'], ['no'], ['chunk.pwrong']]):
            o(fs, verbose=v)
            o(fs, verbose=v, gz=1)
    if not q:
        for a in single:
            for b in single[:9] + bad:
                o([a, b], verbose=0)
                o([b, a, ['ok'], a], verbose=1, gz=1)
    return out
