from harness.arch import layout
from harness.common import fill

COVERS = ['index', 'check', 'extract', 'recompress', 'done', 'failed', 'refused', 'other output', 'plain', 'gzip', 'one piece', 'cut', 'no archive', 'arc',
          'two inputs', 'existing output', 'missing', 'verbose', 'link', 'other spelling']
BOUNDS = ('files of 1 to 3 records (WARC and ARC, content of arbitrary length up to 2000), plain, gzipped per record or in one piece, cut at any position, or with 3 (thorough 4) arbitrary '
          'bytes (not a gzip header); one or two inputs; every tool and option, output new, existing or one of the inputs (also as a link or spelled otherwise); any offset to extract from')
OUTSIDE = 'an input named as URL; files changed by others at the same time'


def run(S, args, files, out=None):
    """files: {path: bytes}; only out may change"""
    from warcio.cli import main
    before = S.list_files()
    res = S.run(lambda: main(args))
    for p in files:
        if p != out:
            S.check_eq(S.get_file(p), files[p], 'the input has the bytes it had')
    after = S.list_files()
    S.check_eq([p for p in after if p != out], [p for p in before if p != out], 'no other file')
    S.cover(args[0])
    bad = res.exc is not None or res.status != 0
    S.cover('failed' if bad else 'done')
    return bad


SAME = ('same', 'link', 'dots')
ARGS = {
    'index': [[], ['-f', 'offset,length,http:x-v']],
    'check': [[], ['-v']],
    'recompress': [[], ['-v']],
    'extract': [[], ['--payload'], ['--headers']],
}


def tool(S, which, form, kinds=None, spec=None, opt=0, out=None, two=0, hi=2000, lo=10):
    """out: None (or stdout), 'new', 'old', or 'same' as an input"""
    if spec is not None:
        data = fill(S, spec, 'f')
        S.cover('no archive')
    else:
        data, recs, pos = layout(S, kinds, form if form == 1 else 0, hi, 'norm', None, (), lo)
        if kinds[0][0] == 'a':
            S.cover('arc')
    if form == 'piece':
        data = S.gzip(data)
        S.cover('one piece')
    elif form == 'cut':
        n = S.int('cut', 0, 20000)
        S.assume(n <= len(data))
        data = data[:n]
        S.cover('cut')
    else:
        S.cover('gzip' if form else 'plain')
    ins = [S.put_file('in.warc', data)]
    files = {ins[0]: data}
    if two:
        more = b'WARC/1.0\r\nWARC-Type: resource\r\nContent-Length: 5\r\n\r\nabcde\r\n\r\n'
        ins.append(S.put_file('in2.warc', more))
        files[ins[1]] = more
        S.cover('two inputs')
    args = [which] + ARGS[which][opt]
    if args[-1] == '-v':
        S.cover('verbose')
    path = None
    if out == 'new':
        path = S.path('out')
    elif out == 'old':
        path = S.put_file('out', b'was here')
        S.cover('existing output')
    elif out == 'same':
        path = ins[-1]
    elif out == 'link':
        path = S.link_file(ins[-1], 'link')
        files[path] = files[ins[-1]]
        S.cover('link')
    elif out == 'dots':
        path = ('/./in').join(ins[-1].rsplit('/in', 1))
        S.cover('other spelling')
    if which == 'extract':
        args += [ins[0], str(S.pick('offset', 3) if spec is not None or form == 'cut' else 0 if form == 'piece' else pos[-1][0])]
    elif which == 'recompress':
        args += [ins[0], path]
    else:
        args += ins
        if path:
            args += ['-o', path]
    bad = run(S, args, files, None if out in SAME else path)
    if out in SAME:
        S.check(bad, 'it is refused')
        S.cover('refused')
    elif path:
        S.cover('other output')


def missing(S, which, opt, same):
    """an input that is not there, next to one that is"""
    data, recs, pos = layout(S, ['resp', 'res'], 1, 500, 'norm', None, (), 10)
    there, not_there = S.put_file('in.warc', data), S.path('missing.warc')
    args = [which] + ARGS[which][opt]
    if which == 'extract':
        args += [not_there, '0']
    elif which == 'recompress':
        args += [not_there, there if same else S.path('out')]
    else:
        args += [there, not_there]
        if which == 'index':
            args += ['-o', there if same else S.path('out')]
    # the output of a failed recompress is overwritten or not, as long as it is no input
    bad = run(S, args, {there: data}, (there if which == 'recompress' else None) if same else S.path('out'))
    S.check(bad, 'it fails')
    S.cover('missing')


def jobs(tier):
    th = tier == 'thorough'
    hi = 20000 if th else 2000
    J = []
    for which in ('index', 'check', 'extract', 'recompress'):
        outs = {'index': (None, 'new', 'old') + SAME, 'recompress': ('new', 'old') + SAME}.get(which, (None,))
        for opt in range(len(ARGS[which])):
            for out in outs:
                for form in (0, 1, 'piece'):
                    for ks in (['resp', 'res'], ['aresp', 'adns'], ['req']) + ((['info', 'rev', 'nl'], ['none', 'revh']) if th else ()):
                        J.append(('tool', dict(which=which, form=form, kinds=ks, opt=opt, out=out, hi=hi)))
                if which in ('index', 'check') and (th or opt):
                    J.append(('tool', dict(which=which, form=1, kinds=['resp'], opt=opt, out=out, two=1)))
                if out not in ('old', 'link', 'dots') or th:
                    J.append(('tool', dict(which=which, form=0, spec=[[3, 3, '0-30,32-255']] if not th else [[4, 4, '0-30,32-255']], opt=opt, out=out)))
                    J.append(('tool', dict(which=which, form='cut', kinds=['resp'], opt=opt, out=out, hi=60)))
            for same in (0, 1) if which in ('index', 'recompress') else (0,):
                J.append(('missing', dict(which=which, opt=opt, same=same)))
    return J
