from six.moves import http_client

from harness.net import Sock, Context
from harness.wr import split_record, header_of

COVERS = ['http', 'https', 'default port', 'other port', 'port in host', 'IPv6', 'proxied', 'tunnel', 'tunnel opened first', 'plain tunnel', 'tunnel refused', 'kept tunnel', 'urllib3 like',
          'several', 'interleaved', 'arbitrary path', 'arbitrary host']
BOUNDS = ('real http.client and capture code; hosts of up to 3 (thorough 4) arbitrary letters, digits and dashes, IPv4 and IPv6; every port from 1 to 65535 or none; paths of up to 3 (thorough 4) arbitrary '
          'printable characters and a run of arbitrary length up to 40, also containing ":", "//" and "http:"; direct http and https connections (of http.client and a subclass as of urllib3), '
          'absolute URLs of any scheme through a proxy, tunnels opened by the request or before it, with arbitrary host and port; all sequences of 2 (thorough 3) kinds in one context, also on kept connections')
OUTSIDE = 'hosts that are not ASCII; request targets which are neither a path nor an absolute URL (OPTIONS *); TLS and sockets are a stand-in peer; calling request("CONNECT") by hand'

OK = b'HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok'
CONNECTED = b'HTTP/1.1 200 Connection established\r\nVia: p\r\n\r\n'
HOSTCH = ((97, 122), (48, 57), (45, 45), (65, 90))


def mods():
    # patches http.client: anew for every path
    import warcio.capture_http as C
    return C, http_client


def host_of(S, what, nm='h'):
    """-> (as given to http.client, in a URL)"""
    if what == 'name':
        return 'h.org', 'h.org'
    if what in ('any', 'any4'):
        S.cover('arbitrary host')
        h = 'h' + S.str(nm, 4 if what == 'any4' else 3, ranges=HOSTCH) + ('.org' if nm == 'h' else '')
        return h, h
    if what == 'v4':
        return '10.0.0.1', '10.0.0.1'
    if what == 'v6':
        S.cover('IPv6')
        return '[fe80::1]', '[fe80::1]'
    if what == 'v6any':
        S.cover('IPv6')
        h = 'fe80::' + S.str(nm, 2, ranges=((48, 57), (97, 102)))
        return '[' + h + ']', '[' + h + ']'
    raise AssertionError(what)


def port_of(S, what, default, nm='p'):
    """-> (port argument, number in use, text after the host in a URL)"""
    if what == 'none':
        S.cover('default port')
        return None, default, ''
    if what == 'any':
        p = S.int(nm, 1, 65535)
    else:
        p = what
    if p == default:
        S.cover('default port')
        return p, p, ''
    S.cover('other port')
    return p, p, ':' + str(p)


def path_of(S, what, nm='q'):
    if what == 'any':
        S.cover('arbitrary path')
        return '/' + S.str(nm, 3, ranges=((33, 126),))
    if what == 'any4':
        return '/' + S.str(nm, 4, ranges=((33, 126),))
    if what == 'end':
        return '/a/b?c=' + S.str(nm, 2, ranges=((33, 126),)) + '#d'
    if what == 'slashes':
        return '//' + S.str(nm, 1, ranges=((33, 126),)) + ':8/http://x:1/'
    return what


def https_class(H, what):
    if what == 'sub':
        class HTTPS(H.HTTPConnection):
            default_port = 443
        return HTTPS
    return H.HTTPSConnection


def make(S, H, kind, hostarg, portarg, sock, cls='own'):
    if kind == 'https' and cls == 'sub':
        S.cover('urllib3 like')
        conn = https_class(H, cls)(hostarg, portarg)
    elif kind == 'https':
        conn = H.HTTPSConnection(hostarg, portarg, context=Context())
    else:
        conn = H.HTTPConnection(hostarg, portarg)
    conn._create_connection = lambda *a: sock
    return conn


def run(S, conn, path, verb='GET'):
    conn.request(verb, path)
    r = conn.getresponse()
    data = r.read()
    r.close()
    S.check_eq(data, b'ok', 'served')


def urls(S, data, want):
    """want: (url, proxy or None, request line) in order"""
    for url, proxy, line in want:
        for t in (b'response', b'request'):
            h, rest = split_record(S, data, 'record')
            n = int(header_of(h, b'Content-Length')[0])
            S.check_eq(header_of(h, b'WARC-Type'), [t], 'type')
            S.check_eq(header_of(h, b'WARC-Target-URI'), [url.encode('latin-1')], 'URL requested')
            S.check_eq(header_of(h, b'WARC-Proxy-Host'), [proxy.encode('latin-1')] if proxy else [], 'proxy')
            if t == b'request':
                S.check_eq(rest[:len(line)], line, 'request as sent')
            data = rest[n + 4:]
    S.check_eq(len(data), 0, 'no other record')


def line(path, verb='GET'):
    return (verb + ' ' + path + ' HTTP/1.1\r\n').encode('latin-1')


def direct(S, kind, host, port, path, inhost=0, cls='own'):
    C, H = mods()
    S.cover(kind)
    harg, hurl = host_of(S, host)
    default = 443 if kind == 'https' else 80
    parg, pnum, ptext = port_of(S, port, default)
    path = path_of(S, path)
    if inhost and parg is not None:
        harg, parg = harg + ':' + str(parg), None
        S.cover('port in host')
    with C.capture_http() as w:
        run(S, make(S, H, kind, harg, parg, Sock(S, OK), cls), path)
    urls(S, w.get_contents(), [(kind + '://' + hurl + ptext + path, None, line(path))])


def proxied(S, host, port, scheme, rest, kind='http'):
    """absolute URL through a proxy"""
    C, H = mods()
    S.cover('proxied')
    harg, hurl = host_of(S, host)
    parg, pnum, ptext = port_of(S, port, 443 if kind == 'https' else 80)
    url = scheme + '://' + {'any': 'a', 'path': 't.org:81/', 'plain': 't.org/'}[rest]
    if rest != 'plain':
        url = url + (S.str('u', 3, ranges=((47, 58), (35, 35), (63, 63), (97, 122))) if rest == 'any' else S.str('u', 2, ranges=((33, 90), (94, 126))))
    with C.capture_http() as w:
        run(S, make(S, H, kind, harg, parg, Sock(S, OK)), url)
    urls(S, w.get_contents(), [(url, 'http://' + hurl + ':' + str(pnum), line(url))])


def tunnel(S, kind, host, port, thost, tport, path, first=0, again=0, refused=0, phost='name'):
    """through a tunnel"""
    C, H = mods()
    S.cover('tunnel' if kind == 'https' else 'plain tunnel')
    phost, purl = host_of(S, phost, 'ph')
    parg, pnum, ptext = port_of(S, port, 443 if kind == 'https' else 80, 'pp')
    harg, hurl = host_of(S, thost)
    targ, tnum, ttext = port_of(S, tport, 443 if kind == 'https' else 80)
    path = path_of(S, path)
    proxy = 'https://' + purl + ':' + str(pnum)
    want = []
    with C.capture_http() as w:
        if refused:
            S.cover('tunnel refused')
            bad = make(S, H, kind, phost, parg, Sock(S, b'HTTP/1.1 407 No\r\nContent-Length: 0\r\n\r\n'))
            bad.set_tunnel('bad.org', 444)
            try:
                run(S, bad, '/bad')
                S.fail('refused tunnel')
            except OSError:
                pass
        sock = Sock(S, CONNECTED + OK + OK)
        conn = make(S, H, kind, phost, parg, sock)
        conn.set_tunnel(harg, targ, {'Proxy-Authorization': 'x'})
        if first:
            conn.connect()
            S.cover('tunnel opened first')
        run(S, conn, path)
        want.append((kind + '://' + hurl + ttext + path, proxy, line(path)))
        if again:
            run(S, conn, '/second', 'POST')
            S.cover('kept tunnel')
            want.append((kind + '://' + hurl + ttext + '/second', proxy, line('/second', 'POST')))
        if refused:
            run(S, make(S, H, kind, 'd.org', None, Sock(S, OK)), '/d')
            want.append((kind + '://d.org/d', None, line('/d')))
    S.check_eq(sock.sent[0][:8], b'CONNECT ', 'tunnel opened')
    urls(S, w.get_contents(), want)


def sequence(S, kinds, cut=0):
    """exchanges of several kinds in one context; the one numbered cut-1 opens its connection before the others"""
    C, H = mods()
    S.cover('several')
    want, conns = [], []
    ports = [S.int('p%d' % i, 1000, 9999) for i in range(len(kinds))]
    with C.capture_http() as w:
        for i, k in enumerate(kinds):
            h = 'h%d.org' % i
            if k in ('http', 'https', 'sub'):
                kk = 'https' if k == 'sub' else k
                c = make(S, H, kk, h, ports[i], Sock(S, OK + OK), 'sub' if k == 'sub' else 'own')
                conns.append((c, '/d%d' % i, kk + '://' + h + ':' + str(ports[i]) + '/d%d' % i, None))
            elif k == 'proxied':
                c = make(S, H, 'http', 'proxy%d.org' % i, ports[i], Sock(S, OK + OK))
                u = 'http://' + h + '/d%d' % i
                conns.append((c, u, u, 'http://proxy%d.org:' % i + str(ports[i])))
            else:
                kk = 'https' if k == 'tunnel' else 'http'
                c = make(S, H, kk, 'proxy%d.org' % i, ports[i], Sock(S, CONNECTED + OK + OK))
                c.set_tunnel(h)
                conns.append((c, '/d%d' % i, kk + '://' + h + '/d%d' % i, 'https://proxy%d.org:' % i + str(ports[i])))
        if cut:
            conns[cut - 1][0].connect()
        order = list(range(len(kinds))) + ([0] if cut else [])
        for i in order:
            c, p, u, proxy = conns[i]
            run(S, c, p)
            want.append((u, proxy, line(p)))
    urls(S, w.get_contents(), want)


def overlap(S, a, b):
    """a connection of kind b is used while a response of kind a is still read"""
    C, H = mods()
    S.cover('interleaved')
    parts = {'http': ('http', None), 'https': ('https', None), 'proxied': ('http', None), 'tunnel': ('https', 'proxy')}
    cs, want = [], []
    with C.capture_http() as w:
        for i, k in enumerate((a, b)):
            kk = parts[k][0]
            host = 'proxy%d.org' % i if k in ('proxied', 'tunnel') else 'h%d.org' % i
            c = make(S, H, kk, host, None, Sock(S, (CONNECTED if k == 'tunnel' else b'') + OK))
            if k == 'tunnel':
                c.set_tunnel('h%d.org' % i)
            p = ('http://h%d.org/d%d' if k == 'proxied' else '/%d%d') % (i, i)
            u = p if k == 'proxied' else kk + '://h%d.org' % i + p
            proxy = {'proxied': 'http://proxy%d.org:80' % i, 'tunnel': 'https://proxy%d.org:443' % i}.get(k)
            cs.append((c, p))
            want.append((u, proxy, line(p)))
        cs[0][0].request('GET', cs[0][1])
        r = cs[0][0].getresponse()
        run(S, *((cs[1][0], cs[1][1])))
        S.check_eq(r.read(), b'ok', 'served')
        r.close()
    urls(S, w.get_contents(), [want[1], want[0]])


def jobs(tier):
    q = tier == 'quick'
    out = []
    for kind, cls in (('http', 'own'), ('https', 'own'), ('https', 'sub')):
        for host in ('name', 'any', 'v4', 'v6', 'v6any') + (() if q else ('any4',)):
            for port in ('none', 'any', 80, 443, 8080):
                for path in ('any', '/') if host == 'name' else ('/p',):
                    if q and host == 'any' and port in (80, 8080):
                        continue
                    out.append(('direct', dict(kind=kind, host=host, port=port, path=path, cls=cls)))
                if port != 'none' and not (q and host == 'any' and port == 'any'):
                    out.append(('direct', dict(kind=kind, host=host, port=port, path='/p', inhost=1, cls=cls)))
        for path in ('end', 'slashes') + (() if q else ('any4',)):
            out.append(('direct', dict(kind=kind, host='name', port='none', path=path, cls=cls)))
    for scheme in ('http', 'https', 'ftp', 'HTTP'):
        for rest in ('any', 'path', 'plain'):
            for port in ('none', 3128) + (('any',) if rest == 'plain' else ()):
                out.append(('proxied', dict(host='name', port=port, scheme=scheme, rest=rest)))
    out.append(('proxied', dict(host='any', port=80, scheme='http', rest='plain')))
    out.append(('proxied', dict(host='v6', port=3128, scheme='http', rest='plain')))
    out.append(('proxied', dict(host='name', port=443, scheme='http', rest='plain', kind='https')))
    for kind in ('http', 'https'):
        for first in (0, 1):
            for thost in ('name', 'any', 'v4', 'v6', 'v6any'):
                for tport in ('none', 443, 80, 8080) + (('any',) if thost == 'name' or not q else ()):
                    out.append(('tunnel', dict(kind=kind, host='name', port=3128, thost=thost, tport=tport, path='/p', first=first, again=1)))
            out.append(('tunnel', dict(kind=kind, host='name', port='any', thost='name', tport='none', path='/p', first=first)))
            out.append(('tunnel', dict(kind=kind, host='name', port='none', thost='name', tport=443, path='any', first=first)))
            out.append(('tunnel', dict(kind=kind, host='name', port=3128, thost='name', tport=443, path='slashes', first=first, phost='v6')))
            out.append(('tunnel', dict(kind=kind, host='name', port=3128, thost='name', tport='none', path='/p', first=first, refused=1, again=1)))
    ks = ('http', 'https', 'sub', 'proxied', 'tunnel', 'plain tunnel')
    for a in ks:
        for b in ks:
            for cut in (0, 1, 2):
                out.append(('sequence', dict(kinds=(a, b), cut=cut)))
            if not q:
                for c in ks:
                    for cut in (0, 3):
                        out.append(('sequence', dict(kinds=(a, b, c), cut=cut)))
    for a in ('http', 'https', 'proxied', 'tunnel'):
        for b in ('http', 'https', 'proxied', 'tunnel'):
            out.append(('overlap', dict(a=a, b=b)))
    return out
