"""A peer for http.client: what it is sent, and what it answers (run symbolically and on the real code)."""


class WireFile(object):
    """what socket.makefile('rb') gives: a buffered reader over the bytes which arrive"""

    def __init__(self, sock):
        self.sock = sock
        self.raw = self
        self._sock = sock
        self.closed = False

    def _got(self, data):
        self.sock.seen = self.sock.seen + data
        return data

    def _some(self, n):
        """n bytes at most, from what has arrived at once"""
        if self.sock.arrive:
            c = self.sock.arrive[0]
            if n is None or n < 0 or n > c:
                return c
        return -1 if n is None else n

    def read(self, n=-1):
        return self._got(self.sock.stream.read(-1 if n is None else n))

    def readline(self, n=-1):
        return self._got(self.sock.stream.readline(-1 if n is None else n))

    def read1(self, n=-1):
        n = self._some(n)
        if self.sock.arrive:
            self.sock.arrive.pop(0)
        return self._got(self.sock.stream.read(n))

    def peek(self, n=0):
        pos = self.sock.stream.tell()
        r = self.sock.stream.read(self._some(-1))
        self.sock.stream.seek(pos)
        return r

    def readinto(self, b):
        data = self.sock.stream.read(len(memoryview(b)))
        k = len(data)
        memoryview(b)[:k] = data
        self._got(data)
        return k

    def readinto1(self, b):
        return self.readinto(b)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return iter(self.readline, b'')

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return False

    def flush(self):
        pass

    def fileno(self):
        return 42

    def close(self):
        self.closed = True


class Sock(object):
    """answers: all bytes the peer sends"""

    def __init__(self, S, answers, ip='10.1.2.3', arrive=()):
        self.stream = S.BytesIO(answers)
        self.arrive = list(arrive)
        self.ip = ip
        self.sent = []
        self.seen = b''
        self.files = []
        self.open = True
        self.host = None

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return (self.ip, 80)

    def sendall(self, data):
        if isinstance(data, (str, list, tuple)) or hasattr(data, '__next__'):
            raise TypeError('a bytes-like object is required')
        self.sent.append(bytes(data))

    def makefile(self, mode):
        f = WireFile(self)
        self.files.append(f)
        return f

    def close(self):
        self.open = False

    def out(self):
        r = b''
        for b in self.sent:
            r = r + b
        return r


class Context(object):
    """stands in for ssl.SSLContext"""

    def wrap_socket(self, sock, server_hostname=None):
        sock.host = server_hostname
        return sock


def connect(conn, socks):
    """conn takes its sockets from the list"""
    socks = list(socks)
    conn._create_connection = lambda *a: socks.pop(0)
    return conn
