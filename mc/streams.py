"""Kinds of binary streams. Sinks: (name, class Sink with .stream, .content()); sources: (name, open(data) -> (stream, rest())).

Everything lives in an unlinked temporary file or in a directory the caller creates and removes."""
import bz2, contextlib, gzip, io, lzma, mmap, os, socket, tempfile, zipfile

MASK = 0x5c


class Scrambled(io.BytesIO):
    """what is stored differs from what is written: only read and write give the content"""

    def write(self, b):
        return super().write(bytes(x ^ MASK for x in bytes(b)))

    def read(self, n=-1):
        return bytes(x ^ MASK for x in super().read(n))


class OnlyWrite:
    """an object with nothing but write"""

    def __init__(self):
        self.parts = []

    def write(self, b):
        self.parts.append(bytes(b))
        return len(b)


class OnlyRead:
    """an object with nothing but read; a read that needs more than is there would wait forever"""

    def __init__(self, data):
        self.data, self.at = data, 0

    def read(self, n):
        if type(n) is not int or n < 0:
            raise AssertionError('read of %r' % (n,))
        out = self.data[self.at:self.at + n]
        self.at += len(out)
        return out


class Live(OnlyRead):
    def read(self, n):
        if self.at + n > len(self.data):
            raise AssertionError('waits for %d bytes more than the field has' % (self.at + n - len(self.data)))
        return super().read(n)


class Drip(io.RawIOBase):
    """a raw stream that gives the data in the given pieces"""

    def __init__(self, pieces):
        self.pieces = list(pieces)

    def readable(self):
        return True

    def readinto(self, b):
        if not self.pieces:
            return 0
        p = self.pieces.pop(0)
        n = min(len(p), len(b))
        b[:n] = p[:n]
        if n < len(p):
            self.pieces.insert(0, p[n:])
        return n


class Memory(io.BytesIO):
    """as the documented MemoryStream: a subclass with state and methods of its own"""

    def __init__(self, *a):
        super().__init__(*a)
        self.stream = self
        self.data = b'not the content'

    def __len__(self):
        return 0

    def __bool__(self):
        return False

    def canRead(self):
        return True

    def ToArray(self):
        return b''


# ---- sinks: f(stack) -> (stream, content()); content is called once, at the end
def s_bytesio(k):
    s = io.BytesIO()
    return s, s.getvalue


def s_memory(k):
    s = Memory()
    return s, s.getvalue


def s_scrambled(k):
    s = Scrambled()
    return s, lambda: bytes(x ^ MASK for x in s.getvalue())


def s_only(k):
    s = OnlyWrite()
    return s, lambda: b''.join(s.parts)


def path(k):
    return os.path.join(k.enter_context(tempfile.TemporaryDirectory()), 'f')


def slurp(p):
    with open(p, 'rb') as f:
        return f.read()


def s_file(mode, buffering):
    def go(k):
        p = path(k)
        if 'r' in mode or 'a' in mode:
            with open(p, 'wb'):
                pass
        f = k.enter_context(open(p, mode, buffering=buffering))

        def content():
            f.close()
            return slurp(p)
        return f, content
    return go


def s_temp(k):
    f = k.enter_context(tempfile.TemporaryFile())

    def content():
        f.seek(0)
        return f.read()
    return f, content


def s_spooled(k):
    f = k.enter_context(tempfile.SpooledTemporaryFile(max_size=5))

    def content():
        f.seek(0)
        return f.read()
    return f, content


def s_packed(mod, opener):
    def go(k):
        b = io.BytesIO()
        f = opener(b)

        def content():
            f.close()
            return mod.decompress(b.getvalue())
        return f, content
    return go


def s_zip(k):
    b = io.BytesIO()
    z = zipfile.ZipFile(b, 'w')
    f = z.open('member', 'w')

    def content():
        f.close()
        z.close()
        with zipfile.ZipFile(b) as y:
            return y.read('member')
    return f, content


def s_mmap(k):
    m = k.enter_context(contextlib.closing(mmap.mmap(-1, 1 << 16)))
    return m, lambda: bytes(m[:m.tell()])


def s_buffered(k):
    b = io.BytesIO()
    f = io.BufferedWriter(b, 3)

    def content():
        f.flush()
        return b.getvalue()
    return f, content


def s_random(k):
    b = io.BytesIO()
    f = io.BufferedRandom(b, 3)

    def content():
        f.flush()
        return b.getvalue()
    return f, content


def s_pair(k):
    b = io.BytesIO()
    f = io.BufferedRWPair(io.BytesIO(), b, 4)

    def content():
        f.flush()
        return b.getvalue()
    return f, content


def s_pipe(k):
    r, w = os.pipe()
    f = k.enter_context(open(w, 'wb'))
    g = k.enter_context(open(r, 'rb'))

    def content():
        f.close()
        return g.read()
    return f, content


def s_socket(k):
    a, b = socket.socketpair()
    k.callback(a.close)
    k.callback(b.close)
    f = k.enter_context(a.makefile('wb'))

    def content():
        f.flush()
        a.shutdown(socket.SHUT_WR)
        with b.makefile('rb') as g:
            return g.read()
    return f, content


SINKS = [('io.BytesIO', s_bytesio), ('memory stream', s_memory), ('scrambling subclass', s_scrambled), ('only write', s_only),
         ('file wb', s_file('wb', -1)), ('file wb unbuffered', s_file('wb', 0)), ('file ab', s_file('ab', -1)), ('file r+b', s_file('r+b', -1)), ('file w+b unbuffered', s_file('w+b', 0)),
         ('temporary file', s_temp), ('spooled file', s_spooled),
         ('gzip', s_packed(gzip, lambda b: gzip.GzipFile(fileobj=b, mode='wb', compresslevel=1))), ('bz2', s_packed(bz2, lambda b: bz2.BZ2File(b, 'wb', compresslevel=1))),
         ('lzma', s_packed(lzma, lambda b: lzma.LZMAFile(b, 'wb', preset=0))), ('zip member', s_zip), ('memory map', s_mmap),
         ('buffer of 3', s_buffered), ('random buffer of 3', s_random), ('pair', s_pair), ('pipe', s_pipe), ('socket', s_socket)]


# ---- sources: f(stack, data) -> stream
def r_file(buffering, mode='rb'):
    def go(k, data):
        p = path(k)
        with open(p, 'wb') as f:
            f.write(data)
        return k.enter_context(open(p, mode, buffering=buffering))
    return go


def r_temp(make):
    def go(k, data):
        f = k.enter_context(make())
        f.write(data)
        f.seek(0)
        return f
    return go


def r_zip(k, data):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
        z.writestr('member', data)
    return k.enter_context(zipfile.ZipFile(b).open('member'))


def r_mmap(k, data):
    m = k.enter_context(contextlib.closing(mmap.mmap(-1, max(1, len(data)))))
    m[:len(data)] = data
    if not data:
        m.read(1)
    return m


def r_pipe(k, data):
    r, w = os.pipe()
    g = k.enter_context(open(r, 'rb'))
    os.write(w, data)
    os.close(w)
    return g


def r_socket(k, data):
    a, b = socket.socketpair()
    k.callback(b.close)
    a.sendall(data)
    a.close()
    return k.enter_context(b.makefile('rb'))


def r_scrambled(k, data):
    return Scrambled(bytes(x ^ MASK for x in data))


def halves(data, n=1):
    return [data[i:i + n] for i in range(0, len(data), n)]


SOURCES = [('io.BytesIO', lambda k, d: io.BytesIO(d)), ('memory stream', lambda k, d: Memory(d)), ('scrambling subclass', r_scrambled), ('only read', lambda k, d: OnlyRead(d)),
           ('file rb', r_file(-1)), ('file rb unbuffered', r_file(0)), ('file r+b', r_file(-1, 'r+b')), ('temporary file', r_temp(tempfile.TemporaryFile)),
           ('spooled file', r_temp(lambda: tempfile.SpooledTemporaryFile(max_size=5))),
           ('gzip', lambda k, d: gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(d, 1)))), ('bz2', lambda k, d: bz2.BZ2File(io.BytesIO(bz2.compress(d, 1)))),
           ('lzma', lambda k, d: lzma.LZMAFile(io.BytesIO(lzma.compress(d, preset=0)))), ('zip member', r_zip), ('memory map', r_mmap),
           ('buffer of 2', lambda k, d: io.BufferedReader(io.BytesIO(d), 2)), ('random buffer of 2', lambda k, d: io.BufferedRandom(io.BytesIO(d), 2)),
           ('pair', lambda k, d: io.BufferedRWPair(io.BytesIO(d), io.BytesIO(), 3)), ('byte by byte', lambda k, d: io.BufferedReader(Drip(halves(d)), 4)),
           ('pipe', r_pipe), ('socket', r_socket)]
