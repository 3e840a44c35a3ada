"""A scripted random source: replaces every function of the random module (and the system source) while active."""
import contextlib, os, random

LIMIT = 20000


class OutOfDraws(Exception):
    pass


class Source(random.Random):
    """hands out the bytes of a script, then a fixed pseudo-random continuation"""
    def __init__(self, script):
        self.script = bytes(script)
        self.at = 0
        self.state = 12345
        super().__init__()

    def byte(self):
        self.at += 1
        if self.at > LIMIT:
            raise OutOfDraws()
        if self.at <= len(self.script):
            return self.script[self.at - 1]
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % 2 ** 64
        return self.state >> 56

    def getrandbits(self, k):
        n = (k + 7) // 8
        return int.from_bytes(bytes(self.byte() for _ in range(n)), 'little') & ((1 << k) - 1)

    def random(self):
        return self.getrandbits(53) / (1 << 53)

    def seed(self, *a, **k):
        pass


NAMES = ('random', 'getrandbits', 'randrange', 'randint', 'randbytes', 'choice', 'choices', 'sample', 'shuffle', 'uniform')


@contextlib.contextmanager
def scripted(script):
    src = Source(script)
    saved = {n: getattr(random, n) for n in NAMES}
    urandom = os.urandom, getattr(random, '_urandom', None)
    take = lambda n: bytes(src.byte() for _ in range(n))
    for n in NAMES:
        setattr(random, n, getattr(src, n))
    os.urandom = take
    random._urandom = take
    try:
        yield src
    finally:
        for n, f in saved.items():
            setattr(random, n, f)
        os.urandom, random._urandom = urandom
