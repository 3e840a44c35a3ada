"""small number helpers and the random private keys of the helper module"""
import os, random, time
from mc.common import *

ASSUMPTIONS = ['SHA-256 does not collide on the explored entropy']


def swapped(v):
    return (v & 0xff) << 24 | (v & 0xff00) << 8 | (v & 0xff0000) >> 8 | v >> 24


def gen_swap(tier):
    vals = [int.from_bytes(bytes(t), 'big') for t in itertools.product((0, 1, 2, 0x7f, 0x80, 0xfe, 0xff) if tier == 'quick' else (0, 1, 2, 3, 0x10, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xfd, 0xfe, 0xff), repeat=4)]
    yield from chunks(sorted(set(vals) | set(range(0, 70000)) | {v << 16 for v in range(65536)} | set(int_boundaries(32))), 2000)


def run_swap(vals, ctx):
    from neocore.IO.BinaryWriter import swap32
    for v in vals:
        r = swap32(v)
        ctx.eq(r, swapped(v), 'swap', v)
        ctx.eq(swap32(r), v, 'twice', v)


def gen_swap_bad(tier):
    for k in range(32, 70):
        for d in (-1, 0, 1):
            if (1 << k) + d >= 1 << 32:
                yield (1 << k) + d
    for k in range(0, 70):
        yield -(1 << k)
        yield -(1 << k) - 1


def run_swap_bad(v, ctx):
    from neocore.IO.BinaryWriter import swap32
    ctx.refused(lambda: swap32(v), 'swap', v)


def gen_bits(tier):
    if tier == 'thorough':
        yield from (('160', i, i + 4096) for i in range(0, 1 << 20, 4096))
    else:
        yield from (('160', i, i + 512) for i in range(0, 1 << 16, 512))
        yield from (('160', (i << 10) - 8, (i << 10) + 8) for i in range(65, 1024))
        yield '160', (1 << 20) - 64, 1 << 20
    yield from (('256', i, i + 512) for i in range(0, 1 << 15, 512))
    yield from (('256', (i << 16) - 4, (i << 16) + 4) for i in range(1, 1 << 16, 64))
    for k in range(16, 33):
        yield '256', (1 << k) - 64, min((1 << k) + 64, 1 << 32)


def run_bits(case, ctx):
    """the fixed-width binary text of a number"""
    from neocore.IO.BinaryWriter import convert_to_uint160, convert_to_uint256
    kind, a, b = case
    fn, width = (convert_to_uint160, 20) if kind == '160' else (convert_to_uint256, 32)
    for v in range(a, b):
        t = fn(v)
        ctx.eq(t, ''.join('1' if v >> i & 1 else '0' for i in range(width - 1, -1, -1)), 'text', kind, v)


# ------------------------------------------------------------------ random keys
class Entropy:
    """system randomness that hands out a fixed pattern, with one bit changed"""

    def __init__(self, base, flip, call=0):
        self.base, self.flip, self.call = base, flip, call
        self.out = []

    def __call__(self, n):
        at = len(self.out)
        b = bytearray((self.base * 37 + (at + i) * 101 + (at + i) // 7) % 256 for i in range(n))
        if self.flip is not None:
            i, bit = self.flip
            if at <= i < at + n:
                b[i - at] ^= 1 << bit
        self.out += b
        return bytes(b)


class Fixed:
    """the system source, the clock and the pseudo-random generator under control"""

    def __init__(self, entropy, seed=1, clock=1.5e9):
        self.e, self.seed, self.clock = entropy, seed, clock

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in ((os, 'urandom'), (random, '_urandom'), (time, 'time'), (time, 'time_ns'), (time, 'perf_counter'), (time, 'monotonic'))]
        os.urandom = random._urandom = self.e
        time.time = time.perf_counter = time.monotonic = lambda: self.clock
        time.time_ns = lambda: int(self.clock * 10 ** 9)
        random.seed(self.seed)
        return self.e

    def __exit__(self, *a):
        for m, n, v in self.saved:
            setattr(m, n, v)


def key(flip, base, seed=1, clock=1.5e9, calls=1):
    with Fixed(Entropy(base, flip), seed, clock) as e:
        from neocore.Cryptography.Helper import random_key
        ks = [random_key() for _ in range(calls)]
    return ks, len(e.out)


def shape(k):
    t = k.decode('ascii') if isinstance(k, (bytes, bytearray)) else k
    if not isinstance(t, str) or len(t) != 64 or any(c not in '0123456789abcdef' for c in t):
        raise Violation('a random key is not 64 hexadecimal digits: %r' % (k,))
    return t


def gen_entropy(tier):
    for base in range(8 if tier == 'quick' else 64):
        yield base


def run_entropy(base, ctx):
    """every bit of the system's randomness matters, all else being equal"""
    ks, used = key(None, base)
    k0 = shape(ks[0])
    if used < 32:
        raise Violation('a random key is made from %d bytes of system randomness' % used)
    seen = {k0}
    for i in range(32):
        for bit in range(8):
            k = shape(key((i, bit), base)[0][0])
            ctx.check(k not in seen, 'another key', base, i, bit)
            seen.add(k)


def gen_repeat(tier):
    for base in range(4):
        for calls in (2, 3, 50):
            yield base, calls


def run_repeat(case, ctx):
    """later keys are made from fresh randomness: changing only what a later call draws changes only the later key"""
    base, calls = case
    ks, used = key(None, base, calls=calls)
    ctx.check(len({shape(k) for k in ks}) == calls, 'distinct', base, calls)
    ctx.check(used >= 32 * calls, 'fresh randomness', base, calls, used)
    per = used // calls
    for c in range(calls if calls < 10 else 2):
        for i in (0, 1, 15, 31):
            alt, _ = key((c * per + i, 3), base, calls=calls)
            for j in range(calls):
                if j == c:
                    ctx.check(shape(alt[j]) != ks[j], 'changed', base, calls, c, i, j)
                elif j < c:
                    ctx.eq(shape(alt[j]), shape(ks[j]), 'earlier', base, calls, c, i, j)


FAMILIES = [
    Family('byte swap', gen_swap, run_swap, 'all numbers below 70000, all multiples of 65536, all products of seven byte values, boundaries: reversal of the four bytes, twice is the identity'),
    Family('byte swap refused', gen_swap_bad, run_swap_bad, 'negative numbers and numbers of more than 32 bits at every power of two'),
    Family('binary texts', gen_bits, run_bits, 'numbers of up to 20 bits (thorough: all 2^20) and of up to 32 bits around multiples of powers of two'),
    Family('entropy', gen_entropy, run_entropy, '8 states of the system source x every one of 256 bits flipped, clock and pseudo-random state fixed', fresh=True),
    Family('repeated keys', gen_repeat, run_repeat, '4 states x 2, 3, 50 keys in a row x changed draws of each key', fresh=True),
]
