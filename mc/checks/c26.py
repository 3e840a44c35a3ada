import math
from mc.common import *
from mc.scripted import scripted

ASSUMPTIONS = ['square roots are asked modulo primes; the root of zero is left open for primes 1 modulo 4 (reported as none)',
               'random draws are scripted at the random module; another source would be explored only as it happens to answer']


def ecc():
    from neocore.Cryptography import ECCurve
    return ECCurve


def primes(lo, hi):
    return [p for p in range(max(2, lo), hi) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def gen_gcd(tier):
    n = 200 if tier == 'thorough' else 80
    for a in range(-n, n + 1):
        yield a, n


def run_gcd(case, ctx):
    a, n = case
    G = ecc().GCD
    for b in range(-n, n + 1):
        g, c, d = G(a, b)
        if a * c + b * d != g or abs(g) != math.gcd(a, b) or a >= 0 and b >= 0 and g < 0:
            raise Violation('GCD(%d, %d) = (%d, %d, %d)' % (a, b, g, c, d))
    ctx.step(2 * n + 1)
    ctx.state(case)


def gen_inv(tier):
    for m in range(1, 260 if tier == 'thorough' else 110):
        yield m


def run_inv(m, ctx):
    inv = ecc().modinv
    for x in range(-2 * m - 1, 3 * m + 2):
        if math.gcd(x, m) == 1:
            c = inv(x, m)
            if (x * c - 1) % m:
                raise Violation('modinv(%d, %d) = %d' % (x, m, c))
            ctx.step()
    ctx.state(m)


BIG = [refs.P256.p, refs.P256.n, refs.K256.p, refs.K256.n, 2 ** 255 - 19, 2 ** 64 - 2 ** 32 + 1, 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001,
       2 ** 127 - 1, 2 ** 61 - 1, 10 ** 9 + 7, 10 ** 9 + 9, 65537, 12289]


def alphabet(p):
    out = [1, 2, 3, 4, 5, p - 1, p - 2, p - 3, p - 4, (p - 1) // 2, (p + 1) // 2, p // 3]
    for k in range(0, p.bit_length(), 16):
        out += [1 << k, (1 << k) + 1, p - (1 << k)]
    return dedup(x % p for x in out if x % p)


def gen_big(tier):
    for i in range(len(BIG)):
        for x in alphabet(BIG[i]):
            yield i, x
    fib = [1, 1]
    while fib[-1] < 1 << 256:
        fib.append(fib[-1] + fib[-2])
    for k in range(2, len(fib), 1 if tier == 'thorough' else 20):
        yield 'fib', fib[k - 1], fib[k]


def run_big(case, ctx):
    E = ecc()
    if case[0] == 'fib':
        _, a, b = case
        for x, y in ((a, b), (b, a), (6 * a, 6 * b), (a, b * b)):
            g, c, d = E.GCD(x, y)
            ctx.eq((x * c + y * d, g), (g, math.gcd(x, y)), 'gcd', x, y)
        return
    p, x = BIG[case[0]], case[1]
    for v in (x, x - p, x + p):
        ctx.eq(E.modinv(v, p) * x % p, 1, 'inverse', *case)
    g, c, d = E.GCD(x, p)
    ctx.eq((g, x * c + p * d), (1, 1), 'gcd', *case)
    for v in (x, x * x % p):
        square = pow(v, (p - 1) // 2, p) == 1
        for script in (b'', bytes(64), b'\xff' * 64, b'\x01' + bytes(40)):
            with scripted(script):
                s = E.sqrtCQ(v, p)
            if square:
                ctx.check(s is not None and s * s % p == v and 0 <= s < p, 'root', case, v)
            else:
                ctx.check(s is None, 'no root', case, v)


def gen_sqrt(tier):
    for p in primes(3, 1000 if tier == 'thorough' else 330):
        yield p


def one(ctx, p, v, script):
    E = ecc()
    with scripted(script):
        s = E.sqrtCQ(v, p)
    ctx.step()
    if p == 2 or pow(v, (p - 1) // 2, p) == 1:
        if s is None or (s * s - v) % p or not 0 <= s < p:
            raise Violation('sqrtCQ(%d, %d) with draws %r gave %r, which is no root' % (v, p, script, s))
    elif s is not None:
        raise Violation('sqrtCQ(%d, %d) with draws %r gave %r, but there is no root' % (v, p, script, s))
    return s


def run_sqrt(p, ctx):
    for v in range(1, p):
        for script in ((b'', b'\0' * 6, b'\xff' * 6, b'\1\0\1\0') if p % 4 == 1 else (b'',)):
            one(ctx, p, v, script)
    if p % 4 == 3:
        ctx.eq(ecc().sqrtCQ(0, p), 0, 'root of zero', p)
    ctx.state(p)


def gen_draws(tier):
    """every first draw (below 256) for every residue; every first two draws for the smallest primes"""
    for p in primes(3, 258 if tier == 'thorough' else 120):
        if p % 4 == 1:
            for v in range(1, p):
                yield p, v, 1
    for p in (5, 13, 17) + ((29, 37, 41) if tier == 'thorough' else ()):
        for v in range(1, p):
            yield p, v, 2
    for p in (257, 269, 293, 641, 769) if tier == 'thorough' else (257, 269):
        for v in range(1, p):
            yield p, v, 3


def run_draws(case, ctx):
    p, v, depth = case
    top = 1 << p.bit_length()
    if depth == 1:
        for d in range(min(256, top)):
            one(ctx, p, v, bytes([d]))
    elif depth == 2:
        for d in range(top):
            for e in range(top):
                one(ctx, p, v, bytes([d, e]))
    else:
        for d in list(range(0, 512, 5)) + [255, 256, 257, 511]:
            one(ctx, p, v, d.to_bytes(2, 'little'))
    ctx.state(case)


def gen_rand(tier):
    for n in range(0, 530 if tier == 'thorough' else 290):
        yield n


def run_rand(n, ctx):
    f = ecc().next_random_integer
    size = n // 8 + 2
    got = set()

    def draw(script):
        with scripted(script):
            v = f(n)
        ctx.step()
        if type(v) is not int or not 0 <= v < 1 << n:
            raise Violation('a random integer of %d bits is %r (draws %r)' % (n, v, script[:40]))
        got.add(v)
    if n <= 8:
        for a in range(256):
            for b in range(256) if n == 8 and a % 16 == 0 else (0, 1, 0x55, 0xff):
                draw(bytes([a, b]))
                draw(bytes([b, a]))
        ctx.eq(got, set(range(1 << n)), 'reachable values', n)
        return
    draw(b'\0' * size)
    draw(b'\xff' * size)
    for i in range(8 * size):
        x = bytearray(size)
        x[i // 8] = 1 << i % 8
        draw(bytes(x))
        y = bytearray(b'\xff' * size)
        y[i // 8] ^= 1 << i % 8
        draw(bytes(y))
    ones = 0
    zeros = 0
    for v in got:
        ones |= v
        zeros |= ~v & ((1 << n) - 1)
    ctx.eq((ones, zeros), ((1 << n) - 1,) * 2, 'every bit takes both values', n)
    ctx.check((1 << n) - 1 in got and 0 in got, 'extremes', n)
    for i in range(n):
        ctx.check(1 << i in got, 'single bit', n, i)


def gen_neg(tier):
    for n in (-1, -2, -8, -100):
        yield n


def run_neg(n, ctx):
    ctx.refused(lambda: ecc().next_random_integer(n), 'negative size', n)


def gen_lucas(tier):
    for n in range(3, 40 if tier == 'quick' else 80, 2):
        yield n


def run_lucas(n, ctx):
    """the sequences by their recurrence"""
    E = ecc()
    f = getattr(E, '_lucas_sequence', None)
    if f is None:
        ctx.outcome('absent')
        return
    for P in range(-3, n + 2):
        for Q in range(-3, n + 2):
            if P * P - 4 * Q == 0:
                ctx.refused(lambda: f(n, P, Q, 3), 'D = 0')
                continue
            U = [0, 1]
            V = [2, P]
            for k in range(2, 34):
                U.append((P * U[-1] - Q * U[-2]) % n)
                V.append((P * V[-1] - Q * V[-2]) % n)
            for k in range(0, 34):
                got = f(n, P, Q, k)
                if (got[0] - U[k]) % n or (got[1] - V[k]) % n:
                    raise Violation('Lucas sequence (%d, %d) modulo %d at %d: %r, expected (%d, %d)' % (P, Q, n, k, got, U[k] % n, V[k] % n))
            ctx.step(34)
    for bad in ((1, 3, 1, 2), (0, 3, 1, 2), (-5, 3, 1, 2), (n, 3, 1, -1)):
        ctx.refused(lambda: f(*bad), 'arguments', bad)
    ctx.state(n)


def gen_bits(tier):
    for x in list(range(0, 70)) + [1 << 64, (1 << 255) + 5, refs.P256.p]:
        yield x


def run_bits(x, ctx):
    f = ecc().test_bit
    for i in range(0, 300):
        if f(x, i) is not bool(x >> i & 1):
            raise Violation('test_bit(%d, %d)' % (x, i))
    ctx.step(300)
    ctx.state(x)


FAMILIES = [
    Family('gcd', gen_gcd, run_gcd, 'all pairs -80..80 (-200..200)'),
    Family('inverses', gen_inv, run_inv, 'every modulus below 110 (260) x every coprime number from -2m-1 to 3m+1'),
    Family('big', gen_big, run_big, '13 primes up to 256 bits (both classes modulo 4, 1 modulo 8 included) x boundary values: inverse, identity, square root; Fibonacci pairs'),
    Family('square-roots', gen_sqrt, run_sqrt, 'every residue of every odd prime below 330 (1000), 4 draw sequences'),
    Family('draws', gen_draws, run_draws, 'every residue x every first draw for all primes 1 modulo 4 below 120 (258); every pair of draws for 5, 13, 17 (29, 37, 41); two-byte draws'),
    Family('random-integers', gen_rand, run_rand, 'sizes 0..289 (529): every draw up to 8 bits; zero, one, all but one and all bits beyond'),
    Family('negative-size', gen_neg, run_neg, '4 negative sizes'),
    Family('lucas', gen_lucas, run_lucas, 'every odd modulus below 40 (80), all P and Q -3..n+1, terms 0..33, against the recurrence'),
    Family('bits', gen_bits, run_bits, '73 numbers x 300 bits'),
]
