from mc.common import *
from mc import small

ASSUMPTIONS = ['signatures with r = 0 or s = 0 modulo the order are no signatures: such keys, nonces and messages are left out of signing',
               'recovery is asked where the nonce point has its x coordinate below the order, on fields where the toolkit has a square root (p not 1 modulo 8)',
               'numbers are residues modulo the order (r + n stands for r)']


def pick(tier):
    """curves of prime order, on both sides of the field size"""
    out = {}
    for p in (5, 7, 11, 13, 17, 19, 23):
        for c in small.curves((p,), True):
            n = c[3]
            if n == p or n > (31 if tier == 'thorough' else 23):
                continue
            out.setdefault((p, n), []).append(c)
    per = 3 if tier == 'thorough' else 1
    return [c for k in sorted(out) for c in out[k][:per]]


class World:
    """a curve of prime order n with generator G: every point is table[k] = k G"""
    def __init__(self, p, a, b, n, g=0):
        from neocore.Cryptography.ECCurve import ECDSA
        self.p, self.n = p, n
        ref = small.Ref(p, a, b)
        G = small.points(p, a, b)[g]
        self.table = [None]
        for _ in range(1, n):
            self.table.append(ref.add(self.table[-1], G))
        self.ec = small.impl(p, a, b)
        self.e = ECDSA(self.ec, self.ec.point(*G), n)

    def pt(self, k):
        return small.mk(self.ec, self.table[k % self.n])

    def sign(self, m, x, k):
        n = self.n
        r = self.table[k][0] % n
        return r, (m + x * r) * pow(k, -1, n) % n

    def verify(self, m, x, r, s):
        n = self.n
        if r % n == 0 or s % n == 0:
            return False
        R = self.table[(m + x * r) * pow(s, -1, n) % n]
        return R is not None and R[0] % n == r % n

    def findpk(self, m, r, s, flag):
        """index of the recovered key, None when r is no x coordinate"""
        for k in range(1, self.n):
            R = self.table[k]
            if R[0] == r and (R[1] % 2 == flag):
                return (k * s - m) * pow(r, -1, self.n) % self.n
        return None


def world(ctx, c):
    w = ctx.scratch.get(c)
    if w is None:
        w = ctx.scratch[c] = World(*c)
    return w


def gen_sign(tier):
    for c in pick(tier):
        for x in range(1, c[3]):
            yield c, x


def num(v):
    return v.value if hasattr(v, 'value') else v


def run_sign(case, ctx):
    """all nonces and messages for one private key"""
    c, x = case
    w = world(ctx, c)
    n, e = w.n, w.e
    Y = e.calcpub(x)
    ctx.eq(small.un(Y), w.table[x], 'public key', case)
    count = 0
    for k in range(1, n):
        for m in range(0, n + 2):
            wr_, ws = w.sign(m, x, k)
            if wr_ == 0 or ws == 0:
                continue
            r, s = e.sign(m, x, k)
            if num(r) % n != wr_ or num(s) % n != ws:
                raise Violation('%r: signing %d with nonce %d gave (%r, %r), expected (%d, %d)' % (case, m, k, num(r), num(s), wr_, ws))
            if e.verify(m, Y, r, s) is not True or (k + m) % 3 == 0 and e.verify(m, Y, wr_, ws) is not True:
                raise Violation('%r: signature (%d, %d) of %d with nonce %d does not verify' % (case, wr_, ws, m, k))
            count += 2
    ctx.eq(small.un(Y), w.table[x], 'public key unchanged')
    ctx.step(count)


def gen_verify(tier):
    for c in pick(tier):
        if c[3] <= (13 if tier == 'quick' else 19):
            for x in range(1, c[3]):
                for m in range(c[3]):
                    if tier == 'thorough' or c[3] <= 7 or (x + m) % 3 == 0:
                        yield c, x, m


def run_verify(case, ctx):
    """all (r, s), zero included"""
    c, x, m = case
    w = world(ctx, c)
    Y = w.pt(x)
    n = w.n
    for r in range(n):
        for s in range(n):
            want = w.verify(m, x, r, s)
            got = w.e.verify(m, Y, r, s)
            if got is not want:
                raise Violation('%r: verify(%d, key %d, %d, %d) gave %r, expected %r' % (c, m, x, r, s, got, want))
            ctx.outcome('verifies' if want else 'does not')
    f = w.e.GFn
    for r, s in ((1, 1), (n - 1, 2), (3, n - 1), (0, 0), (0, 1), (1, 0)):
        ctx.eq(w.e.verify(f.value(m), Y, f.value(r), f.value(s)), w.verify(m, x, r, s), 'field values', case, r, s)
        ctx.eq(w.e.verify(m + n, Y, r, s), w.verify(m, x, r, s), 'message + n', case, r, s)
    ctx.step(n * n)
    ctx.state(case)


def gen_recover(tier):
    for c in pick(tier):
        if c[0] % 8 != 1 and (c[3] <= 14 or tier == 'thorough' or c[0] in (11, 13) and c[3] in (17, 19)):
            for x in range(1, c[3]):
                yield c, x


def run_recover(case, ctx):
    c, x = case
    w = world(ctx, c)
    n, e = w.n, w.e
    sigs = {}
    count = 0
    for k in range(1, n):
        R = w.table[k]
        for m in range(n):
            r, s = w.sign(m, x, k)
            if r == 0 or s == 0:
                continue
            sigs.setdefault(k, []).append((m, r, s))
            # the private key from the nonce
            for a in ((r, s, m, k), tuple(e.GFn.value(v) for v in (r, s, m, k))):
                got = e.crack1(*a)
                if num(got) % n != x:
                    raise Violation('%r: crack1%r gave %r' % (case, a, num(got)))
            count += 2
            if R[0] >= n or (k + m) % 2 and n > 13:
                continue
            # the public key from a signature
            for flag in (0, 1):
                want = w.findpk(m, r, s, flag)
                if want is None:        # nonce point of order two cannot occur in a group of odd prime order
                    continue
                got = e.findpk(m, r, s, flag)
                if small.un(got) != w.table[want]:
                    raise Violation('%r: findpk(%d, %d, %d, %d) gave %r, expected %r' % (case, m, r, s, flag, small.un(got), w.table[want]))
                if flag == R[1] % 2 and want != x:
                    raise Violation('reference')
                if want and not w.verify(m, want, r, s):
                    raise Violation('reference')
                count += 1
    # nonce and private key from two signatures with the same nonce, as numbers and as field values
    for k, l in sigs.items():
        for m1, r, s1 in l:
            for m2, _, s2 in l:
                if s1 == s2:
                    continue
                kk, xx = e.crack2(r, s1, s2, m1, m2)
                if num(kk) % n != k or num(xx) % n != x:
                    raise Violation('%r: crack2(%d, %d, %d, %d, %d) gave (%r, %r), expected (%d, %d)' % (case, r, s1, s2, m1, m2, num(kk), num(xx), k, x))
                count += 1
                if (m1 + m2) % 4 == 0:
                    v = e.GFn.value
                    kk, xx = e.crack2(v(r), v(s1), v(s2), v(m1), v(m2))
                    if num(kk) % n != k or num(xx) % n != x:
                        raise Violation('%r: crack2 with field values' % (case,))
    # the public key from two signatures of one message
    for k1 in sigs:
        for k2 in sigs:
            if w.table[k1][0] >= n or w.table[k2][0] >= n or w.table[k1][0] == w.table[k2][0]:
                continue
            for m in (0, 1, n - 1) if n > 7 else range(n):
                a = [t for t in sigs[k1] if t[0] == m]
                b = [t for t in sigs[k2] if t[0] == m]
                if not a or not b:
                    continue
                (_, r1, s1), (_, r2, s2) = a[0], b[0]
                f1, f2 = w.table[k1][1] % 2, w.table[k2][1] % 2
                got = e.findpk2(r1, s1, r2, s2, f1, f2)
                if small.un(got) != w.table[x]:
                    raise Violation('%r: findpk2(%r) gave %r, expected %r' % (case, (r1, s1, r2, s2, f1, f2), small.un(got), w.table[x]))
                v = e.GFn.value
                got = e.findpk2(v(r1), v(s1), v(r2), v(s2), f1, f2)
                if small.un(got) != w.table[x]:
                    raise Violation('%r: findpk2 with field values %r' % (case, (r1, s1, r2, s2, f1, f2)))
                # another choice of parities is consistent with the definition
                want = (w_index(w, r1, 1 - f1) * s1 - k2 * s2) * pow(r1 - r2, -1, n) % n
                if small.un(e.findpk2(r1, s1, r2, s2, 1 - f1, f2)) != w.table[want]:
                    raise Violation('%r: findpk2 with the other parity %r' % (case, (r1, s1, r2, s2)))
                count += 3
    ctx.step(count)
    ctx.state(case)


def w_index(w, x, flag):
    return next(k for k in range(1, w.n) if w.table[k][0] == x and w.table[k][1] % 2 == flag)


def gen_generators(tier):
    for c in pick(tier):
        if c[3] <= 13:
            for g in range(1, c[3] - 1):
                yield c, g


def run_generators(case, ctx):
    """every other base point"""
    c, g = case
    w = World(*c, g=g)
    n = w.n
    for x in (1, 2, n - 1):
        for k in (1, 2, n - 2):
            for m in (0, 1, n - 1):
                r, s = w.sign(m, x, k)
                if r and s:
                    a, b = w.e.sign(m, x, k)
                    ctx.eq((num(a) % n, num(b) % n), (r, s), 'sign', case, x, k, m)
                    ctx.eq(w.e.verify(m, w.e.calcpub(x), a, b), True, 'verify', case, x, k, m)
                    ctx.eq(w.e.verify(m + 1, w.e.calcpub(x), a, b), w.verify(m + 1, x, r, s), 'verify', case, x, k, m + 1)


# ------------------------------------------------------------ the 256-bit curves
def two():
    from neocore.Cryptography.ECCurve import ECDSA
    return (ECDSA.secp256r1(), refs.P256), (ECDSA.secp256k1(), refs.K256)


def gen_big(tier):
    n = refs.P256.n
    xs = [1, 7, n - 1000, 1 << 200, 49350]
    ks = [1, 5, 40393, 1 << 255, n // 2 - 77]
    ms = [0, 1, int.from_bytes(refs.sha256(b'abc'), 'big'), n + 5, (1 << 256) - 1]
    for c in (0, 1):
        for i, x in enumerate(xs):
            for j, k in enumerate(ks):
                for l, m in enumerate(ms):
                    if tier == 'thorough' or (i + j + l) % 5 == 0 or i == j == 0:
                        yield c, x, k, m
        # every other power of two and its negative as s
        for s in dedup([1, 2, 3, n // 2, n // 2 + 1] + [1 << j for j in range(4, 256, 4 if tier == 'thorough' else 24)] + [1 << 255, 1 << 248]):
            for s in (s, -s):
                yield c, xs[2], ks[2], ('s', s)


def run_big(case, ctx):
    c, x, k, m = case
    e, C = two()[c]
    n = C.n
    R = C.mul(k, C.G)
    r = R[0] % n
    if isinstance(m, tuple):
        # the message of that s
        m = (m[1] * k - x * r) % n
    s = (m + x * r) * pow(k, -1, n) % n
    Q = C.mul(x, C.G)
    a, b = e.sign(m, x, k)
    ctx.eq((num(a) % n, num(b) % n), (r, s), 'sign', *case)
    Y = e.calcpub(x)
    ctx.eq(small.un(Y), Q, 'public key', *case)
    ctx.eq(e.verify(m, Y, a, b), True, 'verify', *case)
    for m2, r2, s2 in ((m + 1, r, s), (m, r, n - s), (m, r ^ 1, s), (m, r, s + 1), (m, s, r), (m, 0, 0)):
        ctx.eq(e.verify(m2, Y, r2, s2), C.verify(m2 % n, Q, r2, s2), 'verify', *case, m2, r2, s2)
    ctx.eq(small.un(e.findpk(m, r, s, R[1] % 2)), Q, 'findpk', *case)
    other = e.findpk(m, r, s, 1 - R[1] % 2)
    ctx.eq(C.verify(m % n, small.un(other), r, s), True, 'findpk other', *case)
    ctx.eq(num(e.crack1(r, s, m, k)) % n, x, 'crack1', *case)
    m2 = m + 12345
    s2 = (m2 + x * r) * pow(k, -1, n) % n
    for t in ((r, s, s2, m, m2), (r, s2, s, m2, m)):
        kk, xx = e.crack2(*t)
        ctx.eq((num(kk) % n, num(xx) % n), (k, x), 'crack2', *case)
    k3 = k + 11
    R3 = C.mul(k3, C.G)
    r3 = R3[0] % n
    s3 = (m + x * r3) * pow(k3, -1, n) % n
    ctx.eq(small.un(e.findpk2(r, s, r3, s3, R[1] % 2, R3[1] % 2)), Q, 'findpk2', *case)


def gen_oneshot(tier):
    for x in (1, 7, 379):
        for m in (1, 12345):
            yield x, m


def run_oneshot(case, ctx):
    from neocore.Cryptography.ECCurve import ECDSA
    x, m = case
    e = ECDSA.secp256r1()
    Q = refs.pub(x)
    try:
        r, s = ECDSA.SignSecp256R1(m, x, e.Curve.point(*Q))
    except TypeError as t:
        ctx.known('C25-one-shot-sign-broken', 'SignSecp256R1(%d, %d, point): %s' % (m, x, t))
        return
    ctx.eq(refs.P256.verify(m, Q, num(r) % refs.P256.n, num(s) % refs.P256.n), True, 'one-shot signature', *case)


FAMILIES = [
    Family('sign', gen_sign, run_sign, lambda t: 'all private keys, nonces and messages 0..n+1 on %d curves of prime order 5..%d, below and above the field size' % (len(pick(t)), max(c[3] for c in pick(t)))),
    Family('verify', gen_verify, run_verify, 'all (r, s) for all private keys and messages (quick: a third of them above order 7) on the curves of order up to 13 (19)'),
    Family('recover', gen_recover, run_recover, 'crack1, findpk for all signatures, crack2 for all pairs with one nonce, findpk2 for all pairs of nonces'),
    Family('generators', gen_generators, run_generators, 'every base point of the curves of order up to 13'),
    Family('big-curves', gen_big, run_big, 'keys x nonces x messages on the two 256-bit curves; messages chosen so that s is near 0, the order, half of it or a power of two'),
    Family('one-shot', gen_oneshot, run_oneshot, 'the one-shot signing helper'),
]
