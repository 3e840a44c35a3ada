from mc.common import *
from mc import small
from mc.checks.c19 import SPECIAL

ASSUMPTIONS = ['division by zero is left open (the code answers zero)', 'square roots are asked of squares only, and primes 1 modulo 8 are refused by this square root',
               'curves with b = 0 are left out: (0, 0) stands for infinity']


def primes(n):
    return [p for p in range(2, n) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def F(p):
    from neocore.Cryptography.ECCurve import FiniteField
    return FiniteField(p)


def field_primes(tier):
    return primes(62 if tier == 'thorough' else 32)


def gen_field(tier):
    for p in field_primes(tier):
        for a in range(p):
            yield p, a


def bin_ops(a, b, A, B, p):
    """(got, wanted) for the operators; a, b operands of which at least one is a field value"""
    yield '+', a + b, (A + B) % p
    yield '-', a - b, (A - B) % p
    yield '*', a * b, A * B % p
    if B % p:
        yield '/', a / b, A * pow(B, -1, p) % p


def run_field(case, ctx):
    p, A = case
    f = F(p)
    a = f.value(A)

    def judge(op, got, want, *what):
        if got.value != want or got.field is not f:
            raise Violation('modulo %d: %d %s %r gave %r, expected %d' % (p, A, op, what, got.value, want))
    n = 0
    for B in range(p):
        b = f.value(B)
        for op, got, want in bin_ops(a, b, A, B, p):
            judge(op, got, want, B); n += 1
        if (a == b) is not (A == B) or (a != b) is not (A != B):
            raise Violation('equality of %d and %d modulo %d' % (A, B, p))
        if b.value != B:
            raise Violation('operand changed')
        judge('**', a ** b, pow(A, B, p), B)
    for B in range(-2 * p - 1, 3 * p + 2):
        for op, got, want in bin_ops(a, B, A, B, p):
            judge(op + ' int', got, want, B); n += 1
        for op, got, want in bin_ops(B, a, B, A, p):
            judge('int ' + op, got, want, B); n += 1
        if (a == B) is not ((A - B) % p == 0) or (a != B) is not ((A - B) % p != 0) or (B == a) is not ((A - B) % p == 0):
            raise Violation('equality of %d and integer %d modulo %d' % (A, B, p))
        if B >= 0 or A:
            judge('** int', a ** B, pow(A, B, p), B)
        judge('int **', B ** a, pow(B, A, p), B)
    judge('neg', -a, -A % p)
    if A:
        if a.inverse() * A % p != 1 % p:
            raise Violation('inverse of %d modulo %d: %r' % (A, p, a.inverse()))
    ctx.eq(a.iszero(), A == 0, 'iszero', p, A)
    ctx.eq((f.zero().value, f.one().value), (0, 1), 'constants')
    ctx.eq(a.value, A, 'unchanged', p, A)
    ctx.check(f.value(a) is a or f.value(a).value == A, 'value of a value')
    ctx.eq(F(p).value(a).value, A, 'value of another field object')
    ctx.step(n)


def gen_sqrt(tier):
    for p in primes(800 if tier == 'thorough' else 260):
        if p > 2 and p % 8 != 1:
            yield p


def run_sqrt(p, ctx):
    f = F(p)
    for r in range(p):
        for parity in (0, 1):
            s = f.value(r * r).sqrt(parity) if r * r < p else f.value(r * r % p).sqrt(parity)
            want = min((x for x in (r, p - r) if x % 2 == parity), default=0) if r else 0
            ctx.eq(s.value, want, 'sqrt', p, r, parity)


BIG = [refs.P256.p, refs.K256.p, refs.P256.n, 2 ** 255 - 19, 2 ** 127 - 1, 2 ** 61 - 1, 2 ** 89 - 1]


def big_alphabet(p):
    out = [0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, p // 3]
    for k in range(0, p.bit_length() - 1, 37):
        out += [1 << k, (1 << k) - 1, p - (1 << k)]
    out.append(int.from_bytes(bytes(range(1, 33)), 'big') % p)
    return dedup(x % p for x in out)


def gen_bigfield(tier):
    for i, p in enumerate(BIG):
        for A in big_alphabet(p):
            yield i, A


def run_bigfield(case, ctx):
    i, A = case
    p = BIG[i]
    f = F(p)
    a = f.value(A)
    for B in big_alphabet(p):
        for b, how in ((f.value(B), 'value'), (B, 'int'), (B - p, 'negative'), (B + p, 'above')):
            for op, got, want in bin_ops(a, b, A, B, p):
                ctx.eq(got.value, want, op, how, i, A, B)
            if how != 'value':
                for op, got, want in bin_ops(b, a, B, A, p):
                    ctx.eq(got.value, want, 'int ' + op, how, i, A, B)
        ctx.eq((a ** B).value, pow(A, B, p), 'pow', i, A, B)
        if A:
            ctx.eq((a ** -B).value, pow(A, -B, p), 'pow', i, A, -B)
    ctx.eq((-a).value, -A % p, 'neg')
    if p % 8 != 1:
        for parity in (0, 1):
            s = f.value(A * A % p).sqrt(parity).value
            ctx.eq(s, 0 if A == 0 else A if A % 2 == parity else p - A, 'sqrt', i, A, parity)


# ------------------------------------------------------------------ curves
TRIPLES = (3, 5, 7)
PAIRS = [(11, 1, 6), (11, 0, 2), (11, 10, 4), (13, 2, 7), (13, 0, 1), (17, 2, 2), (17, 0, 7), (19, 1, 4), (23, 1, 1), (23, 9, 17), (29, 4, 20), (31, 1, 3), (37, 0, 5), (43, 2, 3)]


def gen_triples(tier):
    for c in small.curves(TRIPLES):
        for i in range(c[3]):
            yield c[:3] + (i,)
    if tier == 'thorough':
        for c in PAIRS[:9]:
            for i in range(len(small.points(*c)) + 1):
                yield c + (i,)


def group(p, a, b):
    pts = [None] + list(small.points(p, a, b))
    return pts, small.Ref(p, a, b), small.impl(p, a, b)


def run_triples(case, ctx):
    p, a, b, i = case
    pts, ref, ec = group(p, a, b)
    P = small.mk(ec, pts[i])
    n = 0
    for Q in pts:
        q = small.mk(ec, Q)
        for R in pts:
            r = small.mk(ec, R)
            l, m = (P + q) + r, P + (q + r)
            want = ref.add(ref.add(pts[i], Q), R)
            if small.un(l) != want or small.un(m) != want or (l == m) is not True:
                raise Violation('%r: (%r + %r) + %r gave %r and %r, expected %r' % (case, pts[i], Q, R, small.un(l), small.un(m), want))
            n += 1
    ctx.step(2 * n)
    ctx.state(case)


def gen_pairs(tier):
    cs = [c[:3] for c in small.curves((3, 5, 7))] + PAIRS + ([c[:3] for c in small.curves((11, 13))] if tier == 'thorough' else [])
    for c in dedup(cs):
        for i in range(len(small.points(*c)) + 1):
            yield c + (i,)


def run_pairs(case, ctx):
    """sums and differences with every point; every multiple; membership"""
    p, a, b, i = case
    pts, ref, ec = group(p, a, b)
    A = pts[i]
    P = small.mk(ec, A)
    n = len(pts)
    for B in pts:
        Q = small.mk(ec, B)
        for got, want, op in ((P + Q, ref.add(A, B), '+'), (P - Q, ref.add(A, ref.neg(B)), '-'), (Q + P, ref.add(A, B), 'reversed +')):
            ctx.eq(small.un(got), want, op, case, B)
            ctx.check(got.isoncurve() is True and 0 <= got.x.value < p and 0 <= got.y.value < p, 'on the curve, in the field')
        ctx.eq(small.un(Q), B, 'operand unchanged')
    ctx.eq(small.un(-P), ref.neg(A), 'negated', case)
    ctx.eq((P.IsInfinity, P.iszero()), (A is None, A is None), 'infinity')
    if A is not None:
        ctx.eq(small.un(P + P), ref.add(A, A), 'doubled', case)
    table = [None]
    for k in range(1, 2 * n + 3):
        table.append(ref.add(table[-1], A))
    for k in range(-n - 2, 2 * n + 3):
        want = table[k] if k >= 0 else ref.neg(table[-k])
        ctx.eq(small.un(P * k), want, 'multiple', case, k)
        if 0 <= k:
            ctx.eq(small.un(P * ec.field.value(k % p)), table[k % p] if k % p < len(table) else ref.mul(k % p, A), 'field multiple', case, k)
    ctx.eq(small.un(P * n), None, 'order')
    ctx.eq(small.un(P), A, 'unchanged')
    if n > 4 and all(n % q for q in range(2, n)):
        f = F(n)
        for k in range(1, n):
            ctx.eq(small.un(P * f.value(k)), table[k], 'group scalar', case, k)
            d = P / f.value(k)
            ctx.eq(small.un(d), table[pow(k, -1, n)], 'divided', case, k)
            ctx.eq(small.un(d * k), A, 'divided and multiplied', case, k)


def gen_member(tier):
    for p in (3, 5, 7, 11, 13, 19, 23) if tier == 'quick' else (3, 5, 7, 11, 13, 19, 23, 29, 31, 37):
        for a in range(p):
            for b in range(1, p):
                if not small.singular(p, a, b) and (p <= 11 or tier == 'thorough' or (a + b) % 5 == 0):
                    yield p, a, b


def run_member(case, ctx):
    p, a, b = case
    ec = small.impl(p, a, b)
    on = set(small.points(p, a, b)) | {(0, 0)}
    for x in range(p):
        for y in range(p):
            if ec.point(x, y).isoncurve() is not ((x, y) in on):
                raise Violation('isoncurve%r on %r' % ((x, y), case))
    ctx.step(p * p)
    for x, y in small.points(p, a, b):
        for flag in (0, 1):
            want = y if y % 2 == flag or y == 0 else p - y
            ctx.eq((lambda P: (P.x.value, P.y.value))(ec.decompress(x, flag)), (x, want), 'decompress', case, x, flag)
            if y:
                ctx.eq((lambda P: (P.x.value, P.y.value))(ec.decompress_from_curve(x, flag)), (x, want), 'decompress_from_curve', case, x, flag)
    ctx.eq((ec.Infinity.x.value, ec.Infinity.y.value), (0, 0), 'infinity')
    ctx.eq((ec.zero().x.value, ec.zero().y.value), (0, 0), 'zero')


def two():
    from neocore.Cryptography.ECCurve import ECDSA
    return (('r1', ECDSA.secp256r1(), refs.P256), ('k1', ECDSA.secp256k1(), refs.K256))


def gen_std(tier):
    yield 0
    yield 1


def run_std(i, ctx):
    name, e, C = two()[i]
    ctx.eq((e.Curve.field.p, e.Curve.a.value % C.p, e.Curve.b.value, e.GFn.p), (C.p, C.a % C.p, C.b, C.n), 'parameters', name)
    ctx.eq((e.G.x.value, e.G.y.value), C.G, 'base point', name)
    ctx.check(e.G.isoncurve(), 'base point on curve')
    ctx.eq((e.G * C.n).IsInfinity, True, 'order', name)
    ctx.eq(small.un(e.G * (C.n + 1)), C.G, 'order + 1', name)
    ctx.eq(small.un(e.G * (C.n - 1)), C.neg(C.G), 'order - 1', name)
    ctx.eq(small.un(e.G * -1), C.neg(C.G), '-1', name)
    ctx.check(e.ec is e.Curve, 'curve')


def scalars(tier):
    n = refs.P256.n
    out = [0, 1, 2, 3, 4, 5, 7, 379, 43, 49350, n - 1, n - 2, n, n + 1, (n - 1) // 2, (1 << 53) + 1, (1 << 64) - 1, (1 << 128) + 1, (1 << 255) - 19, (1 << 256) - 1, -1, -7, 1 << 300]
    out += [1 << k for k in range(0, 256, 8 if tier == 'thorough' else 51)]
    if tier == 'thorough':
        out += list(range(8, 70)) + SPECIAL
    return dedup(out)


def gen_big(tier):
    for c in (0, 1):
        for k in scalars(tier):
            yield c, k


def run_big(case, ctx):
    c, k = case
    name, e, C = two()[c]
    P = e.G * k
    want = C.mul(k % C.n, C.G)
    ctx.eq(small.un(P), want, 'multiple', name, k)
    ctx.check(P.isoncurve(), 'on curve')
    if 0 <= k < 1 << 256:
        ctx.eq(small.un(e.calcpub(k)), want, 'calcpub', name, k)
    B = C.mul(12345, C.G)
    Q = e.Curve.point(*B)
    ctx.eq(small.un(P + Q), C.add(want, B), 'sum', name, k)
    ctx.eq(small.un(Q - P), C.add(B, C.neg(want)), 'difference', name, k)
    ctx.eq(small.un(P + P), C.add(want, want), 'doubled', name, k)
    ctx.eq(small.un(P - P), None, 'minus itself', name, k)
    ctx.eq(small.un(P + -P), None, 'plus negative', name, k)
    ctx.eq(small.un(P + e.Curve.Infinity), want, 'plus infinity', name, k)
    ctx.eq(small.un(e.Curve.Infinity + P), want, 'infinity plus', name, k)
    ctx.eq(small.un(-P), C.neg(want), 'negative', name, k)
    ctx.eq(small.un(P), want, 'unchanged')
    ctx.eq(small.un(Q), B, 'unchanged')
    if k % C.n:
        d = P / e.GFn.value(k % C.n)
        ctx.eq(small.un(d), C.G, 'divided by its scalar', name, k)
        ctx.eq(small.un(Q / e.GFn.value(k % C.n)), C.mul(pow(k, -1, C.n), B), 'divided', name, k)


FAMILIES = [
    Family('fields', gen_field, run_field, lambda t: 'all elements and pairs modulo every prime up to %d, with integers -2p-1..3p+1 on either side, all powers' % field_primes(t)[-1]),
    Family('square-roots', gen_sqrt, run_sqrt, 'every square of every prime below 260 (800) not 1 modulo 8, both parities'),
    Family('big-fields', gen_bigfield, run_bigfield, '7 big primes x all pairs of ~25 elements, integer operands below, in and above the field'),
    Family('associativity', gen_triples, run_triples, 'all triples of points of all curves over 3, 5, 7 (thorough: and 9 larger curves)'),
    Family('groups', gen_pairs, run_pairs, 'all pairs of points, all multiples -n-2..2n+2, all quotients of all curves over 3, 5, 7 (11, 13) and 14 curves up to 43'),
    Family('membership', gen_member, run_member, 'all coordinate pairs, all decompressions of curves over fields up to 23 (37)'),
    Family('standard-curves', gen_std, run_std, 'parameters, base point and order of the two built-in curves'),
    Family('big-curves', gen_big, run_big, lambda t: '%d scalars on both 256-bit curves against Jacobian arithmetic' % len(scalars(t))),
]
