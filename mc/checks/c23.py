import functools
from mc.common import *
from mc import small
from mc.checks.c19 import SPECIAL

ASSUMPTIONS = ['points have their coordinates in the field, as every operation and decoder produces them']
C = refs.P256


def cmp_all(ctx, a, b, A, B, *what):
    """A, B: coordinate pairs; a, b: points"""
    for got, want, op in ((a == b, A == B, '=='), (a != b, A != B, '!='), (a < b, A < B, '<'), (a > b, A > B, '>'), (a <= b, A <= B, '<='), (a >= b, A >= B, '>=')):
        if got is not want:
            raise Violation('%r %s %r gave %r (%r)' % (A, op, B, got, what))
    ctx.step(6)
    ctx.state(A == B, A < B, *what)


SMALL = ((3, 1, 1), (3, 2, 1), (5, 1, 1), (5, 4, 1), (7, 1, 1), (7, 3, 4), (7, 0, 3), (11, 1, 6), (11, 10, 5), (13, 2, 7), (17, 2, 2), (17, 0, 7), (23, 1, 1), (29, 4, 20), (31, 1, 3))


def gen_small(tier):
    for c in SMALL:
        n = len(small.points(*c)) + 1
        for i in range(n):
            yield c + (i,)
    if tier == 'thorough':
        for c in small.curves((19, 37, 41)):
            for i in range(c[3]):
                yield c[:3] + (i,)


def run_small(case, ctx):
    p, a, b, i = case
    pts = [(0, 0)] + list(small.points(p, a, b))
    e1, e2 = small.impl(p, a, b), small.impl(p, a, b)
    A = e1.point(*pts[i])
    for B in pts:
        for e in (e1, e2):
            x = e.point(*B)
            cmp_all(ctx, A, x, pts[i], B, case)
        ctx.eq((x.x.value, x.y.value), B, 'unchanged')
    ctx.eq((A.x.value, A.y.value), pts[i], 'unchanged')


def gen_grid(tier):
    for p in (2, 3, 5, 7) + ((11,) if tier == 'thorough' else ()):
        for i in range(p * p):
            yield p, i


def run_grid(case, ctx):
    """all coordinate pairs, on a curve or not, and all triples"""
    p, i = case
    e = small.impl(p, 1, 1)
    pts = [(x, y) for x in range(p) for y in range(p)]
    objs = [e.point(*q) for q in pts]
    for j, q in enumerate(pts):
        cmp_all(ctx, objs[i], objs[j], pts[i], q, case)
        if p <= 5:
            for k, r in enumerate(pts):
                if objs[i] < objs[j] and objs[j] < objs[k] and not objs[i] < objs[k]:
                    raise Violation('not transitive: %r %r %r' % (pts[i], q, r))
                ctx.step()


def alphabet():
    out = [None]
    for d in list(range(1, 13)) + SPECIAL[::3] + [1 << 255, 12345]:
        Q = refs.pub(d)
        out += [Q, C.neg(Q)]
    # pairs that differ in one byte only
    x, y = refs.pub(7)
    out += [(x ^ 1, y), (x, y ^ 1), (x ^ (1 << 248), y), (x, y ^ (1 << 248)), (x, 0), (0, y), (x, x), (y, y), (y, x), (0, 1), (1, 0)]
    return dedup(out)


def gen_big(tier):
    for i in range(len(alphabet())):
        yield i


def variants(Q):
    """the same point obtained in different ways"""
    from neocore.Cryptography.ECCurve import ECDSA
    e = ECDSA.secp256r1().Curve
    q = Q or (0, 0)
    p = e.point(*q)
    yield p
    yield e.point(e.field.value(q[0]), e.field.value(q[1]))
    if Q is None:
        yield e.Infinity
        yield e.zero()
        yield ECDSA.decode_secp256r1('00').G
    elif C.on(Q):
        yield ECDSA.decode_secp256r1(refs.compressed(Q), unhex=False).G
        yield ECDSA.FromBytes_Secp256r1(refs.uncompressed(Q)[1:]).G
        yield ECDSA.Deserialize_Secp256r1(rd(refs.compressed(Q))[1])
        yield -(-p)
        yield p + e.zero()
        yield (p + p) - p
        yield p * 1
        yield e.decompress(Q[0], Q[1] & 1)


def run_big(i, ctx):
    al = alphabet()
    mine = list(variants(al[i]))
    A = al[i] or (0, 0)
    for j, Q in enumerate(al):
        B = Q or (0, 0)
        theirs = list(variants(Q)) if i == j else [next(variants(Q))]
        for a in mine:
            for b in theirs:
                cmp_all(ctx, a, b, A, B, i, j)
    for a in mine:
        ctx.eq(a.IsInfinity, A == (0, 0), 'IsInfinity', i)
        ctx.eq(a.iszero(), A == (0, 0), 'iszero', i)


def gen_sort(tier):
    n = 6 if tier == 'thorough' else 5
    for k, perm in enumerate(itertools.permutations(range(n))):
        yield perm


def run_sort(perm, ctx):
    from neocore.Cryptography.ECCurve import ECDSA
    e = ECDSA.secp256r1().Curve
    Q = refs.pub(7)
    sets = [[Q, C.neg(Q), refs.pub(379), (0, 0), refs.pub(2), Q], [Q, Q, C.neg(Q), C.neg(Q), (Q[0], 5), (5, Q[1])], [refs.pub(d) for d in (5, 4, 3, 2, 1, 6)]]
    for s in sets:
        order = [s[i] for i in perm]
        pts = [e.point(*q) for q in order]
        back = lambda ps: [(p.x.value, p.y.value) for p in ps]
        ctx.eq(back(sorted(pts)), sorted(order), 'sorted', perm)
        ctx.eq(back(sorted(pts, reverse=True)), sorted(order, reverse=True), 'reverse', perm)
        ctx.eq(back([min(pts), max(pts)]), [min(order), max(order)], 'extremes', perm)
        ctx.eq(back(pts), order, 'untouched', perm)
        l = list(pts)
        l.sort()
        ctx.eq(back(l), sorted(order), 'sort', perm)
        ctx.eq(back(functools.reduce(lambda acc, p: [q for q in acc if q <= p] + [p] + [q for q in acc if q > p], pts, [])), sorted(order), 'insertion', perm)
        ctx.eq(pts.index(pts[2]), order.index(order[2]), 'index', perm)
        ctx.eq(pts[1] in pts[2:], order[1] in order[2:], 'membership', perm)


FAMILIES = [
    Family('small-curves', gen_small, run_small, 'all pairs of points (and infinity) of 15 small curves (thorough: all curves over 19, 37, 41), same and separate curve objects'),
    Family('coordinates', gen_grid, run_grid, 'all pairs of coordinate pairs over fields of 2..7 (11); all triples up to 5'),
    Family('p256', gen_big, run_big, 'all pairs of ~60 points (multiples, negatives, infinity, near misses), each obtained in up to 11 ways'),
    Family('sorting', gen_sort, run_sort, 'all permutations of 5 (6) points of 3 sets'),
]
