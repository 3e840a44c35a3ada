import itertools
from mc.common import *

ASSUMPTIONS = ['amounts are changed only through the operators']
D = 10 ** 8


def alpha(tier):
    base = {0, 1, 2, 3, 7, 10, 99, 255, 256, D // 2, D // 2 - 1, D // 2 + 1, D - 1, D, D + 1, 2 * D - 1, 2 * D, 2 * D + 1, 3 * D // 2, 5 * D, 123456789, 10 * D + 1, 1 << 31, (1 << 31) - 1, 1 << 32,
            (1 << 52) + 1, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, (1 << 54) + 2, 10 ** 15 + 3, 10 ** 16, 10 ** 16 + 1, 10 ** 17 - 1, 1234567890123456789, (1 << 62) + 1, (1 << 63) - 1, 1 << 63, 3 * 10 ** 16 + 5, D * D, D * D + 1, D * D - 1,
            100000000 * D - 1, 33333333333333333, 9007199254740993 * 3}
    if tier == 'thorough':
        for k in range(0, 70):
            base |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
        for k in range(0, 22):
            base |= {10 ** k - 1, 10 ** k + 1, 5 * 10 ** k}
    else:
        for k in range(0, 66, 3):
            base |= {(1 << k) + 1}
    return sorted(base | {-b for b in base})


def gen_pairs(tier):
    A = alpha(tier)
    for a in A:
        yield a, A


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


BIN = {
    '+': (lambda x, y: x + y, lambda a, b: a + b), '-': (lambda x, y: x - y, lambda a, b: a - b), '*': (lambda x, y: x * y, lambda a, b: a * b),
    '/': (lambda x, y: x / y, tdiv), '//': (lambda x, y: x // y, lambda a, b: a // b), '%': (lambda x, y: x % y, lambda a, b: a % b),
}


def iop(op, x, y):
    if op == '+': x += y
    elif op == '-': x -= y
    elif op == '*': x *= y
    elif op == '/': x /= y
    elif op == '//': x //= y
    else: x %= y
    return x


def run_pairs(case, ctx):
    from neocore.Fixed8 import Fixed8
    a, A = case
    for b in A:
        x, y = Fixed8(a), Fixed8(int(str(b)))      # equal amounts are not one number object
        for op, (f, g) in BIN.items():
            if b == 0 and op in ('/', '//', '%'):
                ctx.refused(lambda: f(x, y), op, a, b)
                ctx.refused(lambda: iop(op, Fixed8(a), y), op + '=', a, b)
                continue
            want = g(a, b)
            r = f(x, y)
            ctx.eq((r.value, type(r.value) is int, type(r) is Fixed8), (want, True, True), op, a, b)
            z = Fixed8(a)
            keep = z
            r = iop(op, z, y)
            ctx.eq((r.value, type(r) is Fixed8, keep.value), (want, True, a), op + '=', a, b)
            if r is y or f(x, y) is x:
                raise Violation('%s gave an operand itself' % op)
        ctx.eq((x == y, x != y, x < y, x <= y, x > y, x >= y), (a == b, a != b, a < b, a <= b, a > b, a >= b), 'compare', a, b)
        ctx.eq((x.value, y.value), (a, b), 'operands', a, b)


def gen_unary(tier):
    A = set(alpha('thorough'))
    for w in list(range(0, 40)) + [10 ** k for k in range(2, 12)] + [1 << k for k in range(5, 40)]:
        for f in (0, 1, 2, D // 2 - 1, D // 2, D // 2 + 1, D - 2, D - 1):
            A |= {w * D + f, -(w * D + f)}
    yield from chunks(sorted(A), 64)


def run_unary(vals, ctx):
    from neocore.Fixed8 import Fixed8
    for v in vals:
        f = Fixed8(v)
        ctx.eq((-f).value, -v, 'neg', v)
        ctx.eq(f.Ceil().value, -((-v) // D) * D, 'ceil', v)
        ctx.eq(f.Floor().value, v // D * D, 'floor', v)
        ctx.eq(f.ToInt(), tdiv(v, D), 'toint', v)
        ctx.eq(f.GetData(), v, 'data', v)
        ctx.eq(f.value, v, 'operand', v)
        ctx.eq(f.Size(), 8, 'size')
        c = f.Ceil()
        c += f
        ctx.eq(f.value, v, 'operand', v)
        for r in (f.Ceil(), f.Floor()):
            ctx.eq(type(r.value) is int, True, 'type', v)
        g = f.Floor()
        if v % D == 0:
            ctx.eq((g == f, f.Ceil() == f), (True, True), 'whole', v)


# ------------------------------------------------------------------ histories
def ops():
    out = []
    for i in range(3):
        for j in range(3):
            for op in ('+', '-', '*', '/', '%'):
                out.append((op, i, j))
            if i != j:
                out.append(('=', i, j))
        for c in ('One', 'Zero', 'Satoshi', 'NegativeSatoshi'):
            out.append((c, i, 0))
        out.append(('neg', i, 0))
    return out


CONST = {'One': D, 'Zero': 0, 'Satoshi': 1, 'NegativeSatoshi': -1, 'FD': D}


def gen_hist(tier):
    n = len(ops())
    starts = ((5, -3 * D // 2, 5), (D, 0, -1)) if tier == 'thorough' else ((5, -3 * D // 2, 5),)
    for s in starts:
        for h in itertools.product(range(n), repeat=2):
            yield s, h


def run_hist(case, ctx):
    from neocore.Fixed8 import Fixed8
    start, h = case
    O = ops()
    # the last step of each history is enumerated here
    for last in range(len(O)):
        x = [Fixed8(start[0]), Fixed8(start[1]), None]
        x[2] = x[0]
        m = [start[0], start[1], start[0]]
        made = [(x[0], m[0]), (x[1], m[1])]
        for k in h + (last,) if isinstance(h, tuple) else tuple(h) + (last,):
            op, i, j = O[k]
            if op == '=':
                x[i], m[i] = x[j], m[j]
            elif op in CONST:
                x[i], m[i] = getattr(Fixed8, op)(), CONST[op]
            elif op == 'neg':
                x[i], m[i] = -x[i], -m[i]
            elif m[j] == 0 and op in '/%':
                try:
                    iop(op, x[i], x[j])
                except Exception:
                    pass
                else:
                    raise Violation('division by zero not refused')
            else:
                m[i] = BIN[op][1](m[i], m[j])
                x[i] = iop(op, x[i], x[j])
            made.append((x[i], m[i]))
        ctx.eq([q.value for q in x], m, 'variables', case, last)
        for q, v in made:
            if q.value != v:
                raise Violation('an amount changed from %r to %r in history %r' % (v, q.value, [O[k] for k in h] + [O[last]]))
        ctx.eq([getattr(Fixed8, c)().value for c in CONST], list(CONST.values()), 'constants', case, last)


def gen_const(tier):
    for a in CONST:
        for b in CONST:
            yield a, b


def run_const(case, ctx):
    """the constants stay what they are even if a returned amount is used as a variable"""
    from neocore.Fixed8 import Fixed8
    a, b = case
    x = getattr(Fixed8, a)()
    x += getattr(Fixed8, b)()
    x -= Fixed8(7)
    x.value += 1
    y = getattr(Fixed8, b)()
    y.value = 12345
    for c, v in CONST.items():
        ctx.eq(getattr(Fixed8, c)().value, v, c, case)
    ctx.eq(Fixed8.D, D, 'D')


FAMILIES = [
    Family('pairs', gen_pairs, run_pairs, lambda t: 'all ordered pairs of %d amounts under every operator, plain and in place, and every comparison' % len(alpha(t))),
    Family('unary', gen_unary, run_unary, 'negation, rounding, conversion on a boundary alphabet of both signs'),
    Family('histories', gen_hist, run_hist, 'all histories of length 3 over %d in-place, aliasing and constant operations on three variables, two of them aliased at the start' % len(ops())),
    Family('constants', gen_const, run_const, 'all pairs of constants, modified through what was returned'),
]
