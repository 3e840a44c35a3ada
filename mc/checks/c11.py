import itertools
from mc.common import *

ASSUMPTIONS = ['the big integer is the left operand where the result type is claimed']


def alpha(tier):
    base = {0, 1, 2, 3, 5, 7, 10, 127, 128, 129, 255, 256, 257, 1000, 65535, 65536, 65537, 10 ** 9 + 7, 10 ** 18, 10 ** 30 + 1, (1 << 53) + 1, 3 ** 100, 3 ** 200 * 7}
    ks = (4, 12, 15, 16, 23, 24, 29, 30, 31, 32, 33, 52, 59, 60, 61, 62, 63, 64, 65, 96, 100, 119, 120, 127, 128, 159, 160, 192, 255, 256, 257, 511, 512, 520, 1023, 1024, 2047, 2048, 4096) if tier == 'quick' else list(range(1, 525, 3)) + [1023, 1024, 1025, 2047, 2048, 2049, 4096, 8192]
    for k in ks:
        base |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    return sorted(base | {-b for b in base})


BIN = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y, '//': lambda x, y: x // y, '%': lambda x, y: x % y,
       '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}
REF = dict(BIN)
REF['/'] = lambda a, b: a // b


def iop(op, x, y):
    if op == '+': x += y
    elif op == '-': x -= y
    elif op == '*': x *= y
    elif op == '/': x /= y
    elif op == '//': x //= y
    elif op == '%': x %= y
    elif op == '<<': x <<= y
    else: x >>= y
    return x


def gen_pairs(tier):
    for a in alpha(tier):
        yield a


def run_pairs(a, ctx):
    from neocore.BigInteger import BigInteger as B
    import os
    x = B(a)
    for b in alpha(os.environ.get('VERIF_TIER', 'quick')) + [4, 6, 8, 9, 16, 17]:
        y = B(b)
        for op, f in BIN.items():
            if op in ('/', '//', '%') and b == 0 or op in ('<<', '>>') and b < 0:
                ctx.refused(lambda: f(x, y), op, a, b)
                ctx.refused(lambda: f(x, b), op, a, b)
                continue
            if op in ('<<', '>>') and b > 600:
                continue
            want = REF[op](a, b)
            for r in (f(x, y), f(x, b), iop(op, B(a), y), iop(op, B(a), b)):
                if int(r) != want or type(r) is not B:
                    raise Violation('%d %s %d: %r (%s), expected %d' % (a, op, b, int(r), type(r).__name__, want))
            if op not in ('/',):
                ctx.eq(int(f(a, y)), want, 'mixed', op, a, b)
            ctx.eq((int(x), int(y)), (a, b), 'operands', op, a, b)
        ctx.eq((x == y, x != y, x < y, x <= y, x > y, x >= y, x.Equals(y), x.Equals(b), x == b, b == x), (a == b, a != b, a < b, a <= b, a > b, a >= b, a == b, a == b, a == b, a == b), 'compare', a, b)
        ctx.eq(hash(x) == hash(a), True, 'hash')


def gen_unary(tier):
    yield from alpha('thorough')


def run_unary(a, ctx):
    from neocore.BigInteger import BigInteger as B
    x = B(a)
    ctx.eq(x.Sign, (a > 0) - (a < 0), 'sign', a)
    for name, r, want in (('neg', -x, -a), ('abs', abs(x), abs(a))):
        ctx.eq((int(r), type(r) is B), (want, True), name, a)
        ctx.eq(r.Sign, (want > 0) - (want < 0), 'sign', name, a)
    ctx.eq(str(x), str(a), 'str', a)
    ctx.eq('%d' % x, str(a), 'format', a)
    ctx.eq(int(x), a, 'int', a)
    for k in (0, 1, 7, 8, 9, 63, 64, 65, 255, 256, 300):
        for r, want in ((x << k, a << k), (x >> k, a >> k), (x << B(k), a << k), (x >> B(k), a >> k)):
            ctx.eq((int(r), type(r) is B), (want, True), 'shift', a, k)
    from neocore import BigInteger as mod
    ctx.eq((int(mod.ZERO), int(mod.ONE), type(mod.ZERO) is B, type(mod.ONE) is B), (0, 1, True, True), 'constants')


STEPS = [(op, b) for op in ('+', '-', '*', '/', '//', '%') for b in (3, -7, 1 << 64)] + [('<<', 5), ('>>', 3), ('neg', 0), ('abs', 0)]


def gen_chain(tier):
    for a in (0, 1, -1, 300, -(1 << 65), (1 << 128) + 1):
        for h in itertools.product(range(len(STEPS)), repeat=5 if tier == 'thorough' else 4):
            yield a, h


def run_chain(case, ctx):
    from neocore.BigInteger import BigInteger as B
    a, h = case
    x, m = B(a), a
    olds = []
    for k in h:
        op, b = STEPS[k]
        olds.append((x, m))
        if op == 'neg':
            x, m = -x, -m
        elif op == 'abs':
            x, m = abs(x), abs(m)
        else:
            x, m = iop(op, x, b if k % 2 else B(b)), REF[op](m, b)
        if int(x) != m or type(x) is not B or x.Sign != (m > 0) - (m < 0):
            raise Violation('%r: %r of %s, expected %d' % (case, int(x), type(x).__name__, m))
        ctx.step()
    ctx.eq(int(B.FromBytes(x.ToByteArray(), signed=True)), m, 'through bytes', case)
    for o, v in olds:
        if int(o) != v:
            raise Violation('operand changed')


FAMILIES = [
    Family('pairs', gen_pairs, run_pairs, lambda t: 'all ordered pairs of %d integers up to 2^4096 of both signs x 8 operators, plain, in place and mixed with int' % len(alpha(t))),
    Family('unary', gen_unary, run_unary, 'sign, negation, absolute value, text, shifts on %d integers' % len(alpha('thorough'))),
    Family('chains', gen_chain, run_chain, lambda t: 'all chains of %d operations over %d steps from 6 starts' % (5 if t == 'thorough' else 4, len(STEPS))),
]
