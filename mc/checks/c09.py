import re
from decimal import Decimal, Inexact, ROUND_CEILING, ROUND_DOWN, ROUND_HALF_EVEN, ROUND_UP, Rounded, localcontext
from mc.common import *

ASSUMPTIONS = ['amounts and texts below 10^300 (the range of a float)']
D = 10 ** 8
PLAIN = re.compile(r'-?[0-9]+(\.[0-9]+)?\Z')
EXACT = (1 << 26) * D


def canon(v, point=True):
    """text of v units with 8 fractional digits cut to the needed ones"""
    s = '-' if v < 0 else ''
    w, f = divmod(abs(v), D)
    t = ('%08d' % f).rstrip('0')
    return s + str(w) + ('.' + t if t else '.0' if point else '')


def units(text):
    """exact units denoted by plain text, None if not a whole number of units"""
    m = re.match(r'(-?)([0-9]+)(?:\.([0-9]+))?\Z', text)
    f = (m.group(3) or '').rstrip('0')
    if len(f) > 8:
        return None
    v = int(m.group(2)) * D + int(f.ljust(8, '0') or 0)
    return -v if m.group(1) else v


def fracs(tier):
    out = set(range(0, 101)) | {99999999, 12345678, 50000000, 49999999, 50000001, 11111111, 90909090, 29000000, 57000000, 10101010, 99999900, 33333333, 66666667}
    for j in range(8):
        for d in range(1, 10):
            out.add(d * 10 ** j)
            for k in range(j):
                for e in ((1, 3, 5, 9) if tier == 'quick' else range(1, 10)):
                    out.add(d * 10 ** j + e * 10 ** k)
    return sorted(out)


def wholes(limit):
    out = {0, 1, 2, 9, 10, 11, 99, 100, 101, 255, 256, 1000, 4096, 12345, 65535, 99999, 100000, 123456, 999999, 1000000, 1234567, 8388608, 9999999, 10000000, 16777215, 16777216, 16777217, 30000000, 33554431, 33554432, 50331649, 67108862, 67108863}
    for k in range(0, 60):
        out |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    for k in range(0, 19):
        out |= {10 ** k - 1, 10 ** k, 10 ** k + 1, 7 * 10 ** k}
    return sorted(w for w in out if 0 <= w < limit)


def gen_print(tier):
    F = fracs(tier)
    for w in wholes(1 << 26):
        yield from chunks([w * D + f for f in F], 256)
    yield from chunks(range(0, 20000 if tier == 'quick' else 400000), 256)
    v = [s for k in range(0, 53) for s in ((1 << k) - 1, 1 << k, (1 << k) + 1)]
    yield v


def gen_print_big(tier):
    F = fracs('quick')[::3] + [76829523]
    for w in [w for w in wholes(1 << 62) if w >= 1 << 26] + [40507659919]:
        yield [w * D + f for f in F]


def check_text(ctx, v, big):
    from neocore.Fixed8 import Fixed8
    f = Fixed8(v)
    for name, t in (('ToString', f.ToString()), ('str', str(f)), ('json', f.ToNeoJsonString())):
        ctx.step()
        if not isinstance(t, str) or not PLAIN.match(t):
            raise Violation('%s of %d units is not plain decimal text: %r' % (name, v, t))
        if units(t) != v:
            was = format(Decimal(str(v / D)), 'f')
            if name == 'json' and was.endswith('.0'):
                was = was[:-2]
            if abs(v) > EXACT and t == was:
                ctx.known('C09-large-amount-text-rounded', 'amounts above 2^26 whole units are printed with the digits of a double')
                continue
            raise Violation('%s of %d units: %r' % (name, v, t))
        if name == 'json':
            if v % D == 0 and '.' in t:
                raise Violation('json text of a whole amount: %r' % t)
        else:
            # prints and parses back
            ctx.eq(getattr(Fixed8.TryParse(t), 'value', None), v, 'parse back', v)
    ctx.eq(f.value, v, 'operand', v)


def run_print(vals, ctx):
    for v in vals:
        check_text(ctx, v, False)
        check_text(ctx, -v, False)
        ctx.state(v)


def forms(v):
    """textual forms that denote v units"""
    t = canon(v)
    n = canon(v, point=False)
    yield t
    yield n
    yield ('-' if v < 0 else '') + '00' + t.lstrip('-')
    if v >= 0:
        yield '+' + t
    if abs(v) < 10 ** 19:
        yield '%s%d.%08d' % ('-' if v < 0 else '', abs(v) // D, abs(v) % D)
        yield t + '0' * 3
    yield '%de-8' % v
    yield '%dE-8' % v
    if v % D == 0:
        yield '%d.' % (v // D)
    elif abs(v) < D:
        yield t.replace('0.', '.', 1)
    yield ' %s ' % t
    yield t + '\n'


def gen_parse(tier):
    F = fracs(tier)
    for w in wholes(10 ** 19)[::1 if tier == 'thorough' else 3] + [10 ** 18 + 1, 123456789012345678]:
        yield from chunks([w * D + f for f in (F if tier == 'thorough' else F[::4] + [29000000, 12345678, 99999999])], 128)
    yield from chunks(range(0, 3000), 128)


def run_parse(vals, ctx):
    from neocore.Fixed8 import Fixed8
    val = lambda x: getattr(x, 'value', None)
    for u in vals:
        for v in {u, -u}:
            for t in forms(v):
                ctx.eq(val(Fixed8.TryParse(t)), v, 'parse', t)
                ctx.eq(val(Fixed8.TryParse(t, require_positive=True)), v if v >= 0 else None, 'parse positive', t)
            d = Decimal(v).scaleb(-8)
            ctx.eq(val(Fixed8.TryParse(d)), v, 'parse decimal', v)
            ctx.eq(val(Fixed8.TryParse(d, True)), v if v >= 0 else None, 'parse decimal positive', v)
            ctx.eq(val(Fixed8.FromDecimal(d)), v, 'from decimal', v)
            if type(val(Fixed8.FromDecimal(d))) is not int:
                raise Violation('units are not an integer')
            if abs(v) < 10 ** 15:
                fl = float(canon(v))
                ctx.eq(val(Fixed8.FromDecimal(fl)), v, 'from float', v)
                ctx.eq(val(Fixed8.TryParse(fl)), v, 'parse float', v)
                ctx.eq(val(Fixed8.TryParse(fl, require_positive=True)), v if v >= 0 else None, 'parse float positive', v)
            if v % D == 0:
                ctx.eq(val(Fixed8.TryParse(v // D)), v, 'parse int', v)
                ctx.eq(val(Fixed8.FromDecimal(v // D)), v, 'from int', v)


def gen_extra(tier):
    for v in [0, 1, 9, 12345678, 99999999, 100000000, 199999999, 10 ** 15 + 1, 10 ** 17 - 1] + [d * 10 ** j for j in range(10) for d in (1, 5, 9)]:
        for tail in ('1', '4', '5', '6', '9', '49', '50', '51', '99', '999999', '000001', '0', '9' * 19, '9' * 20, '9' * 21, '9' * 28, '9' * 60, '4' + '9' * 40, '5' + '0' * 40 + '1', '0' * 40 + '1', '9' * 400):
            yield v, tail
    for w in (10 ** 20, 10 ** 20 - 1, 12345678901234567890123, 10 ** 28 - 1, 10 ** 40 + 7, 10 ** 100 - 1):
        for f in (0, 1, 12345678, 99999999):
            for tail in ('', '9', '99999999999999999999'):
                yield w * D + f, tail


def run_extra(case, ctx):
    from neocore.Fixed8 import Fixed8
    v, tail = case
    for sign in ('', '-'):
        t = '%s%d.%08d%s' % (sign, v // D, v % D, tail)
        want = -v if sign else v
        ctx.eq(getattr(Fixed8.TryParse(t), 'value', None), want, 'cut', t)
        ctx.eq(getattr(Fixed8.TryParse(Decimal(t)), 'value', None), want, 'cut', t)
        ctx.eq(Fixed8.FromDecimal(Decimal(t)).value, want, 'cut', t)
        if v and sign:
            ctx.eq(Fixed8.TryParse(t, require_positive=True), None, 'cut negative', t)


NUMBER = re.compile(r'([+-]?)(?:([0-9]+)\.?([0-9]*)|\.([0-9]+))(?:[eE]([+-]?[0-9]+))?\Z')
WS = ' \t\n\r\x0b\x0c'


def meaning(t):
    """(units cut towards zero, negative) or None"""
    m = NUMBER.match(t.strip(WS))
    if not m:
        return None
    sign, a, b, c, e = m.groups()
    a, b = (a or '') if c is None else '', b or c or ''
    n, e = int(a + b or '0'), int(e or 0) - len(b) + 8
    u = n * 10 ** e if e >= 0 else n // 10 ** -e
    return (-u, n > 0) if sign == '-' else (u, False)


def gen_texts(tier):
    alpha = '019.-+e x,"'
    for n in range(1, 5 if tier == 'quick' else 7):
        for t in itertools.product(alpha, repeat=min(n, 3)):
            yield n, ''.join(t)


def run_texts(case, ctx):
    """every text over an alphabet"""
    n, head = case
    for tail in itertools.product('019.-+e x,"', repeat=n - len(head)):
        check_any(ctx, head + ''.join(tail))


def check_any(ctx, t):
    from neocore.Fixed8 import Fixed8
    m = meaning(t)
    if m is not None and abs(m[0]) >= 10 ** 300:
        return
    ctx.eq(getattr(Fixed8.TryParse(t), 'value', None), m and m[0], 'any text', t)
    ctx.eq(getattr(Fixed8.TryParse(t, require_positive=True), 'value', None), None if m is None or m[1] else m[0], 'any text, positive', t)


def gen_inserted(tier):
    for t in ('1.5', '-0.25', '12', '.5', '3e2'):
        for i in range(len(t) + 1):
            yield t, i


def run_inserted(case, ctx):
    """one or two characters of any kind put into a number, around it, or in place of one of its characters"""
    t, i = case
    for c in map(chr, list(range(1, 0x2b0)) + [0x2212, 0xff0c, 0xff0e, 0x20ac]):
        if c == '_' or c.isdigit() and c > '9' or c.isspace() and c not in WS:
            continue
        check_any(ctx, t[:i] + c + t[i:])
        check_any(ctx, t[:i] + c + t[i + 1:])
        if i == 0:
            check_any(ctx, c + t + c)


def gen_context(tier):
    for prec in (1, 3, 9, 28, 60):
        for rounding in (ROUND_HALF_EVEN, ROUND_UP, ROUND_DOWN, ROUND_CEILING):
            for trap in ((), (Inexact, Rounded)):
                yield prec, rounding, trap


def run_context(case, ctx):
    """what the caller set up for its own decimals does not matter"""
    from neocore.Fixed8 import Fixed8
    prec, rounding, trap = case
    with localcontext() as c:
        c.prec, c.rounding = prec, rounding
        for t in trap:
            c.traps[t] = True
        for v in (0, 1, 9, 123, 12345678, 99999999, D, 5 * D + 5, 29000000, 123456789, 67108863 * D + 12345678, 10 ** 15 + 1):
            for s in {v, -v}:
                text = canon(s)
                ctx.eq(Fixed8.TryParse(text).value, s, 'parse', case, text)
                ctx.eq(Fixed8.TryParse(Decimal(text)).value, s, 'parse decimal', case, text)
                ctx.eq(Fixed8.FromDecimal(Decimal(text)).value, s, 'from decimal', case, text)
                ctx.eq(Fixed8.TryParse(text + ('' if '.' in text else '.').ljust(9, '0')).value if v % D else s, s, 'parse', case, text)
                if v < 67108863 * D + D:
                    ctx.eq(Fixed8.FromDecimal(float(text)).value, s, 'from float', case, text)
                    ctx.eq(units(Fixed8(s).ToString()), s, 'text', case, text)
                    ctx.eq(units(Fixed8(s).ToNeoJsonString()), s, 'json text', case, text)
    ctx.state(case)


BAD = ['', ' ', 'abc', '1.2.3', '--1', '+-1', '-', '+', '.', 'nan', 'NaN', '-nan', 'inf', '-inf', '+inf', 'Infinity', '-Infinity', 'infinity', 'sNaN', '1e', 'e5', '0x10', '1,5', '1 2', '1.0f', '1/2', 'one', '１a', '1.-5', '1e5.5', '\x00', '1\x00', '0b1', '$1', '1-', '(1)', 'None', 'True', "b'1'", '1.5.']


def gen_bad(tier):
    yield from BAD
    for x in BAD[2:]:
        yield ' ' + x
        yield x + 'z'
    yield from (('o', k) for k in range(9))


def run_bad(t, ctx):
    from neocore.Fixed8 import Fixed8
    if not isinstance(t, str):
        t = [None, [], {}, (), object(), float('nan'), float('inf'), float('-inf'), Decimal('NaN')][t[1]]
    for kw in ({}, {'require_positive': True}, {'require_positive': False}):
        ctx.eq(Fixed8.TryParse(t, **kw), None, 'no amount', ascii(t)[:40], kw)


FAMILIES = [
    Family('printing', gen_print, run_print, 'whole parts below 2^26 (powers of 2 and 10 +-1) x fractions with up to two digits at any positions, all amounts below 20000 units, powers of two to 2^52; both signs'),
    Family('printing-large', gen_print_big, run_print, 'whole parts 2^26..2^62 x fractions (known finding)'),
    Family('parsing', gen_parse, run_parse, 'whole parts to 10^19 x fractions x up to 11 textual forms, decimals, floats (15 digits), integers; both signs'),
    Family('extra-digits', gen_extra, run_extra, '39 amounts x 21 tails (up to 400 digits) x sign, 24 amounts to 10^100 x 3 tails x sign'),
    Family('any-text', gen_texts, run_texts, 'every text of up to 4 (thorough 6) characters over 11'),
    Family('inserted', gen_inserted, run_inserted, '5 numbers, each of 690 characters inserted or in place of another at every position, or around'),
    Family('decimal-context', gen_context, run_context, '40 settings of the caller\'s decimal context x 12 amounts x sign x every conversion'),
    Family('not-a-number', gen_bad, run_bad, '%d malformed texts with additions, 9 other objects' % len(BAD)),
]
