from mc.common import *

ASSUMPTIONS = []


def cls(n):
    from neocore.UInt160 import UInt160
    from neocore.UInt256 import UInt256
    return UInt160 if n == 20 else UInt256


def gen_values(tier):
    for n in (20, 32):
        vals = list(byte_walk(n, (0, 0xff, 0x5a))) + [bytes([b]) * n for b in range(256)] + [bytes(range(n)), bytes(range(255, 255 - n, -1)), b'0123456789abcdef0123456789abcdef'[:n]]
        vals += list(pair_walk(n, (0,), (1, 0x10, 0xa0), 1 if tier == 'thorough' else 3))
        yield from dedup(vals)


def run_values(data, ctx):
    n = len(data)
    C = cls(n)
    text = data[::-1].hex()
    for u in (C(data), C(data=bytearray(data)), C.ParseString(text), C.ParseString('0x' + text), C.ParseString(text.upper()), C.ParseString('0x' + text.upper())):
        ctx.eq(bytes(u.Data), data, 'data', data)
        ctx.eq(type(u) is C, True, 'type', n)
        ctx.eq(u.ToString(), text, 'ToString', data)
        ctx.eq(str(u), text, 'str', data)
        ctx.eq(u.To0xString(), '0x' + text, '0x', data)
        ctx.eq(u.ToBytes(), text.encode(), 'ToBytes', data)
        ctx.eq(u.ToString2(), data.hex(), 'ToString2', data)
        ctx.eq(bytes(u.ToArray()), data, 'ToArray', data)
        ctx.eq(bytes(u.Data), data, 'data after printing', data)
        ctx.eq(u == C(data), True, 'equal', data)
        ctx.eq(hash(u) == hash(C(data)), True, 'hash', data)


def gen_cases(tier):
    """letter case of each digit"""
    for n in (20, 32):
        for i in range(2 * n):
            for d in 'aAbBcCdDeEfF09':
                yield n, i, d


def run_cases(case, ctx):
    n, i, d = case
    base = ('0f1e2d3c4b5a69788796a5b4c3d2e1f0' * 2)[:2 * n]
    for bg in (base, base.upper(), base.swapcase()):
        t = bg[:i] + d + bg[i + 1:]
        for p in ('', '0x'):
            ctx.eq(cls(n).ParseString(p + t).ToString(), t.lower(), 'case', case)


def gen_lengths(tier):
    for n in (20, 32):
        for l in range(0, 140):
            yield n, l


def run_lengths(case, ctx):
    n, l = case
    C = cls(n)
    for ch in ('0', 'a', 'F', '1'):
        for p in ('', '0x'):
            t = p + ch * l
            eff = l
            if l == 2 * n:
                ctx.eq(C.ParseString(t).ToString(), ch.lower() * l, 'ok', case, ch)
            else:
                ctx.refused(lambda: C.ParseString(t), 'length', case, ch, p)
    t = ('0x' + '12' * l)[:l]
    if l != 2 * n + 2:
        ctx.refused(lambda: C.ParseString(t), 'prefixed length', case)
    ctx.refused(lambda: C.ParseString('0x0x' + '0' * (2 * n)), 'double prefix', n)
    ctx.refused(lambda: C.ParseString('0x0x' + '0' * (2 * n - 2)), 'double prefix', n)
    if l <= 70:
        for data in (bytes(l), bytearray(l), b'a' * l):
            if l == n:
                ctx.eq(bytes(C(data).Data), bytes(data), 'data ok', case)
                ctx.eq(bytes(C(data=data).Data), bytes(data), 'data ok', case)
            else:
                ctx.refused(lambda: C(data), 'data length', case)
                ctx.refused(lambda: C(data=data), 'data length', case)


BADCH = 'gGzZxX -+_.,:/@`\t\n\r\x00\x7f\xe9\u0660\uff11\u00b2éO'


def gen_chars(tier):
    for n in (20, 32):
        for i in range(2 * n):
            for c in BADCH:
                yield n, i, c


def run_chars(case, ctx):
    n, i, c = case
    base = ('1f2e3d4c5b6a79880796a5b4c3d2e1f0' * 2)[:2 * n]
    t = base[:i] + c + base[i + 1:]
    if t[:2] != '0x':
        ctx.refused(lambda: cls(n).ParseString(t), 'char', case)
    ctx.refused(lambda: cls(n).ParseString('0x' + t), 'char 0x', case)
    # inserted rather than replaced
    ctx.refused(lambda: cls(n).ParseString(base[:i] + c + base[i:]), 'inserted', case)
    # two neighbouring characters
    t = base[:i] + c + c + base[i + 2:]
    if i + 2 <= 2 * n and t[:2] != '0x':
        ctx.refused(lambda: cls(n).ParseString(t), 'chars', case)


def gen_kinds(tier):
    for n in (20, 32):
        for k in range(11):
            yield n, k


def run_kinds(case, ctx):
    n, k = case
    v = [lambda: 'a' * n, lambda: [0] * n, lambda: (0,) * n, lambda: 0, lambda: n, lambda: 1.5, lambda: {i: 0 for i in range(n)}, lambda: memoryview(bytes(n)),
         lambda: '0' * (2 * n), lambda: cls(52 - n)(), lambda: range(n)][k]()
    ctx.refused(lambda: cls(n)(v), 'kind', case)
    ctx.refused(lambda: cls(n)(data=v), 'kind', case)
    ctx.eq(bytes(cls(n)().Data), bytes(n), 'default', n)
    ctx.eq(bytes(cls(n)(None).Data), bytes(n), 'default', n)


FAMILIES = [
    Family('values', gen_values, run_values, 'every byte value at every position over 3 backgrounds, constant bytes, position pairs; 6 constructions x all texts'),
    Family('letter-case', gen_cases, run_cases, 'every digit position x 14 digits x 3 case backgrounds x prefix'),
    Family('lengths', gen_lengths, run_lengths, 'text lengths 0..139, data lengths 0..70'),
    Family('characters', gen_chars, run_chars, 'every position x %d characters, replaced, inserted, doubled' % len(BADCH)),
    Family('kinds', gen_kinds, run_kinds, '11 other kinds x both widths'),
]
