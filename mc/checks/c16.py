import io, contextlib
from mc.common import *

ASSUMPTIONS = ['white space at the end of a text given to the decoder is not claimed (the base58 package strips it)']


def valid(t):
    from neocore.Utils import isValidPublicAddress
    return isValidPublicAddress(t)


def to_hash(t):
    """20 bytes, or None when refused with the conversion error"""
    from neocore.bin import cli
    try:
        return bytes(cli.address_to_scripthash(t))
    except cli.ConversionError:
        return None


def judge(ctx, t, *what):
    """both deciders against the reference"""
    want = refs.address_hash(t)
    got = valid(t)
    ctx.step(2)
    if got is not (want is not None):
        raise Violation('validity of %r: %r (%r)' % (t, got, what))
    if t != t.rstrip():
        return want
    got = to_hash(t)
    if got != want:
        raise Violation('decoding %r: %r, expected %r (%r)' % (t, got, want, what))
    ctx.state(want is None, *what)
    return want


def hashes(tier):
    yield from (bytes([b]) * 20 for b in range(256))
    yield from byte_walk(20, (0, 0xff, 0x61), range(256))
    for k in range(20):
        yield bytes(k) + bytes(range(1, 21 - k))
        yield bytes(range(200, 220 - k)) + bytes(k)
    for d in list(range(1, 20)) + refs.EDGE_KEYS:
        yield refs.hash160(refs.key_script(refs.pub(d)))


def gen_good(tier):
    yield from dedup(hashes(tier))


def run_good(h, ctx):
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.Helper import scripthash_to_address
    from neocore.UInt160 import UInt160
    from neocore.bin import cli
    want = refs.address(h)
    assert len(want) == 34 and want[0] == 'A'
    u = UInt160(h)
    ctx.eq(Crypto.ToAddress(u), want, 'ToAddress', h)
    ctx.eq(bytes(u.Data), h, 'hash unchanged', h)
    ctx.eq(scripthash_to_address(bytearray(h)), want, 'helper', h)
    ctx.eq(scripthash_to_address(h), want, 'helper bytes', h)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.eq(cli.scripthash_to_address('0x' + h[::-1].hex()), want, 'cli big', h)
        ctx.eq(cli.scripthash_to_address(h.hex()), want, 'cli little', h)
    ctx.eq(judge(ctx, want, 'good', h), h, 'back', h)


BASES = [bytes(range(1, 21)), bytes(20), b'\xff' * 20, refs.hash160(b'neo'), bytes(19) + b'\x01']
PRINT = ''.join(chr(c) for c in range(0x20, 0x7f)) + '\n\t\x00\xe9\u0391\uff21'


def gen_subst(tier):
    for k in range(len(BASES)):
        for i in range(34):
            yield k, i


def run_subst(case, ctx):
    k, i = case
    a = refs.address(BASES[k])
    for c in PRINT:
        t = a[:i] + c + a[i + 1:]
        w = judge(ctx, t, 'substituted', case, c)
        ctx.outcome('valid' if w else 'refused')


def gen_edit(tier):
    for k in range(len(BASES)):
        for i in range(35):
            yield k, i


def run_edit(case, ctx):
    k, i = case
    a = refs.address(BASES[k])
    if i < 34:
        judge(ctx, a[:i] + a[i + 1:], 'deleted', case)
        judge(ctx, a[:i], 'cut', case)
        judge(ctx, a[i:], 'tail', case)
        judge(ctx, a[:i] + a[i].swapcase() + a[i + 1:], 'case', case)
        for j in range(i + 1, 34):
            judge(ctx, a[:i] + a[j] + a[i + 1:j] + a[i] + a[j + 1:], 'swapped', case, j)
    for c in refs.B58 + '0OIl +':
        judge(ctx, a[:i] + c + a[i:], 'inserted', case, c)
    judge(ctx, a + a, 'doubled')
    judge(ctx, a[::-1], 'reversed')
    judge(ctx, a.lower(), 'lower')
    judge(ctx, a.upper(), 'upper')


def gen_versions(tier):
    for v in range(256):
        yield v


def run_versions(v, ctx):
    for h in BASES:
        judge(ctx, refs.b58check(bytes([v]) + h), 'version', v)
        judge(ctx, refs.b58check(bytes([v]) + h[:19]), 'version short', v)
        judge(ctx, refs.b58check(bytes([v]) + h + b'\0'), 'version long', v)
        judge(ctx, refs.b58check(bytes([0, v]) + h), 'version 2', v)
        judge(ctx, refs.b58check(bytes([v, 0x17]) + h), 'version 2', v)
        judge(ctx, refs.b58check(bytes([0x17, v]) + h), 'version 2', v)


def gen_lengths(tier):
    for n in range(0, 61):
        yield n


def run_lengths(n, ctx):
    for fill in (0, 1, 0x7f, 0xff):
        for v in (0x17, 0, 0x50, 0x80, 0x35):
            p = bytes([v]) + bytes([fill]) * n
            judge(ctx, refs.b58check(p), 'length', n, v, fill)
            judge(ctx, refs.b58enc(p), 'no checksum', n, v, fill)
            judge(ctx, refs.b58enc((p + b'abcd')[:n]), 'short', n, v, fill)
    judge(ctx, '1' * n, 'ones', n)
    judge(ctx, 'A' * n, 'As', n)
    judge(ctx, 'z' * n, 'zs', n)
    # every text of 34 characters that starts with A and has a right checksum, but another payload length
    for v in (0x17, 0x16, 0x18, 0x05, 0x00):
        for h in BASES:
            t = refs.b58check(bytes([v]) + (h + h)[:n])
            judge(ctx, t, 'payload', n, v)
            judge(ctx, '1' + t, 'padded', n, v)
            judge(ctx, 'A' + t[1:], 'A', n, v)


def gen_checksums(tier):
    for k in range(len(BASES)):
        for i in range(4):
            for x in range(1, 256):
                yield k, i, x


def run_checksums(case, ctx):
    k, i, x = case
    p = b'\x17' + BASES[k]
    c = bytearray(refs.hash256(p)[:4])
    c[i] ^= x
    judge(ctx, refs.b58enc(p + bytes(c)), 'checksum', case)
    if x == 1:
        for c in (refs.sha256(p)[:4], refs.hash256(p)[4:8], refs.hash256(p)[:4][::-1], refs.hash256(p)[28:], bytes(4), b'\xff' * 4, refs.hash256(BASES[k])[:4], refs.hash256(p)[:3] + b'\0', refs.hash160(p)[:4]):
            judge(ctx, refs.b58enc(p + c), 'other checksum', case)


FAMILIES = [
    Family('script-hashes', gen_good, run_good, 'constant bytes, every byte position x every value x 3 backgrounds, leading and trailing zeros, key hashes; every encoder and decoder'),
    Family('substitutions', gen_subst, run_subst, '5 addresses x 34 positions x %d characters' % len(PRINT)),
    Family('edits', gen_edit, run_edit, '5 addresses: all swaps of two characters, deletions, insertions of every alphabet character, cuts, case changes'),
    Family('versions', gen_versions, run_versions, 'all 256 version bytes x 5 hashes x 6 payload shapes, right checksum'),
    Family('lengths', gen_lengths, run_lengths, 'payload lengths 0..60 with and without right checksum'),
    Family('checksums', gen_checksums, run_checksums, 'every change of a single checksum byte, 9 wrong checksum functions'),
]
