"""signature nonces: recovered from every signature (the key is known) and compared with those of all others"""
import functools, struct
from mc.common import *
from mc.engine import in_child

ASSUMPTIONS = ['a signature is made deterministic or with fresh randomness: the same message and key may give the same signature']
n = refs.P256.n
MASK = (1 << 64) - 1
KEYS = [1, 2, 379, n - 1, n - 43, 3 ** 150 % n, 1 << 255, (1 << 128) + 1]


def messages(tier):
    out = [b'\0', b'\0\0', b'a', b'A', bytes(32), b'\xff' * 32, bytes(64), bytes(range(256))]
    base = bytes(range(64, 104))
    out += [base[:i] for i in range(1, 41, 1 if tier == 'thorough' else 4)]
    out += [base[i:] for i in range(1, 40, 1 if tier == 'thorough' else 4)]
    for i in range(0, 320, 1 if tier == 'thorough' else 8):
        b = bytearray(base)
        b[i // 8] ^= 1 << i % 8
        out.append(bytes(b))
    out += [b'message %d' % i for i in range(300 if tier == 'thorough' else 30)]
    return dedup(out)


def keys(tier):
    out = KEYS + [1 << k for k in range(3, 250, 4 if tier == 'thorough' else 20)] + list(range(3, 40 if tier == 'thorough' else 12))
    return dedup(out)


def sign(m, d, how=0):
    from neocore.Cryptography.Crypto import Crypto
    f = Crypto.Default().Sign if how else Crypto.Sign
    return bytes(f(m.hex(), '%064x' % d))


def nonce(ctx, m, d, sig):
    """the nonce up to its sign, from the signature and the key"""
    ctx.eq(len(sig), 64, 'length')
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    ctx.check(0 < r < n and 0 < s < n, 'range', m, d)
    e = int.from_bytes(refs.sha256(m), 'big')
    k = pow(s, -1, n) * (e + r * d) % n
    k = min(k, n - k)
    ctx.check(k >> 128, 'the nonce of %r under %d is small' % (m, d), k)
    return r, k


def compare(ctx, seen, m, d, sig):
    r, k = nonce(ctx, m, d, sig)
    if k in seen and seen[k][:2] != (m, d):
        raise Violation('messages %r and %r under the keys %d and %d have the same nonce' % (seen[k][0], m, seen[k][1], d))
    # no nonce is a simple function of the key, the message or another nonce
    e = int.from_bytes(refs.sha256(m), 'big') % n
    for what, x in (('key', d), ('digest', e), ('sum', (d + e) % n), ('product', d * e % n), ('difference', (d - e) % n), ('exclusive or', (d ^ e) % n)):
        if k in (x, n - x):
            raise Violation('the nonce of %r under %d is its %s' % (m, d, what))
    for t in (1, 2, 3):
        for x in (k + t, k - t, k * 2 % n, n - k * 2 % n):
            if x in seen and seen[x][:2] != (m, d):
                raise Violation('related nonces: %r and %r' % (seen[x], (m, d)))
    # no part of a nonce repeats: short nonces, fixed or copied words (each seen for the nonce and its negative)
    for sh in range(0, 193, 32):
        w = 'part', sh, frozenset((k >> sh & MASK, n - k >> sh & MASK))
        if w in seen and seen[w] != (m, d):
            raise Violation('64 bits from bit %d of the nonces of %r and %r are the same' % (sh, seen[w], (m, d)))
        seen[w] = m, d
    seen[k] = m, d
    ctx.state((m, d))
    ctx.step()


def gen_messages(tier):
    for d in KEYS[:8 if tier == 'thorough' else 4]:
        for how in (0, 1) if d == KEYS[2] else (0,):
            yield d, how, tier


def run_messages(case, ctx):
    d, how, tier = case
    seen = {}
    M = messages(tier)
    for m in M:
        compare(ctx, seen, m, d, sign(m, d, how))
    for m in M[::9]:
        compare(ctx, seen, m, d, sign(m, d, how))


def gen_keys(tier):
    for m in messages('quick')[:12 if tier == 'thorough' else 4] + [b'message 7']:
        yield m, tier


def run_keys(case, ctx):
    m, tier = case
    seen = {}
    for d in keys(tier):
        compare(ctx, seen, m, d, sign(m, d))
        compare(ctx, seen, m, n - d, sign(m, n - d))


def gen_processes(tier):
    for d in (379, n - 43):
        for how in (0, 1):
            yield d, how, 40 if tier == 'thorough' else 12


def run_processes(case, ctx):
    """the first signature of processes that all start in the same state, clocks and random generators included"""
    d, how, count = case
    seen = {}
    import random, time, os
    for i in range(count):
        m = b'first message of process %d' % i

        def go():
            random.seed(1234)
            time.time = lambda: 1.5e9
            time.time_ns = lambda: 15 * 10 ** 17
            time.monotonic = lambda: 1000.0
            time.perf_counter = lambda: 1000.0
            os.getpid = lambda: 4242
            return [sign(m, d, how), sign(m + b'!', d, how)]
        got = in_child(go)
        if not got:
            raise Violation('no signature')
        compare(ctx, seen, m, d, got[0])
        compare(ctx, seen, m + b'!', d, got[1])


# ---- digests, keys and messages that agree in a part
@functools.lru_cache(None)
def alike():
    """pairs of messages whose digests agree in one 32-bit word, in the sum or the exclusive or of all words, or as a remainder"""
    import hashlib
    keys = [('word %d' % j, lambda w, j=j: w[j]) for j in range(8)] + [('exclusive or', lambda w: w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[4] ^ w[5] ^ w[6] ^ w[7]), ('sum', lambda w: sum(w) & 0xffffffff), ('lower halves', lambda w: (w[7] & 0xffff) << 16 | w[0] & 0xffff), ('ends', lambda w: w[0] & 0xffff0000 | w[7] & 0xffff)]
    seen = [{} for _ in keys]
    found = {}
    i = 0
    while len(found) < len(keys) and i < 600000:
        m = b'alike %d' % i
        w = struct.unpack('>8I', hashlib.sha256(m).digest())
        for j, (name, f) in enumerate(keys):
            if name not in found:
                x = f(w)
                if x in seen[j]:
                    found[name] = seen[j][x], m
                    seen[j] = None
                else:
                    seen[j][x] = m
        i += 1
    return found


def gen_alike(tier):
    for d in KEYS[1:8 if tier == 'thorough' else 4]:
        yield d


def run_alike(d, ctx):
    A = alike()
    ctx.check(len(A) >= 10, 'pairs were found')
    seen = {}
    for name in sorted(A):
        for m in A[name]:
            compare(ctx, seen, m, d, sign(m, d))


def gen_pairs(tier):
    D = [3 ** 150 % n, 1 << 200, 77, n - 12345]
    for i in range(len(D)):
        for j in range(6 if tier == 'thorough' else 3):
            yield D[i], j


def run_pairs(case, ctx):
    """another key and message with the same sum, exclusive or, product, text of both"""
    d, j = case
    m1, m2 = b'first %d' % j, b'second %d' % j
    e1, e2 = (int.from_bytes(refs.sha256(m), 'big') for m in (m1, m2))
    others = [d ^ e1 ^ e2, (d + e1 - e2) % n, (e2 - e1 + d) % n, (e1 - d) % n, (d + e2 - e1) % (1 << 256), d * e1 * pow(e2, -1, n) % n, d * e2 * pow(e1, -1, n) % n, (d & MASK) | (d ^ e1 ^ e2) >> 64 << 64, e1 ^ e2]
    seen = {}
    compare(ctx, seen, m1, d, sign(m1, d))
    for o in others:
        if 0 < o < n:
            compare(ctx, seen, m2, o, sign(m2, o))
    # key bytes, digits and message run together
    b = d.to_bytes(32, 'big').lstrip(b'\0')
    for t in ([(b, m1)] + [(b[:i], b[i:] + m1) for i in range(1, len(b)) if b[i - 1:i] != b'\0'][::3] + [(b + m1[:i], m1[i:]) for i in range(1, 4) if len(b) + i < 32],
              [(b, m1)] + [(b[i:], m1 + b[:i]) for i in range(1, len(b)) if b[i]][::3]):
        seen = {}
        for x, m in t:
            x = int.from_bytes(x, 'big')
            if 0 < x < n:
                compare(ctx, seen, m, x, sign(m, x))
    text = str(d)
    seen = {}
    for i in range(1, len(text), 7):
        x, m = int(text[:i]), text[i:].encode() + m1
        if text[i] != '0' and 0 < x < n:
            compare(ctx, seen, m, x, sign(m, x))


def gen_near(tier):
    for d in (3 ** 150 % n, 5 ** 109 % n)[:2 if tier == 'thorough' else 1]:
        for j in range(4):
            yield d, j


def run_near(case, ctx):
    """keys that agree in all bytes but one, or two, or only have them in another order, signing one message"""
    d, j = case
    b = d.to_bytes(32, 'big')
    K = [b]
    for i in range(j, 32, 4):
        K += [b[:i] + bytes([b[i] ^ x]) + b[i + 1:] for x in (1, 0x80)]
        K.append(b[:i] + bytes(32 - i))
        K.append(bytes(i) + b[i:])
        K.append(b[i:] + b[:i])
        K.append(b[:i] + b[i:][::-1])
        K.append(b[:i] + b[i:i + 2][::-1] + b[i + 2:])
    seen = {}
    m = b'one message'
    for x in dedup(K):
        x = int.from_bytes(x, 'big')
        if 0 < x < n:
            compare(ctx, seen, m, x, sign(m, x))


def gen_long(tier):
    for size in (54, 55, 56, 63, 64, 65, 111, 119, 128, 255, 256, 1000, 1024, 4095, 4096, 4097, 5000, 8192, 65535, 65536, 70000, 1 << 20, (1 << 20) + 5):
        yield size


def run_long(size, ctx):
    """long messages that differ in one place"""
    d = KEYS[2]
    base = bytes(i * 7 % 251 for i in range(size))
    seen = {}
    places = sorted({0, 1, 7, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 65535, 65536, size // 2, size - 65, size - 64, size - 32, size - 8, size - 2, size - 1})
    for i in [None] + [i for i in places if 0 <= i < size]:
        m = base if i is None else base[:i] + bytes([base[i] ^ 1]) + base[i + 1:]
        compare(ctx, seen, m, d, sign(m, d))
    for m in (base[:-1], base[1:], base + b'\0', b'\0' + base, base + base, base[::-1]):
        compare(ctx, seen, m, d, sign(m, d))


FAMILIES = [
    Family('messages', gen_messages, run_messages, lambda t: '%d related messages (prefixes, suffixes, single bits, counters) under each of %d keys, all nonces compared' % (len(messages(t)), 8 if t == 'thorough' else 4)),
    Family('keys', gen_keys, run_keys, lambda t: 'one message under %d keys and their negatives' % len(keys(t))),
    Family('processes', gen_processes, run_processes, 'two first messages each of processes with equal clocks, pids and pseudo-random state', fresh=True),
    Family('alike-digests', gen_alike, run_alike, 'pairs of messages whose digests agree in a 32-bit word (each of 8), the sum or exclusive or of all words, or half words, under 3 (7) keys'),
    Family('pairs', gen_pairs, run_pairs, 'keys and messages with the same sum, difference, exclusive or, product of key and digest, or the same text of both run together'),
    Family('near-keys', gen_near, run_near, 'keys with the same bytes but one, two or all of them, or in another order, one message'),
    Family('long-messages', gen_long, run_long, '23 lengths up to 1 MiB, one bit changed in 24 places'),
]
