import contextlib, io, json, os, subprocess, sys
from mc.common import *

ASSUMPTIONS = ['a result line is a script hash line or an address; notes such as the detected byte order are no results',
               'white space around an address, repeated and abbreviated options are left open', 'entropy below 1 or not below the group order is left out']
N = refs.P256.n


def cli(args, entropy=None):
    """run main() in process: (exit status, stdout, stderr)"""
    from neocore.bin import cli as mod
    out, err = io.StringIO(), io.StringIO()
    argv = sys.argv
    sys.argv = ['np-utils'] + list(args)
    status = 0
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), entropy or contextlib.nullcontext():
        try:
            mod.main()
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if e.code is not None and not isinstance(e.code, int):
                err.write('%s\n' % (e.code,))
        except Exception as e:        # what the interpreter does with it
            err.write('Traceback %r' % e)
            status = 1
        finally:
            sys.argv = argv
    return status, out.getvalue(), err.getvalue()


def three(h):
    return ['Scripthash big endian:  0x' + h[::-1].hex(), 'Scripthash little endian: ' + h.hex(), 'Scripthash neo-python format: %r' % h]


def hash_lines(out):
    return [l for l in out.splitlines() if l.startswith('Scripthash')]


def addresses(out):
    return [l for l in out.splitlines() if refs.address_hash(l.strip()) is not None]


def fails(ctx, args, *what):
    st, out, err = cli(args)
    ctx.step(3)
    ctx.state(*what)
    if st == 0:
        raise Violation('%r exits with success and prints %r (%r)' % (args, out, what))
    if hash_lines(out) or addresses(out):
        raise Violation('%r fails but prints a result: %r (%r)' % (args, out, what))
    if not (out + err).strip():
        raise Violation('%r prints no error (%r)' % (args, what))
    ctx.outcome('failed')


def hashes(tier):
    out = [refs.hash160(refs.key_script(refs.pub(d))) for d in refs.EDGE_KEYS] + [bytes([v]) * 20 for v in range(0, 256, 1 if tier == 'thorough' else 5)] + [bytes(range(20)), bytes(range(236, 256)), bytes(19) + b'\x01', b'\x01' + bytes(19), b'0123456789abcdefABCD', b"'" * 10 + b'"' * 10, b'\\' * 20]
    for x in byte_walk(20, (0, 0x5a), (1, 0x80, 0xff, 0x30) if tier == 'quick' else range(0, 256, 5)):
        out.append(x)
    return dedup(out)


def gen_convert(tier):
    yield from hashes(tier)


def run_convert(h, ctx):
    a = refs.address(h)
    st, out, err = cli(['--address-to-scripthash', a])
    ctx.eq((st, out.splitlines(), err), (0, three(h), ''), 'address', h)
    be, le = '0x' + h[::-1].hex(), h.hex()
    for s in (be, le, '0x' + be[2:].upper(), le.upper()):
        st, out, err = cli(['--scripthash-to-address', s])
        ctx.eq(st, 0, 'status', s)
        ctx.eq(addresses(out), [a], 'script hash', s)
        ctx.eq(out.splitlines()[-1], a, 'last line', s)
    # and back again
    st, out, err = cli(['--address-to-scripthash=' + a])
    ctx.eq(hash_lines(out), three(h), 'again', h)


GOOD = [bytes(range(1, 21)), bytes(20), b'\xff' * 20]
CH = ''.join(chr(c) for c in range(0x21, 0x7f)) + '\xe9'


def bad_addr(ctx, a, *what):
    if a != a.strip() or refs.address_hash(a) is not None:
        return
    fails(ctx, ['--address-to-scripthash', a], *what)


def gen_damaged(tier):
    for k in range(3):
        for i in range(34):
            yield k, i


def run_damaged(case, ctx):
    k, i = case
    a = refs.address(GOOD[k])
    for c in CH if k == 0 else CH[i % 5::5]:
        bad_addr(ctx, a[:i] + c + a[i + 1:], 'substituted', case, c)
    if i:
        bad_addr(ctx, a[:i - 1] + a[i] + a[i - 1] + a[i + 1:], 'swapped', case)
    bad_addr(ctx, a[:i] + a[i + 1:], 'deleted', case)
    bad_addr(ctx, a[:i], 'cut', case)
    bad_addr(ctx, a[:i] + '1' + a[i:], 'inserted', case)
    bad_addr(ctx, a[:i] + a[i:i + 1] * 2 + a[i + 1:], 'doubled', case)
    bad_addr(ctx, a + a[:i + 1], 'longer', case)
    bad_addr(ctx, '1' * (i + 1) + a, 'ones', case)


def gen_versions(tier):
    for v in range(256):
        yield v


def run_versions(v, ctx):
    h = GOOD[0]
    for p in (bytes([v]) + h, bytes([v]) + h[:19], bytes([v]) + h + b'\0', b'\x17' + h[:v % 41], b'\x17' + bytes(v % 41), h[:v % 21], b'\x17' + h + bytes([v])):
        bad_addr(ctx, refs.b58check(p), 'payload', v, len(p))
        bad_addr(ctx, refs.b58enc(p), 'no checksum', v, len(p))
    p = b'\x17' + h
    for i in range(4):
        c = bytearray(refs.hash256(p)[:4])
        c[i] ^= v
        bad_addr(ctx, refs.b58enc(p + c), 'checksum', i, v)


def ref_scripthash(s):
    """20 bytes (little endian) or None"""
    be = s.startswith('0x')
    t = s[2:] if be else s
    if len(t) != 40 or any(c not in '0123456789abcdefABCDEF' for c in t):
        return None
    b = bytes.fromhex(t)
    return b[::-1] if be else b


def gen_badhash(tier):
    for n in range(0, 90):
        yield n


def run_badhash(n, ctx):
    base = (bytes(range(0xa0, 0xc0)).hex() * 3)
    for s in (base[:n], '0x' + base[:n], '0X' + base[:n], '0x0x' + base[:n], base[:n] + '0x', 'x' + base[:n], '0' * n, '0x' + '0' * n, '00x' + base[:n], 'AK2nJJpJr6o664CWJKi1QRXjqeic2zRp8y' + base[:n],
              '\xe9' * n, '0x' + '\uff11' * n, '"' + base[:n] + '"', '#' + base[:n], base[:n] + ' ', '0x ' + base[:n]):
        if ref_scripthash(s) is None:
            fails(ctx, ['--scripthash-to-address', s], 'script hash', n, s)
    if n < 42:
        for be in ('0x', ''):
            g = be + base[:40]
            for c in 'gGxX:- .zZ/@`\xe9\uff11_+':
                s = g[:n] + c + g[n + 1:]
                if ref_scripthash(s) is None:
                    fails(ctx, ['--scripthash-to-address', s], 'character', n, be, c)
            fails(ctx, ['--scripthash-to-address', g[:n] + g[n + 1:]], 'deleted', n, be) if ref_scripthash(g[:n] + g[n + 1:]) is None else None
            fails(ctx, ['--scripthash-to-address', g[:n] + '0' + g[n:]], 'inserted', n, be) if ref_scripthash(g[:n] + '0' + g[n:]) is None else None


# ------------------------------------------------------------------ option combinations
A0 = refs.address(GOOD[0])
A1 = refs.address(GOOD[2])
PARTS = {'addr': ['--address-to-scripthash', A0], 'addr=': ['--address-to-scripthash=' + A0], 'badaddr': ['--address-to-scripthash', A0[:-1] + ('1' if A0[-1] != '1' else '2')],
         'emptyaddr': ['--address-to-scripthash', ''], 'emptyaddr=': ['--address-to-scripthash='], 'hash': ['--scripthash-to-address', GOOD[2].hex()], 'hashbe': ['--scripthash-to-address', '0x' + GOOD[2].hex()],
         'hash=': ['--scripthash-to-address=' + GOOD[2].hex()], 'badhash': ['--scripthash-to-address', GOOD[2].hex()[:-1]], 'badhashbe': ['--scripthash-to-address', '0x' + GOOD[2].hex() + '00'],
         'emptyhash': ['--scripthash-to-address', ''], 'wallet': ['--create-wallet']}


def gen_combos(tier):
    for n in (1, 2, 3):
        for perm in itertools.permutations(PARTS, n):
            kinds = ['a' if 'addr' in x else 'h' if 'hash' in x else 'w' for x in perm]
            if len(set(kinds)) == n:
                yield perm


def run_combos(perm, ctx):
    args = [a for x in perm for a in PARTS[x]]
    st, out, err = cli(args)
    bad = any('bad' in x or 'empty' in x for x in perm)
    kinds = {'a' if 'addr' in x else 'h' if 'hash' in x else 'w': x for x in perm}
    ctx.eq(st != 0, bad, 'failure status', *perm)
    ok = lambda k: k in kinds and not ('bad' in kinds[k] or 'empty' in kinds[k])
    lines = hash_lines(out)
    if ok('a') and not bad:
        ctx.eq(lines, three(GOOD[0]), 'script hash lines', *perm)
    elif not ok('a'):
        ctx.eq(lines, [], 'no script hash lines', *perm)
    if ok('h') and not bad:
        ctx.check(A1 in out.splitlines(), 'address', *perm)
    elif not ok('h'):
        ctx.check(A1 not in out, 'no address', *perm)
        ctx.eq(addresses(out), [], 'no address', *perm)
    if 'w' in kinds and not bad:
        w = json.loads(out[out.index('{'):out.rindex('}') + 1])
        k = refs.unwif(w['private_key'])
        ctx.check(k is not None and w['address'] == refs.key_address(refs.pub(int.from_bytes(k, 'big'))), 'wallet', *perm)
    elif 'w' not in kinds:
        ctx.check('private_key' not in out, 'no wallet', *perm)
    if bad:
        ctx.check((out + err).strip() != '', 'error', *perm)


def gen_usage(tier):
    for k in range(12):
        yield k


def run_usage(k, ctx):
    args = [[], ['-h'], ['--help'], ['--version'], ['--nonsense'], ['junk'], ['--address-to-scripthash'], ['--scripthash-to-address'], ['--create-wallet', 'junk'],
            ['--address-to-scripthash', A0, A1], ['--create-wallet=1'], ['-x']][k]
    if k in (1, 2, 3):
        st, out, err = cli(args)
        ctx.eq(st, 0, 'status', k)
        if k == 3:
            import neocore
            ctx.check(neocore.__version__ in out + err, 'version')
        else:
            ctx.check('--address-to-scripthash' in out and '--create-wallet' in out, 'help')
        return
    fails(ctx, args, 'usage', k)
    if not args:
        st, out, err = cli(args)
        ctx.check('usage' in (out + err).lower() and '--address-to-scripthash' in out + err, 'shows its usage')


# ------------------------------------------------------------------ wallets
class Entropy:
    """every source of system randomness answers with bytes of `data`"""
    def __init__(self, data):
        self.data, self.used = data, 0

    def take(self, n):
        self.used += 1
        d = self.data * (n // len(self.data) + 1)
        return d[:n]

    def __enter__(self):
        import random, Crypto.Random
        self.saved = [(os, 'urandom', os.urandom), (random, '_urandom', random._urandom), (Crypto.Random, 'get_random_bytes', Crypto.Random.get_random_bytes)]
        for m, n, _ in self.saved:
            setattr(m, n, self.take)
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


def wallet(ctx, data):
    import random
    random.seed(1)          # the predictable generator must not matter
    e = Entropy(data)
    st, out, err = cli(['--create-wallet'], e)
    ctx.eq(st, 0, 'status', data)
    w = json.loads(out)
    ctx.eq(sorted(w), ['address', 'private_key'], 'keys')
    k = refs.unwif(w['private_key'])
    ctx.check(k is not None, 'WIF', data)
    ctx.eq(w['address'], refs.key_address(refs.pub(int.from_bytes(k, 'big'))), 'address belongs to the key', data)
    ctx.check(e.used > 0, 'made from system randomness', data)
    return k


def gen_wallets(tier):
    for d in list(range(1, 20)) + [N - k for k in range(1, 20)] + [1 << k for k in range(0, 256, 1 if tier == 'thorough' else 7)] + [379, 43, 49350]:
        yield d.to_bytes(32, 'big')


def run_wallets(e, ctx):
    k = wallet(ctx, e)
    ctx.eq(wallet(ctx, e), k, 'same entropy, same key')


def gen_entropy(tier):
    for i in range(32):
        yield i


def run_entropy(i, ctx):
    """every bit of the entropy matters"""
    base = bytes(range(0x11, 0x31))
    k = wallet(ctx, base)
    seen = {k}
    for bit in range(8):
        b = bytearray(base)
        b[i] ^= 1 << bit
        kk = wallet(ctx, bytes(b))
        ctx.check(kk not in seen, 'another key', i, bit)
        seen.add(kk)


def gen_fresh(tier):
    yield 0


def run_fresh(case, ctx):
    """real randomness, the predictable generator rewound"""
    import random
    seen = set()
    for i in range(60):
        random.seed(7)
        st, out, err = cli(['--create-wallet'])
        k = json.loads(out)['private_key']
        ctx.check(k not in seen and refs.unwif(k) is not None, 'a new key each time')
        seen.add(k)


# ------------------------------------------------------------------ real processes
PROC = [([], False), (['--address-to-scripthash', A0], True), (['--address-to-scripthash', A0[:-1]], False), (['--address-to-scripthash', 'A' * 34], False),
        (['--scripthash-to-address', GOOD[2].hex()], True), (['--scripthash-to-address', '0x' + GOOD[2].hex()], True), (['--scripthash-to-address', 'zz'], False),
        (['--scripthash-to-address', '0x12'], False), (['--create-wallet'], True), (['--create-wallet', '--address-to-scripthash', 'x'], False), (['--version'], True), (['--nonsense'], False),
        (['--address-to-scripthash', refs.b58check(b'\x18' + GOOD[0])], False), (['--address-to-scripthash', A1, '--scripthash-to-address', GOOD[2].hex()], True)]


def gen_proc(tier):
    for k in range(len(PROC)):
        yield k


def run_proc(k, ctx):
    args, good = PROC[k]
    env = dict(os.environ, PYTHONPATH='/repo', PYTHONDONTWRITEBYTECODE='1')
    for cmd in ([sys.executable, '-W', 'ignore', '-m', 'neocore.bin.cli'], [sys.executable, '-W', 'ignore', '-c', 'from neocore.bin.cli import main; main()']):
        p = subprocess.run(cmd + args, env=env, cwd='/', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        out = p.stdout.decode()
        ctx.eq(p.returncode == 0, good, 'status', k)
        if not good:
            ctx.check(not hash_lines(out) and not addresses(out) and (out + p.stderr.decode()).strip(), 'an error and no result', k)
        elif args[0] == '--create-wallet':
            w = json.loads(out)
            ctx.eq(w['address'], refs.key_address(refs.pub(int.from_bytes(refs.unwif(w['private_key']), 'big'))), 'wallet')
        elif args[0] == '--address-to-scripthash':
            ctx.eq(hash_lines(out), three(refs.address_hash(args[1])), 'script hash', k)
        if '--scripthash-to-address' in args and good:
            ctx.eq(addresses(out), [refs.address(ref_scripthash(args[args.index('--scripthash-to-address') + 1]))], 'address', k)


FAMILIES = [
    Family('conversions', gen_convert, run_convert, lambda t: '%d script hashes: address to hash, hash in 4 spellings to address, both inverse' % len(hashes(t))),
    Family('damaged-addresses', gen_damaged, run_damaged, '3 addresses x 34 positions: every substitution, swap, deletion, cut, insertion'),
    Family('address-formats', gen_versions, run_versions, 'all version and checksum byte values, payload lengths 0..40'),
    Family('bad-script-hashes', gen_badhash, run_badhash, 'lengths 0..89 in 16 spellings; 17 wrong characters, deletion and insertion at every position'),
    Family('option-combinations', gen_combos, run_combos, 'every subset in every order of conversions (good, damaged, empty, = form) and wallet'),
    Family('usage', gen_usage, run_usage, 'no arguments, help, version, unknown options, missing and extra values'),
    Family('wallets', gen_wallets, run_wallets, 'entropy alphabet: both ends of the range and powers of two, leading-zero public keys'),
    Family('entropy-bits', gen_entropy, run_entropy, 'each of the 256 entropy bits changes the key'),
    Family('fresh-keys', gen_fresh, run_fresh, '60 wallets with the predictable generator rewound'),
    Family('processes', gen_proc, run_proc, '14 command lines in real processes, two ways to start'),
]
