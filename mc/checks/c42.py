"""the library leaves the rest of the process as it found it"""
import contextlib, io, json, os, random, subprocess, sys, tempfile
from mc import kdf
kdf.install()
from mc.common import *
from mc import breaks, surroundings, values
from mc.checks import c31

ASSUMPTIONS = ['the parameters of the third-party package bitcoin are set by signing and by making key pairs, as documented (SetupSignatureCurve, setup_curve)',
               'flags of the decimal context, modules imported on the way, and the position of the random generator may change',
               'importing logzero configures its own logger; it is imported before the state is taken']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def refusals():
    from mc import battery
    return battery.refusals()


def commands():
    from mc import refs
    a = refs.address(bytes(range(20)))
    return [['--address-to-scripthash', a], ['--address-to-scripthash', 'x'], ['--scripthash-to-address', '0x' + '07' * 20], ['--scripthash-to-address', '07' * 20], ['--scripthash-to-address', 'zz'], ['--create-wallet'], ['--version'], [], ['--nothing'], ['--help']]


def extremes():
    """large, deep and long: where one is tempted to lift a limit"""
    from decimal import Decimal
    from neocore.BigInteger import BigInteger
    from neocore.Fixed8 import Fixed8
    from neocore.UInt256 import UInt256
    from neocore.KeyPair import KeyPair
    from neocore.Cryptography import ECCurve as EC, Helper
    from neocore.Cryptography.Crypto import Crypto
    from neocore.Cryptography.MerkleTree import MerkleTree
    from neocore.IO.BinaryReader import BinaryReader
    from neocore.IO.BinaryWriter import BinaryWriter
    big = 1 << 20000
    W, Rd = lambda: BinaryWriter(io.BytesIO()), lambda b: BinaryReader(io.BytesIO(b))
    c = lambda: EC.ECDSA.secp256r1()
    return [
        ('the text of a huge number', lambda: str(BigInteger(big))), ('the notation of a huge number', lambda: repr(BigInteger(big))), ('a huge number of a long text', lambda: BigInteger('9' * 6000)), ('the format of a huge number', lambda: '%d' % BigInteger(big)),
        ('the bytes of a huge number', lambda: BigInteger(-big).ToByteArray()), ('sums with a huge number', lambda: (BigInteger(big) * BigInteger(big)) // BigInteger(3) % BigInteger(7)),
        ('the text of a huge amount', lambda: Fixed8(big).ToString()), ('the JSON text of a huge amount', lambda: Fixed8(big).ToNeoJsonString()), ('a large amount', lambda: str(Fixed8(1 << 80))), ('an amount of a long text', lambda: Fixed8.TryParse('1' * 6000)), ('an amount of a long fraction', lambda: Fixed8.TryParse('0.' + '1' * 6000)),
        ('an amount of many digits', lambda: Fixed8.TryParse('1' * 300)), ('an amount of a huge number', lambda: Fixed8.TryParse(big)), ('an amount of a huge decimal', lambda: Fixed8.FromDecimal(Decimal('1E+5000'))), ('an amount of a tiny decimal', lambda: Fixed8.FromDecimal(Decimal('1E-5000'))),
        ('an amount of a long decimal', lambda: Fixed8.FromDecimal(Decimal('1' * 200 + '.' + '7' * 200))), ('an amount of no number', lambda: Fixed8.FromDecimal(Decimal('NaN'))), ('an amount of infinity', lambda: Fixed8.FromDecimal(Decimal('-Infinity'))), ('an amount of a signalling one', lambda: Fixed8.TryParse(Decimal('sNaN'))),
        ('an amount of a float infinity', lambda: Fixed8.FromDecimal(float('inf'))), ('a power of amounts', lambda: Fixed8(7) ** Fixed8(900)), ('an amount divided by zero', lambda: Fixed8(7) / Fixed8(0)),
        ('a tree of 3000', lambda: MerkleTree([UInt256(data=bytes([i & 255, i >> 8]) * 16) for i in range(3000)]).ToHashArray()), ('a tree of 600, trimmed', lambda: MerkleTree([UInt256(data=bytes([i & 255, i >> 8]) * 16) for i in range(600)]).Trim(bytes([1, 0, 0] * 100))),
        ('a long byte string', lambda: W().WriteVarBytes(bytes(3 << 20))), ('a long text', lambda: W().WriteVarString('é' * (1 << 20))), ('a count of 2^64', lambda: W().WriteVarInt(1 << 64)), ('a huge count', lambda: Rd(b'\xff' * 9).ReadVarBytes()), ('a huge list', lambda: Rd(b'\xff' * 9).ReadHashes()), ('a huge list of objects', lambda: Rd(b'\xfe' + b'\xff' * 4).ReadSerializableArray('neocore.UInt160.UInt160', 1000)),
        ('a hash of much', lambda: Crypto.Hash256(bytes(5 << 20))), ('a script hash of much', lambda: Crypto.ToScriptHash('00' * (1 << 20))), ('a huge multiple', lambda: c().G * (1 << 2000)), ('a multiple by minus', lambda: c().G * -5), ('a huge coordinate', lambda: c().Curve.point(big, big)),
        ('a hundred key pairs', lambda: [KeyPair(bytes([i + 1]) * 32).GetAddress() for i in range(100)]), ('a power of 60 digits', lambda: c().Curve.field.value(3) ** (10 ** 60)), ('base 58 of a long text', lambda: Helper.bin_to_b58check(bytes(300)) if hasattr(Helper, 'bin_to_b58check') else None),
        ('number of a long text', lambda: Helper.decode('f' * 6000, 16) if hasattr(Helper, 'decode') else None), ('text of a huge number', lambda: Helper.encode(big, 10) if hasattr(Helper, 'encode') else None),
    ]


def gen_ops(t):
    import bitcoin, ecdsa, argparse, neocore.KeyPair, neocore.Cryptography.Crypto, neocore.Cryptography.ECCurve, neocore.bin.cli, neocore.Utils, neocore.IO.BinaryReader, neocore.IO.BinaryWriter, neocore.Cryptography.MerkleTree, mc.fixtures
    c31.setup()
    from mc.engine import in_child
    ok = in_child(kdf.works)
    n = len(in_child(lambda: [x[0] for x in refusals()]))
    for state in ('usual', 'unusual'):
        for name in sorted(c31.OPS, key=lambda o: o not in c31.SLOW):
            if name == 'NEP-2' and not ok:
                continue
            yield 'op', name, state
        for i in range(len(commands())):
            yield 'command', i, state
        for i in range(0, n, 20):
            yield 'refused', i, state
        for i in range(len(extremes())):
            yield 'extreme', i, state
        for kind in values.table():
            for i in range(values.table()[kind][0]):
                yield 'value', (kind, i), state
        yield 'all', 0, state


def run_command(args):
    from neocore.bin import cli
    old = sys.argv, sys.stdout, sys.stderr
    text = lambda errors: io.TextIOWrapper(io.BytesIO(), 'ascii', errors, newline='\r\n')
    sys.argv, sys.stdout, sys.stderr = ['np-utils'] + args, text('strict'), text('namereplace')
    mine = sys.argv, sys.stdout, sys.stderr
    how = lambda: [(f.encoding, f.errors, f.line_buffering, f.write_through, f.closed) for f in mine[1:]]
    was = how()
    try:
        with contextlib.suppress(SystemExit, Exception):
            cli.main()
        if (sys.argv, sys.stdout, sys.stderr) != mine or sys.argv != ['np-utils'] + args:
            raise Violation('the command %r replaces the arguments or the streams' % (args,))
        if how() != was:
            raise Violation('the command %r changes the streams: %r, were %r' % (args, how(), was))
        print('x', end='\n')
        sys.stdout.flush()
        if not sys.stdout.buffer.getvalue().endswith(b'x\r\n'):
            raise Violation('the command %r changes the ends of lines' % (args,))
    finally:
        sys.argv, sys.stdout, sys.stderr = old


def run_ops(case, ctx):
    kind, which, state = case
    c31.setup()
    fault = state == 'usual' or kind == 'op'
    if kind == 'op':
        arg, call, ref, n, pats, view = c31.OPS[which]
        acts = [('%s of value %d (%s)' % (which, i, p), lambda i=i, p=p: call(arg(i, p))) for p in pats for i in range(2 if which in c31.SLOW else 3)]
    elif kind == 'command':
        acts = [('the command %r' % commands()[which], lambda: run_command(commands()[which]))]
    elif kind == 'extreme':
        acts = [extremes()[which]]
    elif kind == 'value':
        make, ops = values.table()[which[0]][1:3]
        acts = [('%s %d' % which, lambda: make(which[1]))] + [('%s of %s %d' % (nm, *which), f) for nm, f in ops(make(which[1]))]
        fault = False
    elif kind == 'refused':
        acts = [(name, f) for name, f in refusals()[which:which + 20]]
    else:
        acts = []
        for name in sorted(c31.OPS):
            if name != 'NEP-2':
                arg, call, ref, n, pats, view = c31.OPS[name]
                acts.append((name, lambda arg=arg, call=call, pats=pats: call(arg(5, pats[0]))))
        acts = acts * 2 + [('the command %r' % c, lambda c=c: run_command(c)) for c in commands()] + acts[::-1]
        fault = False
    if state == 'unusual':
        surroundings.unusual()
    compare(kind, case, acts, fault, ctx)


def compare(kind, case, acts, fault, ctx):
    with kdf.fast():
        mods = {**surroundings.modules(), **surroundings.classes()}
        before = surroundings.take()

        def same(what):
            after = surroundings.take()
            d = surroundings.difference(before, after)
            if d:
                raise Violation('%s changes the %s' % (what, d))
            g = surroundings.gone(mods, {**surroundings.modules(), **surroundings.classes()})
            if g:
                raise Violation('%s replaces %s.%s' % (what, *g[0]))
            ctx.transitions += len(before)
            ctx.state(what)
        for name, f in acts:
            ends = []
            for seed in (1, 2):
                random.seed(seed)
                try:
                    f()
                except Violation:
                    raise
                except Exception:
                    pass
                ends.append(random.getstate())
            if ends[0] == ends[1]:
                raise Violation('%s sets the random generator' % name)
            same(name)
        if not fault:
            return
        # ended by an exception at every line
        for name, f in acts[:1] if kind == 'op' else acts:
            seen = breaks.record(f)
            long = sum(seen.values()) > 6000
            for key in sorted(seen):
                if key[3] != 'n':
                    continue
                for nth in sorted({1, seen[key]} if not long else {1}):
                    t = breaks.Trace(key, nth)
                    t.make = Fault
                    how, e = t.run(lambda: guarded(f))
                    if isinstance(e, Violation):
                        raise e
                    same('%s, ended by an exception at %s' % (name, breaks.label(key)))


class Fault(ValueError):
    pass


def guarded(f):
    with contextlib.suppress(SystemExit):
        return f()


# ---- importing
MODULES = ('neocore', 'neocore.UIntBase', 'neocore.UInt160', 'neocore.UInt256', 'neocore.BigInteger', 'neocore.Fixed8', 'neocore.KeyPair', 'neocore.Utils', 'neocore.Cryptography', 'neocore.Cryptography.Crypto', 'neocore.Cryptography.Helper', 'neocore.Cryptography.ECCurve',
           'neocore.Cryptography.MerkleTree', 'neocore.IO', 'neocore.IO.BinaryReader', 'neocore.IO.BinaryWriter', 'neocore.IO.Mixins', 'neocore.bin', 'neocore.bin.cli')

SCRIPT = r'''
import sys
sys.path[:0] = [%(here)r]
from mc import surroundings
import base58, binascii, struct, hashlib, json, argparse, scrypt, ecdsa, bitcoin, logzero, unicodedata, importlib, inspect, Crypto.Cipher.AES, Crypto.Random, string, math, io, random, subprocess, socket, ctypes, time, datetime, abc, functools, collections, re, copy, traceback, tempfile, itertools
if %(unusual)r:
    surroundings.unusual()
sys.path.insert(0, '/repo')
mods = {**surroundings.modules(), **surroundings.classes()}
before = surroundings.take()
ends = []
for name in %(modules)r:
    importlib.import_module(name)
    random.seed(3)
    d = surroundings.difference(before, surroundings.take())
    if d:
        print('importing %%s changes the %%s' %% (name, d))
        break
    g = surroundings.gone(mods, {**surroundings.modules(), **surroundings.classes()})
    if g:
        print('importing %%s replaces %%s.%%s' %% (name, *g[0]))
        break
random.seed(1)
first = random.getstate()
for name in [n for n in sys.modules if n.startswith('neocore')]:
    importlib.reload(sys.modules[name])
if random.getstate() != first:
    random.seed(2)
    second = random.getstate()
    for name in [n for n in sys.modules if n.startswith('neocore')]:
        importlib.reload(sys.modules[name])
    random.seed(1)
    for name in [n for n in sys.modules if n.startswith('neocore')]:
        importlib.reload(sys.modules[name])
    third = random.getstate()
    random.seed(2)
    for name in [n for n in sys.modules if n.startswith('neocore')]:
        importlib.reload(sys.modules[name])
    if random.getstate() == third:
        print('importing sets the random generator')
d = surroundings.difference(before, surroundings.take())
if d:
    print('importing again changes the %%s' %% d)
'''


def gen_imports(t):
    for state in (0, 1):
        for m in MODULES:
            yield (m,), state
        yield MODULES, state
        yield MODULES[::-1], state
        if t == 'thorough':
            for m in MODULES:
                for n in MODULES:
                    if m != n:
                        yield (m, n), state


def run_imports(case, ctx):
    mods, state = case
    d = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': d}
    listing = sorted(os.listdir(d))
    r = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore', '-c', SCRIPT % {'here': HERE.rsplit('/', 1)[0], 'unusual': state, 'modules': list(mods)}], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250)
    if r.returncode:
        raise Violation('%r: %s' % (case, r.stderr.decode(errors='replace')[-500:]))
    if r.stdout.strip() or r.stderr.strip():
        raise Violation('%r: %s' % (case, (r.stdout + r.stderr).decode(errors='replace')[:600]))
    ctx.state(case)
    ctx.transitions += len(mods)


FAMILIES = [
    Family('operations', gen_ops, run_ops, 'every conversion (values 0 to 2 of every pattern), refusal and command, all operations of every kind of value, and 40 extreme ones (huge numbers, long texts, large trees), each in a process of its own, in the usual and in an unusual state of everything; compared after each; and ended by an exception at every line; and all of them in one process, three times', fresh=True),
    Family('imports', gen_imports, run_imports, 'every module imported alone, all in both orders (thorough: all ordered pairs), and reloaded, in both states; nothing is printed'),
]
