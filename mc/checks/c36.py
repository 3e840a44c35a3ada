"""the process a library call runs in: interpreter options, environment variables, process-wide settings, import orders"""
import json, os, subprocess, sys, tempfile
from mc.common import *

ASSUMPTIONS = ['settings under which the libraries it depends on do not work themselves are left out: another curve set in the bitcoin toolkit while a check runs (C26), -bb with the toolkit\'s own random_key']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = ['neocore', 'neocore.BigInteger', 'neocore.Fixed8', 'neocore.KeyPair', 'neocore.UInt160', 'neocore.UInt256', 'neocore.UIntBase', 'neocore.Utils', 'neocore.IO.BinaryReader', 'neocore.IO.BinaryWriter',
           'neocore.IO.Mixins', 'neocore.Cryptography.Crypto', 'neocore.Cryptography.ECCurve', 'neocore.Cryptography.Helper', 'neocore.Cryptography.MerkleTree', 'neocore.bin.cli']
FOREIGN = ['bitcoin', 'scrypt', 'Crypto.Cipher.AES', 'base58', 'mpmath', 'ecdsa', 'decimal', 'asyncio', 'logging']
# name -> (interpreter options, environment, in the process)
S = {}


def add(name, flags=(), prep=(), **env):
    S[name] = list(flags), env, list(prep)


add('plain')
add('no assertions', ['-O'])
add('no docstrings', ['-OO'])
add('all warnings', ['-W', 'always'])
add('bytes warnings', ['-b'])
add('development', ['-X', 'dev'])
add('isolated', ['-I'])
add('no site', ['-s', '-E'])
add('unbuffered', ['-u'])
add('no frozen modules', ['-X', 'frozen_modules=off'])
add('utf-8 mode', ['-X', 'utf8=1'])
add('no utf-8 mode', ['-X', 'utf8=0'], LC_ALL='C', PYTHONCOERCECLOCALE='0')
add('no debug ranges', ['-X', 'no_debug_ranges'])
for h in ('0', '1', '2', '123', '4294967295', 'random'):
    add('hash seed ' + h, PYTHONHASHSEED=h)
for l in ('C', 'POSIX', 'C.UTF-8', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'nowhere'):
    add('locale ' + l, LC_ALL=l, LANG=l)
for z in ('UTC', 'Asia/Tokyo', 'XYZ+25'):
    add('time zone ' + z, TZ=z)
for e in ('ascii', 'utf-16', 'latin-1:strict'):
    add('streams in ' + e, PYTHONIOENCODING=e)
add('no home', HOME='/nonexistent')
add('optimise by variable', PYTHONOPTIMIZE='2')
add('malloc', PYTHONMALLOC='malloc')
add('debug malloc', PYTHONMALLOC='debug')
add('development by variable', PYTHONDEVMODE='1')
add('columns', COLUMNS='1', TERM='dumb', NO_COLOR='1')
add('a bare environment', PATH='')
add('no digits limit by variable', PYTHONINTMAXSTRDIGITS='0')
from mc import envnames
for p in envnames.NAMES:
    add(p, prep=[p])

CORE = ['no assertions', 'strict', 'development', 'isolated', 'no utf-8 mode', 'few decimals', 'inexact traps', 'seeded', 'much gc', 'curve', 'few digits', 'closed', 'thread', 'fork', 'local decimals', 'ascii']


def process(names, modules=(), count=3, slow=1, ask=False, more={}):
    """what goes wrong in one process with these settings"""
    flags, env, prep = [], {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': '0'}, []
    for s in names:
        f, e, p = S[s]
        flags += f
        env.update(e)
        prep += p
    env.update(more)
    d = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    # never the byte code beside the sources, which may be that of other sources; warnings of the compiler need a compilation
    cache = os.path.join(d, 'none-%d' % os.getpid() if {'strict', 'warnings', 'all warnings'} & set(names) else 'pyc')
    if not cache.endswith('pyc'):
        flags.append('-B')
    fd, out = tempfile.mkstemp(dir=d)
    os.close(fd)
    try:
        cfg = json.dumps({'prep': prep, 'modules': list(modules), 'count': count, 'slow': slow, 'ask': ask})
        p = subprocess.run(['/opt/venv/bin/python', '-X', 'pycache_prefix=' + cache] + flags + [os.path.join(HERE, 'envchild.py'), cfg, out], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=250, cwd=d)
        t = open(out).read()
    except subprocess.TimeoutExpired:
        return (['did not finish'], 0) + ask * ([],)
    finally:
        os.unlink(out)
    if not t:
        return (['no result (exit status %d): %s' % (p.returncode, p.stderr.decode(errors='replace')[-600:])], 0) + ask * ([],)
    return json.loads(t)


def judge(ctx, names, modules=(), **k):
    bad, done = process(names, modules, **k)
    if bad:
        raise Violation('in a process with %s%s: %d of %d: %s' % (' and '.join(names), ', importing ' + ', '.join(modules) if modules else '', len(bad), done + len(bad), '; '.join(bad[:4])))
    ctx.check(done > 100, 'too few operations', done)
    ctx.step(done)
    ctx.state((names, modules))


def clash(a, b):
    """two values of the same setting"""
    A, B = S[a], S[b]
    return a == b or set(A[1]) & set(B[1]) or A[0] and B[0] and A[0][0][:2] == B[0][0][:2] != '-X' or A[2] and B[2] and ({a, b} & {'traced', 'profiled'} == {a, b})


def gen_single(tier):
    for s in sorted(S, key=lambda s: s not in ('traced', 'debug malloc', 'much gc', 'development')):
        yield s,


def run_single(case, ctx):
    judge(ctx, list(case), count=3, slow=2)


def gen_pairs(tier):
    L = list(S) if tier == 'thorough' else CORE
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if not clash(a, b):
                yield a, b
                if tier == 'thorough' and S[a][2] and S[b][2]:
                    yield b, a


def run_pairs(case, ctx):
    judge(ctx, list(case), count=1, slow=0)


def gen_orders(tier):
    for a in MODULES:
        yield (a,), 1
        yield (a,), 0
    for a in FOREIGN:
        yield (a, 'neocore.KeyPair'), 1
    for a in MODULES:
        for b in MODULES:
            if a != b and (tier == 'thorough' or (MODULES.index(a) + MODULES.index(b)) % 6 == 0):
                yield (a, b), 0
    if tier == 'thorough':
        for k in range(len(MODULES)):
            yield tuple(MODULES[k:] + MODULES[:k]), 1
            yield tuple(reversed(MODULES[k:] + MODULES[:k])), 1


def run_orders(case, ctx):
    mods, how = case
    judge(ctx, ['no assertions' if how else 'plain'], mods, count=1, slow=0)


VALUES = ('', '0', '1', '2', '24', '255', '-1', 'true', 'x', 'ff', '/nonexistent')


def gen_asked(tier):
    yield 'asked',


def run_asked(case, ctx):
    bad, done, asked = process(['plain'], count=3, slow=2, ask=True)
    ctx.check(not bad and done > 100, 'a process that notes which environment variables are asked for', bad[:4])
    ctx.step(done)
    todo, seen = list(asked), set()
    while todo:
        k = todo.pop()
        if k in seen or len(seen) > 20:
            continue
        seen.add(k)
        for v in VALUES:
            bad, done, more = process(['plain'], count=2, slow=2, ask=True, more={k: v})
            if bad:
                raise Violation('with the environment variable %s=%r: %d of %d: %s' % (k, v, len(bad), done + len(bad), '; '.join(bad[:4])))
            ctx.step(done)
            todo += [m for m in more if m not in seen]
    ctx.state(sorted(seen))


FAMILIES = [
    Family('asked', gen_asked, run_asked, lambda t: 'every environment variable the library asks for while every operation runs, with each of %d values' % len(VALUES)),
    Family('single', gen_single, run_single, lambda t: '%d settings (interpreter options, environment variables, process-wide state) x a slice of %s' % (len(S), 'every operation, 60 answers and 180 refusals')),
    Family('pairs', gen_pairs, run_pairs, lambda t: 'all pairs of %s settings that do not exclude each other, each with a slice of every operation' % (len(S) if t == 'thorough' else len(CORE))),
    Family('imports', gen_orders, run_orders, lambda t: 'every module imported first, with and without assertions; %s; foreign libraries imported first' % ('all ordered pairs of modules, all rotations of both orders' if t == 'thorough' else 'a sixth of the ordered pairs of modules')),
]
