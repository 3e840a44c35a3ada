"""copies, pickles and instances of derived classes behave as the original"""
import copy, json, os, pickle, subprocess, sys, tempfile
from mc.common import *
from mc import values

ASSUMPTIONS = ['a shallow copy shares the parts of the original (buffers, tree nodes, the stream), as usual in Python; the independence claim is for deep copies and pickles, and for shallow copies only where an attribute is replaced',
               'pickle protocols 0 and 1 are left out: they refuse readers and writers, and would refuse any class with slots',
               'an order operator between a plain value and one of a derived class may not end (RecursionError): with the usual way of writing one operator as the swapped other, Python tries the derived side first, for ever; left open',
               'writing an identifier of a derived class as a plain 160- or 256-bit identifier is refused and left open']
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = values.table
WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy}
for p in range(2, 6):
    WAYS['pickle %d' % p] = lambda x, p=p: pickle.loads(pickle.dumps(x, p))
WAYS['deep copy in a list'] = lambda x: copy.deepcopy([x, [x]])[1][0]
WAYS['pickle among others'] = lambda x: pickle.loads(pickle.dumps({'a': (x, x), 'b': [x]}))['a'][1]
WAYS['without buffers copied'] = lambda x: pickle.loads(pickle.dumps(x, 5, buffer_callback=None))
SHALLOW = ('copy',)


def ways(kind):
    return list(WAYS)


def seeds(kind):
    return range(T()[kind][0])


SLOW = ('nep2', 'nep2 back', 'signs', 'verify', 'cross')
FAST = [True]        # leave the slow operations out


def desc(kind, x):
    return values.describe([o for o in T()[kind][2](x) if not (FAST[0] and o[0] in SLOW)])


def cmp(kind, x, y):
    return values.describe([o for o in T()[kind][3](x, y) if not (FAST[0] and o[0] in SLOW)])


def speed(kind, slow):
    FAST[0] = not (slow and kind in ('KeyPair', 'toolkit', 'crypto'))


ORDER = ('<', '<=', '>', '>=', 'sorted', 'max')


def same(ctx, got, want, *what, mixed=False):
    for g, w in zip(got, want):
        if mixed and g[0] in ORDER and g[1:] == ('raises', 'RecursionError'):
            continue
        ctx.eq(g, w, *what)
    ctx.eq(len(got), len(want), *what)


def relabel(d):
    return [x for x in d if x[0] != 'written as']


# ---- every way (and every two ways) of copying, of values used before or not
def gen_ways(tier):
    for kind in T():
        W = ways(kind)
        for i in seeds(kind):
            for w in W:
                for used in (0, 1):
                    yield kind, i, (w,), used, 0
            chain = [(v, w) for v in W for w in W] if tier == 'thorough' else [(v, w) for v in W[:6] for w in ('copy', 'deepcopy', 'pickle 4') if w in W]
            for c in chain:
                yield kind, i, c, 1, 0
            # of instances of derived classes
            for w in W if tier == 'thorough' else ('copy', 'deepcopy', 'pickle 2', 'pickle 5'):
                for used in (0, 1):
                    yield kind, i, (w,), used, 1


def run_ways(case, ctx):
    kind, i, chain, used, sub = case
    count, make, ops, pairs, changes = T()[kind]
    speed(kind, i == len(seeds(kind)) - 1 and len(chain) == 1 and used and chain[0] in ('copy', 'deepcopy', 'pickle 3', 'pickle 4'))
    fresh = make(i)
    want = desc(kind, fresh)
    x = values.make_derived(kind, i) if sub else make(i)
    if sub:
        want = relabel(want)
    d = relabel if sub else (lambda v: v)
    if used:
        same(ctx, d(desc(kind, x)), want, kind, i, 'used', sub)
    y = x
    for w in chain:
        y = WAYS[w](y)
        if type(y) is not type(x):
            raise Violation('%r: a %s came out' % (case, type(y).__name__))
    if sub:
        ctx.eq((y.tag, y.label, y.more()), ('mine', 'derived', 5), kind, chain, 'own attributes')
    same(ctx, d(desc(kind, y)), want, kind, i, chain, 'the copy')
    same(ctx, d(desc(kind, x)), want, kind, i, chain, 'the original')
    same(ctx, d(desc(kind, y)), want, kind, i, chain, 'the copy again')
    if kind in ('reader', 'writer') and set(chain) & set(SHALLOW):
        return
    for j in seeds(kind):
        o = make(j)
        same(ctx, cmp(kind, y, o), cmp(kind, make(i), make(j)), kind, i, j, chain, 'with another', mixed=sub)
        same(ctx, cmp(kind, o, y), cmp(kind, make(j), make(i)), kind, i, j, chain, 'another with it', mixed=sub)
    same(ctx, cmp(kind, x, y), cmp(kind, make(i), make(i)), kind, i, chain, 'original and copy')
    same(ctx, cmp(kind, y, x), cmp(kind, make(i), make(i)), kind, i, chain, 'copy and original')
    ctx.outcome(kind)
    ctx.state(case)


# ---- one is changed, the other stays; the changed one is as a changed fresh one
def gen_changes(tier):
    for kind in T():
        for i in seeds(kind):
            for w in ways(kind):
                for c, (name, f, shallow) in enumerate(T()[kind][4]):
                    if w in SHALLOW and not shallow:
                        continue
                    for used in range(4):
                        for who in (0, 1):
                            yield kind, i, w, c, used, who


def run_changes(case, ctx):
    kind, i, w, c, used, who = case
    count, make, ops, pairs, changes = T()[kind]
    name, change, shallow = changes[c]
    speed(kind, i == 1 and used == 3 and who == 0 and w in ('copy', 'pickle 4'))
    x = make(i)
    if used & 1:
        desc(kind, x)
    y = WAYS[w](x)
    if used & 2:
        desc(kind, y)
    both = [x, y]
    before = desc(kind, make(i))
    fresh = make(i)
    changed = changed_like(kind, fresh, change)
    if isinstance(changed, str):
        ctx.eq(changed_like(kind, both[who], change), changed, case, 'refused alike')
    else:
        got = changed_like(kind, both[who], change)
        ctx.eq(got is both[who], True, case)
    after = desc(kind, fresh)
    same(ctx, desc(kind, both[1 - who]), before, kind, i, w, name, who, used, 'the one not changed')
    same(ctx, desc(kind, both[who]), after, kind, i, w, name, who, used, 'the changed one')
    same(ctx, desc(kind, both[1 - who]), before, kind, i, w, name, who, used, 'the one not changed')
    # a copy of the changed one has the change
    z = WAYS[w](both[who])
    if kind not in ('reader', 'writer'):
        same(ctx, desc(kind, z), after, kind, i, w, name, who, used, 'a copy of the changed one')
        same(ctx, cmp(kind, z, both[1 - who]), cmp(kind, fresh, make(i)), kind, i, w, name, 'changed and not changed')
    ctx.state(case)


def changed_like(kind, x, change):
    try:
        change(x)
        return x
    except Exception as e:
        return type(e).__name__


# ---- instances of derived classes among the originals
def gen_derived(tier):
    for kind in T():
        for i in seeds(kind):
            yield kind, i


def run_derived(case, ctx):
    kind, i = case
    count, make, ops, pairs, changes = T()[kind]
    speed(kind, i == 0)
    want = relabel(desc(kind, make(i)))
    x = values.make_derived(kind, i)
    same(ctx, relabel(desc(kind, x)), want, kind, i, 'derived')
    same(ctx, relabel(desc(kind, x)), want, kind, i, 'derived, again')
    for j in seeds(kind):
        for o, what in ((make(j), 'a plain one'), (values.make_derived(kind, j), 'another derived one')):
            same(ctx, cmp(kind, x, o), cmp(kind, make(i), make(j)), kind, i, j, 'with', what, mixed=what == 'a plain one')
            same(ctx, cmp(kind, o, x), cmp(kind, make(j), make(i)), kind, i, j, what, 'with it', mixed=what == 'a plain one')
    for name, f, shallow in changes:
        x, y = values.make_derived(kind, i), make(i)
        a, b = changed_like(kind, x, f), changed_like(kind, y, f)
        ctx.eq(isinstance(a, str), isinstance(b, str), kind, i, name)
        same(ctx, relabel(desc(kind, x)), relabel(desc(kind, y)), kind, i, name, 'derived, changed')
    ctx.state(case)


# ---- unpickled in another process, which has done nothing else
def gen_processes(tier):
    for kind in T():
        for p in ((2, 5) if tier != 'thorough' else range(2, 6)):
            for first in range(1 if tier != 'thorough' else 4):
                yield kind, p, (p + first) % 2, first


def run_processes(case, ctx):
    kind, p, used, first = case
    count, make, ops, pairs, changes = T()[kind]
    speed(kind, 1)
    which = [i for i in seeds(kind) if kind != 'KeyPair' or i in (p % 2, 3)]
    xs = [make(i) for i in which]
    want = [desc(kind, make(i)) for i in which]
    if used:
        for x in xs:
            desc(kind, x)
    d = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
    fd, path = tempfile.mkstemp(dir=d)
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(pickle.dumps(xs, p))
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': str(11 + first)}
        flags = [['-O'], [], ['-X', 'dev'], ['-OO']][first]
        r = subprocess.run(['/opt/venv/bin/python', '-B', '-W', 'ignore'] + flags + [os.path.join(HERE, 'unpickle.py'), path, kind, str(first)], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=250, cwd=d)
    finally:
        os.unlink(path)
    if r.returncode:
        raise Violation('%r: the process failed: %s' % (case, r.stderr.decode(errors='replace')[-600:]))
    got = json.loads(r.stdout.decode().splitlines()[-1])
    want = json.loads(json.dumps(want, default=str))
    ctx.eq(len(got), len(want), case)
    for i, (g, w) in enumerate(zip(got, want)):
        for a, b in zip(sorted(g, key=str), sorted(w, key=str)):
            ctx.eq(a, b, kind, i, p, 'in another process')
        ctx.eq(len(g), len(w), kind, i, p)
    ctx.state(case)


FAMILIES = [
    Family('ways', gen_ways, run_ways, 'every kind of value and seed: every way of copying (shallow, deep, pickle protocols 2 to 5, inside containers), chains of two ways (quick: 18, thorough: all), used before or not, plain and of a derived class; all operations of copy and original against a value made anew, and all operations between it and every other value'),
    Family('changes', gen_changes, run_changes, 'every way of copying, every change to either of the two, either, both or none used before'),
    Family('derived', gen_derived, run_derived, 'every value as an instance of a derived class: all operations, and all between it and every plain and derived value'),
    Family('processes', gen_processes, run_processes, 'all values of a kind, pickled (protocols 2 and 5, thorough 2 to 5), taken by a new process which has done nothing else, which operation first varied (thorough)'),
]
