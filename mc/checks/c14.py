import itertools
from collections import deque
from mc.common import *
from mc.checks.c13 import leaf

ASSUMPTIONS = ['at most one flag per leaf is given']


def shape(n):
    """levels of node counts"""
    out = [n]
    while out[-1] > 1:
        out.append((out[-1] + 1) // 2)
    return out


def init(n):
    s = shape(n)
    return frozenset((l, i) for l in range(1, len(s)) for i in range(s[l]))


def trim(n, kept, flags):
    """reference: a pair stays if one of its leaves is flagged, a higher node if one of its children stays"""
    s = shape(n)
    f = list(flags) + [0] * n
    out = set()
    for l in range(1, len(s)):
        for i in range(s[l]):
            if (l, i) not in kept:
                continue
            last = 2 * i + 1 >= s[l - 1]
            if l == 1:
                if f[2 * i] or not last and f[2 * i + 1]:
                    out.add((l, i))
            elif (l - 1, 2 * i) in out or not last and (l - 1, 2 * i + 1) in out:
                out.add((l, i))
    return frozenset(out)


def compare(ctx, tree, n, levels, kept, what):
    s = shape(n)
    leaves = set()
    count = 0
    stack = [(tree.Root, len(s) - 1, 0)]
    while stack:
        nd, l, i = stack.pop()
        count += 1
        if bytes(nd.Hash.Data) != levels[l][i]:
            raise Violation('%r: hash of node %d of level %d changed' % (what, i, l))
        has = nd.LeftChild is not None
        if has != (nd.RightChild is not None) or nd.IsLeaf() == has:
            raise Violation('%r: half a pair left at node %d of level %d' % (what, i, l))
        if has != ((l, i) in kept):
            raise Violation('%r: node %d of level %d %s' % (what, i, l, 'was not trimmed' if has else 'lost its children'))
        if has:
            stack.append((nd.LeftChild, l - 1, 2 * i))
            stack.append((nd.RightChild, l - 1, min(2 * i + 1, s[l - 1] - 1)))
            if bytes(nd.Hash.Data) != refs.hash256(bytes(nd.LeftChild.Hash.Data) + bytes(nd.RightChild.Hash.Data)):
                raise Violation('%r: node does not hash to its children' % (what,))
        else:
            leaves.add(levels[l][i])
    ctx.step(count)
    ctx.eq(sorted(bytes(h.Data) for h in tree.ToHashArray()), sorted(leaves), 'remaining hashes', what)


def tree_of(ctx, n, pat='count'):
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    key = (n, pat)
    if key not in ctx.scratch:
        raws = [leaf(i, pat) for i in range(n)]
        ctx.scratch[key] = (raws, refs.merkle_levels(raws))
    raws, levels = ctx.scratch[key]
    return MerkleTree([UInt256(r) for r in raws]), levels


def play(ctx, n, hist, conv=bytes, on=1, pat='count'):
    t, levels = tree_of(ctx, n, pat)
    kept = init(n)
    compare(ctx, t, n, levels, kept, (n, 'before'))
    for k, flags in enumerate(hist):
        t.Trim(conv([on if f else 0 for f in flags]))
        kept = trim(n, kept, flags)
        ctx.state(n, kept)
        compare(ctx, t, n, levels, kept, (n, hist[:k + 1]))


def gen_bfs(tier):
    """every reachable trimmed state of every tree, left by every flag assignment"""
    for n in range(1, 10 if tier == 'quick' else 13):
        seen = {init(n): ()}
        q = deque(seen)
        while q:
            st = q.popleft()
            h = seen[st]
            for c in chunks(range(1 << n), 64):
                yield n, h, c
            for m in range(1 << n):
                f = tuple(m >> i & 1 for i in range(n))
                nx = trim(n, st, f)
                if nx not in seen:
                    seen[nx] = h + (f,)
                    q.append(nx)


def run_bfs(case, ctx):
    n, h, masks = case
    for m in masks:
        play(ctx, n, tuple(tuple(f) for f in h) + (tuple(m >> i & 1 for i in range(n)),))


def gen_short(tier):
    for n in range(1, 10):
        for k in range(0, n):
            for c in chunks(range(1 << k), 32):
                yield n, k, c


def run_short(case, ctx):
    n, k, masks = case
    for m in masks:
        f = tuple(m >> i & 1 for i in range(k))
        play(ctx, n, (f,), conv=bytearray)
        play(ctx, n, (f,), conv=list)


def patterns(n):
    out = [(0,) * n, (1,) * n, tuple(i % 2 for i in range(n)), tuple(1 - i % 2 for i in range(n)), tuple(i % 4 < 2 for i in range(n)), tuple(i % 3 == 0 for i in range(n)), tuple(i % 8 == 5 for i in range(n))]
    for i in range(n):
        one = [0] * n
        one[i] = 1
        out.append(tuple(one))
        out.append(tuple(1 - x for x in one))
        out.append(tuple(int(j < i) for j in range(n)))
        out.append(tuple(int(j >= i) for j in range(n)))
        out.append(tuple(one[:i + 1]))
    return dedup(tuple(int(x) for x in p) for p in out)


def gen_large(tier):
    for n in list(range(10, 34)) + ([63, 64, 65] if tier == 'quick' else list(range(34, 100))):
        for p in patterns(n):
            yield n, (p,)
        for p in patterns(n)[:7]:
            for q in patterns(n)[::5]:
                yield n, (q, p)
                yield n, (p, q)
    for n in (127, 128, 129, 200, 255, 256, 257) + ((511, 512, 513, 1023, 1024, 1025) if tier == 'thorough' else ()):
        for p in patterns(n)[:7]:
            yield n, (p,)
        for i in (0, 1, 2, 63, 64, 65, 126, 127, 128, n // 2, n - 3, n - 2, n - 1):
            if i < n:
                yield n, (tuple(int(j == i) for j in range(n)),)
                yield n, (tuple(int(j != i) for j in range(n)),)
                yield n, (tuple(int(j < i) for j in range(n)), tuple(int(j > i // 2) for j in range(n)))


def run_large(case, ctx):
    n, h = case
    play(ctx, n, h)


def gen_pairs(tier):
    """for larger trees: every pair of flagged leaves"""
    for n in list(range(10, 24)) + [31, 32, 33]:
        for i in range(n):
            yield n, i


def run_pairs(case, ctx):
    n, i = case
    for j in range(i + 1, n):
        f = [0] * n
        f[i] = f[j] = 1
        play(ctx, n, (tuple(f),))


def gen_values(tier):
    for n in range(1, 9):
        for on in (1, 2, 0x10, 0x11, 0x7f, 0x80, 0xff):
            for pat in ('count', 'zero', 'hex'):
                yield n, on, pat


def run_values(case, ctx):
    n, on, pat = case
    for m in range(1 << n):
        f = tuple(m >> i & 1 for i in range(n))
        for conv in (bytes, bytearray, list):
            play(ctx, n, (f,), conv=conv, on=on, pat=pat)


FAMILIES = [
    Family('state-graph', gen_bfs, run_bfs, lambda t: 'trees of 1..%d leaves: every reachable trimmed state (breadth-first to closure) x every flag assignment, replayed on the real tree' % (9 if t == 'quick' else 12)),
    Family('short-flag-lists', gen_short, run_short, 'trees of 1..9 leaves, every flag list of every smaller length'),
    Family('large-trees', gen_large, run_large, '10..33 and around 64 leaves: single, complement, prefix, suffix, periodic flags; pairs of trims; 127..129, 200, 255..257 leaves (thorough: to 1025): ends and middle'),
    Family('flag-pairs', gen_pairs, run_pairs, '10..23, 31..33 leaves: every pair of flagged leaves'),
    Family('flag-values', gen_values, run_values, '7 flag values x 3 containers x 3 leaf patterns x all assignments of up to 8 leaves'),
]
