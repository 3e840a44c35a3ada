import itertools
from mc.common import *

ASSUMPTIONS = ['leaves are 256-bit identifiers']


def leaf(i, pat='count'):
    if pat == 'count':
        return i.to_bytes(4, 'big') + bytes((i * 29 + j * 11) & 0xff for j in range(28))
    if pat == 'hex':
        return (b'%08x' % i) * 4
    if pat == 'zero':
        return bytes(32)
    return (bytes(32), b'\xff' * 32, bytes(range(32)), bytes(31) + b'\x01')[i % 4]


def nums(tier):
    return sorted(set(range(1, 301 if tier == 'quick' else 1100)) | {399, 400, 401, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097} | ({8191, 8192, 8193, 10000, 16385} if tier == 'thorough' else set()))


def check_tree(ctx, raws, what, structure=True):
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    n = len(raws)
    levels = refs.merkle_levels(raws)
    root = levels[-1][0]
    leaves = [UInt256(data=r) for r in raws]
    arg = list(leaves)
    got = MerkleTree.ComputeRoot(arg)
    ctx.eq((type(got) is UInt256, bytes(got.Data)), (True, root), 'root', what)
    t = MerkleTree(arg)
    ctx.eq(bytes(t.Root.Hash.Data), root, 'tree root', what)
    ctx.eq(t.Depth, len(levels), 'depth', what)
    if structure:
        nodes = [t.Root]
        ctx.eq((t.Root.IsRoot(), t.Root.Parent is None), (True, True), 'root node', what)
        for l in range(len(levels) - 1, 0, -1):
            below = levels[l - 1]
            nxt = []
            for i, nd in enumerate(nodes):
                j = min(2 * i + 1, len(below) - 1)
                L, R = nd.LeftChild, nd.RightChild
                ok = L is not None and R is not None and bytes(nd.Hash.Data) == levels[l][i] and bytes(L.Hash.Data) == below[2 * i] and bytes(R.Hash.Data) == below[j] \
                    and L.Parent is nd and R.Parent is nd and not nd.IsLeaf() and not L.IsRoot() and not R.IsRoot()
                if not ok:
                    raise Violation('%r: node %d of level %d is wrong' % (what, i, l))
                ctx.step()
                nxt.append(L)
                if j == 2 * i + 1:
                    nxt.append(R)
            nodes = nxt
        ctx.eq([bytes(x.Hash.Data) for x in nodes], raws, 'leaves', what)
        ctx.eq(all(x.IsLeaf() and x.LeftChild is None and x.RightChild is None for x in nodes), True, 'leaves', what)
    found = t.ToHashArray()
    ctx.check(isinstance(found, list), 'the hash array is a list', what)
    ctx.eq(sorted(bytes(h.Data) for h in found), sorted(set(raws)), 'hash array', what)
    ctx.eq(len(arg) == n and all(a is b for a, b in zip(arg, leaves)), True, 'input list', what)
    ctx.eq([bytes(x.Data) for x in leaves], raws, 'input hashes', what)
    got2 = MerkleTree.ComputeRoot(arg)
    ctx.eq(bytes(got2.Data), root, 'root again', what)


def gen_counts(tier):
    for n in nums(tier):
        for pat in ('count', 'hex', 'zero', 'four'):
            yield n, pat


def run_counts(case, ctx):
    n, pat = case
    check_tree(ctx, [leaf(i, pat) for i in range(n)], case)


def gen_two(tier):
    for n in range(1, 11 if tier == 'quick' else 14):
        for p in itertools.product((0, 1), repeat=n):
            yield p
    for n in range(1, 7 if tier == 'quick' else 9):
        for p in itertools.product((0, 1, 2), repeat=n):
            if 2 in p:
                yield p


def run_two(p, ctx):
    check_tree(ctx, [leaf(5 + x) for x in p], p)


def gen_edits(tier):
    for n in list(range(2, 36)) + ([63, 64, 65] if tier == 'quick' else list(range(36, 70)) + [127, 128, 129]):
        for i in range(n):
            yield 'change', n, i
            if i + 1 < n:
                yield 'swap', n, i
            yield 'drop', n, i
            yield 'dup', n, i


def run_edits(case, ctx):
    op, n, i = case
    raws = [leaf(k) for k in range(n)]
    base = refs.merkle_levels(raws)[-1][0]
    if op == 'change':
        raws[i] = raws[i][:31] + bytes([raws[i][31] ^ 1])
    elif op == 'swap':
        raws[i], raws[i + 1] = raws[i + 1], raws[i]
    elif op == 'drop':
        raws = raws[:i] + raws[i + 1:]
    else:
        raws = raws[:i + 1] + raws[i:]
    ctx.outcome('root differs' if refs.merkle_levels(raws)[-1][0] != base else 'root same (duplicated last leaf)')
    check_tree(ctx, raws, case, structure=False)


def gen_misc(tier):
    yield from ('empty', 'same object', 'two trees', 'same object last')


def run_misc(kind, ctx):
    from neocore.UInt256 import UInt256
    from neocore.Cryptography.MerkleTree import MerkleTree
    if kind == 'empty':
        ctx.refused(lambda: MerkleTree.ComputeRoot([]), 'empty root')
        ctx.refused(lambda: MerkleTree([]), 'empty tree')
    elif kind.startswith('same object'):
        for n in range(1, 20):
            h = UInt256(leaf(9))
            arg = [h] * n if kind == 'same object' else [UInt256(leaf(i)) for i in range(n - 1)] + [h]
            if kind != 'same object' and n > 1:
                arg[0] = h
            raws = [bytes(x.Data) for x in arg]
            ctx.eq(bytes(MerkleTree.ComputeRoot(arg).Data), refs.merkle_levels(raws)[-1][0], kind, n)
            ctx.eq(bytes(MerkleTree(arg).Root.Hash.Data), refs.merkle_levels(raws)[-1][0], kind, n)
    else:
        for n in range(1, 20):
            for m in range(1, 20):
                a = [leaf(i) for i in range(n)]
                b = [leaf(i + 3) for i in range(m)]
                t = MerkleTree([UInt256(x) for x in a])
                u = MerkleTree([UInt256(x) for x in b])
                ctx.eq((bytes(t.Root.Hash.Data), bytes(u.Root.Hash.Data)), (refs.merkle_levels(a)[-1][0], refs.merkle_levels(b)[-1][0]), kind, n, m)
                ctx.eq((t.Depth, u.Depth), (len(refs.merkle_levels(a)), len(refs.merkle_levels(b))), kind, n, m)


FAMILIES = [
    Family('leaf-counts', gen_counts, run_counts, lambda t: '%d leaf counts up to %d x 4 leaf patterns; whole structure' % (len(nums(t)), nums(t)[-1])),
    Family('value-assignments', gen_two, run_two, lambda t: 'all assignments of two leaf values to up to %d leaves, of three to up to %d' % ((10, 6) if t == 'quick' else (13, 8))),
    Family('edits', gen_edits, run_edits, 'every leaf changed, swapped with its neighbour, dropped, duplicated; 2..35 and around 64 leaves'),
    Family('misc', gen_misc, run_misc, 'empty lists, one object used as several leaves, all pairs of trees of 1..19 leaves alive together'),
]
