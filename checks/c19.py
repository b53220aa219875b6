"""C19: permutation utilities (symbolic image tuples, all paths of the real functions, z3 verdicts)."""
import sys
from itertools import product as iproduct

from qv import harness
from qv.harness import Case, Holds
from qv.dse import And, Or, Not, Implies, eqs, select

PROPERTY = 'C19'
MODULE = 'checks.c19'
LEVEL = 'model_checking'
BUDGET = {'quick': 400, 'thorough': 5000}
EXPLANATION = ('the real functions of qnet.utils.permutations are executed on image tuples whose entries are symbolic '
               'integers; every feasible path is explored and each assertion is discharged by z3 over the path condition')
BOUNDS = {'quick': 'permutations of up to 5 elements (6 for the linear-time functions), block structures with up to 3 '
                   'blocks of total size up to 5, candidate tuples with entries in -1..n',
          'thorough': 'permutations of up to 6 elements, block structures up to 4 blocks of total size 6'}


def P():
    from qnet.utils import permutations as m
    return m


def raises(exc, f):
    try:
        f()
    except exc:
        return True
    return False


def c_check(n):
    def f(cx):
        xs = tuple(cx.int('x%d' % i, -1, n) for i in range(n))
        r = P().check_permutation(xs)
        # reference: all in range and pairwise different
        ref = And(*([And(x >= 0, x < n) for x in xs] +
                    [Not(xs[i] == xs[j]) for i in range(n) for j in range(i)])) if n else True
        yield Holds('check_permutation(x) is exactly "x is a bijection of range(n)"', eqb(r, ref))
    return f


def eqb(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def c_invalid(n):
    def f(cx):
        m = P()
        xs = tuple(cx.int('x%d' % i, -1, n) for i in range(n))
        bad = Not(And(*([And(x >= 0, x < n) for x in xs] +
                        [Not(xs[i] == xs[j]) for i in range(n) for j in range(i)])))
        cx.assume(bad)
        yield Holds('permute rejects', raises(ValueError, lambda: m.permute(list(range(n)), xs)))
        yield Holds('to_disjoint_cycles rejects', raises(ValueError, lambda: m.permutation_to_disjoint_cycles(xs)))
        yield Holds('to_block_permutations rejects', raises(ValueError, lambda: m.permutation_to_block_permutations(xs)))
        yield Holds('BadPermutationError', raises(m.BadPermutationError, lambda: m.permute(tuple(range(n)), xs)))
        yield Holds('compose rejects', raises(ValueError, lambda: m.compose_permutations(tuple(range(n)), xs)))
    return f


def c_len(n, k):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        yield Holds('length mismatch rejected', raises(ValueError, lambda: m.permute(list(range(k)), p)))
    return f


def c_inv(n):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        q = m.invert_permutation(p)
        yield Holds('inverse is a tuple of length n', type(q) is tuple and len(q) == n)
        for i in range(n):
            yield Holds('p[q[%d]] == %d' % (i, i), select(p, q[i]) == i)
            yield Holds('q[p[%d]] == %d' % (i, i), select(q, p[i]) == i)
    return f


def c_inv_compose(n):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        q = m.invert_permutation(p)
        yield Holds('compose(p, p^-1) = id', eqs(m.compose_permutations(p, q), range(n)))
        yield Holds('compose(p^-1, p) = id', eqs(m.compose_permutations(q, p), range(n)))
        yield Holds('inverse of the inverse', eqs(m.invert_permutation(q), p))
    return f


def c_compose(n):
    def f(cx):
        m = P()
        a = tuple(cx.permutation('a', n))
        b = tuple(cx.permutation('b', n))
        c = m.compose_permutations(a, b)
        yield Holds('sigma(j) = alpha(beta(j))', eqs(c, [select(a, b[j]) for j in range(n)]))
        yield Holds('tuple', type(c) is tuple)
    return f


def c_permute(n, kind):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        if kind == 'str':
            seq = 'abcdefgh'[:n]
        else:
            seq = kind([cx.int('s%d' % i, -50, 50) for i in range(n)])
        r = m.permute(seq, p)
        yield Holds('type kept', type(r) is (str if kind == 'str' else kind))
        if kind == 'str':
            yield Holds('permuted', r == ''.join(seq[int(j)] for j in p))
        else:
            yield Holds('permuted', eqs(r, [select(seq, j) for j in p]))
    return f


def c_permute_other(n):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        r = m.permute(range(10, 10 + n), p)
        yield Holds('other sequences give a list', type(r) is list)
        yield Holds('permuted', eqs(r, [j + 10 for j in p]))
    return f


def c_permute_compose(n):
    def f(cx):
        m = P()
        a = tuple(cx.permutation('a', n))
        b = tuple(cx.permutation('b', n))
        seq = list(range(100, 100 + n))
        yield Holds('permute(permute(s, a), b) = permute(s, a.b)',
                    eqs(m.permute(m.permute(seq, a), b), m.permute(seq, m.compose_permutations(a, b))))
    return f


def c_cycles(n):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        cyc = m.permutation_to_disjoint_cycles(p)
        flat = [x for c in cyc for x in c]
        yield Holds('cycles partition the points', len(flat) == n)
        for c in cyc:
            for k, x in enumerate(c):
                yield Holds('sigma(c_k) = c_(k+1)', select(p, x) == c[(k + 1) % len(c)])
            for x in c[1:]:
                yield Holds('smallest element first', c[0] < x)
        for c, d in zip(cyc, cyc[1:]):
            yield Holds('cycles sorted', c[0] < d[0])
        back = m.permutation_from_disjoint_cycles(cyc)
        yield Holds('round trip', And(eqs(back, p), type(back) is tuple))
        off = cx.int('off', -4, 7)
        back = m.permutation_from_disjoint_cycles([[x + off for x in c] for c in cyc], off)
        yield Holds('round trip with offset', eqs(back, p))
    return f


def c_cycles_order(n):
    """cycles in any order and any rotation give the same permutation"""
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        cyc = m.permutation_to_disjoint_cycles(p)
        rot = []
        for k, c in enumerate(reversed(cyc)):
            r = int(cx.int('r%d' % k, 0, len(c) - 1))
            rot.append(tuple(c[r:] + c[:r]))
        yield Holds('any representation of the cycles', eqs(m.permutation_from_disjoint_cycles(rot), p))
    return f


def c_blocks(n):
    def f(cx):
        m = P()
        p = tuple(cx.permutation('p', n))
        blocks = m.permutation_to_block_permutations(p)
        yield Holds('block sizes', sum(len(b) for b in blocks) == n and all(len(b) for b in blocks))
        off = 0
        for b in blocks:
            for k, x in enumerate(b):
                yield Holds('blocks act on their own range', And(x >= 0, x < len(b), p[off + k] == x + off))
            off += len(b)
        # finest: no proper prefix of a block is mapped to itself
        for b in blocks:
            for k in range(1, len(b)):
                yield Holds('blocks are indecomposable', Not(And(*[x < k for x in b[:k]])))
        yield Holds('round trip', eqs(m.permutation_from_block_permutations(blocks), p))
    return f


def c_concat(n1, n2, n3):
    def f(cx):
        m = P()
        ps = [tuple(cx.permutation('abc'[k], n)) for k, n in enumerate((n1, n2, n3)) if n is not None]
        r = m.permutation_from_block_permutations(ps)
        exp, off = [], 0
        for p in ps:
            exp += [x + off for x in p]
            off += len(p)
        yield Holds('direct sum', And(eqs(r, exp), type(r) is tuple))
        if len(ps) >= 2:
            yield Holds('concatenate two', eqs(m.concatenate_permutations(ps[0], ps[1]),
                                               list(ps[0]) + [x + len(ps[0]) for x in ps[1]]))
    return f


def ref_full(bp, bs):
    """channel j of block k goes to (start of the slot of block k) + j; slots are filled in the order of the images"""
    nb = len(bs)
    out = []
    for k in range(nb):
        start = 0
        for l in range(nb):
            if l != k:
                b = bp[l] < bp[k]
                start = start + (bs[l] if b is True else 0 if b is False else b._ex and ifint(b, bs[l]))
        out += [start + j for j in range(bs[k])]
    return out


def ifint(b, v):
    import z3
    from qv.dse import SymInt
    return SymInt(z3.If(b._b, z3.IntVal(v), z3.IntVal(0)), b._ex)


def c_full(bs):
    def f(cx):
        m = P()
        bp = tuple(cx.permutation('b', len(bs)))
        r = m.full_block_perm(bp, bs)
        yield Holds('blocks are moved as a whole', And(eqs(r, ref_full(bp, bs)), type(r) is tuple))
    return f


def c_decomp(bs):
    """permutations that respect the block structure recompose exactly"""
    def f(cx):
        m = P()
        bp = tuple(cx.permutation('b', len(bs)))
        ws = [tuple(cx.permutation('w%d_' % k, n)) for k, n in enumerate(bs)]
        full = ref_full(bp, bs)
        sigma, off = [], 0
        for w, n in zip(ws, bs):
            sigma += [select(full, w[j] + off) for j in range(n)]
            off += n
        sigma = tuple(sigma)
        b, w = m.block_perm_and_perms_within_blocks(sigma, bs)
        yield Holds('block permutation', eqs(b, bp))
        for x, y in zip(w, ws):
            yield Holds('permutation within the block', eqs(x, y))
        yield Holds('number of blocks', len(w) == len(ws))
        yield Holds('recomposition', eqs(m.compose_permutations(m.full_block_perm(b, bs),
                                                                m.permutation_from_block_permutations(w)), sigma))
    return f


def c_decomp_any(bs):
    """for an arbitrary permutation: blocks ordered by their smallest image, channels within a block by their image"""
    def f(cx):
        m = P()
        n = sum(bs)
        sigma = tuple(cx.permutation('p', n))
        b, w = m.block_perm_and_perms_within_blocks(sigma, bs)
        images, off = [], 0
        for k in bs:
            images.append(sigma[off:off + k])
            off += k
        mins = [min(i) for i in images]
        for k in range(len(bs)):
            for l in range(k):
                yield Holds('order of blocks', eqb(b[k] < b[l], mins[k] < mins[l]))
        for im, ww in zip(images, w):
            for k in range(len(im)):
                for l in range(k):
                    yield Holds('order within blocks', eqb(ww[k] < ww[l], im[k] < im[l]))
        yield Holds('a permutation of the blocks', m.check_permutation(b))
        for ww, k in zip(w, bs):
            yield Holds('permutations within', And(len(ww) == k, m.check_permutation(ww)))
    return f


def compositions(n, kmax):
    if n == 0:
        yield ()
        return
    for a in range(1, n + 1):
        if kmax > 0:
            for r in compositions(n - a, kmax - 1):
                yield (a,) + r


def cases(tier):
    N = 5 if tier == 'quick' else 6
    out = []
    for n in range(0, N + 1):
        out.append(Case('check/n=%d' % n, c_check(n) if n else c_check(0), weight=3 ** n / 20))
        w = 30 if n >= 5 else 5
        out.append(Case('inverse/n=%d' % n, c_inv(n), weight=w))
        out.append(Case('cycles/n=%d' % n, c_cycles(n), weight=w))
        if n:
            out.append(Case('blocks/n=%d' % n, c_blocks(n), weight=w))
        for k in (list, tuple):
            if n < N or tier != 'quick':
                out.append(Case('permute/%s/n=%d' % (k.__name__, n), c_permute(n, k), weight=w))
    for n in range(1, 5):
        out.append(Case('invalid/n=%d' % n, c_invalid(n), weight=30 if n == 4 else 3))
        out.append(Case('permute/str/n=%d' % n, c_permute(n, 'str')))
        out.append(Case('permute/range/n=%d' % n, c_permute_other(n)))
        out.append(Case('inverse-compose/n=%d' % n, c_inv_compose(n)))
        out.append(Case('cycles-any-order/n=%d' % n, c_cycles_order(n)))
        for k in (n - 1, n + 1):
            out.append(Case('length/n=%d,k=%d' % (n, k), c_len(n, k)))
    for n in range(1, N - 1):
        out.append(Case('compose/n=%d' % n, c_compose(n), weight=30))
    for n in range(1, N - 1 if tier != 'quick' else 4):
        out.append(Case('permute-compose/n=%d' % n, c_permute_compose(n), weight=30))
    for a, b, c in iproduct((0, 1, 2, 3), (0, 1, 2, 3), (None, 0, 1, 2)):
        if a + b + (c or 0) <= N:
            out.append(Case('concat/%s,%s,%s' % (a, b, c), c_concat(a, b, c)))
    for tot in range(1, N + 1):
        for bs in compositions(tot, 3 if tier == 'quick' else 4):
            out.append(Case('full/%r' % (bs,), c_full(bs)))
            out.append(Case('decompose/%r' % (bs,), c_decomp(bs), weight=5))
            if tot < N or tier != 'quick':
                out.append(Case('decompose-any/%r' % (bs,), c_decomp_any(bs), weight=10 if tot > 4 else 2))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
