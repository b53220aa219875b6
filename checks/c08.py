"""C08: Hilbert spaces form a consistent tensor-product and subset algebra."""
import sys
from itertools import product as iproduct, permutations

from qv import harness
from qv.harness import Case, Eq, Holds
from qv.dse import And, Or, Not
from qv.dual import K
from qv import sem

PROPERTY = 'C08'
MODULE = 'checks.c08'
LEVEL = 'model_checking'
BUDGET = {'quick': 300, 'thorough': 3000}
EXPLANATION = ('spaces are built by the real code from symbolic subsets of a pool of degrees of freedom (membership bits, order of '
               'multiplication and order indices are symbolic, explored path by path with z3) and every space method is compared '
               'with the operation on the sets; basis states are compared entrywise with the enumeration of all labels')
BOUNDS = {'quick': 'pools of 4 degrees of freedom (pairs of spaces) and 3 (triples), including spaces that agree in label but not in '
                   'dimension, basis, spin or order index; order indices -1..2 or none; bases: dimension 1 to 3 per factor, '
                   'products of up to 3 factors; symbolic basis index -2..total+2',
          'thorough': 'pools of 5 and 4, order indices -2..3'}


def m():
    from qnet.algebra.core import hilbert_space_algebra as mod
    return mod


def pool(kind, n, cx=None, hi=2):
    L = m().LocalSpace
    from qnet.algebra.library.spin_algebra import SpinSpace
    if kind == 'plain':
        return [L(x) for x in 'abcde'[:n]]
    if kind == 'ints':
        return [L(k) for k in (10, 9, 1, 2, 'b')[:n]]
    if kind == 'same':
        return [L('a', dimension=2), L('a', dimension=3), L('a', basis=('0', '2')), SpinSpace('a', spin='1/2'), L('a')][:n]
    if kind == 'spin':
        return [SpinSpace('s', spin='1/2'), SpinSpace('s', spin='1/2', basis=('down', 'up')), SpinSpace('s', spin=1),
                SpinSpace('s', spin=1, basis=('x', 'y', 'z')), SpinSpace('t', spin=1)][:n]
    if kind == 'ids':
        return [L('a', local_identifiers={'Destroy': 'b'}), L('a'), L('a', local_identifiers={'Destroy': 'c'}), L('b'), L('c')][:n]
    if kind == 'order':
        out = []
        for k in range(n):
            o = int(cx.int('o%d' % k, -1, hi))
            out.append(L('dcbae'[k], **({} if o < 0 else dict(order_index=o))))
        return out
    if kind == 'dims':
        return [L('abcde'[k], dimension=(2, 3, 1, 2, 2)[k]) for k in range(n)]


def subset(cx, P, name, how='fwd'):
    """product of a symbolic subset of the pool"""
    bits = [bool(cx.bool('%s%d' % (name, k))) for k in range(len(P))]
    s = frozenset(p for p, b in zip(P, bits) if b)
    members = [p for p, b in zip(P, bits) if b]
    if how == 'rev':
        members = members[::-1]
    r = m().TrivialSpace
    for p in members:
        r = r * p
    return r, s


def facs(A):
    return frozenset(A.local_factors)


def build(P):
    r = m().TrivialSpace
    for p in P:
        r = r * p
    return r


def pairs(kind, n, hi):
    def f(cx):
        M = m()
        P = pool(kind, n, cx, hi)
        A, a = subset(cx, P, 'a')
        B, b = subset(cx, P, 'b', 'rev')
        yield Holds('factors', facs(A) == a and facs(B) == b)
        yield Holds('factors distinct', len(A.local_factors) == len(a) and len(A) == len(a))
        yield Holds('equality', (A == B) == (a == b))
        yield Holds('hash', a != b or hash(A) == hash(B))
        AB, BA = A * B, B * A
        yield Holds('product factors', facs(AB) == a | b and len(AB) == len(a | b))
        yield Holds('product commutes', AB == BA and AB.local_factors == BA.local_factors)
        yield Holds('idempotent', A * A == A and AB * A == AB and AB * B == AB)
        yield Holds('tensor method', A.tensor(B) == AB and A.tensor(B, A) == AB)
        yield Holds('create', M.ProductSpace.create(A, B) == AB and M.ProductSpace.create(*sorted(a | b, key=str)) == AB)
        yield Holds('remove', facs(A / B) == a - b and A.remove(B) == A / B and A / B == build(a - b))
        yield Holds('intersect', facs(A & B) == a & b and A.intersect(B) == A & B and A & B == build(a & b))
        yield Holds('<=', (A <= B) == (a <= b) and A.is_tensor_factor_of(B) == (a <= b))
        yield Holds('<', (A < B) == (a < b) and A.is_strict_tensor_factor_of(B) == (a < b) and A.is_strict_subfactor_of(B) == (a < b))
        yield Holds('>=', (A >= B) == (a >= b))
        yield Holds('>', (A > B) == (a > b))
        yield Holds('disjoint', A.isdisjoint(B) == (not (a & b)) and B.isdisjoint(A) == (not (a & b)))
        yield Holds('order', ordered(A.local_factors) and ordered(AB.local_factors))
        yield Holds('consistent order', sub_order(A.local_factors, AB.local_factors) and sub_order(B.local_factors, AB.local_factors))
        for nm, X in (('T', M.TrivialSpace), ('F', M.FullSpace)):
            full = nm == 'F'
            yield Holds(nm + ' product', A * X == (X if full else A) and X * A == (X if full else A))
            yield Holds(nm + ' intersect', (A & X) == (A if full else X) and (X & A) == (A if full else X))
            yield Holds(nm + ' <=', (A <= X) == (full or not a) and (X <= A) == (not full))
            yield Holds(nm + ' <', (A < X) == full and (X < A) == (not full and bool(a)))
            yield Holds(nm + ' remove', (A / X) == (M.TrivialSpace if full else A))
            if a:
                yield Holds(nm + ' disjoint', A.isdisjoint(X) == (not full) and X.isdisjoint(A) == (not full))
        yield Holds('trivial remove', M.TrivialSpace / A == M.TrivialSpace)
    return f


def ordered(fs):
    o = [f.kwargs['order_index'] for f in fs]
    return all(x <= y for x, y in zip(o, o[1:]))


def sub_order(x, y):
    return [v for v in y if v in x] == list(x)


def triples(kind, n, hi):
    def f(cx):
        P = pool(kind, n, cx, hi)
        A, a = subset(cx, P, 'a')
        B, b = subset(cx, P, 'b')
        C, c = subset(cx, P, 'c')
        yield Holds('associative', (A * B) * C == A * (B * C) and facs(A * B * C) == a | b | c)
        yield Holds('intersect associative', (A & B) & C == A & (B & C))
        yield Holds('distributive', A & (B * C) == (A & B) * (A & C))
        yield Holds('remove product', A / (B * C) == (A / B) / C)
        yield Holds('remove from product', (A * B) / C == (A / C) * (B / C))
        yield Holds('transitive', not (A <= B and B <= C) or A <= C)
        yield Holds('strict transitive', not (A < B and B < C) or A < C)
        yield Holds('antisymmetric', not (A <= B and B <= A) or A == B)
        yield Holds('any grouping', m().ProductSpace.create(A, B * C) == m().ProductSpace.create(C, B, A))
    return f


def perms(kind, n, hi):
    """any order of multiplication gives the same product"""
    def f(cx):
        P = pool(kind, n, cx, hi)
        ref = build(P)
        perm = [int(v) for v in cx.permutation('p', n)]
        A = build([P[k] for k in perm])
        yield Holds('same', A == ref and A.local_factors == ref.local_factors and hash(A) == hash(ref))
        k = int(cx.int('k', 1, n - 1))
        L, R = build([P[v] for v in perm[:k]]), build([P[v] for v in perm[k:]])
        yield Holds('split', L * R == ref and ref / L == R and ref / R == L)
        yield Holds('direct construction', m().ProductSpace(*ref.local_factors) == ref)
        try:
            m().ProductSpace(P[0], P[1], P[0])
            yield Holds('repeated factors refused', False)
        except ValueError:
            yield Holds('repeated factors refused', True)
    return f


def eqb(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


DIMS = {'d1': lambda L: L('g1', dimension=1), 'd2': lambda L: L('d', dimension=2), 'd3': lambda L: L('e', dimension=3),
        'q': lambda L: L('q', basis=('g', 'e')), 'w': lambda L: L('w', basis=('2', '0', '1')), 's': None, 'sn': None, 's1': None,
        'q0': lambda L: L('r', basis=('e', 'g'), order_index=0), 'inf': lambda L: L('f')}


def sp(n):
    from qnet.algebra.library.spin_algebra import SpinSpace
    if n == 's':
        return SpinSpace('s', spin='1/2')
    if n == 's1':
        return SpinSpace('u', spin=1)
    if n == 'sn':
        return SpinSpace('v', spin='1/2', basis=('down', 'up'))
    return DIMS[n](m().LocalSpace)


def basis(names):
    """dimension, labels and states of a product: every combination exactly once, consistent indices"""
    def f(cx):
        from qnet.algebra.core.exceptions import BasisNotSetError
        from qnet.algebra.core.state_algebra import BasisKet
        S = [sp(n) for n in names]
        A = build(S)
        if 'inf' in names:
            for g in (lambda: A.dimension, lambda: A.basis_labels, lambda: list(A.basis_states)):
                try:
                    g()
                    yield Holds('no basis', False)
                except BasisNotSetError:
                    yield Holds('no basis', True)
            yield Holds('has_basis', A.has_basis is False)
            return
        F = A.local_factors
        dims = [s.dimension for s in F]
        tot = 1
        for s in S:
            tot *= s.dimension
        yield Holds('dimension multiplies', A.dimension == tot and A.has_basis)
        combos = list(iproduct(*[s.basis_labels for s in F]))
        labels = [','.join(c) for c in combos]
        yield Holds('labels', list(A.basis_labels) == labels and len(set(labels)) == tot)
        states = list(A.basis_states)
        yield Holds('states once', len(states) == tot and len(set(states)) == tot)
        k = K()
        idx = cx.int('i', -2 if len(F) == 1 else 0, tot + 2)
        bad = False
        try:
            i = int(idx) if len(F) > 1 or isinstance(A, type(sp('s'))) else idx
            if isinstance(A, type(sp('s'))):
                i = int(idx)
                if not 0 <= i < tot:
                    i = None
            st = None if i is None else A.basis_state(i if not isinstance(A, type(sp('s'))) else A.basis_labels[i])
            bad = st is None
        except IndexError:
            bad = True
        yield Holds('index refused exactly outside', eqb(bad, Not(And(idx >= 0, idx < tot))))
        if not bad:
            i = int(idx)
            yield Holds('state by index', st == states[i])
            yield Holds('state by label', A.basis_state(labels[i]) == st)
            ref = sem.den(BasisKet(combos[i][0], hs=F[0]), k.env)
            for s, l in zip(F[1:], combos[i][1:]):
                ref = sem.mul(ref, sem.den(BasisKet(l, hs=s), k.env))
            yield Eq('state value', sem.den(st, k.env), ref)
            # unit vector at that position of the ordered basis
            pos, rest = [], i
            for d in reversed(dims):
                pos.insert(0, rest % d)
                rest //= d
            T = sem.den(st, k.env)
            want = tuple(pos[[s.label for s in F].index(l)] for l in T.out)
            yield Holds('position', list(T.d) == [(want, ())] and T.d[(want, ())].t == sem.S(1).d[((), ())].t)
        for wrong in ('nolabel', ','.join(['x'] * len(F)), labels[0] + ',0'):
            try:
                A.basis_state(wrong)
                yield Holds('wrong label', False)
            except KeyError:
                yield Holds('wrong label', True)
    return f


def neighbours(n):
    """the next state of a basis state is the one at the following index"""
    def f(cx):
        from qnet.algebra.core.state_algebra import BasisKet, ZeroKet
        A = sp(n)
        st = list(A.basis_states)
        i = int(cx.int('i', 0, len(st) - 1))
        yield Holds('index', st[i].index == i and st[i].label == A.basis_labels[i])
        yield Holds('next', st[i].next() == (st[i + 1] if i + 1 < len(st) else ZeroKet))
        yield Holds('prev', st[i].prev() == (st[i - 1] if i else ZeroKet))
        yield Holds('orthogonal states', all((s == st[i]) == (j == i) for j, s in enumerate(st)))
        yield Holds('label and index agree', BasisKet(A.basis_labels[i], hs=A) == st[i])
        if n[0] != 's':
            yield Holds('by index', BasisKet(i, hs=A) == st[i])
    return f


def trivial(cx):
    M = m()
    from qnet.algebra.core.state_algebra import TrivialKet
    T, F = M.TrivialSpace, M.FullSpace
    i = int(cx.int('i', -1, 2))
    try:
        r = T.basis_state(i)
        yield Holds('state', i == 0 and r is TrivialKet)
    except IndexError:
        yield Holds('state', i != 0)
    lab = cx.choice('l', ['0', '1', 'x'])
    try:
        r = T.basis_state(lab)
        yield Holds('by label', lab == '0' and r is TrivialKet)
    except KeyError:
        yield Holds('by label', lab != '0')
    yield Holds('dimension', T.dimension == 1 and list(T.basis_states) == [TrivialKet] and T.basis_labels == ('0',))
    yield Holds('comparisons', T < F and T <= F and not F < T and not F <= T and T <= T and not T < T and F <= F and not F < F
                and F > T and F >= T and T >= T and not T > T)
    yield Holds('products', T * T == T and T * F == F and F * F == F and F * T == F)
    yield Holds('no product', M.ProductSpace.create() == T)
    yield Holds('intersections', T & T == T and F & F == F and T & F == T and F & T == T)


def convert(cx):
    """labels instead of spaces"""
    M = m()
    a = cx.choice('a', ['x', 1, 'y1'])
    b = cx.choice('b', ['x', 2, 'z'])
    r = M.ProductSpace.create(a, b)
    yield Holds('labels stand for local spaces', r == M.LocalSpace(a) * M.LocalSpace(b))
    yield Holds('str of ints', M.LocalSpace(1) == M.LocalSpace('1'))


def cases(tier):
    th = tier == 'thorough'
    hi = 3 if th else 2
    out = [Case('trivial', trivial), Case('labels', convert)]
    for k in ('plain', 'ints', 'same', 'spin', 'ids', 'dims'):
        out.append(Case('pairs/' + k, pairs(k, 5 if th else 4, hi), max_paths=5000, weight=5))
        out.append(Case('triples/' + k, triples(k, 4 if th else 3, hi), max_paths=5000, weight=5))
        out.append(Case('orders/' + k, perms(k, 5 if th else 4, hi), max_paths=5000))
    out.append(Case('pairs/order', pairs('order', 3 if th else 2, hi), max_paths=9000, weight=5))
    out.append(Case('orders/order', perms('order', 3, hi), max_paths=9000, weight=5))
    out.append(Case('triples/order', triples('order', 2, hi), max_paths=9000, weight=5))
    B = ['d2', 'd3', 'q', 's', 'inf', 'd1', 'w', 'sn', 's1', 'q0']
    for n in range(1, 4):
        from itertools import combinations
        for c in combinations(B, n):
            if n == 3 and not th and len(set(c) & {'d1', 'w', 'sn', 's1'}) > 1:
                continue
            out.append(Case('basis/' + '*'.join(c), basis(c)))
    for n in B:
        if n != 'inf':
            out.append(Case('neighbours/' + n, neighbours(n)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
