"""C07: factors are reordered only when they commute, and always canonically."""
import sys
from itertools import combinations, product as iproduct

import sympy

from qv import harness, sem
from qv.dual import K
from qv.harness import Case, Eq, Holds
from qv.dse import And, Or, Not, Implies

PROPERTY = 'C07'
MODULE = 'checks.c07'
LEVEL = 'model_checking'
BUDGET = {'quick': 400, 'thorough': 5000}
EXPLANATION = ('ordering keys with symbolic integers, symbolic choices of operands and symbolic permutations are run through the real '
               'ordering code, path by path; z3 decides that keys form a total preorder, that overlapping factors keep their order, '
               'that all orders of writing give the identical expression, and (entrywise) that the value is the ordered product')
BOUNDS = {'quick': 'keys: triples of 1 element (integers -3..12 or 21 other values) and of 2 elements (integers 0..3, symbols, strings, nested keys); products: 4 symbols over all '
                   'subsets of 3 degrees of freedom, values for 3 factors; sums and disjoint products: all orders of 3 out of 14 to 20 '
                   'operands and of 4 out of 9',
          'thorough': 'products of 5 symbols; sums: all orders of 4 operands'}
x, y = sympy.symbols('x y')
p, q = sympy.symbols('p q', positive=True)
xr = sympy.Symbol('x', real=True)


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def so():
    from qnet.algebra.core import super_operator_algebra as m
    return m


def L(*a, **k):
    from qnet.algebra.core.hilbert_space_algebra import LocalSpace
    return LocalSpace(*a, **k)


# -- keys

def KT(v):
    from qnet.utils.ordering import KeyTuple
    return KeyTuple(v)


INT = object()      # stands for a symbolic integer
POOL = [10 * x, 2 * x, -x, x, sympy.Rational(1, 2), sympy.sqrt(2), sympy.I, 10 * p, 2 * p, -3 * p, p + 1, 'a', '10', '', None, 1.5, float('inf'),
        -2.5, x * y, xr, sympy.pi, 2j]


def lt(a, b):
    return bool(a < b)


def preorder(ks):
    n = len(ks)
    R = [[lt(ks[i], ks[j]) for j in range(n)] for i in range(n)]
    eq = lambda a, b: not R[a][b] and not R[b][a]     # noqa
    for i in range(n):
        yield Holds('irreflexive', not R[i][i])
        for j in range(n):
            yield Holds('asymmetric', not (R[i][j] and R[j][i]))
            yield Holds('> is the converse of <', bool(ks[i] > ks[j]) == R[j][i])
            for k in range(n):
                yield Holds('transitive', not (R[i][j] and R[j][k]) or R[i][k])
                yield Holds('equivalence transitive', not (eq(i, j) and eq(j, k)) or eq(i, k))


def elem(cx, name, pool, num=True):
    k = int(cx.int(name + 'kind', 0, len(pool) - (0 if num else 1)))
    if k == len(pool):
        return cx.int(name + 'int', -3, 12)
    return pool[k]


def keys1(pa, pb):
    """one-element keys: two from fixed kinds, the third free"""
    def f(cx):
        a = cx.int('a', -3, 12) if pa is INT else pa
        b = cx.int('b', -3, 12) if pb is INT else pb
        c = elem(cx, 'c', POOL)
        for o in preorder([KT((a,)), KT((b,)), KT((c,))]):
            yield o
    return f


def keys2(form, k0):
    """two-element and nested keys, prefixes"""
    def f(cx):
        pool = [INT, 10 * x] if k0 < 4 else [INT, 'a']
        ks = []
        for n in 'abc':
            k = k0 % 4 if n == 'a' else int(cx.int(n + 'k', 0, 3))
            u, v = [cx.int(n + str(i), 0, 3) if pool[k >> i & 1] is INT else pool[1] for i in (0, 1)]
            ks.append({'flat': lambda: KT((u, v)), 'nested': lambda: KT((KT((u,)), v)), 'prefix': lambda: KT((u, v)[:1 + (n != 'b')]),
                       'tuple': lambda: KT((('g', 'e'), KT((u, v)))) if n != 'b' else KT((None, KT((u, v))))}[form]())
        for o in preorder(ks):
            yield o
    return f


COEFFS = [2, -2, 10, sympy.Rational(1, 2), x, 10 * x, 2 * x, -x, 1j, 1 + 1j, 10 * p, 2 * p, 2 * q, 0.5, -p]


def expr_keys(i):
    """keys of multiples and parametrised symbols"""
    def f(cx):
        from qnet.utils.ordering import expr_order_key
        A = oa().OperatorSymbol
        h = L(1)
        a = COEFFS[i]
        b, c = cx.choice('b', COEFFS), cx.choice('c', COEFFS)
        kind = cx.choice('k', ['mult', 'arg', 'scalar'])
        mk = {'mult': lambda v: v * A('A', hs=h), 'arg': lambda v: A('A', v, hs=h), 'scalar': lambda v: scalar(v)}[kind]
        for o in preorder([expr_order_key(mk(v)) for v in (a, b, c)]):
            yield o
        from qnet.utils.ordering import FullCommutativeHSOrder
        es = [mk(v) for v in (a, b, c)]
        ks = [FullCommutativeHSOrder(e) for e in es]
        R = lambda u, v: bool(u < v)      # noqa
        yield Holds('order transitive', not (R(ks[0], ks[1]) and R(ks[1], ks[2])) or R(ks[0], ks[2]))
        yield Holds('order asymmetric', not (R(ks[0], ks[1]) and R(ks[1], ks[0])))
        if es[0] != es[1] and kind != 'mult':
            yield Holds('different expressions are ordered', R(ks[0], ks[1]) or R(ks[1], ks[0]), repr(es[:2]))
    return f


def scalar(v):
    from qnet.algebra.core.scalar_algebra import ScalarValue
    return ScalarValue.create(v)


# -- products

def spaces3(order):
    hs = [L(n, **({} if o is None else dict(order_index=o))) for n, o in zip('abc', order)]
    out = []
    for bits in range(1, 8):
        r = None
        for k in range(3):
            if bits >> k & 1:
                r = hs[k] if r is None else r * hs[k]
        out.append((bits, r))
    return out


ORDERS = [(None, None, None), (3, 2, 1), (None, 1, 1)]


def products(n, s0, s1, order):
    """symbols on arbitrary subsets of the degrees of freedom"""
    def f(cx):
        O = oa()
        S = spaces3(order)
        picks = [S[s0], S[s1]] + [cx.choice('s%d' % k, S) for k in range(2, n)]
        names = 'DBAC' 'E'
        facs = [O.OperatorSymbol(names[k], hs=h) for k, (b, h) in enumerate(picks)]
        bits = {v: b for v, (b, h) in zip(facs, picks)}
        e = O.OperatorTimes.create(*facs)
        ops = list(e.operands)
        yield Holds('same factors', sorted(ops, key=str) == sorted(facs, key=str))
        pos = {v: k for k, v in enumerate(ops)}
        for i, u in enumerate(facs):
            for v in facs[i + 1:]:
                if bits[u] & bits[v]:
                    yield Holds('overlapping factors keep their order', pos[u] < pos[v], '%s %s' % (u, v))
        for k in range(n - 1):
            if not bits[facs[k]] & bits[facs[k + 1]]:
                g = facs[:k] + [facs[k + 1], facs[k]] + facs[k + 2:]
                yield Holds('exchange of neighbours on disjoint spaces', O.OperatorTimes.create(*g) == e)
        r = facs[0]
        for v in facs[1:]:
            r = r * v
        yield Holds('left grouping', r == e)
        r = facs[-1]
        for v in facs[:-1][::-1]:
            r = v * r
        yield Holds('right grouping', r == e)
        env = K().env
        if n == 3:
            ref = sem.den(facs[0], env)
            for v in facs[1:]:
                ref = sem.mul(ref, sem.den(v, env))
            yield Eq('value', sem.den(e, env), ref)
    return f


def disjoint_order(i):
    """grouping by degree of freedom follows the order of the space"""
    def f(cx):
        O = oa()
        order = ORDERS[i]
        hs = [L(n, **({} if o is None else dict(order_index=o))) for n, o in zip('abc', order)]
        perm = [int(v) for v in cx.permutation('p', 3)]
        facs = [O.OperatorSymbol('XYZ'[k], hs=hs[k]) for k in perm]
        e = O.OperatorTimes.create(*facs)
        yield Holds('order of the product space', [v.space for v in e.operands] == list(e.space.local_factors))
    return f


# -- sums and products of disjoint factors: identical in every order and grouping

def terms(kind):
    A = oa().OperatorSymbol
    h1, h2, h12 = L(1), L(2), L(1) * L(2)
    hq = L('q', basis=('g', 'e'))
    ho = L('z', order_index=0)
    from qnet.algebra.library.fock_operators import Destroy, Create, Phase, Displace
    if kind == 'op':
        return {'A1': A('A', hs=h1), 'B1': A('B', hs=h1), 'A2': A('A', hs=h2), 'C12': A('C', hs=h12), 'Ax': A('A', x, hs=h1), 'A10x':
                A('A', 10 * x, hs=h1), 'A2n': A('A', 2, hs=h1), 'A10': A('A', 10, hs=h1), 'P2': Phase(2, hs=h1), 'P10': Phase(10, hs=h1),
                'P10x': Phase(10 * x, hs=h1), 'a1': Destroy(hs=h1), 'ad2': Create(hs=h2), 'I': oa().IdentityOperator, 'xI': x * oa().IdentityOperator,
                'xA1': x * A('A', hs=h1), '2B1': 2 * A('B', hs=h1), '10xB1': 10 * x * A('B', hs=h2), 'sge': oa().LocalSigma('g', 'e', hs=hq),
                'see': oa().LocalSigma('e', 'e', hs=hq), 'A1A2': A('A', hs=h1) * A('A', hs=h2), 'B1A1': A('B', hs=h1) * A('A', hs=h1),
                'Z': A('A', hs=ho), 'A1+': A('A', hs=h1).dag(), 'Axr': A('A', xr, hs=h1), 'nest': oa().OperatorPlus.create(A('A', hs=h2), A('B', hs=h2)),
                'D': Displace(10 * p, hs=h1), 'D2': Displace(2 * p, hs=h1), 'Dq': Displace(10 * q, hs=h1), 'ketbra':
                st().KetSymbol('P', hs=h1) * st().KetSymbol('Q', hs=h1).dag()}
    if kind == 'ket':
        P, B = st().KetSymbol, st().BasisKet
        return {'P': P('P', hs=h1), 'Q': P('Q', hs=h1), 'xP': x * P('P', hs=h1), '2Q': 2 * P('Q', hs=h1), '0': B(0, hs=h1), '1': B(1, hs=h1),
                '10': B(10, hs=h1), '2': B(2, hs=h1), 'x0': 10 * x * B(0, hs=h1), 'al': st().CoherentStateKet(x, hs=h1), 'al10': st().CoherentStateKet(10, hs=h1),
                'al10x': st().CoherentStateKet(10 * x, hs=h1), 'al2': st().CoherentStateKet(2, hs=h1), 'AP': A('A', hs=h1) * P('P', hs=h1)}
    if kind == 'sup':
        P, O = so().SPre.create, so().SPost.create
        S = so().SuperOperatorSymbol
        return {'S1': S('S', hs=h1), 'T1': S('T', hs=h1), 'S2': S('S', hs=h2), 'PA': P(A('A', hs=h1)), 'OA': O(A('A', hs=h1)), 'PB2': P(A('B', hs=h2)),
                'xS': x * S('S', hs=h1), '2PA': 2 * P(A('A', hs=h1)), 'I': so().IdentitySuperOperator, 'PO': P(A('A', hs=h1)) * O(A('B', hs=h1))}
    if kind == 'sca':
        B = lambda a, b: st().BraKet.create(st().KetSymbol(a, hs=h1), st().KetSymbol(b, hs=h1))     # noqa
        return {'x': scalar(x), '10x': scalar(10 * x), '2': scalar(2), 'pq': B('P', 'Q'), 'qp': B('Q', 'P'), '2pq': 2 * B('P', 'Q'),
                'xqp': x * B('Q', 'R'), 'pqqp': B('P', 'Q') * B('Q', 'R'), 'I': scalar(sympy.I)}
    if kind == 'disj':
        S = L('s', basis=('g', 'e'))
        return {'A1': A('A', hs=h1), 'B2': A('B', hs=h2), 'C34': A('C', hs=L(3) * L(4)), 'D10': A('D', hs=L(10)), 'z': A('Z', hs=ho), 'P5': Phase(x, hs=L(5)),
                's': oa().LocalSigma('g', 'e', hs=S), 'x': scalar(x), '2a6': 2 * Destroy(hs=L(6)), 'sum': A('A', hs=L(7)) + A('B', hs=L(7)),
                'prod': A('A', hs=L(8)) * A('B', hs=L(8)), 'o1': A('Y', hs=L('y', order_index=1)), 'ketbra': st().KetBra.create(st().KetSymbol('P', hs=L(9)), st().KetSymbol('Q', hs=L(9)))}
    if kind == 'tens':
        P, B = st().KetSymbol, st().BasisKet
        return {'P1': P('P', hs=h1), 'Q2': P('Q', hs=h2), 'X34': P('X', hs=L(3) * L(4)), 'B10': B(0, hs=L(10)), 'z': P('Z', hs=ho), 'x': scalar(x),
                '2P5': 2 * P('P', hs=L(5)), 'sum': P('P', hs=L(6)) + P('Q', hs=L(6)), 'al': st().CoherentStateKet(x, hs=L(7)), 'AP': A('A', hs=L(8)) * P('P', hs=L(8))}
    if kind == 'sdisj':
        P, O = so().SPre.create, so().SPost.create
        S = so().SuperOperatorSymbol
        return {'S1': S('S', hs=h1), 'T2': S('T', hs=h2), 'PA3': P(A('A', hs=L(3))), 'OB4': O(A('B', hs=L(4))), 'x': scalar(x), 'sum': S('S', hs=L(5)) + S('T', hs=L(5)),
                'z': S('Z', hs=ho), '2S6': 2 * S('S', hs=L(6))}


def orders(kind, names):
    def f(cx):
        T = terms(kind)
        es = [T[n] for n in names]
        n = len(es)
        prod = kind in ('disj', 'tens', 'sdisj')
        op = (lambda a, b: a * b) if prod else (lambda a, b: a + b)

        def left(v):
            r = v[0]
            for w in v[1:]:
                r = op(r, w)
            return r
        ref = left(es)
        perm = [int(v) for v in cx.permutation('p', n)]
        v = [es[k] for k in perm]
        r = left(v)
        yield Holds('order', r == ref and hash(r) == hash(ref), '%s | %s' % (r, ref))
        k = int(cx.int('k', 1, n - 1))
        yield Holds('grouping', op(left(v[:k]), left(v[k:])) == ref)
        r2 = v[-1]
        for w in v[:-1][::-1]:
            r2 = op(w, r2)
        yield Holds('right grouping', r2 == ref)
        if not prod and len({type(w)._order_index if hasattr(type(w), '_order_index') else 0 for w in es}) == 1:
            pl = {'op': lambda: oa().OperatorPlus, 'ket': lambda: st().KetPlus, 'sup': lambda: so().SuperOperatorPlus}.get(kind)
            if pl:
                yield Holds('n-ary', pl().create(*v) == ref)
        if kind != 'sca' and str(ref) != '':
            yield Holds('text', str(r) == str(ref))
    return f


def cases(tier):
    th = tier == 'thorough'
    out = []
    P = [INT] + POOL
    for i, a in enumerate(P):
        for j in range(i, len(P)):
            out.append(Case('keys/%s|%s' % (i, j), keys1(a, P[j]), max_paths=5000))
    for fm in ('flat', 'nested', 'prefix', 'tuple'):
        for k in range(8):
            out.append(Case('keys/%s/%d' % (fm, k), keys2(fm, k), max_paths=20000, weight=15))
    for i in range(len(COEFFS)):
        out.append(Case('exprkeys/%d' % i, expr_keys(i), max_paths=5000, weight=5))
    for o, order in enumerate(ORDERS):
        out.append(Case('spaceorder/%d' % o, disjoint_order(o)))
        for s0 in range(7):
            for s1 in range(7):
                for n in (3, 4, 5) if th else (3, 4):
                    if n == 5 and o:
                        continue
                    out.append(Case('product/%d/%d%d/%d' % (o, s0, s1, n), products(n, s0, s1, order), weight=3, max_paths=5000))
    for kind in ('op', 'ket', 'sup', 'sca', 'disj', 'tens', 'sdisj'):
        T = list(terms(kind))
        for c in combinations(T, 2):
            out.append(Case('orders/%s/%s' % (kind, '|'.join(c)), orders(kind, c)))
        for c in combinations(T if th or kind != 'op' else T[:20], 3):
            out.append(Case('orders/%s/%s' % (kind, '|'.join(c)), orders(kind, c)))
        for c in combinations(T[:15 if th else 8], 4):
            out.append(Case('orders/%s/%s' % (kind, '|'.join(c)), orders(kind, c), max_paths=5000, weight=2))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
