"""C02: operator sums, products, multiples, powers keep their meaning under automatic rewriting."""
import sys
from fractions import Fraction

import sympy

from qv import harness, sem
from qv.dual import K
from qv.harness import Case, Eq, Holds

PROPERTY = 'C02'
MODULE = 'checks.c02'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('for every pair/triple of operand shapes the real constructors and operators are run on symbolic operands; '
               'the matrix of the simplified result is compared entry by entry, by z3, with the matrix product/sum/... '
               'of the operands for all values of all matrix elements and scalars')
BOUNDS = 'two-level spaces (three-level for projectors), up to 3 degrees of freedom, up to 3 factors, powers 0..4'

x, y = sympy.symbols('x y')
t = sympy.Symbol('t', real=True)
pos = sympy.Symbol('p', positive=True)


def env():
    return K()


def spaces(k):
    h1, h2, h3 = k.ls(1), k.ls(2), k.ls('3')
    q = k.ls('q', dimension=3)
    g = k.ls('atom', basis=('g', 'e'))
    return h1, h2, h3, q, g


ATOMS = {
    'I': lambda k: k.one(),
    'O': lambda k: k.zero(),
    'A1': lambda k: k.op('A', k.ls(1)),
    'B1': lambda k: k.op('B', k.ls(1)),
    'A2': lambda k: k.op('A', k.ls(2)),
    'C12': lambda k: k.op('C', k.ls(1) * k.ls(2)),
    'D23': lambda k: k.op('D', k.ls(2) * k.ls('3')),
    'E3': lambda k: k.op('E', k.ls('3')),
    'F1x': lambda k: k.op('F', k.ls(1), x),
    's01': lambda k: k.sig(0, 1, k.ls('q', dimension=3)),
    's10': lambda k: k.sig(1, 0, k.ls('q', dimension=3)),
    's11': lambda k: k.sig(1, 1, k.ls('q', dimension=3)),
    's12': lambda k: k.sig(1, 2, k.ls('q', dimension=3)),
    's21': lambda k: k.sig(2, 1, k.ls('q', dimension=3)),
    's00': lambda k: k.sig(0, 0, k.ls('q', dimension=3)),
    'sge': lambda k: k.sig('g', 'e', k.ls('atom', basis=('g', 'e'))),
    'see': lambda k: k.sig('e', 'e', k.ls('atom', basis=('g', 'e'))),
    'Q': lambda k: k.op('Q', k.ls('q', dimension=3)),
    'A1d': lambda k: k.op('A', k.ls(1)).dag(),
    'C12d': lambda k: k.op('C', k.ls(1) * k.ls(2)).dag(),
    'xA1': lambda k: k.sym('x') * k.op('A', k.ls(1)),
    '2iA2': lambda k: k.sc(2j) * k.op('A', k.ls(2)),
    'A1+B1': lambda k: k.op('A', k.ls(1)) + k.op('B', k.ls(1)),
    'A1-yA2': lambda k: k.op('A', k.ls(1)) - k.sym('y') * k.op('A', k.ls(2)),
    'A1+3': lambda k: k.op('A', k.ls(1)) + k.sc(3),
    'x*s01+s10': lambda k: k.sym('x') * ATOMS['s01'](k) + ATOMS['s10'](k),
    'A1B1': lambda k: k.op('A', k.ls(1)) * k.op('B', k.ls(1)),
    'B1A1': lambda k: k.op('B', k.ls(1)) * k.op('A', k.ls(1)),
    'A1A2': lambda k: k.op('A', k.ls(1)) * k.op('A', k.ls(2)),
    'yA2B1': lambda k: k.sym('y') * (k.op('A', k.ls(2)) * k.op('B', k.ls(1))),
    's01A1': lambda k: ATOMS['s01'](k) * k.op('A', k.ls(1)),
    'C12A1': lambda k: k.op('C', k.ls(1) * k.ls(2)) * k.op('A', k.ls(1)),
    'A1E3': lambda k: k.op('A', k.ls(1)) * k.op('E', k.ls('3')),
    '[A1,B1]': lambda k: k.comm(k.op('A', k.ls(1)), k.op('B', k.ls(1))),
    'trC12': lambda k: k.tr(k.op('C', k.ls(1) * k.ls(2)), k.ls(2)),
    'trA1': lambda k: k.tr(k.op('A', k.ls(1)), k.ls(1)),
    'ketbra': lambda k: k.ket('Psi', k.ls(1)) * k.ket('Phi', k.ls(1)).dag(),
    'bk01': lambda k: k.bket(0, k.ls('q', dimension=3)) * k.bket(1, k.ls('q', dimension=3)).dag(),
    'braket': lambda k: k.ket('Psi', k.ls(1)).dag() * k.ket('Phi', k.ls(1)),
    '2': lambda k: k.sc(2),
    '0': lambda k: k.sc(0),
    '1': lambda k: k.sc(1),
    '-1': lambda k: k.sc(-1),
    '0.5': lambda k: k.sc(0.5),
    '1-2i': lambda k: k.sc(1 - 2j),
    'x': lambda k: k.sym('x'),
    'xy': lambda k: k.sc(x * y + sympy.I),
    'S(x)': lambda k: k.S(x),
    'S(0)': lambda k: k.S(0),
    'S(1)': lambda k: k.S(1),
    'sqrt2': lambda k: k.sc(sympy.sqrt(2) / 2),
    'PsInv': lambda k: pinv(k),
    'cc': lambda k: k.call(lambda a: ops().OperatorPlusMinusCC.create(a), lambda a: sem.add(a, sem.dag(a)),
                           k.op('A', k.ls(1)) * k.op('B', k.ls(1))),
    'cc-': lambda k: k.call(lambda a: ops().OperatorPlusMinusCC.create(a, sign=-1), lambda a: sem.sub(a, sem.dag(a)),
                            k.op('A', k.ls(1)) * k.op('B', k.ls(1))),
    'dF': lambda k: k.wrap(ops().OperatorSymbol('F', x, hs=k.ls(1)).diff(x)),
    'X': lambda k: pauli(k, 'X'),
    'Y': lambda k: pauli(k, 'Y'),
}
SCALARS = ('2', '0', '1', '-1', '0.5', '1-2i', 'x', 'xy', 'S(x)', 'S(0)', 'S(1)', 'sqrt2', 'braket')


def ops():
    from qnet.algebra.core import operator_algebra as m
    return m


def pinv(k):
    return k.wrap(ops().PseudoInverse.create(k.op('A', k.ls(1)).e))


def pauli(k, w):
    from qnet.algebra.library.pauli_matrices import PauliX, PauliY
    ls = k.ls('q', dimension=3)
    a, b = k.sig(0, 1, ls).r, k.sig(1, 0, ls).r
    from qv.ring import I
    if w == 'X':
        return k.of(PauliX(ls), sem.add(a, b))
    return k.of(PauliY(ls), sem.add(sem.scale(-I, a), sem.scale(I, b)))


def binary(a, b, which):
    def f(cx):
        k = env()
        u, v = ATOMS[a](k), ATOMS[b](k)
        if which == '*':
            yield (u * v).eq()
        elif which == '+':
            yield (u + v).eq()
            yield (u - v).eq('minus')
    return f


def unary(a):
    def f(cx):
        k = env()
        u = ATOMS[a](k)
        yield u.eq('itself')
        yield (-u).eq('negative')
        for n in range(0, 5):
            yield (u ** n).eq('power %d' % n)
        yield u.dag().eq('adjoint')
        yield (u + u).eq('double')
        yield (u - u).eq('cancel')
        yield (u / 2).eq('/2')
        yield (u / sympy.Symbol('p', positive=True)).eq('/p')
        yield (u / (1 + 1j)).eq('/(1+i)')
        yield (3 * u - 2 * u).eq('combine')
        yield (x * u + y * u - u).eq('combine sym')
        yield ((x * u) * (y * u)).eq('scalars out')
        yield (u * x * u).eq('scalar between')
    return f


def triple(a, b, c):
    def f(cx):
        k = env()
        u, v, w = ATOMS[a](k), ATOMS[b](k), ATOMS[c](k)
        p, q = (u * v) * w, u * (v * w)
        yield p.eq('(uv)w')
        yield q.eq('u(vw)')
        direct = not any(z in SCALARS for z in (a, b, c))
        if direct:
            yield k.call(ops().OperatorTimes.create, lambda r, s, z: sem.mul(sem.mul(r, s), z), u, v, w).eq('create')
        yield (u + v * w).eq('u+vw')
        yield ((u + v) * w - u).eq('(u+v)w-u')
        if direct:
            yield k.call(ops().OperatorPlus.create, lambda r, s, z: sem.add(sem.add(r, s), z), u, v, w).eq('plus')
    return f


def create_n(names, cls):
    def f(cx):
        k = env()
        us = [ATOMS[a](k) for a in names]

        def ref(*rs):
            r = rs[0]
            for z in rs[1:]:
                r = sem.mul(r, z) if cls == 'OperatorTimes' else sem.add(r, z)
            return r
        yield k.call(getattr(ops(), cls).create, ref, *us).eq()
    return f


def commuting(a, b):
    """factors on disjoint spaces may be written in any order; result is one canonical expression"""
    def f(cx):
        k = env()
        u, v = ATOMS[a](k), ATOMS[b](k)
        yield Holds('u*v == v*u', (u * v).e == (v * u).e)
    return f


TRIPLES = ('A1', 'B1', 'A2', 'C12', 's01', 's10', 's11', 'I', 'xA1', 'A1+B1', 'A1A2', 'E3', 'x', 'A1-yA2', 'A1d')
TRIPLES_T = TRIPLES + ('D23', 's12', 's21', 'yA2B1', 's01A1', '2iA2', 'x*s01+s10', 'O', 'Q', 'A1E3', '-1')


def cases(tier):
    out = []
    names = list(ATOMS)
    for a in names:
        if a not in SCALARS:
            out.append(Case('unary/' + a, unary(a), weight=4))
    for a in names:
        for b in names:
            if a in SCALARS and b in SCALARS:
                continue
            for w in '*+':
                out.append(Case('%s %s %s' % (a, w, b), binary(a, b, w)))
    T = TRIPLES if tier == 'quick' else TRIPLES_T
    for a in T:
        for b in T:
            for c in T:
                if 'x' in (a,) and b == 'x' and c == 'x' or (a in SCALARS and b in SCALARS and c in SCALARS):
                    continue
                if sum(z in SCALARS for z in (a, b, c)) > 1:
                    continue
                out.append(Case('triple/%s|%s|%s' % (a, b, c), triple(a, b, c), weight=2))
    long_ = [('A1', 'A2', 'B1', 'E3'), ('E3', 'A2', 'A1', 'B1'), ('C12', 'E3', 'A1', 'A2'), ('E3', 'C12', 'A1', 's01'),
             ('s01', 'E3', 's10', 'A1'), ('s10', 'A1', 's01', 'A1', 's11'), ('A1', 'E3', 'D23', 'A2', 'B1'),
             ('D23', 'A1', 'E3', 'C12'), ('E3', 'A1', 'C12', 'E3', 'A1'), ('s01', 'A1', 's12', 'A2', 's21', 'E3'),
             ('A2', 'A1', 'A2', 'A1'), ('xA1', '2iA2', 'yA2B1', 'A1-yA2'), ('A1A2', 'A1A2', 'C12'), ('xA1', 'A1', 'cc', 'A2'),
             ('I', 'A1', 'I', 'E3', 'I')]
    for l in long_:
        for cls in ('OperatorTimes', 'OperatorPlus'):
            out.append(Case('long/%s/%s' % (cls, '|'.join(l)), create_n(l, cls), weight=4))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
