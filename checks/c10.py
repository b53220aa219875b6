"""C10: traces and partial traces are exact."""
import itertools
import sys

import sympy

from qv import harness, sem
from qv.dual import K, V
from qv.harness import Case, Eq, Holds

PROPERTY = 'C10'
MODULE = 'checks.c10'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('the real OperatorTrace of symbolic operators over every subset of the degrees of freedom, before and after all '
               'rewriting, is compared by z3 entry by entry with the partial trace of the matrix of the operand')
BOUNDS = {'quick': 'degrees of freedom 1 (dim 2), 2 (dim 2), 3 (dim 2), q (dim 3), labelled two-level atom; operator shapes '
                   'and all their pair products, selected products of 3-5 factors, over every subset of <= 3 spaces; '
                   'oscillators truncated to 5 levels for the ladder operators alone',
          'thorough': 'all products of three factors of the list'}
x, y = sympy.symbols('x y')


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def sp(k, l):
    if l == 'q':
        return k.ls('q', dimension=3)
    if l == 'a':
        return k.ls('atom', basis=('g', 'e'))
    return k.ls(l, dimension=2)


def hs(k, ls):
    r = sp(k, ls[0])
    for l in ls[1:]:
        r = r * sp(k, l)
    return r


ATOMS = {
    'A1': ('1', lambda k: k.op('A', sp(k, '1'))),
    'B1': ('1', lambda k: k.op('B', sp(k, '1'))),
    'A1d': ('1', lambda k: k.op('A', sp(k, '1')).dag()),
    'xA1': ('1', lambda k: x * k.op('A', sp(k, '1'))),
    'A1+yB1+2': ('1', lambda k: k.op('A', sp(k, '1')) + y * k.op('B', sp(k, '1')) + 2),
    '[A1,B1]': ('1', lambda k: k.comm(k.op('A', sp(k, '1')), k.op('B', sp(k, '1')))),
    'kb1': ('1', lambda k: k.ket('Psi', sp(k, '1')) * k.ket('Phi', sp(k, '1')).dag()),
    'A2': ('2', lambda k: k.op('A', sp(k, '2'))),
    'C12': ('12', lambda k: k.op('C', hs(k, '12'))),
    'D12': ('12', lambda k: k.op('D', hs(k, '12'))),
    'C12d': ('12', lambda k: k.op('C', hs(k, '12')).dag()),
    'A1+A2': ('12', lambda k: k.op('A', sp(k, '1')) + 1j * k.op('A', sp(k, '2'))),
    'A1A2': ('12', lambda k: k.op('A', sp(k, '1')) * k.op('A', sp(k, '2'))),
    'D23': ('23', lambda k: k.op('D', hs(k, '23'))),
    'E3': ('3', lambda k: k.op('E', sp(k, '3'))),
    's01': ('q', lambda k: k.sig(0, 1, sp(k, 'q'))),
    's10': ('q', lambda k: k.sig(1, 0, sp(k, 'q'))),
    's11': ('q', lambda k: k.sig(1, 1, sp(k, 'q'))),
    's22+xs12': ('q', lambda k: k.sig(2, 2, sp(k, 'q')) + x * k.sig(1, 2, sp(k, 'q'))),
    'Q': ('q', lambda k: k.op('Q', sp(k, 'q'))),
    'G1q': ('1q', lambda k: k.op('G', hs(k, '1q'))),
    'F1q': ('1q', lambda k: k.op('F', hs(k, '1q'))),
    'sge': ('a', lambda k: k.sig('g', 'e', sp(k, 'a'))),
    'see': ('a', lambda k: k.sig('e', 'e', sp(k, 'a'))),
    'I': ('', lambda k: k.one()),
    'O': ('', lambda k: k.zero()),
    'tr2C': ('1', lambda k: k.tr(k.op('C', hs(k, '12')), sp(k, '2'))),
    'bk': ('', lambda k: (k.ket('Psi', sp(k, '1')).dag() * k.ket('Phi', sp(k, '1'))) * k.op('A', sp(k, '2'))),
    'kb12': ('12', lambda k: (k.ket('Psi', sp(k, '1')) * k.ket('Psi', sp(k, '2'))) * k.ket('X', hs(k, '12')).dag()),
    'L(A)': ('1', lambda k: k.sop('L', sp(k, '1')) * k.op('A', sp(k, '1'))),
    's00q': ('1', lambda k: k.sig(0, 0, sp(k, '1'))),
    's01q': ('1', lambda k: k.sig(0, 1, sp(k, '1'))),
}


def order(l):
    return '123qa'.index(l)


def subsets(space, extra=()):
    ls = sorted(set(space), key=order)
    for n in range(1, len(ls) + 1):
        for c in itertools.combinations(ls, n):
            yield ''.join(c)


def build(k, names):
    r = ATOMS[names[0]][1](k)
    for n in names[1:]:
        r = r * ATOMS[n][1](k)
    return r


def space(names):
    return ''.join(ATOMS[n][0] for n in names) or '1'


def full(names):
    def f(cx):
        k = K()
        u = build(k, names)
        S = space(names)
        for over in subsets(S + ('1' if len(names) == 1 else '') + ('q' if len(names) == 1 else '')):
            h = hs(k, over)
            t = k.tr(u, h)
            yield t.eq('tr_' + over)
            yield k.of(t.e.expand(), t.r).eq('expand tr_' + over)
            if len(over) > 1:
                for p in itertools.permutations(over):
                    v = u
                    for l in p:
                        v = k.tr(v, sp(k, l))
                    yield k.of(v.e, t.r).eq('one by one %s' % (p,))
            if len(names) == 1:
                yield k.tr(x * u, h).eq('tr_%s of multiple' % over)
                yield k.tr(u + 3 * k.op('A', sp(k, '1')), h).eq('tr_%s of sum' % over)
                yield k.tr(u.dag(), h).eq('tr_%s of adjoint' % over)
                yield t.dag().eq('adjoint of tr_%s' % over)
            yield (t * t).eq('tr^2')
            yield (k.op('B', sp(k, '1')) * t).eq('B*tr')
    return f


def created(names):
    """trace of the flat product"""
    def f(cx):
        k = K()
        us = [ATOMS[n][1](k) for n in names]
        r = us[0].r
        for v in us[1:]:
            r = sem.mul(r, v.r)
        u = k.of(oa().OperatorTimes.create(*[v.e for v in us]), r)
        for over in subsets(space(names)):
            t = k.tr(u, hs(k, over))
            yield t.eq('tr_' + over)
            yield k.of(t.e.expand(), t.r).eq('expanded tr_' + over)
    return f


def fock(name):
    def f(cx):
        k = K(fock=5)
        from qnet.algebra.library import fock_operators as fo
        ls = k.ls('f')
        a = k.wrap(fo.Create(hs=ls) if name == 'Create' else fo.Destroy(hs=ls))
        B = k.op('B', sp(k, '1'))
        yield k.tr(a, ls).eq('tr')
        yield k.tr(x * a * B, ls).eq('tr aB')
        yield k.tr(a * B, sp(k, '1')).eq('tr_1 aB')
        yield k.tr(a * B, ls * sp(k, '1')).eq('tr_1f aB')
    return f


def basis(name):
    """all matrix units, as tr |i><j| = delta_ij, for every kind of label"""
    def f(cx):
        k = K()
        from qnet.algebra.library.spin_algebra import SpinSpace
        if name == 'int':
            s, labels = k.ls('q', dimension=4), range(4)
        elif name == 'str':
            s, labels = k.ls('b', basis=('g', 'e', 'r')), ('g', 'e', 'r')
        elif name == 'mixed':
            s, labels = k.ls('b', basis=('g', 'e', 'r')), (0, 'g', 1, 'e', 'r', 2)
        else:
            s = SpinSpace('s', spin=sympy.Rational(3, 2))
            labels = s.basis_labels
        B = k.op('B', sp(k, '1'))
        names = list(s.basis_labels)
        for i in labels:
            for j in labels:
                a = names[i] if isinstance(i, int) and name == 'mixed' else i
                b = names[j] if isinstance(j, int) and name == 'mixed' else j
                e = oa().LocalSigma(i, j, hs=s)
                u = k.of(e, k.sig(a, b, s).r)
                yield k.tr(u, s).eq('tr |%s><%s|' % (i, j))
                yield k.tr(u * B, s).eq('tr |%s><%s|B' % (i, j))
                yield k.tr(B * u, sp(k, '1')).eq('tr_1 |%s><%s|B' % (i, j))
                yield k.tr(B * u * k.op('Q', s), s).eq('tr |%s><%s|Q' % (i, j))
    return f


LONG = [('C12', 's00q', 'D12'), ('C12', 's00q', 'D12', 'E3'), ('E3', 'C12', 's01q', 'D12'), ('G1q', 's01', 'F1q'),
        ('G1q', 's01', 'F1q', 'A2'), ('A2', 'F1q', 's10', 'G1q', 'E3'), ('Q', 's01', 'Q'), ('Q', 's01', 'Q', 'A1'),
        ('A1', 'Q', 's01', 's10', 'Q'), ('s01', 'Q', 's11'), ('s01', 'Q', 's11', 'A1'), ('s01', 'Q', 's10', 'A1', 'E3'),
        ('A1', 'C12', 'B1'), ('A1', 'C12', 'B1', 'D23'), ('A1', 'D23', 'B1'), ('C12', 'D23', 'C12'), ('C12', 'D23', 'D12', 'E3'),
        ('A1', 'A2', 'E3', 'B1'), ('sge', 'A1', 'Q', 'see'), ('A1', 'B1', 'A1'), ('G1q', 'Q', 's01', 'A1', 'E3'),
        ('kb1', 'C12', 's00q'), ('s00q', 'C12', 'kb1'), ('B1', 's01q', 'C12', 'E3'), ('Q', 's22+xs12', 'G1q', 'A2'),
        ('Q', 'Q', 's01', 'E3'), ('A1', 's01', 's10'), ('Q', 'A1', 's01', 'E3')]


def cases(tier):
    out = []
    for a in ATOMS:
        out.append(Case('one/' + a, full((a,)), weight=5))
    for a in ATOMS:
        for b in ATOMS:
            if len(set(space((a, b)))) <= 3 and a != 'O' and b != 'O':
                out.append(Case('pair/%s|%s' % (a, b), full((a, b)), weight=2 + len(set(space((a, b))))))
    for l in LONG:
        out.append(Case('long/' + '|'.join(l), created(l), weight=8))
    for n in ('Create', 'Destroy'):
        out.append(Case('fock/' + n, fock(n)))
    for n in ('int', 'str', 'mixed', 'spin'):
        out.append(Case('basis/' + n, basis(n), weight=3))
    if tier == 'thorough':
        names = [a for a in ATOMS if a not in ('I', 'O')]
        for c in itertools.product(names, repeat=3):
            if len(set(space(c))) <= 3:
                out.append(Case('triple/' + '|'.join(c), created(c), weight=4))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
