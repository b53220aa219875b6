"""C11: commutators denote AB-BA under every rewriting and expansion."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import c02, c09

PROPERTY = 'C11'
MODULE = 'checks.c11'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('commutators of symbolic operators are created, adjoined, expanded, evaluated, differentiated, series-expanded and '
               'Leibniz-expanded by the real code; z3 decides that each result equals the difference of the two products for '
               'all matrix elements and coefficients')
BOUNDS = {'quick': 'two/three-level systems, up to 3 degrees of freedom; all pairs of operator shapes (sums, products up to 4 '
                   'factors, multiples, identical operands, nested commutators); oscillators: entries below level 3 of a '
                   'truncation that makes them exact; spins 1/2..3/2',
          'thorough': 'as quick, plus all triples [u,[v,w]], [uv,w], [u,vw] of a list of 24 shapes'}
x, y = sympy.symbols('x y')
t = sympy.Symbol('t', real=True)
s = sympy.Symbol('s', real=True)


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def F(k, name='F', n=1):
    return k.op(name, k.ls(n), t)


ATOMS = {n: f for n, f in c02.ATOMS.items() if n not in c02.SCALARS}
ATOMS.update({
    'Ft': lambda k: F(k),
    'tA1': lambda k: t * k.op('A', k.ls(1)),
    't2Ft': lambda k: (t ** 2) * F(k),
    'Ft*Gt': lambda k: F(k) * F(k, 'G'),
    'Gt+tA1': lambda k: F(k, 'G') + t * k.op('A', k.ls(1)),
    'A1B1D1': lambda k: k.op('A', k.ls(1)) * k.op('B', k.ls(1)) * k.op('D', k.ls(1)),
    'A1C12A2E3': lambda k: k.op('A', k.ls(1)) * k.op('C', k.ls(1) * k.ls(2)) * k.op('A', k.ls(2)) * k.op('E', k.ls('3')),
    '(A1+B1)C12': lambda k: (k.op('A', k.ls(1)) + k.op('B', k.ls(1))) * k.op('C', k.ls(1) * k.ls(2)),
    'x(A1+B1)': lambda k: x * (k.op('A', k.ls(1)) + y * k.op('B', k.ls(1))),
    'A1(B1+I)': lambda k: k.op('A', k.ls(1)) * (k.op('B', k.ls(1)) + 1),
    '[A1,C12]': lambda k: k.comm(k.op('A', k.ls(1)), k.op('C', k.ls(1) * k.ls(2))),
    'A1[A1,B1]': lambda k: k.op('A', k.ls(1)) * k.comm(k.op('A', k.ls(1)), k.op('B', k.ls(1))),
})
SLOW = ()


def leib(e, **kw):
    from qnet.algebra.toolbox.commutator_manipulation import expand_commutators_leibniz
    return expand_commutators_leibniz(e, **kw)


def doit_all(e):
    return e.doit()


OPSET = [
    ('expand', lambda e: e.expand()), ('doit', lambda e: e.doit()),
    ('doit Commutator', lambda e: e.doit(classes=(oa().Commutator,))),
    ('doit non-recursive', lambda e: e.doit(classes=(oa().Commutator,), recursive=False)),
    ('doit expand', lambda e: e.doit().expand()), ('leibniz', lambda e: leib(e)),
    ('leibniz no expand', lambda e: leib(e, expand_expr=False)), ('rebuild', lambda e: e.rebuild()),
    ('simplify_scalar', lambda e: e.simplify_scalar())]


def rest(c, label, seen=None):
    """every rewriting that must not change the value; identical results are compared once"""
    seen = [c.e] if seen is None else seen
    for n, g in OPSET:
        d = c.do(g)
        if not any(type(d.e) is type(z) and d.e == z for z in seen):
            seen.append(d.e)
            yield d.eq('%s %s' % (label, n))


HEAVY = {'(A1+B1)C12', '[A1,C12]', 'C12A1', 'A1C12A2E3', 'cc', 'cc-', 'D23'}


def pair(a, b):
    def f(cx):
        k = K()
        u, v = ATOMS[a](k), ATOMS[b](k)
        c = k.comm(u, v)
        yield c.eq('create')
        yield k.comm(v, u).eq('reversed')
        yield (c + k.comm(v, u)).eq('[u,v]+[v,u]')
        yield from rest(c, '')
        yield c.dag().eq('adjoint')
        yield c.dag().do(lambda e: e.expand()).eq('adjoint expand')
        yield k.of(c.e.diff(t), sem.tdiff(c.r, t)).eq('d/dt')
        yield k.of(c.e.diff(t, n=2), sem.tdiff(sem.tdiff(c.r, t), t)).eq('d2/dt2')
        yield (c * u).eq('[u,v]u')
        yield (v * c).eq('v[u,v]')
        yield (x * c - c).eq('multiple')
        if not (a in HEAVY or b in HEAVY):
            yield from rest(v * c * u, 'v[u,v]u')
    return f


def self_(a):
    def f(cx):
        k = K()
        u = ATOMS[a](k)
        for lab, c in (('[u,u]', k.comm(u, u)), ('[u,xu]', k.comm(u, x * u)), ('[u,I]', k.comm(u, k.one())),
                       ('[O,u]', k.comm(k.zero(), u)), ('[u,u+1]', k.comm(u, u + 1)), ('[u^2,u]', k.comm(u * u, u)),
                       ('[u,u^+]', k.comm(u, u.dag())), ('[u,3]', k.of(oa().Commutator.create(u.e, 3), sem.S(0))),
                       ('[x,u]', k.of(oa().Commutator.create(x, u.e), sem.S(0)))):
            yield c.eq(lab)
            yield from rest(c, lab)
        c = k.comm(u, u)
        yield Holds('[u,u] is zero', c.e == 0 or c.e.expand() == 0 or c.e is oa().ZeroOperator)
    return f


def triple(a, b, c):
    def f(cx):
        k = K()
        u, v, w = ATOMS[a](k), ATOMS[b](k), ATOMS[c](k)
        for lab, z in (('[u,[v,w]]', k.comm(u, k.comm(v, w))), ('[uv,w]', k.comm(u * v, w)), ('[u,vw]', k.comm(u, v * w)),
                       ('[[u,v],w]', k.comm(k.comm(u, v), w)), ('[u+xv,w]', k.comm(u + x * v, w)),
                       ):
            yield z.eq(lab)
            yield from rest(z, lab)
            yield z.dag().eq(lab + ' adjoint')
        if 'C12' not in (a, b, c):
            yield (k.comm(u, k.comm(v, w)) + k.comm(v, k.comm(w, u)) + k.comm(w, k.comm(u, v))).eq('jacobi')
    return f


def libcomm(fa, fb, fock):
    def f(cx):
        k = K(fock=9) if fock else K()
        if fock:
            k.guard = {'f': 3}
        u, v = fa(k), fb(k)
        c = k.comm(u, v)
        yield c.eq('create')
        yield k.comm(v, u).eq('reversed')
        yield k.comm(x * u, v + 2).eq('[xu,v+2]')
        yield c.dag().eq('adjoint')
        yield from rest(c, '')
        w = u * k.op('A', k.ls(1))
        d = k.comm(w, v)
        yield d.eq('[uA,v]')
        yield from rest(d, '[uA,v]')
    return f


def fsig(i, j):
    def f(k):
        ls = k.ls('f')
        return k.sig(i, j, ls)
    return f


def ssig(i, j, sp):
    def f(k):
        from qnet.algebra.library.spin_algebra import SpinSpace
        return k.sig(i, j, SpinSpace('s', spin=sp))
    return f


def series(a, b):
    def f(cx):
        k = K()
        u, v = ATOMS[a](k), ATOMS[b](k)
        c = k.comm(u, v)
        if not hasattr(c.e, 'series_expand') or t not in c.e.free_symbols:
            return
        res = c.e.series_expand(t, 0, 2)
        yield Holds('length', len(res) == 3)
        d = c.r
        fac = 1
        for n in range(3):
            if n:
                d = sem.tdiff(d, t)
                fac *= n
            r0 = sem.scale(ring.const(sem.Fraction(1, fac)), sem.tsubs(d, {t: ring.ZERO}))
            yield Eq('order %d' % n, sem.den(res[n], k.env), r0)
    return f


TRI = ('A1', 'B1', 'C12', 's01', 'xA1', 'A1A2')
MINOR = {'s21', 's12', 's00', 'sge', 'see', 'D23', 'F1x', 'bk01', 'X', 'Y', 'A1E3', 'yA2B1', 's01A1', 'PsInv', 'x*s01+s10', 'B1A1',
         'C12d', 'trA1', 'dF', 'cc-', 'Q', '2iA2'}
BASE = {'A1', 'A2', 'C12', 's01', 'A1+B1'}
TRI_T = TRI + ('A2', 's10', 'A1+B1', 'A1d', 'A1B1', 'Q', 's11', 'yA2B1', '[A1,B1]', 'A1+3', 'E3', 'D23', 'C12A1', 'cc', 'trC12', 'ketbra', 'A1(B1+I)', 'X')


def cases(tier):
    out = []
    for a in ATOMS:
        out.append(Case('self/' + a, self_(a), weight=6))
        for b in ATOMS:
            if 'A1C12A2E3' in (a, b) and not {a, b} & {'A1', 'A2', 'E3', 's01', 'I', 'xA1'}:
                continue
            if tier == 'quick' and (a in MINOR and b not in BASE or b in MINOR and a not in BASE):
                continue
            out.append(Case('pair/%s|%s' % (a, b), pair(a, b), weight=3))
    T = TRI[:5] if tier == 'quick' else TRI_T
    for a in T:
        for b in T:
            for c in T:
                out.append(Case('triple/%s|%s|%s' % (a, b, c), triple(a, b, c), weight=8))
    fk = {'a': c09.FOCK['a'], 'ad': c09.FOCK['ad'], 'ad*a': c09.FOCK['ad*a'], 'a+ad': c09.FOCK['a+ad'],
          's00': fsig(0, 0), 's01': fsig(0, 1), 's21': fsig(2, 1), 'a*a': c09.FOCK['a*a']}
    for a in fk:
        for b in fk:
            out.append(Case('fock/%s|%s' % (a, b), libcomm(fk[a], fk[b], True), weight=4))
    H = sympy.Rational(1, 2)
    for sp in (H, 1, 3 * H):
        lab = {H: ('-1/2', '+1/2'), 1: ('-1', '0', '+1'), 3 * H: ('-3/2', '-1/2', '+1/2', '+3/2')}[sp]
        d = {n: c09.spin(n, sp) for n in ('Jz', 'Jplus', 'Jminus')}
        d['s%s' % lab[0]] = ssig(lab[0], lab[1], sp)
        d['s%s' % lab[1]] = ssig(lab[1], lab[1], sp)
        d['s_%s' % lab[0]] = ssig(lab[-1], lab[0], sp)
        for a in d:
            for b in d:
                out.append(Case('spin%s/%s|%s' % (sp, a, b), libcomm(d[a], d[b], False), weight=4))
    for a in ATOMS:
        for b in ('Ft', 'tA1', 't2Ft', 'Ft*Gt', 'Gt+tA1', 'B1'):
            out.append(Case('series/%s|%s' % (a, b), series(a, b)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
