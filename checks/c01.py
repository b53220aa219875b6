"""C01: scalar arithmetic is complex-number arithmetic."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K
from qv.harness import Case, Eq, Holds

PROPERTY = 'C01'
MODULE = 'checks.c01'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('every arithmetic operation is run by the real code on every pair of scalar shapes (symbols, overlaps and '
               'compounds are unknowns); z3 decides equality of the value of the result with the complex operation for '
               'all values of the unknowns')
BOUNDS = {'quick': '45 scalar shapes, all pairs for + - * /, integer exponents -3..4 and half-integers, triples over 9 '
                   'shapes; overlaps of states of two-level systems',
          'thorough': 'as quick with triples over 18 shapes and sums/products of up to five scalars'}

x, y = sympy.symbols('x y')
t = sympy.Symbol('t', real=True)
p = sympy.Symbol('p', positive=True)


def sa():
    from qnet.algebra.core import scalar_algebra as m
    return m


def bk(k, a='Psi', b='Phi'):
    h = k.ls(1)
    return k.of(_braket()(k.ket(a, h).e, k.ket(b, h).e), sem.mul(sem.dag(k.ket(a, h).r), k.ket(b, h).r))


def _braket():
    from qnet.algebra.core.state_algebra import BraKet
    return BraKet.create


def isum(k, to=2, sc=None):
    """sum_i <Psi_i|Phi>"""
    from qnet.utils.indices import IdxSym, StrLabel, IndexOverRange
    from qnet.algebra.core.state_algebra import KetSymbol, BraKet
    i = IdxSym('i')
    h = k.ls(1)
    psi = KetSymbol(StrLabel(sympy.IndexedBase('Psi')[i]), hs=h)
    term = BraKet(psi, KetSymbol('Phi', hs=h))
    e = sa().ScalarIndexedSum.create(term, IndexOverRange(i, 0, to))
    r = sem.S(0)
    for n in range(to + 1):
        r = sem.add(r, sem.mul(sem.dag(k.ket('Psi_%d' % n, h).r), k.ket('Phi', h).r))
    return k.of(e, r)


NATIVE = ('0', '1', '-1', '2', '0.5', 'i', '1-2i', 'np', 'x', 'x+y', 'sqrt2', 'I', '1/3', 'exp', 'x^2', 'xt')
ATOMS = {
    '0': lambda k: k.sc(0),
    '1': lambda k: k.sc(1),
    '-1': lambda k: k.sc(-1),
    '2': lambda k: k.sc(2),
    '0.5': lambda k: k.sc(0.5),
    'i': lambda k: k.sc(1j),
    '1-2i': lambda k: k.sc(1 - 2j),
    'np': lambda k: k.of(_np().float64(0.25), sem.S(0.25)),
    'x': lambda k: k.sc(x),
    'x+y': lambda k: k.sc(x + y),
    'x^2': lambda k: k.sc(x ** 2),
    'xt': lambda k: k.sc(x * t),
    'sqrt2': lambda k: k.sc(sympy.sqrt(2)),
    'I': lambda k: k.sc(sympy.I),
    '1/3': lambda k: k.sc(sympy.Rational(1, 3)),
    'exp': lambda k: k.sc(sympy.exp(sympy.I * t)),
    'S(x)': lambda k: k.S(x),
    'S(2)': lambda k: k.S(2),
    'S(-1)': lambda k: k.S(-1),
    'S(0)': lambda k: k.S(0),
    'S(1)': lambda k: k.S(1),
    'S(i)': lambda k: k.S(1j),
    'S(0.5)': lambda k: k.S(0.5),
    'S(1/3)': lambda k: k.S(sympy.Rational(1, 3)),
    'S(x+I)': lambda k: k.S(x + sympy.I),
    'S(p)': lambda k: k.S(p),
    'S(xy)': lambda k: k.S(x * y),
    'bk': lambda k: bk(k),
    'kb': lambda k: bk(k, 'Phi', 'Psi'),
    'bk2': lambda k: bk(k, 'Psi', 'Chi'),
    'x*bk': lambda k: k.sc(x) * bk(k),
    'bk+1': lambda k: bk(k) + 1,
    'bk-x': lambda k: bk(k) - k.sc(x),
    'bk+bk2': lambda k: bk(k) + bk(k, 'Psi', 'Chi'),
    'bk*kb': lambda k: bk(k) * bk(k, 'Phi', 'Psi'),
    'bk*bk2': lambda k: bk(k) * bk(k, 'Psi', 'Chi'),
    '2bk': lambda k: 2 * bk(k),
    'bk^2': lambda k: bk(k) ** 2,
    'bk^-1': lambda k: bk(k) ** -1,
    'sqrtbk': lambda k: k.of(sa().sqrt(bk(k).e), sem.S(ring.sqrt_poly(bk(k).r.scalar()))),
    'sum': lambda k: isum(k),
    'x*sum': lambda k: k.sc(x) * isum(k, 1),
    'sum*bk': lambda k: isum(k, 1) * bk(k),
    'b00': lambda k: k.bket(0, k.ls('q', dimension=2)).dag() * k.bket(0, k.ls('q', dimension=2)),
    'b01': lambda k: k.bket(0, k.ls('q', dimension=2)).dag() * k.bket(1, k.ls('q', dimension=2)),
}
ZEROS = ('0', 'S(0)', 'b01')
SUMS = ('sum', 'x*sum', 'sum*bk')


def _np():
    import numpy
    return numpy


def is_scalar(e):
    return sa().is_scalar(e)


def binary(a, b):
    def f(cx):
        k = K()
        u, v = ATOMS[a](k), ATOMS[b](k)
        todo = [('*', lambda: u * v)]
        if a not in SUMS and b not in SUMS:       # adding to an indexed sum is declared not implemented
            todo += [('+', lambda: u + v), ('-', lambda: u - v)]
        for n, w in todo:
            z = w()
            yield z.eq(n)
            yield Holds(n + ' gives a scalar', is_scalar(z.e))
        if b not in ZEROS and b not in SUMS:
            z = u / v
            yield z.eq('/')
            yield Holds('/ gives a scalar', is_scalar(z.e))
    return f


def created(a, b):
    def f(cx):
        k = K()
        u, v = ATOMS[a](k), ATOMS[b](k)
        m = sa()
        yield k.call(m.ScalarTimes.create, sem.mul, u, v).eq('ScalarTimes.create')
        yield k.call(m.ScalarPlus.create, sem.add, k.of(m.ScalarValue.create(u.e), u.r),
                     k.of(m.ScalarValue.create(v.e), v.r)).eq('ScalarPlus.create')
    return f


def unary(a):
    def f(cx):
        k = K()
        m = sa()
        u = ATOMS[a](k)
        yield u.eq('itself')
        yield (-u).eq('-')
        w = k.of(m.ScalarValue.create(u.e), u.r)
        yield w.eq('as scalar')
        yield (-w).eq('-')
        yield w.dag().eq('conjugate')
        yield k.of(w.e.conjugate(), sem.dag(u.r)).eq('conjugate()')
        yield k.of(w.e.dag() if hasattr(w.e, 'dag') else w.e.adjoint(), sem.dag(u.r)).eq('dag')
        r = u.r.scalar()
        h = ring.const(sympy_half())
        yield k.of(w.e.real, sem.S((r + r.conj()) * h)).eq('real')
        yield k.of(w.e.imag, sem.S((r - r.conj()) * h * (-ring.I))).eq('imag')
        for n in (0, 1, 2, 3, 4):
            yield (w ** n).eq('**%d' % n)
        yield Eq('** S(2)', sem.den(w.e ** m.ScalarValue.create(2), k.env), sem.power(u.r, 2))
        yield Eq('** sympy 3', sem.den(w.e ** sympy.Integer(3), k.env), sem.power(u.r, 3))
        yield (w.expand()).eq('expand')
        yield w.do(lambda e: e.simplify_scalar()).eq('simplify_scalar')
        if a not in ZEROS:
            for n in (-1, -2, -3):
                yield (w ** n).eq('**%d' % n)
            yield (1 / w).eq('1/')
            yield k.of(1 / w.e, sem.S(ring.inverse(r))).eq('1/ native')
            yield k.of(m.One / w.e, sem.S(ring.inverse(r))).eq('One/')
            yield k.of(x / w.e, sem.scale(k.sc(x).r.scalar(), sem.S(ring.inverse(r)))).eq('x/')
            yield k.of(w.e / w.e, sem.S(ring.ONE)).eq('w/w')
            yield k.of(0 / w.e, sem.S(ring.ZERO)).eq('0/w')
            yield k.of((w.e ** 2) / w.e, u.r).eq('w^2/w')
            yield k.of((w.e ** -1) * w.e, sem.S(ring.ONE)).eq('w^-1 w')
            yield k.of((w.e ** -1) ** -1, u.r).eq('(w^-1)^-1')
            yield k.of((w.e ** 2) ** 3, sem.power(u.r, 6)).eq('(w^2)^3')
        yield k.of(w.e - w.e, sem.S(ring.ZERO)).eq('w-w')
        yield k.of(w.e + w.e, sem.scale(ring.const(2), u.r)).eq('w+w')
        yield k.of(2 * w.e - w.e * x, sem.scale(ring.const(2) - k.sc(x).r.scalar(), u.r)).eq('2w-wx')
    return f


def roots(a):
    def f(cx):
        k = K()
        m = sa()
        u = ATOMS[a](k)
        w = m.ScalarValue.create(u.e)
        half = sympy.Rational(1, 2)
        s = ring.sqrt_poly(u.r.scalar())
        yield k.of(m.sqrt(w), sem.S(s)).eq('sqrt')
        yield k.of(w ** half, sem.S(s)).eq('**(1/2)')
        yield k.of(m.sqrt(w) ** 2, u.r).eq('sqrt^2')
        yield k.of(m.sqrt(w) * m.sqrt(w), u.r).eq('sqrt*sqrt')
        yield k.of(w ** sympy.Rational(3, 2), sem.S(s * s * s)).eq('**(3/2)')
        if a not in ZEROS:
            yield k.of(w ** -half, sem.S(ring.inverse(s))).eq('**(-1/2)')
        q = ring.sqrt_poly(u.r.scalar() * u.r.scalar())
        yield k.of(m.sqrt(w * w), sem.S(q)).eq('sqrt(w*w)')
        yield k.of(m.sqrt(w ** 2), sem.S(q)).eq('sqrt(w^2)')
        yield k.of((w ** 2) ** half, sem.S(q)).eq('(w^2)^(1/2)')
    return f


def sympy_half():
    from fractions import Fraction
    return Fraction(1, 2)


def native_value(a):
    """conversion to native numbers and to sympy"""
    def f(cx):
        k = K()
        m = sa()
        u = ATOMS[a](k)
        w = m.ScalarValue.create(u.e)
        if a not in ('1', 'S(1)'):
            yield k.of(complex(w), u.r).eq('complex()')
        yield k.of(w._sympy_(), u.r).eq('sympify')
        r = u.r.scalar()
        if r.conj().key() == r.key() and a != 'sqrt2':
            yield k.of(float(w), u.r).eq('float()')
        yield Holds('== native', w == u.e)
        yield Holds('hash', hash(w) == hash(u.e))
        yield Holds('bool', not (w == u.e) is False)
        yield Holds('!= other', not (w == u.e + 1))
    return f


def order(a, b):
    def f(cx):
        k = K()
        m = sa()
        u, v = ATOMS[a](k).e, ATOMS[b](k).e
        w, z = m.ScalarValue.create(u), m.ScalarValue.create(v)
        for l, r in ((w, z), (w, v), (u, z)):
            yield Holds('<', bool(l < r) == bool(u < v))
            yield Holds('<=', bool(l <= r) == bool(u <= v))
            yield Holds('>', bool(l > r) == bool(u > v))
            yield Holds('>=', bool(l >= r) == bool(u >= v))
            yield Holds('==', bool(l == r) == bool(u == v))
    return f


def triple(a, b, c):
    def f(cx):
        k = K()
        u, v, w = ATOMS[a](k), ATOMS[b](k), ATOMS[c](k)
        yield ((u + v) * w).eq('(u+v)w')
        yield (u * v + w).eq('uv+w')
        yield (u * (v * w)).eq('u(vw)')
        yield ((u * v) * w).eq('(uv)w')
        yield (u - (v - w)).eq('u-(v-w)')
        yield ((u + v) + (w - v)).eq('(u+v)+(w-v)')
        z = (u + v) * (w + 1)
        if hasattr(z.e, 'simplify_scalar'):
            yield z.expand().eq('expand')
    return f


def n_ary(names):
    def f(cx):
        k = K()
        us = [ATOMS[a](k) for a in names]
        m = sa()

        def prod(*rs):
            r = rs[0]
            for z in rs[1:]:
                r = sem.mul(r, z)
            return r

        def tot(*rs):
            r = rs[0]
            for z in rs[1:]:
                r = sem.add(r, z)
            return r
        ws = [k.of(m.ScalarValue.create(u.e), u.r) for u in us]
        yield k.call(m.ScalarTimes.create, prod, *ws).eq('times')
        yield k.call(m.ScalarTimes.create, prod, *ws).dag().eq('conjugate of a product')
        yield k.call(m.ScalarPlus.create, tot, *ws).eq('plus')
        yield k.call(m.ScalarPlus.create, tot, *ws).dag().eq('conjugate of a sum')
    return f


def complex_one(cx):
    k = K()
    yield k.of(complex(sa().One), sem.S(ring.ONE)).eq('complex(One)')


def sum_bound(mulside, which):
    """a factor that contains the summation index is not captured"""
    def f(cx):
        from qnet.utils.indices import IdxSym
        i = IdxSym('i')
        k = K(bind={i: 5})
        k0 = K()
        s0 = isum(k0, 2)
        s = k.of(s0.e, s0.r)
        z = (k.sc(i + 0), k.sc(x * i), k.S(x * i), k.S(x * i) * bk(k))[which]
        yield ((s * z) if mulside else (z * s)).eq('sum times %s' % z.e)
    return f


def cases(tier):
    out = []
    names = list(ATOMS)
    for a in names:
        for b in names:
            if a in NATIVE and b in NATIVE:
                continue
            if a in SUMS and b in SUMS and tier == 'quick' and a != b:
                continue
            out.append(Case('%s . %s' % (a, b), binary(a, b), weight=3 if a in SUMS or b in SUMS else 1))
    for a in names:
        if a not in SUMS:
            out.append(Case('unary/' + a, unary(a), weight=4))
            if a not in ('sqrtbk', '0.5', 'S(0.5)', 'np', 'exp', 'b00', 'xt', 'bk*kb', 'sqrt2'):
                out.append(Case('roots/' + a, roots(a), weight=4))
        else:
            out.append(Case('conj/' + a, lambda cx, a=a: [ATOMS[a](K()).dag().eq('conjugate'), (-ATOMS[a](K())).eq('-'),
                                                          (ATOMS[a](K()) ** 2).eq('^2'), (ATOMS[a](K()) ** 0).eq('^0'),
                                                          (ATOMS[a](K()) ** 3).eq('^3'), (ATOMS[a](K()) ** 1).eq('^1')],
                            weight=10))
    for a in ('0', '1', '-1', '2', '0.5', 'i', '1-2i', 'I', '1/3', 'np', 'S(2)', 'S(0)', 'S(1)', 'S(i)', 'S(1/3)'):
        out.append(Case('native/' + a, native_value(a)))
    for a in ('0', '1', '-1', '2', '0.5', '1/3', 'sqrt2', 'np'):
        for b in ('0', '1', '-1', '2', '0.5', '1/3', 'sqrt2'):
            out.append(Case('order/%s,%s' % (a, b), order(a, b)))
    for a in ('S(x)', 'S(0)', 'S(1)', 'S(2)', 'bk', 'x*bk', 'bk+1', 'bk*kb', 'S(i)', 'sqrtbk', 'bk^-1'):
        for b in ('S(x)', 'S(0)', 'S(1)', 'S(2)', 'bk', 'x*bk', 'bk+1', 'bk*kb', 'x', '2', '0', '1'):
            out.append(Case('create/%s,%s' % (a, b), created(a, b)))
    T = ('2', 'x', 'S(x)', 'S(1)', 'bk', 'kb', 'x*bk', 'bk+1', 'bk^-1')
    if tier != 'quick':
        T += ('-1', '1-2i', 'S(0)', 'S(i)', 'bk+bk2', 'bk*bk2', 'sqrtbk', 'bk-x', '0', 'S(x+I)')
    for a in T:
        for b in T:
            for c in T:
                if a in NATIVE and b in NATIVE or (b in NATIVE and c in NATIVE) or (a in NATIVE and c in NATIVE):
                    continue
                out.append(Case('triple/%s|%s|%s' % (a, b, c), triple(a, b, c), weight=2))
    for l in (('bk', '2', 'kb', 'x'), ('x', 'bk', 'y2', 'kb'), ('bk', 'S(x)', 'bk', 'S(2)', 'kb'), ('1', 'bk', '-1', 'kb'),
              ('bk+1', 'bk', 'x*bk', '2bk'), ('bk2', 'kb', 'bk', 'bk^-1'), ('sum', 'x', 'bk'), ('x', 'sum', '2'),
              ('S(0)', 'bk', 'x'), ('bk', 'bk', 'bk', 'kb', 'kb')):
        l = tuple('S(xy)' if z == 'y2' else z for z in l)
        out.append(Case('nary/' + '|'.join(l), n_ary(l), weight=5))
    for s in (0, 1):
        for w in range(4):
            out.append(Case('sum-index-capture/%s/%d' % ('right' if s else 'left', w), sum_bound(s, w)))
    out.append(Case('native-complex/One', complex_one))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
