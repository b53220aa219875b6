"""C14: series expansion returns exactly the Taylor coefficients."""
import sys

import sympy
from fractions import Fraction

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import vocab as vo
from checks.vocab import x, y, t, s, A, P, C, X, L, sig, h, hs, oa, st, so

PROPERTY = 'C14'
MODULE = 'checks.c14'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('parameter-dependent expressions of every class are expanded by the real series_expand; every coefficient is '
               'compared by z3 with (1/n!) times the n-th derivative of the value of the expression at the expansion point, for '
               'all values of the matrix elements and all values of their derivatives')
BOUNDS = {'quick': 'orders 0..2 (0..4 for selected expressions), expansion about 0, 1, a symbol and an expression of other symbols (0 and a symbol for pairs), '
                   'two/three-level systems, pairs of shapes of the operator/ket/superoperator/scalar lists; real parameter',
          'thorough': 'as quick, orders 0..3 for all pairs'}
t0 = sympy.Symbol('t0', real=True)
ABOUT = (0, 1, t0, s + 2)
PAIR = (0, t0)


def refs(c, about, order):
    r = c.r
    out = []
    sub = {t: sem.val(sympy.sympify(about), c.k.env)}
    f = 1
    for n in range(order + 1):
        if n:
            r = sem.tdiff(r, t)
            f *= n
        out.append(sem.scale(ring.const(Fraction(1, f)), sem.tsubs(r, sub)))
    return out


def ser(c, label='', order=2, abouts=ABOUT):
    from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
    if not isinstance(c.e, QuantumExpression):
        return
    for about in abouts:
        res = c.e.series_expand(t, about, order)
        want = refs(c, about, order)
        yield Holds('%s about %s: number of coefficients' % (label, about), len(res) == order + 1)
        for n, (a, b) in enumerate(zip(res, want)):
            yield Holds('%s about %s: coefficient %d is of the same kind' % (label, about, n), isinstance(a, c.e._base_cls))
            yield Holds('%s about %s: coefficient %d is free of t' % (label, about, n), t not in a.free_symbols)
            yield c.k.of(a, b).eq('%s about %s order %d' % (label, about, n))
        short = c.e.series_expand(t, about, max(order - 1, 0))
        yield Holds('%s about %s: lower order is a prefix' % (label, about), tuple(short) == tuple(res[:len(short)]))


BUILD = {'op': lambda k, a: vo.OP[a](k), 'ket': lambda k, a: vo.KET[a](k), 'sup': lambda k, a: vo.SUP[a](k)}
COEFFS = {
    't': t, 't^2': t ** 2, 't^5': t ** 5, '1+t': 1 + t, '(1+t)^3': (1 + t) ** 3, '3': sympy.Integer(3), 'x': x, 'xt': x * t, 't^2+xt+s': t ** 2 + x * t + s,
    'exp(t)': sympy.exp(t), 'exp(its)': sympy.exp(sympy.I * t * s), 'cos(2t)': sympy.cos(2 * t), 'sqrt(4+t)': sympy.sqrt(4 + t), '1/(2+t)': 1 / (2 + t),
    't exp(t)': t * sympy.exp(t), 't^3+t': t ** 3 + t, 't^2 cos(t)': t ** 2 * sympy.cos(t), 'I*t': sympy.I * t,
}


def unary(grp, a, order, q):
    def f(cx):
        k = K()
        u = BUILD[grp](k, a)
        if a == 'tsumq':
            return
        yield from ser(u, order=order)
        if 'sum' in a.lower() and 'kb' not in a or q:
            return
        for n, c in COEFFS.items():
            yield from ser(c * u, n + ' u', order=order, abouts=(0, t0) if n != '3' else ABOUT)
        yield from ser(u + t * u, 'u+tu', order=order)
    return f


def coeff(name):
    """coefficient functions on a few expressions"""
    c = COEFFS[name]

    def f(cx):
        k = K()
        yield from ser(k.S(c), 'c', 4, (0,) if 'cos' in name else (0, 1, t0) if 'sqrt' not in name else (0, 5))
        for n, u in (('A', A(k)), ('F(t)', A(k, 1, 'F', t)), ('Psi(t)', P(k, 1, 'Psi', t)), ('<Psi(t)|Phi>', P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi')),
                     ('L(t)', L(k, 1, 'L', t)), ('A+tB', A(k) + t * A(k, 1, 'B'))):
            yield from ser(c * u, 'c ' + n, 3, (0,) if 'cos' in name else (0, t0) if 'sqrt' not in name else (0, 5))
    return f


def oppair(a, b, order, full):
    def f(cx):
        k = K()
        u, v = BUILD['op'](k, a), BUILD['op'](k, b)
        if 'Sum' in a + b:
            return
        yield from ser(u * v, 'uv', order, PAIR)
        if not full:
            return
        yield from ser(u + t * v, 'u+tv', order, (0, t0))
        yield from ser(k.comm(u, v), '[u,v]', order, (0, t0))
        yield from ser(u * v * u, 'uvu', order, (0, t0))
        yield from ser((u * v).dag(), '(uv)^+', order, (0, t0))
        yield from ser(k.tr(C(k) * u * v, h(k, 2)), 'tr2', order, (0,))
    return f


def ketpair(a, b, order):
    def f(cx):
        k = K()
        u, v = BUILD['ket'](k, a), BUILD['ket'](k, b)
        if 'Oket' in (a, b) or 'sum' in a + b:
            return
        sp, sq = u.e.space, v.e.space
        if sp == sq:
            yield from ser(u + t * v, 'u+tv', order, (0, t0))
            yield from ser(u * v.dag(), '|u><v|', order, PAIR)
            if not shared(a, b):
                yield from ser(u.dag() * v, '<u|v>', order, PAIR)
        elif not (set(map(str, sp.local_factors)) & set(map(str, sq.local_factors))):
            yield from ser(u * v, 'u*v', order, PAIR)
    return f


from checks.c13 import shared, BIGKET, SMALLKET, SMALLOP, SMALLSUP, MINOR


def opket(a, b, order, full):
    def f(cx):
        k = K()
        o, v = BUILD['op'](k, a), BUILD['ket'](k, b)
        if 'Sum' in a or 'sum' in b or b in ('triv', 'Oket') or not o.e.space <= v.e.space:
            return
        yield from ser(o * v, 'o v', order, PAIR)
        if not full:
            return
        yield from ser((o * v) * v.dag(), 'o|v><v|', order, (0, t0))
        w = k.ket('W', v.e.space, t)
        yield from ser(w.dag() * (o * v), '<W(t)|o|v>', order, (0, t0))
    return f


def suppair(a, b, order, full):
    def f(cx):
        k = K()
        u, v = BUILD['sup'](k, a), BUILD['sup'](k, b)
        yield from ser(u * v, 'uv', order, PAIR)
        if full:
            yield from ser(u + t * v, 'u+tv', order, (0, t0))
            yield from ser(u * (v * A(k, 1, 'F', t)), 'u(v F(t))', order, (0, t0))
    return f


def supop(a, b, order):
    def f(cx):
        k = K()
        u, o = BUILD['sup'](k, a), BUILD['op'](k, b)
        yield from ser(u * o, 'u(o)', order)
    return f


def scapair(a, b, order):
    def f(cx):
        k = K()
        S = vo.scalars(k)
        u, v = S[a], S[b]
        yield from ser(u + v, 'u+v', order, PAIR)
        yield from ser(u * v, 'uv', order, PAIR)
        yield from ser(u ** 3, 'u^3', order, (0, t0))
        yield from ser(u * A(k, 1, 'F', t), 'uF(t)', order, (0, t0))
        yield from ser((u * v) * P(k, 1, 'Chi', t), '(uv)Chi(t)', order, (0, t0))
    return f


def singular(cx):
    """a coefficient with no Taylor series at the expansion point is refused, and expands elsewhere"""
    k = K()
    for n, c in (('1/t', 1 / t), ('sqrt(t)', sympy.sqrt(t)), ('t^-2', t ** -2), ('t^(3/2)', t ** sympy.Rational(3, 2)), ('1/t+t', 1 / t + t),
                 ('1/sin t', 1 / sympy.sin(t)), ('exp(t)/t', sympy.exp(t) / t)):
        for m, u in (('', k.S(c)), ('A', c * A(k)), ('A+cB', A(k) + c * A(k, 1, 'B')), ('|P>', c * P(k)), ('cF(t)', c * A(k, 1, 'F', t))):
            try:
                res = u.e.series_expand(t, 0, 2)
                ok = False
            except ValueError:
                ok = True
            yield Holds('%s %s at 0 is refused' % (n, m), ok)
    for n, c in (('1/t', 1 / t), ('1/(t+1)', 1 / (1 + t)), ('t^-2', t ** -2)):
        yield from ser(k.S(c), n, 3, (1, 2))
        yield from ser(c * A(k, 1, 'F', t), n + ' F', 3, (1, 2))
    yield from ser(k.S(1 / (t - 1)), '1/(t-1)', 3, (0, 2))


def symbols_(cx):
    k = K()
    for nm, mk in (('op', lambda *a: A(k, 1, 'F', *a)), ('ket', lambda *a: P(k, 1, 'Psi', *a)), ('sop', lambda *a: L(k, 1, 'L', *a))):
        for args in ((t,), (t, s), (s, t), (t ** 2,), (t * s,), (t + s,), (x, t), (t, t), (x,), (2 * t, s + 1)):
            yield from ser(mk(*args), '%s%r' % (nm, args), 3, (0, 1, t0, s + 2))


def derivs_(cx):
    k = K()
    F = A(k, 1, 'F', t, s)
    d = k.of(F.e.diff(t), sem.tdiff(F.r, t))
    e = k.of(F.e.diff(s), sem.tdiff(F.r, s))
    de = k.of(F.e.diff(t).diff(s), sem.tdiff(sem.tdiff(F.r, s), t))
    for n, u in (('dt', d), ('ds', e), ('dtds', de), ('t dt', t * d), ('dt + F', d + F), ('dt B', d * A(k, 1, 'B')), ('F dt', F * d), ('dt ds', d * e),
                 ('[dt,F]', k.comm(d, F)), ('dt^+', d.dag())):
        yield from ser(u, n, 2)


def nonlinear(cx):
    from qnet.algebra.core.operator_algebra import PseudoInverse, NullSpaceProjector
    k = K()
    F = A(k, 1, 'F', t).e
    for cls in (PseudoInverse, NullSpaceProjector):
        e = cls.create(F)
        r = e.series_expand(t, t0, 2)
        d = e.diff(t)
        yield Holds('zeroth', r[0] == e.substitute({t: t0}))
        yield Holds('first', r[1] == d.evaluate_at({t: t0}))
        yield Holds('second', r[2] == e.diff(t, 2).evaluate_at({t: t0}) / 2)
        c = cls.create(A(k).e).series_expand(t, 0, 2)
        yield Holds('const', c == (cls.create(A(k).e), oa().ZeroOperator, oa().ZeroOperator))


def cases(tier):
    q = tier == 'quick'
    out = []
    o = 2 if q else 3
    for grp, names in (('op', vo.OP), ('ket', vo.KET), ('sup', vo.SUP)):
        for a in names:
            out.append(Case('%s/%s' % (grp, a), unary(grp, a, 3 if q else 4, q), weight=3))
    for n in COEFFS:
        out.append(Case('coeff/' + n, coeff(n), weight=3))
    for a in vo.OP:
        for b in vo.OP:
            if q and (a in MINOR and b not in ('Ft', 'tA1') or b in MINOR and a not in ('Ft', 'tA1')):
                continue
            out.append(Case('op2/%s|%s' % (a, b), oppair(a, b, o, not q or a in SMALLOP and b in SMALLOP), weight=3))
        for b in vo.KET:
            if q and (a in MINOR and b not in ('Pt', 'P1') or b in BIGKET and a not in ('Ft', 's01', 'xA1')):
                continue
            out.append(Case('opket/%s|%s' % (a, b), opket(a, b, o, not q or a in SMALLOP and b in SMALLKET), weight=3))
    for a in vo.KET:
        for b in vo.KET:
            if q and (a in BIGKET and b not in SMALLKET or b in BIGKET and a not in SMALLKET):
                continue
            out.append(Case('ket2/%s|%s' % (a, b), ketpair(a, b, o), weight=3))
    for a in vo.SUP:
        for b in vo.SUP:
            out.append(Case('sup2/%s|%s' % (a, b), suppair(a, b, o, not q or a in SMALLSUP and b in SMALLSUP), weight=3))
        for b in ('I', 'A1', 'tA1', 'Ft', 'A1+B1', 'FtB1', '[Ft,A1+B1]', 'A2', 'Lt(Ft)', 'kbt'):
            out.append(Case('supop/%s|%s' % (a, b), supop(a, b, o), weight=3))
    sc = [a for a in vo.scalars(K()) if a not in ('<P+tF|Pt>',)]
    for a in sc:
        for b in sc:
            out.append(Case('scalar2/%s|%s' % (a, b), scapair(a, b, o), weight=3))
    out += [Case('singular', singular), Case('symbols', symbols_), Case('derivatives', derivs_), Case('nonlinear', nonlinear)]
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
