"""Expression vocabularies shared by the checks of the generic expression operations (C12-C17, C26)."""
import sympy

from qv import sem, ring
from checks import c02, c05, c06
from checks.c05 import h, hs, ksum

x, y = sympy.symbols('x y')
t, s = sympy.symbols('t s', real=True)
n_ = sympy.Symbol('n', integer=True)


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def so():
    from qnet.algebra.core import super_operator_algebra as m
    return m


def A(k, n=1, name='A', *a):
    return k.op(name, h(k, n), *a)


def sig(k, i=0, j=1):
    return k.sig(i, j, h(k, 'q'))


def P(k, n=1, name='Psi', *a):
    return k.ket(name, h(k, n), *a)


def C(k):
    return k.op('C', hs(k, 1, 2))


def X(k):
    return k.ket('X', hs(k, 1, 2))


def L(k, n=1, name='L', *a):
    e = so().SuperOperatorSymbol(name, *a, hs=h(k, n))
    return k.wrap(e)


def cc(k, v, sign=1):
    e = oa().OperatorPlusMinusCC(v.e, sign=sign)
    d = sem.dag(v.r)
    return k.of(e, sem.add(v.r, d if sign > 0 else sem.neg(d)))


def fn(name='f'):
    return sympy.Function(name)


# operators with a parameter t; 'name': builder
OP = {
    'I': lambda k: k.one(), 'O': lambda k: k.zero(),
    'A1': lambda k: A(k), 'B1': lambda k: A(k, 1, 'B'), 'A2': lambda k: A(k, 2), 'C12': C,
    's01': lambda k: sig(k), 's10': lambda k: sig(k, 1, 0), 's11': lambda k: sig(k, 1, 1), 's22': lambda k: sig(k, 2, 2),
    'A1d': lambda k: A(k).dag(),
    'xA1': lambda k: x * A(k), 'tA1': lambda k: t * A(k), 't2B1': lambda k: (t ** 2 + x) * A(k, 1, 'B'),
    'Ft': lambda k: A(k, 1, 'F', t), 'Fts': lambda k: A(k, 1, 'F', t, s), 'Gt2': lambda k: A(k, 2, 'G', t), 'Ft2': lambda k: A(k, 1, 'F', t ** 2),
    'tFt': lambda k: t * A(k, 1, 'F', t),
    'A1+B1': lambda k: A(k) + A(k, 1, 'B'), 'A1-tA2': lambda k: A(k) - t * A(k, 2), 'Ft+3': lambda k: A(k, 1, 'F', t) + 3,
    'A1B1': lambda k: A(k) * A(k, 1, 'B'), 'FtB1': lambda k: A(k, 1, 'F', t) * A(k, 1, 'B'),
    'FtGt': lambda k: A(k, 1, 'F', t) * A(k, 1, 'G', t),
    'A1C12A2': lambda k: A(k) * C(k) * A(k, 2),
    'A1(B1+t)': lambda k: A(k) * (A(k, 1, 'B') + t), '(A1+1)^2': lambda k: (A(k) + 1) ** 2,
    'x(A1+tB1)': lambda k: x * (A(k) + t * A(k, 1, 'B')),
    '[A1,B1]': lambda k: k.comm(A(k), A(k, 1, 'B')), '[Ft,A1+B1]': lambda k: k.comm(A(k, 1, 'F', t), A(k) + A(k, 1, 'B')),
    'tr2(C12)': lambda k: k.tr(C(k), h(k, 2)), 'tr1(FtB1)': lambda k: k.tr(A(k, 1, 'F', t) * A(k, 1, 'B'), h(k, 1)),
    'tr2(C12(A2+Gt))': lambda k: k.tr(C(k) * (A(k, 2) + A(k, 2, 'G', t)), h(k, 2)),
    'cc': lambda k: cc(k, A(k, 1, 'F', t) * A(k, 1, 'B')), 'cc-': lambda k: cc(k, x * A(k) + t * A(k, 1, 'B'), -1),
    'ketbra': lambda k: P(k) * P(k, 1, 'Phi').dag(), 'kbt': lambda k: (t * P(k, 1, 'Psi', t)) * P(k, 1, 'Phi', t).dag(),
    'kbsum': lambda k: (P(k) + x * P(k, 1, 'Phi')) * (P(k) - P(k, 1, 'Phi')).dag(),
    'L(A1)': lambda k: L(k) * A(k), '(L+tM)(A1+B1)': lambda k: (L(k) + t * L(k, 1, 'M')) * (A(k) + A(k, 1, 'B')),
    'Lt(Ft)': lambda k: L(k, 1, 'L', t) * A(k, 1, 'F', t),
    'Sum(s)': lambda k: osum(k), 'Sum(tF)': lambda k: osum(k, t),
    'dF': lambda k: k.of(A(k, 1, 'F', t, s).e.diff(t), sem.tdiff(A(k, 1, 'F', t, s).r, t)),
    'F(n)': lambda k: A(k, 1, 'F', n_),
}
KET = {
    'Oket': lambda k: k.zket(), 'triv': lambda k: k.tket(),
    'P1': lambda k: P(k), 'F1': lambda k: P(k, 1, 'Phi'), 'Pt': lambda k: P(k, 1, 'Psi', t), 'tP1': lambda k: t * P(k), 'P2': lambda k: P(k, 2),
    'tPt': lambda k: t * P(k, 1, 'Psi', t), 'P1+tF1': lambda k: P(k) + t * P(k, 1, 'Phi'),
    'x(P1+Pt)': lambda k: x * (P(k) + P(k, 1, 'Psi', t)),
    'X12': X, 'P1Q2': lambda k: P(k) * P(k, 2, 'Q'), '(P1+F1)Qt2': lambda k: (P(k) + P(k, 1, 'Phi')) * P(k, 2, 'Q', t),
    'PtQt': lambda k: P(k, 1, 'Psi', t) * P(k, 2, 'Q', t),
    'b0': lambda k: k.bket(0, h(k, 'q')), 'tb1+b2': lambda k: t * k.bket(1, h(k, 'q')) + k.bket(2, h(k, 'q')),
    'A1P1': lambda k: A(k) * P(k), 'FtPt': lambda k: A(k, 1, 'F', t) * P(k, 1, 'Psi', t),
    'tA1(P1+F1)': lambda k: t * A(k) * (P(k) + P(k, 1, 'Phi')),
    '(A1+Ft)(P1+tPt)': lambda k: (A(k) + A(k, 1, 'F', t)) * (P(k) + t * P(k, 1, 'Psi', t)),
    'A1P1Qt': lambda k: (A(k) * P(k)) * P(k, 2, 'Q', t),
    'C12(X+PQ)': lambda k: C(k) * (X(k) + P(k) * P(k, 2, 'Q')),
    'sumq': lambda k: ksum(k), 'tsumq': lambda k: t * ksum(k),
    'Lz': lambda k: P(k, 1, 'Psi', t, s),
}
SUP = {
    'Sone': lambda k: k.sone(), 'Szero': lambda k: k.szero(),
    'L1': lambda k: L(k), 'M1': lambda k: L(k, 1, 'M'), 'Lt': lambda k: L(k, 1, 'L', t), 'tL': lambda k: t * L(k),
    'L+tM': lambda k: L(k) + t * L(k, 1, 'M'), 'LtMt': lambda k: L(k, 1, 'L', t) * L(k, 1, 'M', t),
    '(L+M)Lt': lambda k: (L(k) + L(k, 1, 'M')) * L(k, 1, 'L', t),
    'pA': lambda k: k.spre(A(k)), 'pFt': lambda k: k.spre(A(k, 1, 'F', t)), 'qFt': lambda k: k.spost(A(k, 1, 'F', t)),
    'p(A+tB)': lambda k: k.spre(A(k) + t * A(k, 1, 'B')), 'q(A+tB)': lambda k: k.spost(A(k) + t * A(k, 1, 'B')),
    'pA(B+1)': lambda k: k.spre(A(k) * (A(k, 1, 'B') + 1)), 'q(A+1)Ft': lambda k: k.spost((A(k) + 1) * A(k, 1, 'F', t)),
    'pAqFt': lambda k: k.spre(A(k)) * k.spost(A(k, 1, 'F', t)),
    'p(A+B)q(A+Ft)': lambda k: k.spre(A(k) + A(k, 1, 'B')) * k.spost(A(k) + A(k, 1, 'F', t)),
    'Ld': lambda k: L(k).dag(), 'x(L+Lt)': lambda k: x * (L(k) + L(k, 1, 'L', t)),
    'pFtLt': lambda k: k.spre(A(k, 1, 'F', t)) * L(k, 1, 'L', t),
}


def osum(k, c=None):
    """sum_{i=0..2} [c] (i+1) |i><i| / F_i"""
    from qnet.utils.indices import IdxSym, FockIndex, IndexOverFockSpace, IndexOverRange
    i = IdxSym('i')
    q = h(k, 'q')
    if c is None:
        e = oa().OperatorIndexedSum.create((i + 1) * oa().LocalSigma(FockIndex(i), FockIndex(i), hs=q), IndexOverFockSpace(i, hs=q))
        r = None
        for n in range(3):
            v = sem.scale(ring.const(n + 1), k.sig(n, n, q).r)
            r = v if r is None else sem.add(r, v)
        return k.of(e, r)
    b = sympy.IndexedBase('b')
    e = oa().OperatorIndexedSum.create(c * b[i] * oa().LocalSigma(FockIndex(i), 0, hs=q), IndexOverRange(i, 0, 1))
    r = None
    for n in range(2):
        v = (k.sc(c * b[n]) * k.sig(n, 0, q)).r
        r = v if r is None else sem.add(r, v)
    return k.of(e, r)


def scalars(k):
    from qnet.algebra.core.scalar_algebra import ScalarValue
    return {'x': k.S(x), 't': k.S(t), 't^2+x': k.S(t ** 2 + x), '(t+1)(t+x)': k.S((t + 1) * (t + x)),
            '<P|F>': P(k).dag() * P(k, 1, 'Phi'), '<Pt|F>': P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi'),
            '<P+tF|Pt>': (P(k) + t * P(k, 1, 'Phi')).dag() * P(k, 1, 'Psi', t),
            '<P|A|Ft>': P(k).dag() * (A(k) * P(k, 1, 'Phi', t)),
            't<Pt|F><F|Q>': k.S(t) * (P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi')) * (P(k, 1, 'Phi').dag() * P(k, 1, 'Q')),
            '<Pt|F>^2': (P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi')) ** 2,
            '<P|F>+t': (P(k).dag() * P(k, 1, 'Phi')) + k.S(t),
            'x(<Pt|F>+t)': k.S(x) * ((P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi')) + k.S(t))}
