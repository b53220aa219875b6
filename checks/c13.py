"""C13: differentiation obeys linearity and the product rule exactly."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import vocab as vo
from checks.vocab import x, y, t, s, A, P, C, X, L, sig, h, hs, oa, st, so

PROPERTY = 'C13'
MODULE = 'checks.c13'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('parameter-dependent expressions of every class are differentiated by the real code; the value of the result, in '
               'which an abstract derivative stands for unknown derivatives of the matrix elements, is compared by z3 with the '
               'derivative of the value of the expression (product rule on the matrix elements) for all values and all values '
               'of the derivatives')
BOUNDS = {'quick': 'two/three-level systems, up to 3 degrees of freedom; real differentiation symbols; all pairs of shapes of the '
                   'operator/ket/superoperator/scalar lists (products, sums, adjoints, multiples, commutators, overlaps, outer '
                   'products, applications); orders 1..3, mixed derivatives; coherent states to 4th order in the amplitude',
          'thorough': 'as quick, all pairs with every composite'}
z = sympy.Symbol('z', real=True)
t0 = sympy.Symbol('t0', real=True)


def kk(**kw):
    return K(**kw)


def zero_of(e):
    return e.__class__._zero


def D(c, sym, label, n=1, **kw):
    r = c.r
    for _ in range(n):
        r = sem.tdiff(r, sym)
    return c.k.of(c.e.diff(sym, n=n, **kw), r).eq('%s d%d/d%s%s' % (label, n, sym, kw and ' raw' or ''))


def derivs(c, label='', deep=True):
    from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
    if not isinstance(c.e, QuantumExpression):
        return
    yield D(c, t, label)
    yield D(c, t, label, expand_simplify=False)
    yield D(c, s, label)
    if deep:
        yield D(c, t, label, n=2)
        a = c.e.diff(t)
        b = c.e.diff(s)
        r = sem.tdiff(sem.tdiff(c.r, t), s)
        yield c.k.of(a.diff(s), r).eq(label + ' mixed ts')
        yield c.k.of(b.diff(t), r).eq(label + ' mixed st')
        da = c.k.of(a, sem.tdiff(c.r, t))
        if not isinstance(a, (int, float)):
            for n, g in (('expand', lambda e: e.expand()), ('rebuild', lambda e: e.rebuild())):
                d = da.do(g)
                if d.e != a:
                    yield d.eq(label + ' derivative ' + n)
            if not (c.r.sup):
                yield da.dag().eq(label + ' adjoint of derivative')
                if hasattr(c.e, 'adjoint'):
                    yield c.k.of(c.e.adjoint().diff(t), sem.dag(sem.tdiff(c.r, t))).eq(label + ' derivative of adjoint')
    d = c.e.diff(z)
    yield Holds('%s does not depend on z' % label, d == 0 or d.is_zero)
    if t not in c.e.free_symbols:
        d = c.e.diff(t)
        yield Holds('%s does not depend on t' % label, d == 0 or d.is_zero)


def unary(grp, a):
    def f(cx):
        k = kk()
        u = grp(k, a)
        if a == 'tsumq':
            return
        yield from derivs(u)
        yield D(u, t, '', n=3) if hasattr(u.e, 'diff') else Holds('native', True)
        if 'sum' in a.lower() and 'kb' not in a:
            # sums of indexed sums are declared as not implemented by the code
            return
        yield from derivs(t * u, 't u')
        yield from derivs((t ** 2 + s * x) * u, '(t^2+sx)u')
        yield from derivs(sympy.exp(sympy.I * t * s) * u, 'exp(its)u')
        yield from derivs(sympy.cos(2 * t) * u, 'cos(2t)u')
        yield from derivs(sympy.sqrt(1 + t ** 2) * u, 'sqrt(1+t^2)u')
        yield from derivs(sympy.Function('g', real=True)(t) * u, 'g(t)u')
        yield from derivs(u / (1 + t ** 2), 'u/(1+t^2)')
        yield from derivs(u + t * u, 'u+tu')
    return f


def op(k, a):
    return vo.OP[a](k)


def ket(k, a):
    return vo.KET[a](k)


def sup(k, a):
    return vo.SUP[a](k)


def sca(k, a):
    return vo.scalars(k)[a]


def oppair(a, b, full):
    def f(cx):
        k = kk()
        u, v = op(k, a), op(k, b)
        if 'Sum' in a + b:
            # the product rule gives a sum with an indexed sum, which the code declares as not implemented
            return
        yield from derivs(u * v, 'uv', deep=full)
        yield from derivs(u + t * v, 'u+tv', deep=full)
        if full:
            yield from derivs(k.comm(u, v), '[u,v]', deep=False)
            yield from derivs(u * v * u, 'uvu', deep=False)
            yield from derivs((u * v).dag(), '(uv)^+', deep=False)
            yield from derivs(k.tr(C(k) * u * v, h(k, 2)), 'tr2', deep=False)
            yield from derivs(vo.cc(k, u * v), 'cc', deep=False) if hasattr((u * v).e, 'adjoint') and type((u * v).e).__name__[:5] != 'Scala' else ()
    return f


def ketpair(a, b):
    def f(cx):
        k = kk()
        u, v = ket(k, a), ket(k, b)
        if 'Oket' in (a, b):
            if 'sum' not in a + b:
                yield from derivs(u + v, 'u+v')
            return
        if 'sum' in a + b and (u.e.free_symbols | v.e.free_symbols) & {t, s}:
            return
        sp, sq = u.e.space, v.e.space
        if sp == sq:
            # equal unit vectors: the overlap of a state with itself is handled on distinct labels only
            if 'sum' not in a + b:
                yield from derivs(u + t * v, 'u+tv')
                yield from derivs((u - t * v).dag(), 'bra', deep=False)
            yield from derivs(u * v.dag(), '|u><v|')
            if a in 'xyz' or not shared(a, b):
                yield from derivs(u.dag() * v, '<u|v>')
        elif not (set(map(str, sp.local_factors)) & set(map(str, sq.local_factors))):
            yield from derivs(u * v, 'u*v')
    return f


STATES = {'P1': 'Psi', 'F1': 'Phi', 'Pt': 'Psit', 'tP1': 'Psi', 'tPt': 'Psit', 'P1+tF1': 'Psi Phi', 'x(P1+Pt)': 'Psi Psit', 'P2': 'Psi2',
          'X12': 'X', 'P1Q2': 'Psi Q', '(P1+F1)Qt2': 'Psi Phi Qt', 'PtQt': 'Psit Qt', 'A1P1': 'Psi', 'FtPt': 'Psit',
          'tA1(P1+F1)': 'Psi Phi', '(A1+Ft)(P1+tPt)': 'Psi Psit', 'A1P1Qt': 'Psi Qt', 'C12(X+PQ)': 'X Psi Q', 'Lz': 'Psits'}


def shared(a, b):
    return bool(set(STATES.get(a, '').split()) & set(STATES.get(b, '').split()))


def opket(a, b, full=True):
    def f(cx):
        k = kk()
        o, v = op(k, a), ket(k, b)
        if not o.e.space <= v.e.space or b in ('triv',):
            return
        if 'Sum' in a or 'sum' in b:
            return
        yield from derivs(o * v, 'o v', deep=full)
        if not full:
            return
        yield from derivs((o * v) * v.dag(), 'o|v><v|', deep=False)
        yield from derivs(v.dag() * o.dag(), '<v|o^+', deep=False)
        if b != 'Oket' and v.e.space == v.e.space:
            w = k.ket('W', v.e.space)
            yield from derivs(w.dag() * (o * v), '<W|o|v>', deep=False)
    return f


def suppair(a, b, full=True):
    def f(cx):
        k = kk()
        u, v = sup(k, a), sup(k, b)
        yield from derivs(u * v, 'uv', deep=full)
        if not full:
            return
        yield from derivs(u + t * v, 'u+tv', deep=False)
        yield from derivs(u * (v * A(k, 1, 'F', t)), 'u(v F(t))', deep=False)
    return f


def supop(a, b, full=True):
    def f(cx):
        k = kk()
        u, o = sup(k, a), op(k, b)
        yield from derivs(u * o, 'u(o)', deep=full)
        if not full:
            return
        yield from derivs(o * (u * o), 'o u(o)', deep=False)
    return f


def scapair(a, b):
    def f(cx):
        k = kk()
        S = vo.scalars(k)
        u, v = S[a], S[b]
        yield from derivs(u + v, 'u+v')
        yield from derivs(u * v, 'uv')
        yield from derivs(u ** 3, 'u^3', deep=False)
        yield from derivs(u * A(k, 1, 'F', t), 'uF(t)', deep=False)
        yield from derivs((u * v) * P(k, 1, 'Chi', t), '(uv)Chi(t)', deep=False)
        yield from derivs(v * L(k, 1, 'L', t), 'vL(t)', deep=False)
    return f


def symbols_(cx):
    """derivatives of symbols with several arguments, powers of arguments, evaluated derivatives"""
    k = kk()
    for nm, mk in (('op', lambda *a: A(k, 1, 'F', *a)), ('ket', lambda *a: P(k, 1, 'Psi', *a)), ('sop', lambda *a: L(k, 1, 'L', *a))):
        for args in ((t,), (t, s), (s, t), (t ** 2,), (t * s,), (t + s,), (x, t), (t, t), (x,), (2 * t, s + 1)):
            u = mk(*args)
            lab = '%s%r' % (nm, args)
            yield from derivs(u, lab)
            if t in u.e.free_symbols:
                d = u.e.diff(t)
                r = sem.tdiff(u.r, t)
                if hasattr(d, 'evaluate_at'):
                    for v in (0, 1, t0, t0 ** 2):
                        w = k.of(d.evaluate_at({t: v}), sem.tsubs(r, {t: sem.val(sympy.sympify(v), k.env)}))
                        yield w.eq('%s at t=%s' % (lab, v))
                        yield Holds('%s at t=%s does not depend on t' % (lab, v), w.e.diff(t).is_zero)
                        if s in u.e.free_symbols:
                            yield k.of(w.e.diff(s), sem.tdiff(w.r, s)).eq('%s at t=%s d/ds' % (lab, v))
                    d2 = u.e.diff(t, n=2)
                    yield k.of(d2.evaluate_at({t: t0}), sem.tsubs(sem.tdiff(r, t), {t: sem.val(t0, k.env)})).eq(lab + ' 2nd at t0')


def power(cx):
    k = kk()
    b = P(k).dag() * P(k, 1, 'Phi')
    bt = P(k, 1, 'Psi', t).dag() * P(k, 1, 'Phi')
    from qnet.algebra.core.scalar_algebra import ScalarDerivative
    for n in (2, 3, -1, -2):
        yield from derivs(bt ** n, '<Pt|F>^%d' % n)
        yield from derivs((bt + t) ** n, '(<Pt|F>+t)^%d' % n)
    e = b.e ** t
    yield Holds('b^t depends on t', not (e.diff(t) == 0))
    e = b.e ** x
    yield Holds('b^x does not depend on t', e.diff(t) == 0)


def nonlinear(which):
    def f(cx):
        from qnet.algebra.core.abstract_quantum_algebra import QuantumDerivative
        k = kk()
        cls = getattr(oa(), which)
        F = A(k, 1, 'F', t)
        e = cls.create(F.e)
        d = e.diff(t)
        yield Holds('the derivative is not the same function of the derivative', d != cls.create(F.e.diff(t)))
        yield Holds('depends on t', d != 0 and not d.is_zero)
        e2 = cls.create(A(k).e)
        yield Holds('independent', e2.diff(t).is_zero)
        d2 = (t * e2).diff(t)
        yield Holds('prefactor', d2 == e2)
    return f


def coherent(name):
    amp = {'x t': x * t, 'x t^2': x * t ** 2, 'x(1+t)': x * (1 + t), 'x exp(it)': x * sympy.exp(sympy.I * t),
           'x exp(its)': x * sympy.exp(sympy.I * t * s), 'x(1+it)': x * (1 + sympy.I * t)}[name]

    def f(cx):
        from qnet.algebra.core.state_algebra import CoherentStateKet
        k = K(fock=9)
        k.guard = {'f': 3}
        ls = k.ls('f')
        u = k.wrap(CoherentStateKet(amp, hs=ls))
        yield k.of(u.e.diff(t), sem.tdiff(u.r, t)).eq('d/dt')
        yield k.of((t * u).e.diff(t), sem.tdiff((t * u).r, t)).eq('d/dt t u')
        v = u * P(k)
        yield k.of(v.e.diff(t), sem.tdiff(v.r, t)).eq('product')
    return f


def gate(which):
    def f(cx):
        from qnet.algebra.library import fock_operators as fo
        k = K(fock=9)
        k.guard = {'f': 3}
        ls = k.ls('f')
        e = {'Phase': lambda: fo.Phase(t * s, hs=ls), 'Displace': lambda: fo.Displace(x * t, hs=ls)}[which]()
        u = k.wrap(e)
        d = u.e.diff(t)
        yield Holds('depends on t', not d.is_zero)
        yield Holds('not on z', u.e.diff(z).is_zero)
        yield Holds('exp(i)', (t * u).e.diff(t) == u.e + t * d)
    return f


SMALLOP = {'A1', 'tA1', 'Ft', 'A1B1', 'A1+B1', '[Ft,A1+B1]', 'FtB1', 's01', 'A2', 'Fts', 'cc', 'kbt'}
MINOR = {'s10', 's22', 's11', 'B1', 'A1d', 'xA1', 'C12', 'A1C12A2', '(A1+1)^2', 'tr2(C12(A2+Gt))', 'F(n)', 'O', 'I', 'kbsum',
         '(L+tM)(A1+B1)', 'L(A1)'}

BIGKET = {'(A1+Ft)(P1+tPt)', 'tA1(P1+F1)', 'C12(X+PQ)'}
SMALLKET = {'P1', 'Pt', 'tP1', 'P1Q2', 'tb1+b2', 'PtQt', 'FtPt'}
SMALLSUP = {'L1', 'Lt', 'tL', 'pFt', 'L+tM', 'p(A)q(B)', 'Sone'}


def cases(tier):
    out = []
    for grp, names, fun in (('op', vo.OP, op), ('ket', vo.KET, ket), ('sup', vo.SUP, sup)):
        for a in names:
            out.append(Case('%s/%s' % (grp, a), unary(fun, a), weight=3))
    q = tier == 'quick'
    for a in vo.OP:
        for b in vo.OP:
            if q and (a in MINOR and b not in ('Ft', 'tA1') or b in MINOR and a not in ('Ft', 'tA1')):
                continue
            full = not q or a in SMALLOP and b in SMALLOP
            out.append(Case('op2/%s|%s' % (a, b), oppair(a, b, full), weight=4))
        for b in vo.KET:
            if q and a in MINOR and b not in ('Pt', 'P1'):
                continue
            if q and b in BIGKET and a not in ('Ft', 's01', 'xA1'):
                continue
            out.append(Case('opket/%s|%s' % (a, b), opket(a, b, not q or a in SMALLOP and b in SMALLKET), weight=3))
    for a in vo.KET:
        for b in vo.KET:
            if q and (a in BIGKET and b not in SMALLKET or b in BIGKET and a not in SMALLKET):
                continue
            out.append(Case('ket2/%s|%s' % (a, b), ketpair(a, b), weight=3))
    for a in vo.SUP:
        for b in vo.SUP:
            out.append(Case('sup2/%s|%s' % (a, b), suppair(a, b, not q or a in SMALLSUP and b in SMALLSUP), weight=3))
        for b in ('I', 'A1', 'tA1', 'Ft', 'A1+B1', 'FtB1', '[Ft,A1+B1]', 'A2', 'Lt(Ft)', 'kbt'):
            out.append(Case('supop/%s|%s' % (a, b), supop(a, b, not q or a in SMALLSUP and b in SMALLOP), weight=3))
    sc = [a for a in vo.scalars(K()) if a not in ('<P+tF|Pt>',)]
    for a in sc:
        for b in sc:
            out.append(Case('scalar2/%s|%s' % (a, b), scapair(a, b), weight=3))
    out.append(Case('symbols', symbols_, weight=9))
    out.append(Case('power', power))
    for w in ('PseudoInverse', 'NullSpaceProjector'):
        out.append(Case('nonlinear/' + w, nonlinear(w)))
    for n in ('x t', 'x t^2', 'x(1+t)', 'x exp(it)', 'x exp(its)', 'x(1+it)'):
        out.append(Case('coherent/' + n, coherent(n), maxgrade=4, grades={'x': 1}))
    for w in ('Phase', 'Displace'):
        out.append(Case('gate/' + w, gate(w), maxgrade=4, grades={'x': 1}))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
