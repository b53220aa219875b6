"""C12: expansion and simplification preserve value and reach their normal form."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import vocab as vo
from checks.vocab import x, y, t, s, A, P, C, X, L, sig, h, hs, oa, st, so

PROPERTY = 'C12'
MODULE = 'checks.c12'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('sums, products, multiples, commutators, traces, overlaps, outer products, applications and indexed sums of symbolic '
               'operands are expanded, commutator-expanded, scalar-simplified and rewritten by user rules in the real code; z3 '
               'decides that the value of each result equals that of the original for all matrix elements and parameters; the '
               'expanded result is additionally inspected for products, multiples, outer products or applications with a sum '
               'inside')
BOUNDS = {'quick': 'two/three-level systems, up to 3 degrees of freedom; all pairs of the operator/ket/superoperator shape lists '
                   '(every expression class), composites with up to 3 factors',
          'thorough': 'as quick plus triples of the shape lists and deeper nesting'}


def sums_inside(e, path=()):
    """nodes that are products/multiples/... with a sum as operand, outside of unevaluated functions of operators"""
    from qnet.algebra.core.abstract_algebra import Expression
    from qnet.algebra.core.abstract_quantum_algebra import (
        QuantumPlus, QuantumTimes, ScalarTimesQuantumExpression, QuantumDerivative)
    m, n, p = oa(), st(), so()
    from qnet.algebra.core.scalar_algebra import ScalarPlus, ScalarTimes
    if not isinstance(e, Expression):
        return
    if isinstance(e, (m.PseudoInverse, m.NullSpaceProjector, m.OperatorPlusMinusCC, QuantumDerivative)):
        return
    ops = ()
    if isinstance(e, (QuantumTimes, n.OperatorTimesKet, p.SuperOperatorTimesOperator, n.BraKet, n.KetBra)):
        ops = e.operands
    elif isinstance(e, ScalarTimesQuantumExpression):
        ops = (e.term,)
    for o in ops:
        o = o.ket if isinstance(o, n.Bra) else o
        if isinstance(o, QuantumPlus) and not isinstance(e, (ScalarTimes,)):
            yield e
    for a in e.args:
        if isinstance(e, ScalarTimesQuantumExpression) and a is e.coeff:
            continue
        yield from sums_inside(a)
    for a in e.kwargs.values():
        yield from sums_inside(a)


def full(c, label=''):
    """all value-preserving transformations of c, plus the normal form"""
    from qnet.algebra.core.abstract_algebra import Expression
    if not isinstance(c.e, Expression):
        return
    seen = [c.e]
    base = [('expand', lambda e: e.expand()), ('expand twice', lambda e: e.expand().expand()),
            ('simplify_scalar', lambda e: e.simplify_scalar()),
            ('simplify_scalar expand', lambda e: e.simplify_scalar(func=sympy.expand)),
            ('expand simplify', lambda e: e.expand().simplify_scalar()), ('rebuild', lambda e: e.rebuild()),
            ('expand commutators', lambda e: e.expand().doit(classes=(oa().Commutator,)).expand())]
    for n, g in base:
        if not hasattr(c.e, 'simplify_scalar') and 'simplify' in n:
            continue
        if not hasattr(c.e, 'expand') and 'expand' in n:
            continue
        d = c.do(g)
        if n == 'expand':
            bad = list(sums_inside(d.e)) if isinstance(d.e, Expression) else []
            yield Holds('%s expanded form: %s' % (label, repr(bad[:1])[:200]), not bad)
        if not any(type(d.e) is type(z) and d.e == z for z in seen):
            seen.append(d.e)
            yield d.eq('%s %s' % (label, n))


def unary(group, a):
    def f(cx):
        k = K(normalized=True)
        u = group(k, a)
        yield u.eq('create')
        yield from full(u)
        if 'sum' in a.lower() and 'kb' not in a:
            yield from full(x * u, 'xu')
            yield from full(u.dag(), 'adjoint')
            return
        yield from full((x + y) * u + (x - y) * u, '(x+y)u+(x-y)u')
        yield from full((x * y + x) * u, '(xy+x)u')
        if hasattr(u.e, 'dag') and hasattr(u.e, 'adjoint'):
            yield from full(u.dag(), 'adjoint')
        yield from full(x * (u + y * u), 'x(u+yu)')
    return f


def op(k, a):
    return vo.OP[a](k)


def ket(k, a):
    return vo.KET[a](k)


def sup(k, a):
    return vo.SUP[a](k)


def sca(k, a):
    return vo.scalars(k)[a]


def oppair(a, b):
    def f(cx):
        k = K(normalized=True)
        u, v = op(k, a), op(k, b)
        if 'Sum' in a + b and '(A1+1)^2' in (a, b):     # adding an indexed sum is declared as not implemented
            return
        yield from full(u * v, 'uv')
        if 'Sum' in a + b:
            yield from full(x * u * v, 'xuv')
            yield from full((u * v).dag(), 'adj')
            return
        yield from full((u + v) * (u - x * v), '(u+v)(u-xv)') if not {a, b} & BIGOP else ()
        yield from full(x * (u + y * v), 'x(u+yv)')
        yield from full(u * (v + 2) * u, 'u(v+2)u') if not {a, b} & BIGOP else ()
        yield from full(k.comm(u, v + u * v), '[u,v+uv]') if not {a, b} & BIGOP else ()
        yield from full(k.tr(C(k) * (u + v), h(k, 2)), 'tr2') if not {a, b} & BIGOP else ()
        yield from full(u - v, 'u-v')
        yield from full((u + v).dag(), 'adj')
        yield from full(vo.cc(k, u + x * v), 'cc') if not isinstance((u + x * v).e, int) else ()
    return f


BIGOP = {'C12', 'A1C12A2', 'A1-tA2', 'tr2(C12(A2+Gt))', 'Gt2', 'A2', '(L+tM)(A1+B1)', 'Lt(Ft)', 'L(A1)'}


def small(k, u):
    return len(u.r.d) < 40


def ketpair(a, b):
    def f(cx):
        k = K(normalized=True)
        u, v = ket(k, a), ket(k, b)
        if 'Oket' in (a, b):
            yield from full(x * u, 'xu')
            return
        sp, sq = u.e.space, v.e.space
        if 'sum' in a + b:
            if sp == sq:
                yield from full(u.dag() * v, '<u|v>')
                yield from full(u * v.dag(), '|u><v|')
            elif sp & sq == vo_triv():
                yield from full(u * v, 'u*v')
            return
        if sp == sq:
            yield from full(x * (u + t * v), 'x(u+tv)')
            yield from full((u + v).dag() * (u - x * v), '<u+v|u-xv>')
            yield from full((u + v) * (u - x * v).dag(), '|u+v><u-xv|')
            yield from full((u * v.dag()) * (u + v), '|u><v|(u+v)')
            yield from full((u - v).dag(), 'bra')
        elif sp & sq == vo_triv():
            yield from full(u * v, 'u*v')
            yield from full((u + x * u) * (v - y * v), 'product of sums')
            yield from full((u * v) * (u * v).dag(), 'outer') if small(k, u * v) else ()
    return f


def vo_triv():
    from qnet.algebra.core.hilbert_space_algebra import TrivialSpace
    return TrivialSpace


def opket(a, b):
    def f(cx):
        k = K(normalized=True)
        o, v = op(k, a), ket(k, b)
        if not o.e.space <= v.e.space or b == 'triv':
            return
        yield from full(o * v, 'o v')
        if 'Sum' in a or 'sum' in b:
            return
        yield from full((o + 1) * (v + x * v), '(o+1)(v+xv)')
        yield from full((o + x * o) * (o * v), '(o+xo)(o v)') if small(k, o) else ()
        yield from full(v.dag() * ((o + 2) * v), '<v|(o+2)v>') if small(k, o) else ()
        yield from full((o * v) * v.dag(), 'o|v><v|') if small(k, v) else ()
    return f


def suppair(a, b):
    def f(cx):
        k = K(normalized=True)
        u, v = sup(k, a), sup(k, b)
        yield from full(u * v, 'uv')
        yield from full((u + v) * (u - x * v), '(u+v)(u-xv)')
        yield from full((u + x * v) * (A(k) + t * A(k, 1, 'B')), '(u+xv)(A+tB)')
        yield from full(u * (v * (A(k) + A(k, 1, 'B'))), 'u(v(A+B))')
    return f


def supop(a, b):
    def f(cx):
        k = K(normalized=True)
        u, o = sup(k, a), op(k, b)
        yield from full(u * o, 'uo')
        yield from full(u * (o + x * A(k)), 'u(o+xA)')
        yield from full((u + x * u) * (o + 1), '(u+xu)(o+1)')
        yield from full(o * (u * (o + 1)), 'o u(o+1)')
    return f


def scapair(a, b):
    def f(cx):
        k = K(normalized=True)
        S = vo.scalars(k)
        u, v = S[a], S[b]
        yield from full(u + v, 'u+v')
        yield from full(u * v, 'uv')
        yield from full((u + v) * (u - 2 * v), '(u+v)(u-2v)')
        yield from full((u + v) * (A(k) + u * A(k, 1, 'B')), '(u+v)(A+uB)')
        yield from full((u * v) * (P(k) + v * P(k, 1, 'Phi')), '(uv)(P+vF)')
        yield from full((u * v) * (L(k) + v * L(k, 1, 'M')), '(uv)(L+vM)')
    return f


# -- scalar simplification and user-specified rules
def coeffs():
    f = sympy.Function('f')
    return [(x + y) ** 2 - x ** 2, x * (x + 1) - x ** 2, (x ** 2 - y ** 2) / (x + y) if False else x * y - y * x + x,
            sympy.cos(t) ** 2 + sympy.sin(t) ** 2, sympy.exp(sympy.I * t) * sympy.exp(-sympy.I * t) * x, sympy.sqrt(x ** 2) if False else x,
            (x + 1) * (x - 1) + 1, f(x) + x]


FUNCS = {'simplify': sympy.simplify, 'expand': sympy.expand, 'factor': sympy.factor, 'together': sympy.together}


def scal(name, ci):
    def f(cx):
        k = K(normalized=True)
        c = coeffs()[ci]
        g = FUNCS[name]
        S = k.sc(c)
        us = [A(k), A(k) * C(k), A(k) + x * A(k, 1, 'B'), P(k), P(k) * P(k, 2, 'Q'), L(k), k.spre(A(k)), sig(k), k.one(),
              k.comm(A(k), A(k, 1, 'B')), P(k) * P(k, 1, 'Phi').dag(), P(k).dag(), P(k).dag() * P(k, 1, 'Phi'), A(k) * P(k), L(k) * A(k),
              k.tr(C(k), h(k, 2))]
        for j, u in enumerate(us):
            for lab, v in (('c u', S * u), ('c(u+yu)', S * (u + y * u)), ('u+cu', u + S * u)):
                yield v.eq('%s %d' % (lab, j))
                yield v.do(lambda e: e.simplify_scalar(func=g)).eq('%s %d %s' % (lab, j, name))
    return f


def rules(which):
    """user rules: the rewritten expression has the value of the original with the rule's replacement substituted"""
    def f(cx):
        from qnet.algebra.core.algebraic_properties import match_replace
        from qnet.algebra.pattern_matching import wc, pattern, pattern_head, Pattern
        k = K(normalized=True)
        a, b, c = A(k), A(k, 1, 'B'), A(k, 2)
        cM = oa().Commutator
        OT = oa().OperatorTimes
        Aw, Bw = wc('A', head=oa().Operator), wc('B', head=oa().Operator)

        def app(e, rl):
            return e.apply_rules(rules=rl, recursive=True)
        comm_rule = [(pattern(cM, Aw, Bw), lambda A, B: A * B - B * A)]
        es = [k.comm(a, b) * c, (k.comm(a, b) + x * a) * b, k.comm(k.comm(a, b), a), x * k.comm(a, b) + y * c * a,
              k.comm(a, b) * P(k), k.spre(k.comm(a, b)), (k.comm(a, b) * P(k)) * P(k, 1, 'Phi').dag(), k.comm(a, C(k))]
        if which == 'commutator':
            for j, e in enumerate(es):
                d = e.do(lambda z: app(z, comm_rule))
                yield d.eq('%d' % j)
                yield Holds('%d no commutator left' % j, not contains(d.e, cM))
        elif which == 'replace symbol':
            # a -> x*b + 1
            from qnet.algebra.core.scalar_algebra import Scalar
            na = x * b + 1
            pat = [(pattern_of(a.e), lambda: na.e)]
            for j, mk in enumerate([lambda u: u * c * b, lambda u: (u + y * b) * u, lambda u: k.comm(u, b) * u, lambda u: u * P(k),
                                    lambda u: L(k) * u, lambda u: k.spre(u) * k.spost(b), lambda u: k.tr(C(k) * u, h(k, 1)),
                                    lambda u: (u * P(k)) * P(k, 1, 'Phi').dag(), lambda u: u.dag() * u]):
                e0, ref = mk(a), mk(na)
                yield k.of(app(e0.e, pat), ref.r).eq('%d' % j)
        elif which == 'projector':
            # sigma_11 -> 1 - sigma_00 on a two-level system
            q = k.ls('atom', basis=('g', 'e'))
            see = k.sig('e', 'e', q)
            sgg = k.sig('g', 'g', q)
            seg = k.sig('e', 'g', q)
            pat = [(pattern_of(see.e), lambda: (1 - sgg.e))]
            for j, e in enumerate([see, x * see + seg, a * see, see * P(k) * k.bket('e', q) if False else see * (a + 1), k.comm(a * seg, see)]):
                yield e.do(lambda z: app(z, pat)).eq('%d' % j)
    return f


def pattern_of(e):
    from qnet.algebra.pattern_matching import pattern
    return pattern(e.__class__, *e.args, **{k: v for k, v in e.kwargs.items()})


def contains(e, cls):
    from qnet.algebra.core.abstract_algebra import Expression
    if isinstance(e, cls):
        return True
    return isinstance(e, Expression) and any(contains(a, cls) for a in e.args)


SMALLOP = ('I', 'A1', 'B1', 's01', 'xA1', 'Ft', 'A1+B1', 'A1B1', 'A1(B1+t)', '[A1,B1]', 'cc', 'kbsum', 'A2', 'C12', 'Sum(s)', 'tr1(FtB1)')


HEAVY = {'(A1+Ft)(P1+tPt)', 'kbsum', '(L+tM)(A1+B1)', '[Ft,A1+B1]', 'tr2(C12(A2+Gt))', 'C12(X+PQ)', '(P1+F1)Qt2', 'tA1(P1+F1)', 'cc',
         'tr1(FtB1)', '(A1+1)^2', 'x(P1+Pt)', 'kbt', 'P1+tF1', 'x(A1+tB1)', '(L+M)Lt', 'p(A+B)q(A+Ft)', 'x(L+Lt)', 'Lt(Ft)', 'A1(B1+t)'}
LIGHT = {'A1', 'Ft', 's01', 'xA1', 'P1', 'Pt', 'b0', 'L1', 'pA', 'pFt', 'C12', 'P2', 'A2'}


def wanted(tier, a, b):
    """quick: a shape that is costly to expand is combined with the simple shapes only"""
    return tier != 'quick' or not (a in HEAVY and b not in LIGHT or b in HEAVY and a not in LIGHT)


def cases(tier):
    out = []
    for grp, names, fun in (('op', vo.OP, op), ('ket', vo.KET, ket), ('sup', vo.SUP, sup), ('scalar', vo.scalars(K(normalized=True)), sca)):
        for a in names:
            out.append(Case('%s/%s' % (grp, a), unary(fun, a), weight=3))
    for a in vo.OP:
        for b in vo.OP:
            if tier == 'quick' and a not in SMALLOP and b not in SMALLOP:
                continue
            if tier == 'quick' and b not in SMALLOP and a in BIGOP:
                continue
            if not wanted(tier, a, b):
                continue
            out.append(Case('op2/%s|%s' % (a, b), oppair(a, b), weight=4))
        for b in vo.KET:
            if wanted(tier, a, b):
                out.append(Case('opket/%s|%s' % (a, b), opket(a, b), weight=3))
    for a in vo.KET:
        for b in vo.KET:
            if wanted(tier, a, b):
                out.append(Case('ket2/%s|%s' % (a, b), ketpair(a, b), weight=3))
    for a in vo.SUP:
        for b in vo.SUP:
            if wanted(tier, a, b):
                out.append(Case('sup2/%s|%s' % (a, b), suppair(a, b), weight=3))
        for b in ('I', 'A1', 'xA1', 'A1+B1', 'A1B1', 'A1(B1+t)', 'x(A1+tB1)', '[A1,B1]', 's01', 'A2', 'L(A1)', 'ketbra'):
            if wanted(tier, a, b):
                out.append(Case('supop/%s|%s' % (a, b), supop(a, b), weight=3))
    sc = list(vo.scalars(K(normalized=True)))
    for a in sc:
        for b in sc:
            out.append(Case('scalar2/%s|%s' % (a, b), scapair(a, b), weight=3))
    for n in FUNCS:
        for c in range(len(coeffs())):
            out.append(Case('simplify/%s/%d' % (n, c), scal(n, c), weight=3))
    for w in ('commutator', 'replace symbol', 'projector'):
        out.append(Case('rules/' + w, rules(w)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
