"""C15: substitution is simultaneous and agrees with evaluation; free and bound symbols are exact.

The reference value of ``u.substitute(map)`` is the value of the same expression built from the replaced atoms: the builders of
the vocabulary are run a second time with a constructor object that hands out the replacement of each atom and with the scalar
symbols of the vocabulary replaced."""
import contextlib
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import vocab as vo
from checks.vocab import x, y, t, s, n_, A, P, C, X, L, sig, h, hs, oa, st, so

PROPERTY = 'C15'
MODULE = 'checks.c15'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('the real substitute is run on every expression of the vocabulary with maps of scalar symbols, operator, ket and '
               'superoperator symbols and mixtures (swaps, zeros, identities, compounds); z3 decides that its value equals the value of the '
               'expression built from the replaced atoms, for all values of the matrix elements and symbols')
BOUNDS = {'quick': 'two/three-level systems; shapes of the operator/ket/superoperator/scalar lists and products of pairs of them; about 45 maps; '
                   'keys are symbols (or the whole expression / one operand); real symbols are replaced by real values',
          'thorough': 'as quick, all maps for all pairs'}
t0 = sympy.Symbol('t0', real=True)
SY = sympy.Integer

SCAL = {
    't>s': {t: s}, 't<>s': {t: s, s: t}, 't>0': {t: 0}, 't>1': {t: 1}, 't>S0': {t: SY(0)}, 'x>0': {x: 0}, 'x>y': {x: y}, 'x<>y': {x: y, y: x},
    't>s+1': {t: s + 1}, 'x>2t,t>s^2': {x: 2 * t, t: s ** 2}, 'x>I': {x: sympy.I}, 'x>x+y': {x: x + y}, 't>t^2+s': {t: t ** 2 + s}, 'x>x^2': {x: x ** 2},
    'x>t,t>0': {x: t, t: 0}, 'x>-1,t>-1': {x: -1, t: -1}, 'y>x': {y: x}, 't>1/2': {t: sympy.Rational(1, 2)}, 'x>1j': {x: 1j}, 'x>y,y>t,t>s,s>t': {x: y, y: t, t: s, s: t},
}


def ops(k):
    a, b, a2, c = A(k), A(k, 1, 'B'), A(k, 2), C(k)
    f = A(k, 1, 'F', t)
    return {
        'A>B': {a: b}, 'A<>B': {a: b, b: a}, 'A>0': {a: k.zero()}, 'A>1': {a: k.one()}, 'A>A+B': {a: a + b}, 'A>xB': {a: x * b}, 'A>AB': {a: a * b},
        'A>|P><F|': {a: P(k) * P(k, 1, 'Phi').dag()}, 'A>B^+': {a: b.dag()}, 'A2>0': {a2: k.zero()}, 'C>A*A2': {c: a * a2}, 'C>A2': {c: a2}, 'C>0,A>C': {c: k.zero()},
        'F>A': {f: a}, 'F>0': {f: k.zero()}, 'F>tA+1': {f: t * a + k.one()}, 'A>B,B>0': {a: b, b: k.zero()}, 'A>3': {a: 3 * k.one()},
        'A>L(B)': {a: L(k) * b},
    }


def kets(k):
    p, f, q, xx, pt = P(k), P(k, 1, 'Phi'), P(k, 2, 'Q'), X(k), P(k, 1, 'Psi', t)
    return {
        'P<>F': {p: f, f: p}, 'P>P+tF': {p: p + t * f}, 'P>AF': {p: A(k) * f}, 'P>0': {p: k.of(k.zket().e, sem.scale(ring.ZERO, p.r))}, 'Pt>0': {pt: k.of(k.zket().e, sem.scale(ring.ZERO, pt.r))}, 'Pt>P': {pt: p}, 'X>PQ': {xx: p * q},
        'Q>xQ': {q: x * q}, 'X>0': {xx: k.of(k.zket().e, sem.scale(ring.ZERO, xx.r))}, 'P>-F,F>P': {p: -f, f: p},
    }


def sups(k):
    l, m, lt = L(k), L(k, 1, 'M'), L(k, 1, 'L', t)
    return {
        'L<>M': {l: m, m: l}, 'L>1': {l: k.sone()}, 'L>0': {l: k.szero()}, 'L>L+M': {l: l + m}, 'L>SPre': {l: k.spre(A(k))}, 'L>xSPost': {l: x * k.spost(A(k, 1, 'B'))},
        'Lt>0': {lt: k.szero()}, 'Lt>1': {lt: k.sone()}, 'Lt>tM': {lt: t * m}, 'L>LM': {l: l * m},
    }


def mixed(k):
    a, b, p, l = A(k), A(k, 1, 'B'), P(k), L(k)
    return {'A>tB,t>s': ({a: t * b}, {t: s}), 'A>xA,x>t': ({a: x * a}, {x: t}), 'P>xP,x>0': ({p: x * p}, {x: 0}), 'A>B,L>pB,x>y': ({a: b, l: k.spre(b)}, {x: y}),
            'P>AP,A>1': ({p: a * p, a: k.one()}, {}), 'A>0,P>0,L>0': ({a: k.zero(), p: k.of(k.zket().e, sem.scale(ring.ZERO, p.r)), l: k.szero()}, {}), 't>x no,A>tA': ({a: t * a}, {t: t + 1})}


class KS(K):
    """constructors that hand out the replacement of an atom"""

    def __init__(self, smap=(), **kw):
        super().__init__(**kw)
        self.smap = dict(smap)
        self.seen = set()

    def wrap(self, e):
        self.seen.add(e)
        v = self.smap.get(e)
        return v if v is not None else super().wrap(e)


@contextlib.contextmanager
def scalars(m):
    g = {'x': vo.x, 'y': vo.y, 't': vo.t, 's': vo.s}
    try:
        for name, sym in g.items():
            if sym in m:
                setattr(vo, name, sympy.sympify(m[sym]))
        yield
    finally:
        for name, sym in g.items():
            setattr(vo, name, sym)


def maps(k):
    out = {}
    for n, m in SCAL.items():
        out[n] = ({}, m)
    for d in (ops, kets, sups):
        for n, m in d(k).items():
            out[n] = (m, {})
    out.update(mixed(k))
    return out


NOMAP = {'dF': ('F',), 'Sum(tF)': (), 'Sum(s)': ()}


def build(grp, names, k, comb):
    tab = {'op': vo.OP, 'ket': vo.KET, 'sup': vo.SUP}
    vs = [vo.scalars(k)[n] if g == 'sc' else tab[g][n](k) for g, n in zip(grp, names)]
    return comb(k, *vs)


def subst(grp, names, comb, which, label='', only_used=False):
    kw = {'normalized': True} if 'ket' in grp or 'sc' in grp else {}
    k = K(**kw)
    M = maps(k)
    for mn in which:
        om, sm = M[mn]
        if 'dF' in names and sm:
            continue  # handled in 'derivatives'
        try:
            kr = KS(**kw)
            u = build(grp, names, kr, comb)
        except NotImplementedError:
            return  # adding to an indexed sum is declared unsupported
        if u is None:
            return
        if only_used and not (kr.seen & {a.e for a in om}) and not (u.e.free_symbols & set(sm)):
            continue
        ks = KS({a.e: b for a, b in om.items()}, **kw)
        with scalars(sm):
            try:
                ref = build(grp, names, ks, comb).r
            except NotImplementedError:
                continue
        m = {a.e: b.e for a, b in om.items()}
        m.update(sm)
        e = u.e.substitute(m)
        yield k.of(e, ref).eq('%s %s' % (label, mn))
        from qnet.algebra.core.abstract_algebra import substitute
        yield Holds('%s %s: substitute() agrees' % (label, mn), substitute(u.e, m) == e)


SYMS = [x, y, t, s, n_]
Z = sympy.Symbol('zz', real=True)


def free(u, label):
    """free symbols are exactly those that can be substituted"""
    e, k = u.e, u.k
    val = sem.den(e, k.env)
    for v in SYMS:
        f = e.substitute({v: Z if v != n_ else sympy.Symbol('zz', integer=True)})
        if v in e.free_symbols:
            fs = getattr(f, 'free_symbols', set())
            yield Holds('%s: reported free symbol %s is replaced' % (label, v), v not in fs and Z.name in {a.name for a in fs if hasattr(a, 'name')})
        else:
            yield Holds('%s: unreported symbol %s does not occur' % (label, v), f == e)
            yield Eq('%s: value does not depend on %s' % (label, v), sem.tdiff(val, v), sem.scale(ring.ZERO, val))
    yield Holds('%s: all = free + bound' % label, e.all_symbols == e.free_symbols | e.bound_symbols)
    yield Holds('%s: empty map' % label, e.substitute({}) == e)


def whole(u, k):
    e = u.e
    mod = {'Operator': lambda: k.op('W', e.space if e.space.__class__.__name__ != 'TrivialSpaceCls' and str(e.space) != '1' else h(k, 1)),
           }
    from qnet.algebra.core.operator_algebra import Operator, OperatorTimes, OperatorPlus, Commutator, ScalarTimesOperator, Adjoint
    from qnet.algebra.core.state_algebra import State
    from qnet.algebra.core.super_operator_algebra import SuperOperator, SPre, SPost
    tr = str(e.space) in ('TrivialSpace', '1') or not e.space.local_factors
    if isinstance(e, Operator):
        w = k.op('W', h(k, 1) if tr else e.space)
        yield Holds('whole expression', e.substitute({e: w.e}) == w.e)
        zz = k.op('Zz', h(k, 1))
        for n, f, r in (('SPre', lambda o: SPre(o), w.do(SPre.create).e), ('SPost', lambda o: SPost(o), SPost.create(w.e)),
                        ('yu', lambda o: ScalarTimesOperator(y, o), y * w.e), ('sZ u', lambda o: OperatorTimes(zz.e, o), zz.e * w.e),
                        ('u+Z', lambda o: OperatorPlus(zz.e, o), zz.e + w.e), ('[Z,u]', lambda o: Commutator(zz.e, o), Commutator.create(zz.e, w.e)),
                        ('u^+', lambda o: Adjoint(o), w.e.adjoint())):
            yield Holds('operand in ' + n, f(e).substitute({e: w.e}) == r)
    elif isinstance(e, State) and not e.isbra:
        w = k.ket('W', h(k, 1) if tr else e.space)
        yield Holds('whole expression', e.substitute({e: w.e}) == w.e)
        yield Holds('operand in bra', e.adjoint().substitute({e: w.e}) == w.e.adjoint() if e.adjoint().isbra and e.adjoint().ket == e else True)
    elif isinstance(e, SuperOperator):
        w = L(k, 1, 'W')
        yield Holds('whole expression', e.substitute({e: w.e}) == w.e)
    else:
        from qnet.algebra.core.scalar_algebra import ScalarValue
        w = ScalarValue.create(y)
        yield Holds('whole expression', e.substitute({e: w}) == w)


def unary(g, a):
    def f(cx):
        k = K()
        M = maps(k)
        yield from subst((g,), (a,), lambda k, u: u, M, '')
        u = build((g,), (a,), k, lambda k, u: u)
        yield from free(u, 'u')
        if a not in ('I', 'O', 'Oket', 'triv', 'Sone', 'Szero'):
            yield from whole(u, k)
    return f


def scal_native(cx):
    """scalars that are native numbers are handled by substitute()"""
    from qnet.algebra.core.abstract_algebra import substitute
    from qnet.algebra.core.scalar_algebra import ScalarValue, Zero, One
    k = K()
    for e in (x, t, x * t + 1, sympy.sqrt(x ** 2 + 1), sympy.exp(sympy.I * t), sympy.conjugate(x) * x, sympy.cos(t) + x):
        for n, m in SCAL.items():
            if n == 't>1/2' and e.has(sympy.cos, sympy.exp):
                continue
            v = k.S(e)
            with_ = sem.tsubs(sem.den(e, k.env), {a: sem.val(sympy.sympify(b), k.env) for a, b in m.items()})
            yield k.of(v.e.substitute(m), with_).eq('S(%s) %s' % (e, n))
            yield k.of(substitute(e, m), with_).eq('%s %s' % (e, n))
    yield Holds('Zero', Zero.substitute({x: 1}) is Zero and One.substitute({x: 1}) is One)
    yield Holds('native', substitute(5, {x: 1}) == 5 and substitute('a', {'a': 'b'}) == 'b')


def derivs(cx):
    k = K()
    F = A(k, 1, 'F', t, s)
    T, den = sem.tdiff, sem.den
    d = k.of(F.e.diff(t), T(F.r, t))
    dd = k.of(F.e.diff(t).diff(s), T(T(F.r, t), s))
    d2 = k.of(F.e.diff(t, 2), T(T(F.r, t), t))
    ev = d.e.evaluate_at({t: t0})
    ev0 = k.of(ev, sem.tsubs(d.r, {t: sem.val(t0, k.env)}))
    evs = k.of(d.e.evaluate_at({t: s + 1}), sem.tsubs(d.r, {t: sem.val(s + 1, k.env)}))
    K2 = [('t>s', {t: s}), ('t<>s', {t: s, s: t}), ('t>0', {t: 0}), ('s>0', {s: 0}), ('t>t0', {t: t0}), ('t0>t', {t0: t}), ('s>t', {s: t}), ('t0>s', {t0: s}), ('s>t+1', {s: t + 1}),
          ('s>1,t>2', {s: 1, t: 2}), ('t>t^2', {t: t ** 2}), ('t0>3', {t0: 3}), ('s>t,t>1', {s: t, t: 1})]
    for n, u in (('dt', d), ('dtds', dd), ('dt2', d2), ('dt at t0', ev0), ('dt at s+1', evs), ('x dt', x * d), ('dt+F', d + F), ('dt B', d * A(k, 1, 'B')), ('dt F', d * F), ('|', d.dag())):
        for mn, m in K2:
            ref = sem.tsubs(u.r, {a: sem.val(sympy.sympify(b), k.env) for a, b in m.items()})
            yield k.of(u.e.substitute(m), ref).eq('%s %s' % (n, mn))
        B = A(k, 1, 'B')
        yield from free(u, n)
    for n, u, r in (('dt', d, T), ('dt2', d2, lambda r, q: T(T(r, q), q))):
        for rn, w in (('t^2 B', t ** 2 * A(k, 1, 'B')), ('B', A(k, 1, 'B')), ('G(t)', A(k, 1, 'G', t)), ('0', k.zero()), ('tG(t)', t * A(k, 1, 'G', t)), ('F(t,t)', A(k, 1, 'F', t, t))):
            yield k.of(u.e.substitute({F.e: w.e}), r(w.r, t)).eq('%s F>%s' % (n, rn))
    for v in (t,):
        yield Holds('an evaluated symbol is bound', t in ev.bound_symbols and t not in ev.free_symbols and t0 in ev.free_symbols)


def sums(which):
    """the index of a sum is not a free symbol: it is untouched, and is never confused with an inserted symbol"""
    def f(cx):
        from qnet.utils.indices import IdxSym, FockIndex, IndexOverFockSpace, IndexOverRange, IndexOverList
        from qnet.algebra.core.state_algebra import KetIndexedSum
        from qnet.algebra.core.scalar_algebra import ScalarIndexedSum, ScalarValue
        k = K()
        i, j, m = IdxSym('i'), IdxSym('j'), IdxSym('m')
        ip = IdxSym('i', primed=1)
        q = h(k, 'q')
        b = sympy.IndexedBase('b')
        c = sympy.IndexedBase('c')

        def add(vs):
            r = None
            for v in vs:
                r = v.r if r is None else sem.add(r, v.r)
            return r

        def val(e, **_):
            return k.sc(e)

        def mk(coeff):
            """(expression, reference as a function of the free symbols' values)"""
            if which == 'op':
                e = oa().OperatorIndexedSum.create(coeff(i) * oa().LocalSigma(FockIndex(i), FockIndex(i), hs=q), IndexOverRange(i, 0, 2))
                return e, lambda cf: add([k.sc(cf(n)) * k.sig(n, n, q) for n in range(3)])
            if which == 'ket':
                e = KetIndexedSum.create(coeff(i) * st().BasisKet(FockIndex(i), hs=q), IndexOverFockSpace(i, hs=q))
                return e, lambda cf: add([k.sc(cf(n)) * k.bket(n, q) for n in range(3)])
            e = ScalarIndexedSum.create(ScalarValue.create(coeff(i)), IndexOverList(i, [0, 2]))
            return e, lambda cf: add([k.sc(cf(n)) for n in (0, 2)])
        bi = {j: 1, m: 2, ip: 0, i: 0}
        for name, co, maps_ in (
                ('y b_i', lambda n: y * b[n], {'y>x': ({y: x}, lambda n: x * b[n]), 'y>0': ({y: 0}, lambda n: SY(0)), 'y>i': ({y: i}, lambda n: i * b[n]),
                                               'y>b_i': ({y: b[i]}, lambda n: b[i] * b[n]), 'i>0': ({i: 0}, lambda n: y * b[n]), 'i>2': ({i: 2}, lambda n: y * b[n]),
                                               'i>j': ({i: j}, lambda n: y * b[n]), 'y>i,i>1': ({y: i, i: 1}, lambda n: i * b[n]), 'y>i,i>j': ({y: i, i: j}, lambda n: i * b[n]),
                                               'y>j,i>j': ({y: j, i: j}, lambda n: j * b[n]), "y>i'+i": ({y: i + ip}, lambda n: (i + ip) * b[n]), 'b>c': ({b: c}, lambda n: y * c[n])}),
                ('b_i c_j', lambda n: b[n] * c[j], {'j>1': ({j: 1}, lambda n: b[n] * c[1]), 'j>i': ({j: i}, lambda n: b[n] * c[i]), 'i>j': ({i: j}, lambda n: b[n] * c[j]),
                                                   'j>m': ({j: m}, lambda n: b[n] * c[m]), 'i<>j': ({i: j, j: i}, lambda n: b[n] * c[i]), 'i>m,j>i': ({i: m, j: i}, lambda n: b[n] * c[i]),
                                                   "i>i',j>i'": ({i: ip, j: ip}, lambda n: b[n] * c[ip]), 'i>0,j>2': ({i: 0, j: 2}, lambda n: b[n] * c[2])}),
                ('(i+1) x^i', lambda n: (n + 1) * x * b[n], {'x>i': ({x: i}, lambda n: (n + 1) * i * b[n]), 'x>j': ({x: j}, lambda n: (n + 1) * j * b[n])})):
            e, ref = mk(co)
            kb = K(bind=bi)
            for mn, (mp, cf) in maps_.items():
                r = e.substitute(mp)
                from qnet.algebra.core.scalar_algebra import ScalarValue as SV
                if not hasattr(r, 'substitute'):
                    r = SV.create(r)
                # free index symbols that remain are given every small value
                for vi, vj in ((0, 1), (2, 0), (1, 2)):
                    bb = {i: vi, j: vj, m: 2, ip: 1}
                    kk = K(bind=bb)
                    yield Eq('%s %s i=%d j=%d' % (name, mn, vi, vj), sem.den(r, kk.env), sem_ref(which, q, kk, cf))
            yield Holds(name + ': the index is bound', e.bound_symbols == {i} and i not in e.free_symbols)
            yield from free(kb.of(e, None), name)
        # products of a sum with other factors
        e, ref = mk(lambda n: y * b[n])
        yield Holds('free symbols', e.free_symbols >= {y})
    return f


def sem_ref(which, q, k, cf):
    r = None
    for n in ((0, 2) if which == 'sc' else range(3)):
        v = k.sc(cf(n))
        v = v if which == 'sc' else v * (k.sig(n, n, q) if which == 'op' else k.bket(n, q))
        r = v.r if r is None else sem.add(r, v.r)
    return r


def matrix(cx):
    from qnet.algebra.core.matrix_algebra import Matrix
    k = K()
    M = maps(k)

    def entries(k):
        return [[A(k), vo.x * A(k, 1, 'B') + 1, k.sc(vo.t)], [k.sc(sympy.Integer(0)), A(k) * A(k, 2), P(k) * P(k, 1, 'Phi').dag()]]
    u = entries(k)
    m = Matrix([[v.e for v in row] for row in u])
    for mn, (om, sm) in M.items():
        ks = KS({a.e: b for a, b in om.items()})
        with scalars(sm):
            ref = entries(ks)
        mp = {a.e: b.e for a, b in om.items()}
        mp.update(sm)
        r = m.substitute(mp)
        yield Holds(mn + ' shape', r.shape == m.shape)
        for i in range(2):
            for j in range(3):
                yield k.of(r.matrix[i, j], ref[i][j].r).eq('%s (%d,%d)' % (mn, i, j))
    yield Holds('free symbols', m.free_symbols == {x, t})
    yield Holds('whole', m.substitute({m: 5}) == 5)


COMB = {
    'op2': [('uv', lambda k, u, v: u * v), ('u+v', lambda k, u, v: u + v), ('[u,v]', lambda k, u, v: k.comm(u, v))],
    'sup2': [('uv', lambda k, u, v: u * v), ('u-v', lambda k, u, v: u - v)],
    'supop': [('u(v)', lambda k, u, v: u * v)],
    'sc2': [('uv', lambda k, u, v: u * v), ('u+v', lambda k, u, v: u + v), ('u^2 v', lambda k, u, v: u ** 2 * v)],
    'scop': [('uv', lambda k, u, v: u * v)],
}


def spaces(v):
    return None if str(v.e.space) == 'FullSpace' else set(map(str, v.e.space.local_factors))


# choose the operation from the original operands; it is then applied to the replaced ones as well
def kk(k, u, v):
    a, b = spaces(u), spaces(v)
    if None in (a, b):
        return None
    return (lambda k, u, v: u * v.dag()) if a == b else (lambda k, u, v: u * v) if not a & b else None


def bk(k, u, v):
    return (lambda k, u, v: u.dag() * v) if spaces(u) == spaces(v) else None


def ok(k, u, v):
    a, b = spaces(u), spaces(v)
    return (lambda k, u, v: u * v) if None not in (a, b) and b and a <= b else None


COMB['ket2'] = [('|u><v|', kk), ('<u|v>', bk)]
COMB['opket'] = [('uv', ok)]


QUICK = {
    'op': ['t<>s', 'x>t,t>0', 'A<>B', 'A>A+B', 'A>0', 'A>1', 'C>A*A2', 'F>0', 'F>tA+1', 'A>tB,t>s', 'A>|P><F|', 'P>P+tF', 'L>1', 'A>3'],
    'ket': ['t<>s', 'x>0', 'P<>F', 'P>P+tF', 'P>AF', 'P>0', 'X>PQ', 'A>1', 'A>0', 'Pt>P', 'P>xP,x>0'],
    'sup': ['x>2t,t>s^2', 'A<>B', 'A>A+B', 'A>0', 'A>1', 'F>0', 'L<>M', 'L>1', 'L>0', 'L>L+M', 'L>SPre', 'Lt>1', 'A>tB,t>s'],
    'sc': ['t<>s', 'x>t,t>0', 'x>1j', 'P<>F', 'P>P+tF', 'P>0', 'Pt>P', 'A>B^+', 'P>AP,A>1'],
}
PAIRG = {'op2': ('op', 'op'), 'ket2': ('ket', 'ket'), 'sup2': ('sup', 'sup'), 'supop': ('sup', 'op'), 'opket': ('op', 'ket'), 'sc2': ('sc', 'sc'), 'scop': ('sc', 'op')}


def pair(kind, a, b, quick):
    ga, gb = PAIRG[kind]

    def f(cx):
        which = list(dict.fromkeys(QUICK[ga] + QUICK[gb])) if quick else list(maps(K()))
        for n, comb in COMB[kind]:
            if comb in (kk, bk, ok):
                k = K()
                comb = build((ga, gb), (a, b), k, comb)
                if comb is None:
                    continue
            yield from subst((ga, gb), (a, b), comb, which, n, quick)
    return f


def cases(tier):
    q = tier == 'quick'
    from checks.c13 import SMALLOP, shared
    out = []
    SC = list(vo.scalars(K()))
    for g, names in (('op', vo.OP), ('ket', vo.KET), ('sup', vo.SUP), ('sc', SC)):
        for a in names:
            out.append(Case('%s/%s' % (g, a), unary(g, a), weight=3))
    opl = list(vo.OP) if not q else [a for a in vo.OP if a in SMALLOP or a in ('FtB1', 'A1C12A2', 'A1(B1+t)', '[A1,B1]', 'cc', 'ketbra', 'tr2(C12)', '(L+tM)(A1+B1)', 'Sum(tF)', 'x(A1+tB1)')]
    ketl = list(vo.KET) if not q else [a for a in vo.KET if a not in ('Oket', 'triv', 'Lz')]
    supl = list(vo.SUP) if not q else [a for a in vo.SUP if a not in ('Szero',)]
    for kind, la, lb in (('op2', opl, opl), ('ket2', ketl, ketl), ('sup2', supl, supl), ('supop', supl, ('A1', 'Ft', 'A1+B1', 'A2', 'ketbra', 'A1B1', 'C12')), ('opket', opl, ketl),
                         ('sc2', SC, SC), ('scop', SC, ('A1', 'Ft', 'A1+B1', 'ketbra', 'Sum(s)'))):
        for a in la:
            for b in lb:
                if kind in ('op2', 'u+v') and 'Sum' in a + b:
                    continue
                if kind == 'opket' and ('Sum' in a or 'sum' in b):
                    continue
                if kind == 'ket2' and shared(a, b):
                    continue
                if kind in ('ket2',) and ('sum' in a + b or 'Oket' in (a, b) or 'triv' in (a, b)):
                    continue
                out.append(Case('%s/%s|%s' % (kind, a, b), pair(kind, a, b, q), weight=3))
    out += [Case('scalars/native', scal_native), Case('derivatives', derivs), Case('matrix', matrix)]
    for w in ('op', 'ket', 'sc'):
        out.append(Case('sums/' + w, sums(w)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
