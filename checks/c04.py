"""C04: spin and Pauli operators satisfy the angular-momentum algebra."""
import itertools
import sys

import sympy

from qv import harness, sem, ring, dse
from qv.dual import K
from qv.harness import Case, Eq, Holds
from checks import c03
import z3

PROPERTY = 'C04'
MODULE = 'checks.c04'
LEVEL = 'translation_validation'
BUDGET = {'quick': 400, 'thorough': 6000}
EXPLANATION = ('(a) products of raising, lowering and z operators, transition operators between labelled and symbolic spin states, '
               'and their action on states are built with the real library and compared by z3 entry by entry with the product of '
               'the standard angular-momentum matrices, for all coefficients; (b) words around a transition or state with a '
               'symbolic magnetic quantum number are decided by z3 over every allowed m at once, together with the matrix-element '
               'coefficient functions; (c) Pauli operators and the labelled-state constructor against their definitions, the '
               'constructor by symbolic execution over its integer arguments')
BOUNDS = {
    'quick': '(a) spins 1/2, 1, 3/2, 2 with default and custom labels, words of up to 3 letters, tensor products with a second '
             'spin; (b) spins up to 4, words up to 3 letters; (c) numerators -9..9, spins up to 3',
    'thorough': '(a) spins up to 3, words up to 4 letters; (b) spins up to 10, words up to 4 letters'}
H = sympy.Rational(1, 2)
y = sympy.Symbol('y')
NAMED = {'p': 'Jplus', 'm': 'Jminus', 'z': 'Jz'}


def sp():
    from qnet.algebra.library import spin_algebra as m
    return m


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def mlabels(spin):
    """labels as documented: sign, half-integers as n/2"""
    out, m = [], -spin
    while m <= spin:
        r = sympy.Rational(m)
        out.append(('+' if r > 0 else '') + ('%d' % r.p if r.q == 1 else '%d/%d' % (r.p, r.q)))
        m += 1
    return out


def space(spin, how='', label='s'):
    n = int(2 * spin) + 1
    if how == 'custom':
        return sp().SpinSpace(label, spin=spin, basis=tuple('abcdefghijk'[:n]))
    if how == 'tuple':
        return sp().SpinSpace(label, spin=(int(2 * spin), 2))
    return sp().SpinSpace(label, spin=spin)


class Sys:
    def __init__(self, spin, how=''):
        self.spin, self.n = sympy.Rational(spin), int(2 * spin) + 1
        self.how = how
        self.k = K()
        self.hs = space(spin, how)
        self.labels = list('abcdefghijk'[:self.n]) if how == 'custom' else mlabels(self.spin)

    def J(self, c):
        e = getattr(sp(), NAMED[c])(hs=self.hs)
        n, s = self.n, self.spin
        d = {}
        for i in range(n):
            m = -s + i
            if c == 'z':
                d[((i,), (i,))] = self.k.sc(m).r.scalar()
            elif c == 'p' and i + 1 < n:
                d[((i + 1,), (i,))] = self.k.sc(sympy.sqrt(s * (s + 1) - m * (m + 1))).r.scalar()
            elif c == 'm' and i >= 1:
                d[((i - 1,), (i,))] = self.k.sc(sympy.sqrt(s * (s + 1) - m * (m - 1))).r.scalar()
        return self.k.of(e, sem.T(('s',), ('s',), {q: v for q, v in d.items() if v.t}, {'s': n}))

    def lab(self, i, sym=None):
        if sym is None:
            return self.labels[i]
        from qnet.utils.indices import IdxSym, SpinIndex
        z = IdxSym(sym)
        m = -self.spin + i
        self.k.env.bind[z] = int(2 * m) if self.spin.q == 2 else int(m)
        return SpinIndex(z / 2 if self.spin.q == 2 else z, hs=self.hs)

    def sig(self, i, j, sym=False):
        e = oa().LocalSigma(self.lab(i, 'i' if sym else None), self.lab(j, 'j' if sym else None), hs=self.hs)
        return self.k.of(e, sem.T(('s',), ('s',), {((i,), (j,)): ring.ONE}, {'s': self.n}))

    def ket(self, i, sym=None):
        e = st().BasisKet(self.lab(i, sym), hs=self.hs)
        return self.k.of(e, sem.T(('s',), (), {((i,), ()): ring.ONE}, {'s': self.n}))


def words(spin, how, w):
    def f(cx):
        S = Sys(spin, how)
        us = [S.J(c) for c in w]
        left = us[0]
        for u in us[1:]:
            left = left * u
        yield left.eq('product')
        right = us[-1]
        for u in us[-2::-1]:
            right = u * right
        yield right.eq('product from the right')
        yield left.dag().eq('adjoint')
        yield left.expand().eq('expanded')
        if len(w) == 2:
            yield S.k.comm(*us).eq('commutator')
            yield S.k.comm(y * us[0], us[1] + us[0]).eq('commutator of sum')
            yield S.k.comm(us[0], us[1]).expand().eq('expanded commutator')
        for i in range(S.n):
            v = S.ket(i)
            r = v
            for u in us[::-1]:
                r = u * r
            yield r.eq('on state %d' % i)
            yield (left * v).eq('product on state %d' % i)
            yield (v.dag() * left).eq('<%d|word' % i)
            for j in range(S.n):
                yield (S.ket(j).dag() * r).eq('<%d|word|%d>' % (j, i))
    return f


def sigmas(spin, how, sym):
    def f(cx):
        for i in range(int(2 * spin) + 1):
            for j in range(int(2 * spin) + 1):
                S = Sys(spin, how)
                sg = S.sig(i, j, sym)
                t = '%d,%d' % (i, j)
                yield sg.eq('sigma ' + t)
                kets = [S.ket(i, 'i' if sym else None)]
                for c in 'pmz':
                    J = S.J(c)
                    yield (J * sg).eq('J%s sigma %s' % (c, t))
                    yield (sg * J).eq('sigma %s J%s' % (t, c))
                    yield (J * (J * sg)).eq('J%s^2 sigma %s' % (c, t))
                    yield ((sg * J) * J).eq('sigma %s J%s^2' % (t, c))
                    yield (J * sg * J).eq('J%s sigma %s J%s' % (c, t, c))
                    yield S.k.comm(J, sg).eq('[J%s,sigma %s]' % (c, t))
                    yield S.k.comm(sg, y * J).eq('[sigma %s,yJ%s]' % (t, c))
                    if j == 0:
                        for v in kets:
                            yield (J * v).eq('J%s|%d>' % (c, i))
                            yield (v.dag() * J).eq('<%d|J%s' % (i, c))
                            yield ((J * v) * v.dag()).eq('J%s|%d><%d|' % (c, i, i))
                            yield (v.dag() * J * v).eq('<%d|J%s|%d>' % (i, c, i))
                            yield (J * (J * v)).eq('J%s^2|%d>' % (c, i))
                if not sym:
                    for a in range(S.n):
                        yield (sg * S.ket(a)).eq('sigma %s|%d>' % (t, a))
                        yield (sg * S.sig(a, j)).eq('sigma %s sigma %d' % (t, a))
                        yield (S.ket(a).dag() * sg).eq('<%d|sigma %s' % (a, t))
                    yield (S.ket(i).dag() * S.ket(j)).eq('<i|j> ' + t)
                    yield (S.ket(i) * S.ket(j).dag()).eq('|i><j| ' + t)
                else:
                    yield (sg * kets[0]).eq('sigma %s|i>' % t)
                    yield (sg * sg).eq('sigma^2 ' + t)
                    yield (kets[0].dag() * S.ket(j, 'j')).eq('<i|j> ' + t)
                    for a in range(S.n):
                        yield (S.ket(a).dag() * kets[0]).eq('<%d|i> %s' % (a, t))
    return f


def relations(spin, how):
    """identities between sums"""
    def f(cx):
        S = Sys(spin, how)
        p, m, z = S.J('p'), S.J('m'), S.J('z')
        s = S.spin
        x2, y2 = H * (p + m), (p - m) / (2 * sympy.I)
        c2 = x2 * x2 + y2 * y2 + z * z
        yield c2.eq('J^2')
        yield Eq('J^2 = s(s+1)', sem.den(c2.expand().e, S.k.env), sem.scale(S.k.sc(s * (s + 1)).r.scalar(), sem.ident(('s',), {'s': S.n})))
        yield Eq('[Jx,Jy] = i Jz', sem.den(S.k.comm(x2, y2).expand().e, S.k.env), (sympy.I * z).r)
        yield Eq('[J+,J-] = 2Jz', sem.den(S.k.comm(p, m).e, S.k.env), (2 * z).r)
        yield Eq('[Jz,J+] = J+', sem.den(S.k.comm(z, p).e, S.k.env), p.r)
        yield Eq('[Jz,J-] = -J-', sem.den(S.k.comm(z, m).e, S.k.env), (-1 * m).r)
        for n in ('dimension', 'multiplicity'):
            yield Holds(n, getattr(S.hs, n) == S.n)
        yield Holds('spin', S.hs.spin == s)
        yield Holds('labels', list(S.hs.basis_labels) == S.labels)
        yield Eq('completeness', sum_den([(S.ket(i) * S.ket(i).dag()).e for i in range(S.n)], S.k), sem.ident(('s',), {'s': S.n}))
        for i in range(S.n):
            b = st().BasisKet(S.labels[i], hs=S.hs)
            for d in range(-S.n, S.n + 1):
                r = b.next(d) if d >= 0 else b.prev(-d)
                want = st().ZeroKet if not 0 <= i + d < S.n else st().BasisKet(S.labels[i + d], hs=S.hs)
                yield Holds('%d next %d' % (i, d), r == want)
            yield Holds('index', b.index == i)
    return f


def sum_den(es, k):
    return sem.dsum([sem.den(e, k.env) for e in es])


def coefs(spin, how):
    """coefficient functions for labels, indices and quantum numbers"""
    def f(cx):
        S = Sys(spin, how)
        s = S.spin
        ref = {'Jpjmcoeff': lambda m: sympy.sqrt(s * (s + 1) - m * (m + 1)), 'Jzjmcoeff': lambda m: m,
               'Jmjmcoeff': lambda m: sympy.sqrt(s * (s + 1) - m * (m - 1))}
        i = cx.int('i', 0, S.n - 1)
        c = int(i)
        m = -s + c
        for n, g in ref.items():
            fn = getattr(sp(), n)
            for sh in (True, False):
                yield Holds('%s label shift=%s' % (n, sh), sympy.simplify(fn(S.hs, S.labels[c], shift=sh) - g(m)) == 0)
                if s.q == 1 and not sh:
                    yield Holds('%s integer m' % n, sympy.simplify(sympy.sympify(fn(S.hs, int(m), shift=False)) - g(m)) == 0)
            yield Holds('%s rational m' % n, sympy.simplify(fn(S.hs, sympy.Rational(m), shift=False) - g(m)) == 0)
            yield Holds('%s index' % n, sympy.simplify(fn(S.hs, c, shift=True) - g(m)) == 0)
            v = sympy.Symbol('m')
            yield Holds('%s symbol' % n, sympy.simplify(fn(S.hs, v, shift=False) - g(v)) == 0)
    return f


def allm(spin, names, pos, kind):
    """word with |m><m'| (or the ket |m>) at position pos, every allowed m, m' at once"""
    def f(cx):
        from qnet.utils.indices import IdxSym, SpinIndex
        s = sympy.Rational(spin)
        hs = space(s)
        half = s.q == 2
        lev = {n: cx.int(n, int(-2 * s) if half else int(-s), int(2 * s) if half else int(s)) for n in ('i', 'j')}
        concrete = type(lev['i']) is int
        ze = {n: z3.IntVal(v) if concrete else v._e for n, v in lev.items()}
        env = dict(lev=ze, root={}, cons=[])
        i, j = IdxSym('i'), IdxSym('j')
        mi, mj = (i / 2, j / 2) if half else (i, j)
        mk = lambda c: getattr(sp(), NAMED[c])(hs=hs)
        if kind == 'ket':
            c = st().BasisKet(SpinIndex(mi, hs=hs), hs=hs)
            for n in names[::-1]:
                c = mk(n) * c
        else:
            c = oa().LocalSigma(SpinIndex(mi, hs=hs), SpinIndex(mj, hs=hs), hs=hs)
            for n in names[:pos][::-1]:
                c = mk(n) * c
            for n in names[pos:]:
                c = c * mk(n)
        got = {}
        for co, u in c03.terms(c.expand()):
            yield Holds('node %s' % type(u).__name__, type(u).__name__ == ('BasisKet' if kind == 'ket' else 'LocalSigma'))
            sh = tuple(sympy.expand(c03.lab_expr(a) - b) for a, b in zip(u.args, (mi, mj)))
            for q, v in c03.coeff(co, env).items():
                got.setdefault((sh, q), []).append(v)

        def root(m, d):
            return c03.zroot(sympy.expand(s * (s + 1) - m * (m + d)), env)
        p = q = sympy.Integer(0)
        z = z3.RealVal(1)
        for n in (names if kind == 'ket' else names[:pos])[::-1]:
            if n == 'z':
                z = z * c03.zint(sympy.expand(mi + p), env)
            else:
                d = 1 if n == 'p' else -1
                z, p = z * root(mi + p, d), p + d
        for n in ([] if kind == 'ket' else names[pos:]):
            if n == 'z':
                z = z * c03.zint(sympy.expand(mj + q), env)
            else:                                      # <m|J+ = (J-|m>)^+
                d = -1 if n == 'p' else 1
                z, q = z * root(mj + q, d), q + d
        key = ((p, q) if kind != 'ket' else (p,), sympy.srepr(sympy.Integer(0)))
        pre = [(ze[n] - int(2 * s)) % 2 == 0 for n in ze] if half else []
        pre = z3.And(*(pre + env['cons'])) if pre or env['cons'] else z3.BoolVal(True)
        for kk in set(got) | {key}:
            g = z3.Sum(*got[kk]) if kk in got else z3.RealVal(0)
            claim = z3.Implies(pre, g == (z if kk == key else z3.RealVal(0)))
            if concrete:
                so = z3.Solver()
                so.add(z3.Not(claim))
                claim = so.check() == z3.unsat
            else:
                claim = dse.SymBool(claim, cx)
            yield Holds('coefficient of shift %s' % (kk[0],), claim)
    return f


def pauli(which, sp_kind):
    def f(cx):
        from qnet.algebra.library import pauli_matrices as pm
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        n = {'free': 2, 'dim3': 3, 'gem': 3, 'str': 2, 'int': 2, 'spin1': 3, 'spinhalf': 2}[sp_kind]
        hs = {'free': lambda: LocalSpace('q'), 'dim3': lambda: LocalSpace('q', dimension=3),
              'gem': lambda: LocalSpace('q', basis=('g', 'e', 'm')), 'str': lambda: 'q', 'int': lambda: 1,
              'spin1': lambda: sp().SpinSpace('q', spin=1), 'spinhalf': lambda: sp().SpinSpace('q', spin=H)}[sp_kind]()
        labels = {'free': [0, 1], 'dim3': [0, 1, 2], 'gem': ['g', 'e', 'm'], 'str': [0, 1], 'int': [0, 1],
                  'spin1': ['-1', '0', '+1'], 'spinhalf': ['-1/2', '+1/2']}[sp_kind]
        l = '1' if sp_kind == 'int' else 'q'
        k = K(default_dim=n)
        I1 = ring.I
        for a in range(n):
            for b in range(n):
                if a == b:
                    continue
                st_ = [(labels[a], labels[b])]
                if sp_kind == 'gem':
                    st_.append((a, b))
                if (a, b) == (0, 1):
                    st_.append(None)
                for states in st_:
                    d = {'X': {(a, b): ring.ONE, (b, a): ring.ONE}, 'Y': {(a, b): -I1, (b, a): I1},
                         'Z': {(a, a): ring.ONE, (b, b): -ring.ONE}}
                    e = {c: getattr(pm, 'Pauli' + c)(hs, states=states) if states is not None else getattr(pm, 'Pauli' + c)(hs)
                         for c in 'XYZ'}
                    R = {c: k.of(e[c], sem.T((l,), (l,), {((p,), (q,)): v for (p, q), v in d[c].items()}, {l: n})) for c in 'XYZ'}
                    if which == 'def':
                        for c in 'XYZ':
                            yield R[c].eq('Pauli%s %s' % (c, states))
                            yield R[c].dag().eq('adjoint %s %s' % (c, states))
                    else:
                        for c in 'XYZ':
                            for g in 'XYZ':
                                yield (R[c] * R[g]).eq('%s%s %s' % (c, g, states))
                                yield (R[c] * R[g]).expand().eq('expanded %s%s %s' % (c, g, states))
                                yield k.comm(R[c], R[g]).expand().eq('[%s,%s] %s' % (c, g, states))
    return f


def ctor(spin):
    """SpinBasisKet over symbolic numerators"""
    def f(cx):
        s = sympy.Rational(spin)
        hs = space(s)
        v = cx.int('numer', -9, 9)
        if s.q == 1:
            forms = [(v,)]
            ok = dse.And(v >= int(-s), v <= int(s))
        else:
            den = cx.int('denom', 1, 3)
            forms = [(v, den)]
            ok = dse.And(dse.And(v >= int(-2 * s), v <= int(2 * s)), den == 2)
        try:
            r = sp().SpinBasisKet(*forms[0], hs=hs)
        except ValueError:
            # even numerators of a half-integer spin are out of range as well
            yield Holds('refused', dse.Or(dse.Not(ok), v % 2 == 0) if s.q == 2 else dse.Not(ok))
            return
        yield Holds('in range', ok)
        yield Holds('odd', v % 2 == 1) if s.q == 2 else Holds('any', True)
        c = int(v)
        yield Holds('state', r == st().BasisKet(mlabels(s)[c + int(s) if s.q == 1 else (c + int(2 * s)) // 2], hs=hs))
        wrong = (1, 2) if s.q == 1 else (1,)
        try:
            sp().SpinBasisKet(*wrong, hs=hs)
            yield Holds('number of arguments', False)
        except TypeError:
            yield Holds('number of arguments', True)
    return f


def two(w):
    """operators of two spins and an oscillator"""
    def f(cx):
        k = K()
        h1, h2 = space(1, label='s1'), space(H, label='s2')
        ops = {'p': k.wrap(sp().Jplus(hs=h1)), 'm': k.wrap(sp().Jminus(hs=h1)), 'z': k.wrap(sp().Jz(hs=h1)),
               'P': k.wrap(sp().Jplus(hs=h2)), 'M': k.wrap(sp().Jminus(hs=h2)), 'Z': k.wrap(sp().Jz(hs=h2))}
        us = [ops[c] for c in w]
        a = us[0]
        for u in us[1:]:
            a = a * u
        yield a.eq('product')
        yield a.dag().eq('adjoint')
        yield k.comm(us[0], us[-1]).eq('commutator')
        for la in ('-1', '0', '+1'):
            for lb in ('-1/2', '+1/2'):
                v = k.wrap(st().BasisKet(la, hs=h1)) * k.wrap(st().BasisKet(lb, hs=h2))
                yield (a * v).eq('on |%s,%s>' % (la, lb))
                yield (v.dag() * a * v).eq('mean in |%s,%s>' % (la, lb))
    return f


def cases(tier):
    th = tier == 'thorough'
    spins = [H, 1, 3 * H, 2] + ([5 * H, 3] if th else [])
    out = []
    for s in spins:
        for how in ('', 'custom', 'tuple'):
            n = '%s%s' % (s, '/' + how if how else '')
            out.append(Case('relations/' + n, relations(s, how), weight=3))
            out.append(Case('coefficients/' + n, coefs(s, how), weight=3))
            out.append(Case('sigma/' + n, sigmas(s, how, False), weight=4))
            if how == '':
                out.append(Case('sigma-symbolic/' + n, sigmas(s, how, True), weight=4))
            for m in range(1, 5 if th else 4):
                if how and m > 2:
                    continue
                for w in itertools.product('pmz', repeat=m):
                    out.append(Case('word/%s/%s' % (n, ''.join(w)), words(s, how, w), weight=2))
    for s in [H * q for q in range(1, 21 if th else 9)]:
        for m in range(1, 5 if th else 4):
            for w in itertools.product('pmz', repeat=m):
                out.append(Case('all-m/%s/%s|m>' % (s, ''.join(w)), allm(s, list(w), 0, 'ket')))
                if m == 3 and s > 2 and not th:
                    continue
                for p in range(m + 1):
                    out.append(Case('all-m/%s/%s|mm|%s' % (s, ''.join(w[:p]), ''.join(w[p:])), allm(s, list(w), p, 'op')))
    for kd in ('free', 'dim3', 'gem', 'str', 'int', 'spin1', 'spinhalf'):
        for wh in ('def', 'products'):
            out.append(Case('pauli/%s/%s' % (kd, wh), pauli(wh, kd)))
    for s in [H * q for q in range(1, 7)]:
        out.append(Case('SpinBasisKet/%s' % s, ctor(s)))
    for w in itertools.product('pmzPMZ', repeat=2):
        out.append(Case('two/' + ''.join(w), two(w)))
    if th:
        for w in itertools.product('pmzPMZ', repeat=3):
            out.append(Case('two/' + ''.join(w), two(w)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
