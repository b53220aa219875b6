"""C23: model transformations keep the physics they promise to keep."""
import itertools
import sys

import sympy

from qv import harness, sem, ring, slh
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from qv.slh import Net
from checks import c20, c22
from checks.c06 import ref_liouvillian
from checks.c20 import C, Tab, lib, LIB
from checks.c22 import HAM, COUP, SCAT, A

PROPERTY = 'C23'
MODULE = 'checks.c23'
LEVEL = 'translation_validation'
BUDGET = {'quick': 400, 'thorough': 4000}
EXPLANATION = ('the real code drives, transforms, expands, substitutes, inverts or adiabatically eliminates models built from arbitrary operators on spaces of dimension 2 '
               'and symbolic scalars; z3 decides that the scattering matrix, couplings, Hamiltonian and Lindblad generator of the result are those promised')
BOUNDS = {'quick': 'models of 1-3 channels from the listed scattering matrices, couplings and Hamiltonians, every subset of moved drives, circuits of up to 4 channels driven with '
                   'zero and symbolic amplitudes; adiabatic elimination of two- and three-level systems and of a cavity mode (9 levels, 3 guarded)',
          'thorough': 'all combinations of the listed models and amplitudes'}
ASSUMPTIONS = ['scattering matrices are unitary']
x, y, g, th, ph, om, i = c22.x, c22.y, c22.g, c22.th, c22.ph, c22.om, sympy.I
al, be, ga = sympy.symbols('alpha beta gam')
AMPS = {'1': lambda: [[al], [0], [2], [al + i * be]], '2': lambda: [[al, be], [0, al], [al, 0], [0, 0], [al, al], [1, i * al]], '3': lambda: [[al, 0, be], [0, 0, al], [al, be, ga], [0, 0, 0]], '4': lambda: [[0, al, 0, be], [al, 0, 0, 0]]}


def ca():
    from qnet.algebra.core import circuit_algebra as m
    return m


def net(m, S, L, H):
    return Net([[slh.simple(q.r) for q in r] for r in S], [slh.simple(q.r) for q in L], slh.simple(H.r))


def mk(t, s, l, h):
    m, S, L, H = c22.model(t.k, s, l, h)
    return C(m, net(m, S, L, H), t)


def drives(t, amps):
    n = len(amps)
    return Net(slh.ident(n).S, [ring.as_poly(sem.val(sympy.sympify(a), t.env)) for a in amps], ring.ZERO)


def driven(u, t, amps_list):
    for amps in amps_list:
        e = u.e.coherent_input(*amps)
        r = slh.series(u.r, drives(t, amps))
        yield from C(e, r, t).eq('driven %s' % (amps,))
        if isinstance(u.e, ca().SLH):
            yield Holds('is an SLH', isinstance(e, ca().SLH))
        yield from C(u.e.coherent_input(*[sympy.sympify(a) for a in amps]), r, t).eq('driven sympy %s' % (amps,))


def refuse(u):
    for n in range(0, u.r.n + 3):
        if n == u.r.n:
            continue
        try:
            u.e.coherent_input(*[al] * n)
            yield Holds('%d amplitudes for %d channels are refused' % (n, u.r.n), False)
        except ca().WrongCDimError:
            pass


def circuit(n, name):
    def f(cx):
        t = Tab()
        u = lib(t)[n][name]
        yield from driven(u, t, AMPS[str(n)]())
        yield from refuse(u)
        a = AMPS[str(n)]()[0]
        yield from C(u.e.coherent_input(*a).coherent_input(*a[::-1]), slh.series(slh.series(u.r, drives(t, a)), drives(t, a[::-1])), t).eq('driven twice')
    return f


def models(s, l, h):
    def f(cx):
        t = Tab()
        u = mk(t, s, l, h)
        n = u.r.n
        yield from driven(u, t, AMPS[str(n)]())
        yield from refuse(u)
        yield from C(u.e.expand(), u.r, t).eq('expand')
        yield from C(u.e.simplify_scalar(), u.r, t).eq('simplify_scalar')
        yield from C(u.e.expand().simplify_scalar(), u.r, t).eq('expand, simplify')
        yield from C(u.e.toSLH(), u.r, t).eq('toSLH')
        yield from C(u.e.series_inverse(), slh.inverse(u.r), t).eq('inverse')
        yield from C(u.e.series_inverse().series_inverse(), u.r, t).eq('inverse twice')
        yield from C(u.e.series_inverse() << u.e, slh.ident(n), t).eq('inverse after the model')
        if not s.endswith('q'):
            yield from C(u.e << u.e.series_inverse(), slh.ident(n), t).eq('inverse before the model')
        yield from C(ca().SLH(*u.e.args), u.r, t).eq('rebuilt')
        yield from C(ca().SLH(*u.e), u.r, t).eq('from iteration')
        yield from C(ca().SLH(*[q.e if hasattr(q, 'e') else q for q in (u.e.S, list(u.e.Ls), u.e.H)]), u.r, t).eq('from Ls')
        yield from C((u.e << ca().circuit_identity(n)).toSLH(), u.r, t).eq('with identity')
        yield from C((u.e + ca().CircuitZero).toSLH(), u.r, t).eq('with nothing')
    return f


def moved(s, l, h, extra):
    """moving drives into the Hamiltonian: same generator, no drive left in the chosen couplings"""
    def f(cx):
        t = Tab()
        k = t.k
        m, S, L, H = c22.model(k, s, l, h)
        cs = [0] * len(L)
        if extra:
            cs = {1: [al], 2: [al, be + 1], 3: [al, 0, i * be]}[len(L)]
            L = [q + (c * k.one() if c != 0 else k.zero()) for q, c in zip(L, cs)]
            m = ca().SLH(m.S, [[q.e] for q in L], m.H)
        n = len(L)
        Sr = [[slh.simple(q.r) for q in r] for r in S]
        for which in [None] + [c for a in range(0, n + 1) for c in itertools.combinations(range(n), a)]:
            for es in (True, False):
                w = ca().move_drive_to_H(m, expand_simplify=es) if which is None else ca().move_drive_to_H(m, which=list(which), expand_simplify=es)
                got = slh.of_slh(w, t.env)
                lab = '%s %s' % (which, es)
                for a in range(n):
                    for b in range(n):
                        yield Eq('%s S[%d,%d]' % (lab, a, b), got.S[a][b], Sr[a][b])
                Ls = [slh.lift(q) for q in got.L]
                yield Eq(lab + ' generator', ref_liouvillian(slh.lift(got.H), Ls), ref_liouvillian(H.r, [q.r for q in L]))
                for a in range(n):
                    chosen = not which or a in which
                    # the drive: value of the coupling with every operator replaced by zero
                    dr = drive_part(l, a) + cs[a] if chosen else 0
                    d = ring.as_poly(sem.val(sympy.sympify(dr), t.env))
                    yield Eq('%s L[%d]' % (lab, a), Ls[a], sem.sub(L[a].r, sem.S(d)))
    return f


def drive_part(l, a):
    return {'1:A+x': [x], '1:x': [x], '2:xA,B': [0, y], '2:A,x': [0, x], '3:': [0, x, 0]}.get(l, [0, 0, 0])[a]


def substituted(s, l, h):
    def f(cx):
        t = Tab()
        k = t.k
        m, S, L, H = c22.model(k, s, l, h)
        B = k.op('Z', k.ls(1))
        maps = {'x->2': ({x: sympy.Integer(2)}, {}), 'x<->y': ({x: y, y: x}, {}), 'A->Z': ({A(k).e: B.e}, 'Z'), 'phi': ({ph: om, th: ph}, {})}
        for n, (mp, how) in maps.items():
            e = m.substitute(mp)
            if how == 'Z':
                old = c22.A
                try:
                    c22.A = lambda kk, nm='A', hh=1: kk.op('Z' if (nm, hh) == ('A', 1) else nm, kk.ls(hh))
                    m2, S2, L2, H2 = c22.model(k, s, l, h)
                finally:
                    c22.A = old
                r = Net([[slh.simple(q.r) for q in r] for r in S2], [slh.simple(q.r) for q in L2], slh.simple(H2.r))
            else:
                saved = {}
                new = {'x': mp.get(x, x), 'y': mp.get(y, y), 'ph': mp.get(ph, ph), 'th': mp.get(th, th)}
                try:
                    for q, v in new.items():
                        saved[q] = getattr(c22, q)
                        setattr(c22, q, v)
                    m2, S2, L2, H2 = c22.model(k, s, l, h)
                finally:
                    for q, v in saved.items():
                        setattr(c22, q, v)
                r = Net([[slh.simple(q.r) for q in r] for r in S2], [slh.simple(q.r) for q in L2], slh.simple(H2.r))
            yield from C(e, r, t).eq(n)
        fs = set()
        for q in list(m.S.matrix.ravel()) + list(m.L.matrix.ravel()) + [m.H]:
            fs |= q.free_symbols
        yield Holds('free symbols', m.free_symbols == fs)
    return f


# ------------------------------------------------------------------------------------ adiabatic elimination
def opmat(k, rows):
    return [[q.r for q in r] for r in rows]


def limit_formula(n):
    """eval_adiabatic_limit is the limit formula of Bouten, van Handel and Silberfarb"""
    def f(cx):
        from qnet.algebra.core.matrix_algebra import Matrix
        k = K()
        o = lambda q: k.op(q, k.ls(1))
        B, Am, Y, Yt = o('B'), o('A'), o('Y'), o('T')
        P0 = k.sig(0, 0, k.ls(1)) if n == 2 else o('P')
        F, G = [o('F%d' % q) for q in range(n)], [o('G%d' % q) for q in range(n)]
        N = [[k.one() if p == q else k.zero() for q in range(n)] for p in range(n)] if n == 2 else [[o('N')]]
        M = lambda r: Matrix([[q.e for q in w] for w in r])
        e = ca().eval_adiabatic_limit((Y.e, Am.e, B.e, M([F]), M([G]), M(N)), Yt.e, P0.e)
        mul, sub, add, dag = c22.mul, sem.sub, sem.add, sem.dag
        Kl = mul(P0.r, sub(B.r, mul(Am.r, Yt.r, Am.r)), P0.r)
        Hl = sem.scale(ring.inverse(ring.const(2) * ring.I), sub(Kl, dag(Kl)))
        Ld = [mul(P0.r, sub(gq.r, mul(Am.r, Yt.r, fq.r)), P0.r) for fq, gq in zip(F, G)]
        got = slh.of_slh(e, k.env)
        yield Eq('H', got.H, dag(Hl))
        for q in range(n):
            yield Eq('L[%d]' % q, got.L[q], dag(Ld[q]))
        for a in range(n):
            for b in range(n):
                t = None
                for c in range(n):
                    d = mul(dag(F[c].r), Yt.r, F[b].r)
                    d = add(d, sem.S(ring.ONE)) if c == b else d
                    u = mul(P0.r, N[a][c].r, d, P0.r)
                    t = u if t is None else add(t, u)
                yield Eq('S[%d,%d]' % (b, a), got.S[b][a], dag(t))
    return f


kk = sympy.Symbol('k', positive=True)


def prepared(s, l, h):
    """the prepared coefficients reassemble to the scaled model"""
    def f(cx):
        k = K()
        m, S, L, H = c22.model(k, s, l, h)
        L2 = [kk * q if a % 2 == 0 else q for a, q in enumerate(L)]
        H2 = kk ** 2 * H + kk * (A(k, 'Q') + A(k, 'Q').dag()) + (A(k, 'R') + A(k, 'R').dag())
        w = ca().SLH(m.S, [[q.e] for q in L2], H2.e)
        Y, A_, B, F, G, N = ca().prepare_adiabatic_limit(w, kk)
        d = lambda e: sem.den(e, k.env)
        kp = sem.val(kk, k.env)
        Kt = sem.add(sem.add(sem.scale(kp * kp, d(Y)), sem.scale(kp, d(A_))), d(B))
        ref = sem.scale(ring.I, H2.r)
        for q in L2:
            ref = sem.sub(ref, c22.half(sem.mul(sem.dag(q.r), q.r)))
        yield Eq('K', Kt, ref)
        for q in range(len(L)):
            yield Eq('L^+[%d]' % q, sem.add(sem.scale(kp, d(F[0, q])), d(G[0, q])), sem.dag(L2[q].r))
        for e in (Y, A_, B) + tuple(F.matrix.ravel()) + tuple(G.matrix.ravel()):
            yield Holds('independent of k', kk not in e.free_symbols)
        for a in range(len(L)):
            for b in range(len(L)):
                yield Eq('N', d(N[a, b]), sem.dag(S[b][a].r))
        if s.startswith('1:1'):
            dflt = ca().prepare_adiabatic_limit(w)
            yield Holds('default scaling parameter', all(p == q for p, q in zip(dflt, (Y, A_, B, F, G, N))))
    return f


def eliminated(which):
    def f(cx):
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        from qnet.algebra.core.operator_algebra import LocalSigma, IdentityOperator
        from qnet.algebra.library.fock_operators import Destroy
        G_, D, ka = sympy.symbols('g D kappa', positive=True)
        hi = sympy.Rational(1, 2)
        rt = sympy.sqrt(ka)
        SLH = ca().SLH
        if which == 'cavity':
            k = K(fock=9)
            q = k.ls('q')
            s = k.sig(0, 1, q).e
            a = Destroy(hs='c')
            m = SLH([[1]], [[kk * rt * a]], kk * G_ * (a * s.dag() + a.dag() * s))
            w = ca().try_adiabatic_elimination(m, k=kk)
            sr = k.sig(0, 1, q).r
            got = slh.of_slh(w, k.env)
            v = lambda z: ring.as_poly(sem.val(z, k.env))
            yield Eq('S', got.S[0][0], -ring.ONE)
            yield Eq('L', got.L[0], sem.scale(v(-2 * i * G_ / rt), sr))
            yield Eq('H', slh.lift(got.H), sem.S(ring.ZERO))
            return
        k = K()
        n = {'two': 2, 'twoL': 2, 'three': 3, 'lambda': 3}[which]
        basis = ('a', 'b', 'c')[:n]
        hs = LocalSpace('q', basis=basis)
        sg = lambda p, q: LocalSigma(p, q, hs=hs)
        top = basis[-1]
        s = sg('a', top)
        H = kk ** 2 * D * sg(top, top) + kk * G_ * (s + s.dag())
        Ls = [[kk * rt * s]]
        if which == 'twoL':
            Ls, H = [[kk * rt * s], [x * sg('a', 'a')]], H + om * sg('a', 'a')
        if which == 'three':
            H = H + om * sg('b', 'b') + kk * x.conjugate() * sg('b', top) + kk * x * sg(top, 'b')
        if which == 'lambda':
            Ls = [[kk * rt * s], [kk * x * sg('b', top) + y * sg('a', 'b')]]
            H = H + (y * sg('a', 'b') + (y * sg('a', 'b')).dag())
        S = [[1]] if len(Ls) == 1 else [[sympy.cos(th), -sympy.sin(th)], [sympy.sin(th), sympy.cos(th)]]
        m = SLH(S, Ls, H)
        # reference: Y = eta |top><top|
        d = lambda e: sem.den(e, k.env)
        Lr = [d(q[0]) for q in Ls]
        kp = sem.val(kk, k.env)
        coef = lambda T, p: _coef(T, kk, p, k)
        Kr = sem.scale(ring.I, d(H))
        for q in Lr:
            Kr = sem.sub(Kr, c22.half(sem.mul(sem.dag(q), q)))
        Y, A1, B = coef(Kr, 2), coef(Kr, 1), coef(Kr, 0)
        F, G = [coef(sem.dag(q), 1) for q in Lr], [coef(sem.dag(q), 0) for q in Lr]
        Pt = d(sg(top, top))
        eta = i * D - hi * ka - (hi * x * x.conjugate() if which == 'lambda' else 0)
        et = ring.as_poly(sem.val(sympy.sympify(eta), k.env))
        yield Eq('Y', Y, sem.scale(et, Pt))
        Yt = sem.scale(ring.inverse(et), Pt)
        P0 = None
        for b in basis[:-1]:
            P0 = d(sg(b, b)) if P0 is None else sem.add(P0, d(sg(b, b)))
        mul, sub, add, dag = c22.mul, sem.sub, sem.add, sem.dag
        Kl = mul(P0, sub(B, mul(A1, Yt, A1)), P0)
        Hl = sem.scale(ring.inverse(ring.const(2) * ring.I), sub(Kl, dag(Kl)))
        for sp in (False, True):
            w = slh.of_slh(ca().try_adiabatic_elimination(m, k=kk, sub_P0=sp), k.env)
            pr = lambda e: mul(P0, slh.lift(e), P0)
            yield Eq('H %s' % sp, pr(w.H), dag(Hl))
            for q in range(len(Lr)):
                yield Eq('L[%d] %s' % (q, sp), pr(w.L[q]), dag(mul(P0, sub(G[q], mul(A1, Yt, F[q])), P0)))
            for a in range(len(Lr)):
                for b in range(len(Lr)):
                    t = None
                    for c in range(len(Lr)):
                        u = mul(dag(F[c]), Yt, F[b])
                        u = add(u, sem.S(ring.ONE)) if c == b else u
                        u = mul(P0, sem.S(ring.as_poly(sem.val(sympy.sympify(S[c][a]), k.env))), u, P0)
                        t = u if t is None else add(t, u)
                    yield Eq('S[%d,%d] %s' % (b, a, sp), pr(w.S[b][a]), dag(t))
    return f


def _coef(T, sym, p, k):
    """coefficient of sym**p"""
    t = T
    for _ in range(p):
        t = sem.tdiff(t, sym)
    t = sem.tsubs(t, {sym: ring.ZERO})
    return sem.scale(ring.inverse(ring.const([1, 1, 2][p])), t)


def refused(cx):
    """models that cannot be eliminated automatically are refused"""
    from qnet.algebra.core.hilbert_space_algebra import LocalSpace
    from qnet.algebra.core.operator_algebra import LocalSigma
    from qnet.algebra.core.exceptions import CannotEliminateAutomatically
    hs = LocalSpace('q', basis=('g', 'e'))
    h2 = LocalSpace('r', basis=('g', 'e'))
    s, s2 = LocalSigma('g', 'e', hs=hs), LocalSigma('g', 'e', hs=h2)
    G_ = sympy.Symbol('g', positive=True)
    for n, (L, H) in {'off-diagonal': (kk * s, kk ** 2 * G_ * (s + s.dag())), 'empty null space': (kk * s, kk ** 2 * G_ * LocalSigma('g', 'g', hs=hs)), 'two spaces': (kk * s, kk ** 2 * s2.dag() * s2), 'nothing fast': (s, G_ * s.dag() * s)}.items():
        try:
            ca().try_adiabatic_elimination(ca().SLH([[1]], [[L]], H), k=kk)
            yield Holds(n + ' is refused', False)
        except CannotEliminateAutomatically:
            yield Holds(n + ' is refused', True)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in (1, 2, 3, 4):
        for a in LIB[n]:
            if q and a in c20.HEAVY and a not in ('G', 'B2<<B'):
                continue
            out.append(Case('drive/%d/%s' % (n, a), circuit(n, a), weight=4))
    by = lambda D, n: [a for a in D if a.startswith('%d:' % n)]
    for n in (1, 2, 3):
        for c, s in enumerate(by(SCAT, n)):
            for a, l in enumerate(by(COUP, n)):
                for b, h in enumerate(HAM):
                    if s.endswith('q') and 's' in (l[2:], h):
                        pass
                    if not q or (a + b + c) % 4 == 0:
                        out.append(Case('model/%s|%s|%s' % (s, l, h), models(s, l, h), weight=5))
                    if not q or (a + b + c) % 4 == 1:
                        out.append(Case('subs/%s|%s|%s' % (s, l, h), substituted(s, l, h), weight=3))
                    if not s.endswith('q') and (not q or (a + b + c) % 4 == 2) and (n < 3 or h in ('0', 'drive', 'w', 'A+Ad')) and not ('s' in (l[2:], h) and ('2' in h or l in ('1:C',))):
                        for ex in (0, 1):
                            out.append(Case('move/%s|%s|%s/%d' % (s, l, h, ex), moved(s, l, h, ex), weight=5))
                    if (a + b + c) % (5 if q else 2) == 0 and h != 's' and l[2:] != 's':
                        out.append(Case('prepare/%s|%s|%s' % (s, l, h), prepared(s, l, h), weight=5))
    out += [Case('limit/%d' % n, limit_formula(n), weight=4) for n in (1, 2)]
    out += [Case('eliminate/' + n, eliminated(n), weight=8) for n in ('two', 'twoL', 'three', 'lambda', 'cavity')]
    out.append(Case('refused', refused, weight=4))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
