"""C22: equations of motion follow from the circuit model."""
import itertools
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks.c06 import ref_liouvillian

PROPERTY = 'C22'
MODULE = 'checks.c22'
LEVEL = 'translation_validation'
BUDGET = {'quick': 400, 'thorough': 4000}
EXPLANATION = ('models (S, L, H) with arbitrary operators on spaces of dimension 2 and symbolic scalars are given to the real code; z3 decides entry by entry that the '
               'returned Liouvillian, master equation and Heisenberg equation equal the Lindblad and quantum Langevin expressions evaluated independently from S, L '
               'and H, that the two pictures are dual and the trace is conserved; the state-space matrices are compared with the coefficients of a linear model')
BOUNDS = {'quick': '1-3 channels, 7 Hamiltonians, 8 coupling vectors, scattering matrices of scalars or of projectors, observables on one or two spaces of '
                   'dimension 2 (symbols are arbitrary operators); linear models of 1-2 modes and 1-2 channels with symbolic coefficients',
          'thorough': 'all combinations of the listed Hamiltonians, couplings, scattering matrices and observables'}
ASSUMPTIONS = ['scattering matrices are unitary; each noise input acts on a space of its own']

x, y = sympy.symbols('x y')
th, ph, om = sympy.symbols('theta phi omega', real=True)
g = sympy.Symbol('gamma', positive=True)
i = sympy.I


def A(k, n='A', h=1):
    return k.op(n, k.ls(h))


def C2(k):
    return k.op('C', k.ls(1) * k.ls(2))


HAM = {
    '0': lambda k: k.zero(), 'A+Ad': lambda k: A(k) + A(k).dag(), 'w': lambda k: om * (A(k).dag() * A(k)), 'C': lambda k: C2(k) + C2(k).dag(),
    'drive': lambda k: (i * x) * A(k) + ((i * x) * A(k)).dag(), '2': lambda k: A(k, 'D', 2) + A(k, 'D', 2).dag() + om * (A(k) + A(k).dag()),
    'AD': lambda k: A(k) * A(k, 'D', 2).dag() + A(k).dag() * A(k, 'D', 2), 's': lambda k: om * k.sig(1, 1, k.ls('q')),
}
COUP = {
    '1:A': lambda k: [A(k)], '1:gA': lambda k: [sympy.sqrt(g) * A(k)], '1:A+x': lambda k: [A(k) + x * k.one()], '1:AB': lambda k: [A(k) * A(k, 'B') + x * A(k)],
    '1:C': lambda k: [C2(k)], '1:x': lambda k: [x * k.one()], '1:0': lambda k: [k.zero()], '1:s': lambda k: [x * k.sig(0, 1, k.ls('q'))],
    '2:A,D': lambda k: [A(k), A(k, 'D', 2)], '2:xA,B': lambda k: [x * A(k), A(k, 'B') + y * k.one()], '2:0,A': lambda k: [k.zero(), A(k)], '2:A,x': lambda k: [A(k) - A(k, 'B'), x * k.one()],
    '2:AD': lambda k: [A(k) * A(k, 'D', 2), A(k).dag()], '3:': lambda k: [A(k), x * k.one(), A(k, 'D', 2)],
}
SCAT = {
    '1:1': lambda k: [['1']], '1:e': lambda k: [[sympy.exp(i * ph)]], '1:q': lambda k: [[k.sig(0, 0, k.ls('q')) + sympy.exp(i * ph) * k.sig(1, 1, k.ls('q'))]],
    '2:1': lambda k: [[1, 0], [0, 1]], '2:r': lambda k: [[sympy.cos(th), -sympy.sin(th)], [sympy.sin(th), sympy.cos(th)]], '2:p': lambda k: [[0, sympy.exp(i * ph)], [1, 0]],
    '2:q': lambda k: [[k.sig(0, 0, k.ls('q')), k.sig(1, 1, k.ls('q'))], [k.sig(1, 1, k.ls('q')), k.sig(0, 0, k.ls('q'))]],
    '3:1': lambda k: [[1, 0, 0], [0, 1, 0], [0, 0, 1]], '3:p': lambda k: [[0, 1, 0], [0, 0, 1], [sympy.exp(i * ph), 0, 0]],
}
OBS = {
    'X1': lambda k: k.op('X', k.ls(1)), 'A': A, 'Ad': lambda k: A(k).dag(), 'X12': lambda k: k.op('X', k.ls(1) * k.ls(2)), 'X2': lambda k: k.op('X', k.ls(2)), 'AX': lambda k: A(k) * k.op('X', k.ls(1)) + y * A(k),
    's': lambda k: k.sig(0, 1, k.ls('q')), 'sz': lambda k: k.sig(1, 1, k.ls('q')), 'I': lambda k: k.one(), 'X3': lambda k: k.op('X', k.ls(3)), 'Xq1': lambda k: k.op('X', k.ls(1) * k.ls('q')),
}


def model(k, s, l, h):
    from qnet.algebra.core.circuit_algebra import SLH
    S = [[k.sc(1) if q == '1' else q if isinstance(q, V) else k.sc(sympy.sympify(q)) for q in r] for r in SCAT[s](k)]
    L, H = COUP[l](k), HAM[h](k)
    return SLH([[q.e for q in r] for r in S], [[q.e] for q in L], H.e), S, L, H


def add(*a):
    r = a[0]
    for q in a[1:]:
        r = sem.add(r, q)
    return r


def half(a):
    return sem.scale(ring.inverse(ring.const(2)), a)


def mul(*a):
    r = a[0]
    for q in a[1:]:
        r = sem.mul(r, q)
    return r


def schroedinger(H, L, rho):
    r = sem.scale(-ring.I, sem.comm(H, rho))
    for l in L:
        d = sem.dag(l)
        r = add(r, mul(l, rho, d), sem.neg(half(add(mul(d, l, rho), mul(rho, d, l)))))
    return r


def heisenberg(H, L, X):
    r = sem.scale(ring.I, sem.comm(H, X))
    for l in L:
        d = sem.dag(l)
        r = add(r, mul(d, X, l), sem.neg(half(add(mul(d, l, X), mul(X, d, l)))))
    return r


def langevin(S, L, H, X, B):
    """quantum Ito equation of X with input fields B"""
    n = len(L)
    r = heisenberg(H, L, X)
    for a in range(n):
        for b in range(n):
            sd = sem.dag(S[b][a])       # (S^+)_{ab}
            r = add(r, mul(sem.dag(B[a]), sd, sem.comm(X, L[b])))
            r = add(r, mul(sem.comm(sem.dag(L[a]), X), S[a][b], B[b]))
            q = None
            for c in range(n):
                u = mul(sem.dag(S[c][a]), X, S[c][b])
                q = u if q is None else add(q, u)
            if a == b:
                q = sem.sub(q, X)
            r = add(r, mul(sem.dag(B[a]), q, B[b]))
    return r


def averaged(s, l, h):
    def f(cx):
        k = K()
        m, S, L, H = model(k, s, l, h)
        Ls = [q.r for q in L]
        li = k.of(m.symbolic_liouvillian(), ref_liouvillian(H.r, Ls))
        yield li.eq('liouvillian')
        yield li.expand().eq('liouvillian expanded')
        for sp in (k.ls(1) * k.ls(2) if 's' not in (l[2:], h) else k.ls(1) * k.ls('q'),):
            rho = k.op('rho', sp)
            ref = schroedinger(H.r, Ls, rho.r)
            me = k.of(m.symbolic_master_equation(rho.e), ref)
            yield me.eq('master equation')
            yield (li * rho).eq('liouvillian applied')
            yield k.of((li.e * rho.e).expand(), ref).eq('liouvillian applied, expanded')
            yield me.expand().eq('master equation expanded')
            from qnet.algebra.core.operator_algebra import OperatorTrace
            tr = sem.den(OperatorTrace.create(me.e.expand(), over_space=sp), k.env)
            yield Eq('trace conserved', tr, sem.scale(ring.ZERO, tr))
            for o in ('X1', 'X12', 'AX') if 'q' not in str(sp) else ('Xq1', 's'):
                X = OBS[o](k)
                hv = k.of(m.symbolic_heisenberg_eom(X.e), heisenberg(H.r, Ls, X.r))
                labs = sorted({q for v in (hv.r, rho.r, ref, X.r) for q in v.out}, key=str)
                full = lambda v: sem.ptrace(v, labs)
                lhs, rhs = sem.mul(sem.den(hv.e, k.env), rho.r), sem.mul(X.r, sem.den(me.e, k.env))
                lhs, rhs = [sem.extend(v, [q for q in labs if q not in v.out], {q: 2 for q in labs}) if [q for q in labs if q not in v.out] else v for v in (lhs, rhs)]
                yield Eq('duality for ' + o, full(lhs), full(rhs))
        me0 = m.symbolic_master_equation()
        from qnet.algebra.core.operator_algebra import OperatorSymbol
        rho = k.wrap(OperatorSymbol('rho', hs=m.space))
        yield k.of(me0, schroedinger(H.r, Ls, rho.r)).eq('default density matrix')
    return f


def eom(s, l, h, obs):
    def f(cx):
        k = K()
        m, S, L, H = model(k, s, l, h)
        Ls = [q.r for q in L]
        for o in obs:
            X = OBS[o](k)
            for es in (True, False):
                yield k.of(m.symbolic_heisenberg_eom(X.e, expand_simplify=es), heisenberg(H.r, Ls, X.r)).eq('%s averaged %s' % (o, es))
        if obs[0] == 'X1' and not s.endswith('q'):
            d = m.symbolic_heisenberg_eom()
            from qnet.algebra.core.operator_algebra import OperatorSymbol
            X = k.wrap(OperatorSymbol('X', hs=m.L.space * m.H.space))
            yield k.of(d, heisenberg(H.r, Ls, X.r)).eq('default observable')
    return f


def noisy(s, l, h, o, form):
    def f(cx):
        from qnet.algebra.core.matrix_algebra import Matrix
        k = K()
        m, S, L, H = model(k, s, l, h)
        X = OBS[o](k)
        B = [k.op('b%d' % q, k.ls('e%d' % q)) for q in range(len(L))]
        noises = Matrix([[b.e] for b in B]) if form else [b.e for b in B]
        ref = langevin([[q.r for q in r] for r in S], [q.r for q in L], H.r, X.r, [b.r for b in B])
        e = m.symbolic_heisenberg_eom(X.e, noises=noises, expand_simplify=form)
        yield from unitary_eq(k.of(e, ref), 'langevin')
    return f


def unitary_eq(v, label):
    yield v.eq(label)


def linear(nm, nc, drive, squeeze, a0):
    """state-space matrices of a linear model"""
    def f(cx):
        from qnet.algebra.core.circuit_algebra import SLH, getABCD
        from qnet.algebra.core.matrix_algebra import Matrix
        from qnet.algebra.library.fock_operators import Destroy, Create
        from qnet.algebra.core.operator_algebra import IdentityOperator, ZeroOperator
        a = [Destroy(hs='m%d' % q) for q in range(nm)]
        lam = [[sympy.Symbol('l%d%d' % (c, q)) for q in range(nm)] for c in range(nc)]
        mu = [[sympy.Symbol('u%d%d' % (c, q)) if squeeze and c == 0 else sympy.Integer(0) for q in range(nm)] for c in range(nc)]
        cs = [sympy.Symbol('c%d' % c) if drive else sympy.Integer(0) for c in range(nc)]
        W = [[sympy.Symbol('w%d' % p, real=True) if p == q else sympy.Symbol('w%d%d' % (p, q)) if p < q else sympy.conjugate(sympy.Symbol('w%d%d' % (q, p))) for q in range(nm)] for p in range(nm)]
        z = [[sympy.Symbol('s%d%d' % (min(p, q), max(p, q))) if squeeze else sympy.Integer(0) for q in range(nm)] for p in range(nm)]
        ep = [sympy.Symbol('d%d' % q) if drive else sympy.Integer(0) for q in range(nm)]
        S = {1: [[sympy.exp(i * ph)]], 2: [[sympy.cos(th), -sympy.sin(th)], [sympy.sin(th), sympy.cos(th)]]}[nc]
        L = [[sum((lam[c][q] * a[q] + mu[c][q] * a[q].dag() for q in range(nm)), ZeroOperator) + cs[c] * IdentityOperator] for c in range(nc)]
        H = sum((W[p][q] * a[p].dag() * a[q] for p in range(nm) for q in range(nm)), ZeroOperator)
        cj = sympy.conjugate
        if squeeze:
            H = H + sum((z[p][q] / 2 * a[p].dag() * a[q].dag() + cj(z[p][q]) / 2 * a[p] * a[q] for p in range(nm) for q in range(nm)), ZeroOperator)
        if drive:
            H = H + sum((ep[q] * a[q].dag() + cj(ep[q]) * a[q] for q in range(nm)), ZeroOperator)
        m = SLH(Matrix(S), Matrix(L), H)
        al = [sympy.Symbol('alpha%d' % q) for q in range(nm)]
        kw = {'a0': {a[q]: al[q] for q in range(nm)}} if a0 else {}
        env = K().env
        sh = al if a0 else [sympy.Integer(0)] * nm
        # reference: da = A a + A' a^+ + B b + B' b^+ + v, out = S b + C a + C' a^+ + c
        hf = sympy.Rational(1, 2)
        R = range
        A1 = [[-i * W[p][q] - hf * sum(cj(lam[c][p]) * lam[c][q] - mu[c][p] * cj(mu[c][q]) for c in R(nc)) for q in R(nm)] for p in R(nm)]
        A2 = [[-i * z[p][q] - hf * sum(cj(lam[c][p]) * mu[c][q] - mu[c][p] * cj(lam[c][q]) for c in R(nc)) for q in R(nm)] for p in R(nm)]
        v = [-i * ep[p] - hf * sum(cj(lam[c][p]) * cs[c] - mu[c][p] * cj(cs[c]) for c in R(nc)) + sum(A1[p][q] * sh[q] + A2[p][q] * cj(sh[q]) for q in R(nm)) for p in R(nm)]
        B1 = [[-sum(cj(lam[c][p]) * S[c][d] for c in R(nc)) for d in R(nc)] for p in R(nm)]
        B2 = [[sum(mu[c][p] * cj(S[c][d]) for c in R(nc)) for d in R(nc)] for p in R(nm)]
        c1 = [cs[c] + sum(lam[c][q] * sh[q] + mu[c][q] * cj(sh[q]) for q in R(nm)) for c in R(nc)]
        bar = lambda M: [[cj(q) for q in r] for r in M]
        two = lambda M, N: [r + s_ for r, s_ in zip(M, N)] + [r + s_ for r, s_ in zip(bar(N), bar(M))]
        zz = [[0] * nc for _ in R(nc)]
        for du in (True, False):
            if squeeze and not du:
                continue
            got = dict(zip('ABCDac', getABCD(m, doubled_up=du, **kw)))
            if du:
                ref = {'A': two(A1, A2), 'B': two(B1, B2), 'C': two(lam, mu), 'D': two(S, zz), 'a': [[q] for q in v + [cj(q) for q in v]], 'c': [[q] for q in c1 + [cj(q) for q in c1]]}
            else:
                ref = {'A': A1, 'B': B1, 'C': lam, 'D': S, 'a': [[q] for q in v], 'c': [[q] for q in c1]}
            for n in 'ABCDac':
                M = got[n]
                yield Holds('%s shape' % n, tuple(M.shape) == (len(ref[n]), len(ref[n][0])), '%s' % (M.shape,))
                for r in R(len(ref[n])):
                    for c in R(len(ref[n][0])):
                        yield Eq('%s%s[%d,%d]' % (n, ' doubled' if du else '', r, c), sem.S(ring.as_poly(sem.val(M[r, c], env))), sem.S(ring.as_poly(sem.val(sympy.sympify(ref[n][r][c]), env))))
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    by = lambda D, n: [a for a in D if a.startswith('%d:' % n)]
    for n in (1, 2, 3):
        for a, l in enumerate(by(COUP, n)):
            for b, h in enumerate(HAM):
                if ('s' in (l[2:], h)) and ({'C', '2:A,D', '2', 'AD'} & {l[2:], h, l} or '2' in l or n == 3):
                    continue
                if q and (a + b + n) % 2 and h not in ('0', 'drive'):
                    continue
                out.append(Case('averaged/%s|%s' % (l, h), averaged('%d:1' % n, l, h), weight=4))
    for n in (1, 2, 3):
        for s in by(SCAT, n):
            for a, l in enumerate(by(COUP, n)):
                for b, h in enumerate(HAM):
                    if q and (a + b) % 4:
                        continue
                    sm = l[2:] in ('s',) or h == 's' or s.endswith('q')
                    obs = ['X1', 'A', 'I'] + (['s', 'sz'] if sm else ['X12', 'X2', 'X3', 'AX', 'Ad'])
                    if not q or n != 2:
                        out.append(Case('eom/%s|%s|%s' % (s, l, h), eom(s, l, h, obs), weight=4))
                    for c, o in enumerate(obs + (['Xq1'] if s.endswith('q') and n == 1 else [])):
                        if q and (a + b // 4 + c) % (3 if n > 1 else 2):
                            continue
                        if n == 3 and o not in ('A', 'I', 'X2'):
                            continue
                        for form in (0, 1):
                            out.append(Case('noise/%s|%s|%s|%s/%d' % (s, l, h, o, form), noisy(s, l, h, o, form), weight=4))
    for s in ('1:q', '2:q'):
        for l in by(COUP, int(s[0])):
            for o in ('s', 'sz', 'X1') if l not in ('1:C', '2:A,D', '2:AD') else ('sz',):
                out.append(Case('opS/%s|%s|%s' % (s, l, o), noisy(s, l, '0' if q else 's', o, 1), weight=5))
    for nm in (1, 2):
        for nc in (1, 2):
            for d, sq, a0 in itertools.product((0, 1), (0, 1), (0, 1)):
                if q and nm * nc == 4 and (sq or not d):
                    continue
                out.append(Case('abcd/%d%d/%d%d%d' % (nm, nc, d, sq, a0), linear(nm, nc, d, sq, a0), weight=10))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
