"""C20: circuit composition with all rewriting describes the composed network."""
import itertools
import sys

import sympy

from qv import harness, sem, ring, slh
from qv.dual import K
from qv.harness import Case, Eq, Holds
from qv.slh import Net, generic

PROPERTY = 'C20'
MODULE = 'checks.c20'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('circuit expressions are built by the real code (all rewriting active) from components with arbitrary unitary scattering matrix, '
               'coupling vector and Hamiltonian; z3 decides that the scattering matrix, couplings and Hamiltonian of the rewritten expression equal '
               'those of the composed components under the series, concatenation and feedback formulas, for all values; loops are closed symbolically '
               '(the reciprocal of 1 - S is cleared before the query)')
BOUNDS = {'quick': 'circuits of 1-4 channels built from at most four components, permutations of up to four channels, identities, inverses and loops; every '
                   'pair of the listed shapes in series and in parallel, every output/input pair for feedback, two nested loops; SLH objects with '
                   'operator couplings on 2-level systems',
          'thorough': 'as quick, all triples of shapes and all loops of pairs, permutations of five channels'}


def ca():
    import qnet.algebra.core.circuit_algebra as m
    return m


class C:
    """a circuit expression together with the reference network"""

    def __init__(self, e, r, t):
        self.e, self.r, self.t = e, r, t

    def __lshift__(self, o):
        return C(self.e << o.e, slh.series(self.r, o.r), self.t)

    def __add__(self, o):
        return C(self.e + o.e, slh.concat(self.r, o.r), self.t)

    def fb(self, o, i):
        r = slh.feedback(self.r, o, i)
        return C(self.e.feedback(out_port=o, in_port=i), r, self.t)

    def inv(self):
        return C(self.e.series_inverse(), slh.inverse(self.r), self.t)

    def eq(self, label):
        yield Holds(label + ': cdim', self.e.cdim == self.r.n, '%s channels, expected %d' % (self.e.cdim, self.r.n))
        yield from slh.equal(label, slh.den(self.e, self.t.tab, self.t.env), self.r)


class Tab:
    def __init__(self):
        self.tab = {}
        self.k = K()
        self.env = self.k.env

    def sym(self, name, n):
        e = ca().CircuitSymbol(name, cdim=n)
        if e not in self.tab:
            self.tab[e] = generic(n, name)
        return C(e, self.tab[e], self)

    def perm(self, *p):
        return C(ca().CPermutation.create(p), slh.perm(p), self)

    def id(self, n):
        return C(ca().circuit_identity(n), slh.ident(n), self)

    def ser(self, *a):
        e, r = ca().SeriesProduct.create(*[x.e for x in a]), a[0].r
        for x in a[1:]:
            r = slh.series(r, x.r)
        return C(e, r, self)

    def cat(self, *a):
        return C(ca().Concatenation.create(*[x.e for x in a]), slh.concat(*[x.r for x in a]), self)

    def slh(self, n, which):
        """an SLH object with operator couplings"""
        from qnet.algebra.core.circuit_algebra import SLH
        from qnet.algebra.core.matrix_algebra import Matrix
        k = self.k
        A, B, X, Y = [k.op(q, k.ls(1)) for q in 'ABXY']
        a, s2 = k.op('a2', k.ls(2)), k.sig(0, 1, k.ls(2))
        x, y = sympy.symbols('x y')
        th = sympy.Symbol('th_' + which, real=True)
        ph = sympy.Symbol('ph_' + which, real=True)
        e1 = sympy.exp(sympy.I * ph)
        Ls = {'a': [A, x * B], 'b': [X * y, a], 'c': [A + x * k.one(), s2 * x], 'd': [k.of(0 * k.one().e, sem.S(ring.ZERO)), B], 'e': [A * B, Y], 'f': [x * k.one(), a + B * y]}[which]
        if n == 3:
            Ls = Ls + [s2 + y * X]
        Ls = Ls[:n]
        H = {'a': A + A.dag(), 'b': a * X + (a * X).dag(), 'c': k.zero(), 'd': 2 * (a.dag() * a), 'e': B * B.dag(), 'f': A.dag() * A}[which]
        c, s_ = sympy.cos(th), sympy.sin(th)
        S = {1: [[e1]], 2: [[c * e1, -s_], [s_ * e1, c]], 3: [[c, -s_, 0], [s_ * e1, c * e1, 0], [0, 0, 1]]}[n]
        if which == 'd' and n == 2:
            S = [[0, 1], [e1, 0]]
        if which == 'f' and n == 2:
            S = [[1, 0], [0, e1]]
        e = SLH(Matrix(S), Matrix([[l.e] for l in Ls]), H.e)
        v = lambda q: sem.val(sympy.sympify(q), k.env)
        return C(e, Net([[v(q) for q in r] for r in S], [slh.simple(l.r) for l in Ls], slh.simple(H.r)), self)


def lib(t):
    """the shapes: name -> (number of channels, circuit)"""
    A, A2, B, B2, G, D, F = t.sym('A', 1), t.sym('A2', 1), t.sym('B', 2), t.sym('B2', 2), t.sym('G', 3), t.sym('D', 3), t.sym('F', 2)
    i1 = t.id(1)
    out = {
        1: {'A': A, 'i': i1, 'A2<<A': A2 << A, 'A^-1': A.inv(), 'fbB': B.fb(1, 1), 'fbB01': B.fb(0, 1)},
        2: {'B': B, 'i2': t.id(2), 'A+A2': A + A2, 'i+A': i1 + A, 'A+i': A + i1, 'p10': t.perm(1, 0), 'B<<p': B << t.perm(1, 0), 'p<<B': t.perm(1, 0) << B, 'B^-1': B.inv(),
            'B2<<B': B2 << B, 'p<<(A+A2)': t.perm(1, 0) << (A + A2), '(A+i)<<p': (A + i1) << t.perm(1, 0), 'fbG12': G.fb(1, 2), 'B<<(A+i)': B << (A + i1), '(i+A)<<B': (i1 + A) << B,
            '(p<<(B))^-1': (t.perm(1, 0) << B).inv(), 'B<<B^-1': B << B.inv(), 'p<<(A+A2)<<B': t.perm(1, 0) << (A + A2) << B},
        3: {'G': G, 'B+A': B + A, 'A+B': A + B, 'A+A2+i': t.cat(A, A2, i1), 'i+A+i': t.cat(i1, A, i1), 'B+i': B + i1, 'i+B': i1 + B, 'i3': t.id(3), 'p120': t.perm(1, 2, 0), 'p102': t.perm(1, 0, 2),
            'p021': t.perm(0, 2, 1), 'p210': t.perm(2, 1, 0), 'p201': t.perm(2, 0, 1), 'p<<G': t.perm(1, 2, 0) << G, 'G<<p': G << t.perm(2, 1, 0), '(A+B)<<p': (A + B) << t.perm(2, 0, 1),
            'p<<(A+B)': t.perm(1, 2, 0) << (A + B), 'p<<(B+A)<<p': t.perm(1, 2, 0) << (B + A) << t.perm(2, 1, 0), 'D<<G': D << G, '(A+B)<<(B2+A2)': (A + B) << (B2 + A2), '(A+B)^-1': (A + B).inv(),
            'p10+A': t.perm(1, 0) + A, 'A+p10': A + t.perm(1, 0), '(B<<p)+A': (B << t.perm(1, 0)) + A, 'A+(B<<p)': A + (B << t.perm(1, 0)), 'fb(p10+B)': None, 'G^-1': G.inv()},
    }
    out[3]['fb(B+B2)12'] = (B + B2).fb(1, 2)
    out[3]['fb(B+B2)30'] = (B + B2).fb(3, 0)
    del out[3]['fb(p10+B)']
    out[4] = {'B+B2': B + B2, 'A+G': A + G, 'p2301': t.perm(2, 3, 0, 1), 'p1032': t.perm(1, 0, 3, 2), 'p1230': t.perm(1, 2, 3, 0), 'A+B+A2': t.cat(A, B, A2), '(B<<p)+(B2<<p)': (B << t.perm(1, 0)) + (B2 << t.perm(1, 0)),
              'p<<(B+B2)': t.perm(0, 2, 1, 3) << (B + B2), 'p10+B': t.perm(1, 0) + B, 'p<<(A+B+A2)': t.perm(3, 1, 0, 2) << t.cat(A, B, A2), 'p2301<<(B+B2)': t.perm(2, 3, 0, 1) << (B + B2)}
    return out


LIB = {1: ['A', 'i', 'A2<<A', 'A^-1', 'fbB', 'fbB01'],
       2: ['B', 'i2', 'A+A2', 'i+A', 'A+i', 'p10', 'B<<p', 'p<<B', 'B^-1', 'B2<<B', 'p<<(A+A2)', '(A+i)<<p', 'fbG12', 'B<<(A+i)', '(i+A)<<B', '(p<<(B))^-1', 'B<<B^-1', 'p<<(A+A2)<<B'],
       3: ['G', 'B+A', 'A+B', 'A+A2+i', 'i+A+i', 'B+i', 'i+B', 'i3', 'p120', 'p102', 'p021', 'p210', 'p201', 'p<<G', 'G<<p', '(A+B)<<p', 'p<<(A+B)', 'p<<(B+A)<<p', 'D<<G', '(A+B)<<(B2+A2)',
           '(A+B)^-1', 'p10+A', 'A+p10', '(B<<p)+A', 'A+(B<<p)', 'G^-1', 'fb(B+B2)12', 'fb(B+B2)30'],
       4: ['B+B2', 'A+G', 'p2301', 'p1032', 'p1230', 'A+B+A2', '(B<<p)+(B2<<p)', 'p<<(B+B2)', 'p10+B', 'p<<(A+B+A2)', 'p2301<<(B+B2)']}
HEAVY = {'D<<G', '(A+B)<<(B2+A2)', 'G^-1', 'p<<G', 'G<<p', 'G', 'fbG12', 'A+G', 'B2<<B', 'fb(B+B2)12', 'fb(B+B2)30'}


def closed(r, o, i):
    n = range(r.n)
    z = lambda a: isinstance(a, ring.Poly) and not a.t
    return all(z(r.S[o][l]) for l in n if l != i) and all(z(r.S[k][i]) for k in n if k != o)


def loop(c, o, i, label):
    try:
        w = c.fb(o, i)
    except slh.IllPosed:
        return
    except ValueError as e:
        if 'needs to be > 1' in str(e) and closed(c.r, o, i):
            return      # one channel looped to itself: not supported, and refused
        raise
    yield from w.eq('%s loop %d->%d' % (label, o, i))


def single(n, a):
    def f(cx):
        t = Tab()
        u = lib(t)[n][a]
        yield from u.eq('u')
        yield from u.inv().eq('u^-1')
        yield from u.inv().inv().eq('u^-1^-1')
        yield from C(u.e.creduce(), u.r, t).eq('creduce')
        yield from C(u.e << u.inv().e, slh.ident(n), t).eq('u u^-1')
        yield from C(u.inv().e << u.e, slh.ident(n), t).eq('u^-1 u')
        bs = u.e.block_structure
        yield Holds('blocks add up', sum(bs) == n)
        bl = u.e.get_blocks()
        yield Holds('block sizes', tuple(b.cdim for b in bl) == tuple(bs))
        r = None
        tot = [slh.den(b, t.tab, t.env) for b in bl]
        yield from slh.equal('blocks', slh.concat(*tot), u.r)
        for m in range(1, len(bs)):
            st = (sum(bs[:m]), sum(bs[m:]))
            b2 = u.e.get_blocks(st)
            yield Holds('coarse block sizes', tuple(b.cdim for b in b2) == st)
            yield from slh.equal('coarse blocks', slh.concat(*[slh.den(b, t.tab, t.env) for b in b2]), u.r)
        pos = [(a_, b_) for b_, w in enumerate(bs) for a_ in range(w)]
        for ch in range(n):
            yield Holds('index_in_block', u.e.index_in_block(ch) == pos[ch])
        for ch in (-1, n):
            try:
                u.e.index_in_block(ch)
                yield Holds('invalid channel is refused', False)
            except ValueError:
                pass
        if n > 1:
            for o in range(n):
                for i in range(n):
                    yield from loop(u, o, i, 'u')
            ok = lambda o, i: solvable(u.r, o, i) and not closed(u.r, o, i)
            yield from C(u.e.feedback(), slh.feedback(u.r, n - 1, n - 1), t).eq('default loop') if ok(n - 1, n - 1) else ()
            yield from C(ca().FB(u.e, in_port=0), slh.feedback(u.r, n - 1, 0), t).eq('FB in 0') if ok(n - 1, 0) else ()
            yield from C(ca().FB(u.e, out_port=0), slh.feedback(u.r, 0, n - 1), t).eq('FB out 0') if ok(0, n - 1) else ()
    return f


def solvable(r, o, i):
    try:
        slh.feedback(r, o, i)
        return True
    except slh.IllPosed:
        return False


def pair(n, a, b, loops):
    def f(cx):
        t = Tab()
        l = lib(t)
        u, v = l[n][a], l[n][b]
        w = u << v
        yield from w.eq('u<<v')
        yield from w.inv().eq('(u<<v)^-1')
        if n > 1:
            for o, i in loops:
                yield from loop(w, o, i, 'u<<v')
    return f


def par(n, a, m, b, loops):
    def f(cx):
        t = Tab()
        l = lib(t)
        u, v = l[n][a], l[m][b]
        w = u + v
        yield from w.eq('u+v')
        for o, i in loops:
            if o < n + m and i < n + m:
                yield from loop(w, o, i, 'u+v')
        if n + m <= 3:
            p = t.perm(*range(1, n + m), 0)
            yield from (p << w).eq('p<<(u+v)')
            yield from (w << p).eq('(u+v)<<p')
            yield from (p << w << p.inv()).eq('p<<(u+v)<<p^-1')
    return f


def triple(n, a, b, c):
    def f(cx):
        t = Tab()
        l = lib(t)[n]
        u, v, w = l[a], l[b], l[c]
        yield from ((u << v) << w).eq('(uv)w')
        yield from (u << (v << w)).eq('u(vw)')
        yield from t.ser(u, v, w).eq('create')
        x = (u << v) << w
        if n > 1:
            yield from loop(x, 0, n - 1, 'uvw')
            yield from loop(x, n - 1, 0, 'uvw')
    return f


def two_loops(n, a, o1, i1):
    """loops in any order give the same network"""
    def f(cx):
        t = Tab()
        u = lib(t)[n][a]
        for o2 in range(n):
            for i2 in range(n):
                if o2 == o1 or i2 == i1:
                    continue
                if not (solvable(u.r, o1, i1) and solvable(u.r, o2, i2)):
                    continue
                if closed(u.r, o1, i1):
                    continue
                w = u.fb(o1, i1)
                yield from loop(w, o2 - (o2 > o1), i2 - (i2 > i1), 'loops %d->%d, %d->%d' % (o1, i1, o2, i2))
    return f


def slh_case(n, a, b):
    def f(cx):
        t = Tab()
        u, v = t.slh(n, a), t.slh(n, b)
        yield from u.eq('u')
        yield from (u << v).eq('u<<v')
        yield from (u + v).eq('u+v')
        yield from u.inv().eq('u^-1')
        yield from (u.inv() << u).eq('u^-1<<u')
        if a != b:
            yield from C(u.e.series_inverse() << u.e, slh.ident(n), t).eq('u^-1<<u trivial')
        yield from C((u << v).e.expand(), (u << v).r, t).eq('expand')
        yield from C((u + v).e.simplify_scalar(), (u + v).r, t).eq('simplify')
        yield from (t.perm(*range(1, n), 0) << u).eq('p<<u')
        yield from C((t.perm(*range(1, n), 0) << u).e.toSLH(), (t.perm(*range(1, n), 0) << u).r, t).eq('toSLH(p<<u)')
        yield from C((u + t.id(1)).e.toSLH(), (u + t.id(1)).r, t).eq('toSLH(u+i)')
    return f


def slh_loop(n, a):
    def f(cx):
        t = Tab()
        u = t.slh(n, a)
        for o in range(n):
            for i in range(n):
                yield from loop(u, o, i, 'slh')
                if not solvable(u.r, o, i):
                    # an ill-posed loop is refused, not solved
                    try:
                        u.e.feedback(out_port=o, in_port=i)
                        yield Holds('ill-posed loop is refused', False)
                    except ca().AlgebraError:
                        pass
        if n == 2:
            v = t.slh(2, 'b')
            for o in range(4):
                for i in range(4):
                    if solvable((u + v).r, o, i):
                        yield from loop(u + v, o, i, 'slh+slh')
    return f


def components(cx):
    """toSLH of circuits of library components"""
    from qnet.algebra.library.circuit_components import Beamsplitter, PhaseCC, CoherentDriveCC
    t = Tab()
    th = sympy.Symbol('theta', real=True)
    al, be = sympy.symbols('alpha beta')
    ph = sympy.Symbol('phi', real=True)
    v = lambda q: sem.val(sympy.sympify(q), t.env)
    cos, sin = sympy.cos, sympy.sin

    def bs(label, a):
        return C(Beamsplitter(label=label, mixing_angle=a), Net([[v(cos(a)), v(-sin(a))], [v(sin(a)), v(cos(a))]], [ring.ZERO] * 2, ring.ZERO), t)
    b1, b2 = bs('BS1', th), bs('BS2', 2 * ph)
    p = C(PhaseCC(phase=ph), Net([[v(sympy.exp(sympy.I * ph))]], [ring.ZERO], ring.ZERO), t)
    w = C(CoherentDriveCC(displacement=al), Net([[ring.ONE]], [v(al)], ring.ZERO), t)
    w2 = C(CoherentDriveCC(label='W2', displacement=be * al), Net([[ring.ONE]], [v(be * al)], ring.ZERO), t)
    i1 = t.id(1)
    s1 = t.slh(1, 'a')
    todo = {'b1': b1, 'b2<<b1': b2 << b1, 'mz': b2 << (p + i1) << b1, 'drive': b1 << (w + i1), 'drive2': b1 << (w + w2), 'w<<w2': w << w2, 'perm': t.perm(1, 0) << b1 << (w + p), 'mix': b1 << (s1 + i1) << (w + i1),
            'inv': (b1 << (w + p)).inv(), 'cat': t.cat(b1, p, w), 'loop': (b1 + p).fb(1, 2), 'loop2': (t.perm(0, 2, 1) << (b1 + p) << t.perm(1, 0, 2)).fb(2, 2), 's1<<w': s1 << w, 'w<<s1': w << s1, 'i2': t.id(2), 'p': t.perm(2, 0, 1),
            'slhloop': (b1 << (s1 + i1)).fb(1, 0)}
    for n, c in todo.items():
        yield from c.eq(n)
        yield from C(c.e.toSLH(), c.r, t).eq(n + ' toSLH')
        yield from C(c.e.toSLH().expand().simplify_scalar(), c.r, t).eq(n + ' toSLH simplified')
        if n not in ('loop', 'loop2', 'slhloop') and c.r.n > 1:
            for o, i in ((0, 0), (1, 0), (0, 1)):
                if solvable(c.r, o, i):
                    w_ = c.fb(o, i)
                    yield from w_.eq('%s loop %d %d' % (n, o, i))
                    yield from C(w_.e.toSLH(), w_.r, t).eq('%s loop %d %d toSLH' % (n, o, i))


def trivial(cx):
    """identities and the empty circuit are neutral"""
    m = ca()
    t = Tab()
    l = lib(t)
    for n in (1, 2, 3):
        for a in LIB[n]:
            u = l[n][a].e
            yield Holds('%s << 1' % a, (u << m.circuit_identity(n)) == u and (m.circuit_identity(n) << u) == u)
            yield Holds('%s + 0' % a, (u + m.CircuitZero) == u and (m.CircuitZero + u) == u)
            for q in (1, 2, 3):
                if q != n:
                    try:
                        u << m.circuit_identity(q)
                        yield Holds('series of %d and %d channels is refused' % (n, q), False)
                    except ValueError:
                        pass
    yield Holds('identity of no channels', m.circuit_identity(0) == m.CircuitZero and m.CircuitZero.cdim == 0)
    for n in range(1, 5):
        yield Holds('identity channels', m.circuit_identity(n).cdim == n)
        yield Holds('identity permutation', m.CPermutation.create(tuple(range(n))) == m.circuit_identity(n))
        from qnet.utils.permutations import BadPermutationError
        for bad in ([0] * (n + 1), list(range(1, n + 1)), [-1] + list(range(1, n))):
            try:
                m.CPermutation.create(tuple(bad))
                yield Holds('bad permutation %r is refused' % bad, False)
            except BadPermutationError:
                pass


def perms(n):
    """permutation circuits: composition, inverse, blocks and loops"""
    def f(cx):
        t = Tab()
        ps = [t.perm(*p) for p in itertools.permutations(range(n))]
        for a in ps:
            for b in ps[::1 if n < 4 else 5]:
                yield from (a << b).eq('a<<b')
            yield from a.inv().eq('a^-1')
            yield from C(a.e.toSLH(), a.r, t).eq('toSLH')
            yield from slh.equal('blocks', slh.concat(*[slh.den(b, t.tab) for b in a.e.get_blocks()]), a.r)
            bs = a.e.block_structure
            for m in range(1, len(bs)):
                st = (sum(bs[:m]), sum(bs[m:]))
                if isinstance(a.e, ca().CPermutation):
                    yield from slh.equal('blocks %s of %s' % (st, a.e), slh.concat(*[slh.den(b, t.tab) for b in a.e.get_blocks(st)]), a.r)
            for o in range(n):
                for i in range(n):
                    yield from loop(a, o, i, str(a.e))
    return f


def perm_block(n, p, parts):
    """a permutation in front of and behind a concatenation"""
    def f(cx):
        t = Tab()
        for pt in parts:
            syms = t.cat(*[t.sym('XYZU'[j], w) if w else t.id(1) for j, w in enumerate(pt)])
            a = t.perm(*p)
            yield from (a << syms).eq('p<<%s' % (pt,))
            yield from (syms << a).eq('%s<<p' % (pt,))
            yield from (a.inv() << syms << a).eq('p^-1<<%s<<p' % (pt,))
            yield from ((a << syms) + t.sym('V', 1)).eq('p<<%s+V' % (pt,))
            yield from (t.sym('V', 1) + (syms << a)).eq('V+%s<<p' % (pt,))
            yield from ((syms << a) + (syms << a)).eq('twice') if n < 4 else ()
    return f


def cases(tier):
    q = tier == 'quick'
    out = []
    for n, names in LIB.items():
        for a in names:
            out.append(Case('one/%d/%s' % (n, a), single(n, a), weight=4))
    allp = {n: list(itertools.product(range(n), repeat=2)) for n in range(1, 7)}
    for n, names in LIB.items():
        for a in names:
            for b in names:
                lp = allp[n]
                if {a, b} & {'D<<G', 'fbG12', 'fb(B+B2)12'} and not {a, b} & {'i2', 'p10', 'A+A2', 'i+A', 'p120', 'p102', 'A+A2+i', 'i3', 'i+A+i'}:
                    continue
                if q:
                    hv = (a in HEAVY) + (b in HEAVY)
                    lp = [] if hv == 2 or n == 1 else [(0, n - 1), (n - 1, 0)] if hv or n == 4 else [(0, n - 1), (n - 1, 0), (1, 1)]
                out.append(Case('series/%d/%s|%s' % (n, a, b), pair(n, a, b, lp), weight=4))
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2)) + (() if q else ((1, 3), (3, 1))):
        for a in LIB[n]:
            for b in LIB[m]:
                lp = [(0, n + m - 1), (n + m - 1, 0)] if q else allp[n + m]
                if q and (n, m) == (2, 2) and (a in HEAVY or b in HEAVY):
                    lp = []
                out.append(Case('par/%d+%d/%s|%s' % (n, m, a, b), par(n, a, m, b, lp), weight=4))
    t3 = {1: ['A', 'A^-1', 'fbB'], 2: ['B', 'A+A2', 'p10', 'i+A', '(A+i)<<p', 'B^-1'], 3: ['A+B', 'B+i', 'p120', 'p021', 'p<<(A+B)', 'i+A+i']}
    for n, names in t3.items():
        for c in itertools.product(names if q else LIB[n], repeat=3):
            if len(set(c) & HEAVY) > 1:
                continue
            out.append(Case('triple/%d/%s' % (n, '|'.join(c)), triple(n, *c), weight=4))
    for n, names in ((3, ['G', 'B+A', 'A+B', 'p<<(A+B)', '(A+B)<<p', 'p<<(B+A)<<p', '(A+B)<<(B2+A2)', 'A+A2+i', 'p10+A']), (4, ['B+B2', 'A+B+A2', 'p<<(B+B2)', 'p<<(A+B+A2)'])):
        for a in names:
            for o, i in (allp[n] if not q or n == 3 else [(0, 3), (3, 0), (1, 2), (2, 2)]):
                out.append(Case('loops/%d/%s/%d-%d' % (n, a, o, i), two_loops(n, a, o, i), weight=8))
    for a, b in itertools.product('abcdef', repeat=2):
        for n in (1, 2) if q else (1, 2, 3):
            if q and n == 2 and (ord(a) + ord(b)) % 3:
                continue
            out.append(Case('slh/%d/%s%s' % (n, a, b), slh_case(n, a, b), weight=6))
    for a in 'abcdef':
        out.append(Case('slhloop/2/' + a, slh_loop(2, a), weight=8))
        out.append(Case('slhloop/3/' + a, slh_loop(3, a), weight=8))
    out += [Case('components', components, weight=10), Case('trivial', trivial), Case('perms/2', perms(2)), Case('perms/3', perms(3)), Case('perms/4', perms(4), weight=8)]
    parts = {3: [(1, 2), (2, 1), (1, 1, 1), (0, 2), (1, 0, 1)], 4: [(2, 2), (1, 3), (1, 2, 1), (2, 1, 1), (1, 0, 2)], 5: [(2, 3), (1, 2, 2), (2, 0, 2)]}
    for n in (3, 4) if q else (3, 4, 5):
        for p in itertools.permutations(range(n)):
            out.append(Case('permblock/%s' % ''.join(map(str, p)), perm_block(n, p, parts[n]), weight=3))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
