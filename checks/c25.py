"""C25: numeric conversion (QuTiP, SymPy matrix) represents the same operator in the ordered tensor basis."""
import sys
from itertools import product

import sympy

from qv import harness, sem, ring, symqutip, dse
from qv.dual import K
from qv.harness import Case, Eq, Holds

PROPERTY = 'C25'
MODULE = 'checks.c25'
LEVEL = 'translation_validation'
BUDGET = {'quick': 400, 'thorough': 6000}
EXPLANATION = ('the real conversion functions run on expressions with symbolic coefficients, phases and amplitudes and with symbols '
               'mapped to matrices of unknowns; their numeric library is replaced by a stand-in with QuTiP semantics over '
               'symbolic entries (each primitive is compared with the installed QuTiP at start-up); z3 decides entry by entry '
               'that the result is the matrix of the expression in the ordered tensor basis of the requested space')
BOUNDS = {'quick': 'local dimensions 2 to 4, spins 1/2 to 3/2, up to three degrees of freedom with every order of their order '
                   'indices; displacement, squeezing and coherent amplitudes as power series to total degree 3 (matrix '
                   'exponential of the truncated generator); every node with a conversion, sums/products/multiples/adjoints of '
                   'pairs; pseudo-inverses, null-space projectors (numeric SVD) and traces are outside',
          'thorough': 'as quick with triples'}
ASSUMPTIONS = ['the primitives of QuTiP follow the stand-in (compared numerically for small dimensions at start-up)',
               'a symbol is converted by the mapping the user supplies']
t, s = sympy.symbols('t s', real=True)
x, y = sympy.symbols('x y')
H = sympy.Rational(1, 2)


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def so():
    from qnet.algebra.core import super_operator_algebra as m
    return m


def fo(n):
    from qnet.algebra.library import fock_operators as m
    return getattr(m, n)


def sp():
    from qnet.algebra.library import spin_algebra as m
    return m


class Sys:
    """degrees of freedom: f (oscillator, 3 levels), q ('g','e'), j (spin 1), order decided by order indices"""

    def __init__(self, order='', spin=1, nf=3):
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        pos = {l: i for i, l in enumerate(order)}
        kw = lambda l: dict(order_index=pos[l]) if l in pos else {}   # noqa
        self.f = LocalSpace('f', dimension=nf, **kw('f'))
        self.q = LocalSpace('q', basis=('g', 'e'), **kw('q'))
        self.j = sp().SpinSpace('j', spin=spin, **kw('j'))
        self.k = K()
        self.env = self.k.env
        symqutip.ENV[0] = self.env
        self.symbols = []

    def all(self):
        return self.f * self.q * self.j

    def op(self, n):
        f, q, j = self.f, self.q, self.j
        S = oa().LocalSigma
        return {
            'a': lambda: fo('Destroy')(hs=f), 'ad': lambda: fo('Create')(hs=f), 'P': lambda: fo('Phase')(t, hs=f),
            'D': lambda: fo('Displace')(x, hs=f), 'Sq': lambda: fo('Squeeze')(x, hs=f),
            'n': lambda: fo('Create')(hs=f) * fo('Destroy')(hs=f), 'sge': lambda: S('g', 'e', hs=q),
            'seg': lambda: S('e', 'g', hs=q), 'see': lambda: S('e', 'e', hs=q), 's20': lambda: S(2, 0, hs=f),
            'jz': lambda: sp().Jz(hs=j), 'jp': lambda: sp().Jplus(hs=j), 'jm': lambda: sp().Jminus(hs=j),
            'sj': lambda: S(j.basis_labels[-1], j.basis_labels[0], hs=j),
            'A': lambda: self.sym(oa().OperatorSymbol('A', hs=q)), 'B': lambda: self.sym(oa().OperatorSymbol('B', hs=f)),
            'C': lambda: self.sym(oa().OperatorSymbol('C', hs=q * j)), 'E': lambda: self.sym(oa().OperatorSymbol('E', hs=f * j)),
            '1': lambda: oa().IdentityOperator, '0': lambda: oa().ZeroOperator,
            'a+ad': lambda: fo('Create')(hs=f) + fo('Destroy')(hs=f), 'ya': lambda: y * fo('Destroy')(hs=f),
            'a+s': lambda: fo('Destroy')(hs=f) + S('g', 'e', hs=q), 'a*s': lambda: fo('Destroy')(hs=f) * S('g', 'e', hs=q),
            's*j': lambda: S('g', 'e', hs=q) * sp().Jplus(hs=j), 'Ad': lambda: oa().Adjoint(self.op('A')),
            '(ya+s)^+': lambda: oa().Adjoint(y * fo('Destroy')(hs=f) + S('g', 'e', hs=q)),
            'P^+': lambda: oa().Adjoint(fo('Phase')(t, hs=f)), '1+y s': lambda: 1 + y * S('g', 'e', hs=q),
            '|g><e|': lambda: st().BasisKet('g', hs=q) * st().BasisKet('e', hs=q).dag(),
            '|ge><x|': lambda: st().KetBra(st().BasisKet('g', hs=q) + y * st().BasisKet('e', hs=q), st().BasisKet('e', hs=q)),
            'i': lambda: 1j * oa().IdentityOperator, '2a': lambda: 2 * fo('Destroy')(hs=f),
            '(0.5-1.5i)s': lambda: (0.5 - 1.5j) * S('g', 'e', hs=q),
        }[n]()

    def sym(self, e):
        if e not in self.symbols:
            self.symbols.append(e)
        return e

    def ket(self, n):
        f, q, j = self.f, self.q, self.j
        B = st().BasisKet
        return {
            '0': lambda: B(0, hs=f), '2': lambda: B(2, hs=f), 'g': lambda: B('g', hs=q), 'e': lambda: B('e', hs=q),
            'up': lambda: B(j.basis_labels[-1], hs=j), 'dn': lambda: B(j.basis_labels[0], hs=j),
            'x': lambda: st().CoherentStateKet(x, hs=f), 'yg': lambda: y * B('g', hs=q),
            'g+ye': lambda: B('g', hs=q) + y * B('e', hs=q), '0g': lambda: B(0, hs=f) * B('g', hs=q),
            '1e': lambda: B('e', hs=q) * B(1, hs=f), 'Psi': lambda: self.sym(st().KetSymbol('Psi', hs=q)),
            '0g+y1e': lambda: B(0, hs=f) * B('g', hs=q) + y * (B(1, hs=f) * B('e', hs=q)),
            '2g up': lambda: B(j.basis_labels[-1], hs=j) * B('g', hs=q) * B(2, hs=f),
            'A g': lambda: st().OperatorTimesKet(self.op('A'), B('g', hs=q)),
            'ad 1': lambda: st().OperatorTimesKet(fo('Create')(hs=f), B(1, hs=f)),
            'a(2g)': lambda: st().OperatorTimesKet(fo('Destroy')(hs=f), B(2, hs=f) * B('g', hs=q)),
            'Psi 1': lambda: self.sym(st().KetSymbol('Psi', hs=q)) * B(1, hs=f),
        }[n]()

    def sup(self, n):
        P, O = so().SPre.create, so().SPost.create
        op = self.op
        return {
            'L a': lambda: P(op('a')), 'R s': lambda: O(op('sge')), 'L ya+s': lambda: P(op('a+s') * y), 'R A': lambda: O(op('A')),
            'LR': lambda: P(op('seg')) * O(op('sge')), 'L+R': lambda: P(op('sge')) + y * O(op('see')), '1': lambda:
            so().IdentitySuperOperator, '0': lambda: so().ZeroSuperOperator, 'y1': lambda: y * so().IdentitySuperOperator,
            'lind': lambda: so().lindblad(y * op('sge')), 'lindA': lambda: so().lindblad(op('A')),
            'comm': lambda: y * so().commutator(op('A')), 'La Rs': lambda: P(op('a')) * O(op('sge')),
            'acomm': lambda: so().anti_commutator(op('see')), 'L jp': lambda: P(op('jp')), 'LsRsR': lambda: P(op('seg')) * O(op('A')) + P(op('A')) * O(op('sge')),
        }[n]()

    # -- conversions
    def mapping(self, how='map'):
        m = {}
        for e in self.symbols:
            q = from_T(sem.den(e, self.env), e.space, self.env, isinstance(e, st().State))
            m[e] = q if how == 'map' else (lambda _, q=q: q)
        return m

    def qutip(self, e, full=None, how='map'):
        from qnet.convert import to_qutip as M
        with Patched(M):
            kw = {} if full is None else dict(full_space=full)
            if self.symbols:
                kw['mapping'] = self.mapping(how)
            return M.convert_to_qutip(e, **kw)

    def sympy(self, e, full=None):
        from qnet.convert.to_sympy_matrix import convert_to_sympy_matrix
        import sympy.matrices as sm
        old = sm.MatrixBase.exp
        sm.MatrixBase.exp = mexp
        try:
            return convert_to_sympy_matrix(e) if full is None else convert_to_sympy_matrix(e, full)
        finally:
            sm.MatrixBase.exp = old

    def ref(self, e, hs):
        r = sem.den(e, self.env)
        labels, dims = self.env.local(hs)
        if 'SuperOperator' in sem.clsnames(e) or r.sup:
            full = [sem.lab(l, sd) for l in labels for sd in 'LR']
            r = sem.extend(r, [l for l in full if l not in r.out], {l: dims[l[0]] for l in full})
            return r
        if r.in_ == () and r.out:
            return r
        return sem.extend(r, [l for l in labels if l not in r.out], dims)


def mexp(G):
    """exponential as a power series up to the degree of the case"""
    r = u = sympy.eye(G.rows)
    for n in range(1, ring.MAXGRADE[0] + 1):
        u = (u * G) / n
        r = r + u
    return r


class Patched:
    """replaces qutip and complex() in the module under test"""

    def __init__(self, M):
        self.M = M

    def __enter__(self):
        self.old = self.M.qutip
        self.M.qutip = symqutip.Module
        self.M.complex = symqutip.sym_complex

    def __exit__(self, *a):
        self.M.qutip = self.old
        del self.M.complex


def from_T(T, hs, env, ket=False):
    facs = [l.label for l in hs.local_factors]
    dims = tuple(env.dim(l) for l in hs.local_factors)
    perm = [T.out.index(l) for l in facs]
    f = lambda u: tuple(u[p] for p in perm)   # noqa
    one = (0,) * len(facs)
    return symqutip.Q.mk(dims, (1,) * len(facs) if ket else dims, {(f(o), one if ket else f(i)): v for (o, i), v in T.d.items()})


def mat_T(m, hs, env):
    """SymPy matrix in the ordered tensor basis -> T"""
    facs = list(hs.local_factors)
    labels = [l.label for l in facs]
    dims = {l.label: env.dim(l) for l in facs}
    idx = list(product(*[range(dims[l]) for l in labels]))
    if not hasattr(m, 'shape'):
        if m == 0:
            return sem.S(0)
        raise sem.IllTyped('no matrix: %r' % (m,))
    if tuple(m.shape) != (len(idx), len(idx)):
        raise sem.IllTyped('shape %s' % (m.shape,))
    order = sem.srt(labels)
    perm = [labels.index(l) for l in order]
    f = lambda u: tuple(u[p] for p in perm)   # noqa
    d = {}
    for r in range(len(idx)):
        for c in range(len(idx)):
            v = sem.val(m[r, c], env)
            if v.t:
                d[(f(idx[r]), f(idx[c]))] = v
    return sem.T(order, order, d, dims)


ORD = ['', 'fqj', 'jqf', 'qjf', 'jfq']


def spaces(S, e):
    own = e.space
    out = [own] if str(type(own).__name__) not in ('TrivialSpace', 'FullSpace') else []
    for h in (S.f * S.q, S.q * S.j, S.f * S.j, S.all()):
        if type(own).__name__ == 'TrivialSpace' or own <= h:
            if h not in out:
                out.append(h)
    return out


def check(S, e, tag, which, sup=False, hows=('map',)):
    for hs in (spaces(S, e) if which != 'own' else [e.space]):
        nm = '%s in %s' % (tag, '*'.join(str(l.label) for l in hs.local_factors))
        r = S.ref(e, hs)
        for how in hows:
            q = S.qutip(e, hs, how)
            yield Eq('qutip ' + nm, symqutip.to_T(q, hs, S.env, sup), r)
        if hs == e.space:
            q = S.qutip(e)
            yield Eq('qutip default space ' + nm, symqutip.to_T(q, hs, S.env, sup), r)


def sy(S, e, tag):
    for hs in spaces(S, e):
        nm = '%s in %s' % (tag, '*'.join(str(l.label) for l in hs.local_factors))
        yield Eq('sympy ' + nm, mat_T(S.sympy(e, hs), hs, S.env), S.ref(e, hs))
        if hs == e.space:
            yield Eq('sympy default space ' + nm, mat_T(S.sympy(e), hs, S.env), S.ref(e, hs))


OPS = ('a', 'ad', 'P', 'D', 'Sq', 'n', 'sge', 'seg', 'see', 's20', 'jz', 'jp', 'jm', 'sj', 'A', 'B', '1', '0', 'a+ad', 'ya',
       'a+s', 'a*s', 's*j', 'Ad', '(ya+s)^+', 'P^+', '1+y s', '|g><e|', 'i', '2a', '(0.5-1.5i)s', 'C', 'E', '|ge><x|')
KETS = ('0', '2', 'g', 'e', 'up', 'dn', 'x', 'yg', 'g+ye', '0g', '1e', 'Psi', '0g+y1e', '2g up', 'A g', 'ad 1', 'a(2g)', 'Psi 1')
SUPS = ('L a', 'R s', 'L ya+s', 'R A', 'LR', 'L+R', '1', '0', 'y1', 'lind', 'lindA', 'comm', 'acomm', 'La Rs', 'L jp', 'LsRsR')


def is_sym(n):
    return any(c in n for c in ('A', 'B', 'C', 'E')) or n == 'Ad'


def one(n, order, spin):
    def f(cx):
        S = Sys(order, spin)
        e = S.op(n)
        for o in check(S, e, n, 'all', hows=('map', 'call') if is_sym(n) else ('map',)):
            yield o
        if not is_sym(n) and n[0] != '|':
            for o in sy(S, e, n):
                yield o
    return f


def pair(a, b, order):
    def f(cx):
        fock = set('aDSnP') & set(a[0] + b[0]) or '(' in a + b
        S = Sys(order, nf=5 if fock else 3)
        u, v = S.op(a), S.op(b)
        both = {'product': u * v, 'sum': u + y * v, 'adjoint of product': oa().Adjoint.create(u * v)}
        multi_sym = any(n in ('C', 'E', '|ge><x|') for n in (a, b))
        for nm, e in both.items():
            if multi_sym and (nm != 'sum'):
                continue                 # refused with a documented ValueError
            if type(e.space).__name__ == 'TrivialSpace':
                continue
            # products of sums are expanded first, where a a^+ = a^+ a + 1 holds below the truncation only
            guard = {'f': 3} if fock and nm != 'sum' else None
            if guard and {a, b} & {'D', 'Sq'}:
                if '+s' in a + b or '1+' in a + b:
                    continue
                guard = None
            hs = S.all()
            r = S.ref(e, hs)
            yield Eq('qutip ' + nm, symqutip.to_T(S.qutip(e, hs), hs, S.env), r, guard)
            yield Eq('qutip own space ' + nm, symqutip.to_T(S.qutip(e), e.space, S.env), S.ref(e, e.space), guard)
            if not is_sym(a + b) and '|' not in a + b and order == '':
                yield Eq('sympy ' + nm, mat_T(S.sympy(e, hs), hs, S.env), r, guard)
    return f


def ket(n, order):
    def f(cx):
        S = Sys(order)
        e = S.ket(n)
        yield Eq('qutip ' + n, symqutip.to_T(S.qutip(e), e.space, S.env), S.ref(e, e.space))
        yield Eq('qutip multiple ' + n, symqutip.to_T(S.qutip(y * e), e.space, S.env), S.ref(y * e, e.space))
        if S.symbols:
            yield Eq('qutip callable ' + n, symqutip.to_T(S.qutip(e, None, 'call'), e.space, S.env), S.ref(e, e.space))
        b = st().Bra(e)
        k2 = S.ket(n)
        for a in ('sge', 'a', 'n', 'jp', 'A'):
            o = S.op(a)
            if o.space <= e.space:
                w = st().OperatorTimesKet(o, e)
                yield Eq('qutip %s|%s>' % (a, n), symqutip.to_T(S.qutip(w), e.space, S.env), S.ref(w, e.space))
    return f


def sup(n, order):
    def f(cx):
        S = Sys(order)
        e = S.sup(n)
        for o in check(S, e, n, 'all', sup=True):
            yield o
        for a in ('sge', 'a', 'A', 'a*s'):
            o = S.op(a)
            w = so().SuperOperatorTimesOperator(e, o)
            hs = w.space
            if type(hs).__name__ in ('TrivialSpace', 'FullSpace'):
                continue
            yield Eq('applied to ' + a, symqutip.to_T(S.qutip(w, hs), hs, S.env), S.ref(w, hs))
    return f


def spair(a, b):
    def f(cx):
        S = Sys()
        u, v = S.sup(a), S.sup(b)
        for nm, e in (('product', u * v), ('sum', u + (y * v))):
            hs = S.f * S.q
            if not e.space <= hs:
                hs = S.all() if False else e.space * S.q
            yield Eq(nm, symqutip.to_T(S.qutip(e, hs), hs, S.env, True), S.ref(e, hs))
    return f


def slh(n):
    """(H, Ls) of a model, with and without time dependence"""
    def f(cx):
        from qnet.algebra.core.circuit_algebra import SLH
        from qnet.convert import to_qutip as M
        S = Sys()
        g = sympy.Symbol('g')
        a, ad, sge = S.op('a'), S.op('ad'), S.op('sge')
        Sm = {1: [[1]], 2: [[1, 0], [0, 1]]}
        m = {'plain': lambda: SLH(Sm[1], [y * a], (g * sympy.conjugate(g)) * ad * a), 'drive': lambda: SLH(Sm[1], [y * a + g], ad * a),
             'two': lambda: SLH(Sm[2], [y * a, sge], ad * a + (1j * ad * sge - 1j * a * sge.dag())),
             'scalar': lambda: SLH(Sm[2], [g, y * sge], sge.dag() * sge), 'zero': lambda: SLH(Sm[1], [0], y * ad * a),
             'jc': lambda: SLH(Sm[1], [y * sge], g * (ad * sge) + sympy.conjugate(g) * (a * sge.dag())),
             }[n]()
        for hs in ([m.space] if m.space == S.f * S.q else [m.space, S.f * S.q]):
            with Patched(M):
                Hq, Ls = M.SLH_to_qutip(m, full_space=hs) if hs != m.space else M.SLH_to_qutip(m)
            L = [sem.den(l, S.env) for l in m.Ls]
            c = [scalar_part(l) for l in m.Ls]
            Lr = [sem.sub(l, sem.S(z)) if True else l for l, z in zip(L, [sem.val(z, S.env) for z in c])]
            Hr = sem.den(m.H, S.env)
            from fractions import Fraction
            for l, z in zip(Lr, [sem.val(z, S.env) for z in c]):
                # L = L' + z: H += i (z* L' - z L'^+) / 2
                d = sem.sub(sem.scale(z.conj(), l), sem.scale(z, sem.dag(l)))
                Hr = sem.add(Hr, sem.scale(ring.I * ring.const(Fraction(1, 2)), d))
            yield Eq('H', symqutip.to_T(Hq, hs, S.env), ext(S, Hr, hs))
            keep = [l for l in Lr if any(v.t for v in l.d.values())]
            yield Holds('number of couplings', len(Ls) == len(keep))
            for i, (q, l) in enumerate(zip(Ls, keep)):
                yield Eq('L%d' % i, symqutip.to_T(q, hs, S.env), ext(S, l, hs))
    return f


def scalar_part(l):
    from qnet.algebra.core.scalar_algebra import is_scalar
    if is_scalar(l):
        return l
    l = l.expand()
    for o in (l.operands if type(l).__name__ == 'OperatorPlus' else (l,)):
        if type(o).__name__ == 'ScalarTimesOperator' and o.term is oa().IdentityOperator:
            return o.coeff
        if o is oa().IdentityOperator:
            return 1
    return 0


def ext(S, r, hs):
    labels, dims = S.env.local(hs)
    return sem.extend(r, [l for l in labels if l not in r.out], dims)


def timedep(n, mode):
    """f_0(t) Q_0 + f_1(t) Q_1 + ... equals the operator at every time"""
    def f(cx):
        from qnet.convert import to_qutip as M
        S = Sys()
        tt = sympy.Symbol('t', real=True)
        g, gI = sympy.symbols('g g_I')
        a, ad, sge = S.op('a'), S.op('ad'), S.op('sge')
        e = {
            'tx': lambda: tt * (a + ad), 'n+tx': lambda: ad * a + g * tt * a + g * ad, 'poly': lambda: (1 + tt) ** 2 * a + 2 * ad,
            'i': lambda: sympy.I * tt * sge - sympy.I * tt * sge.dag() + 3 * ad * a, 'gI': lambda: gI * tt * a + 2 * sge,
            'static': lambda: g * a + 2 * sge, 'two': lambda: (tt * a + g * ad) * sge, 'one': lambda: tt * a,
            'sq': lambda: tt ** 2 * ad * a + tt * g * ad * a + g * a + 1j * ad, 'Ii': lambda: (2 + 3j) * tt * a + sympy.I * g * ad,
        }[n]()
        hs = S.f * S.q
        with Patched(M):
            # static coefficients are numbers for QuTiP; symbolic here
            r = M._time_dependent_to_qutip(e, hs, time_symbol=tt, convert_as=mode)
        items = r if isinstance(r, list) and not (len(r) == 2 and isinstance(r[0], symqutip.Q) and not isinstance(r[1], (list, symqutip.Q))) else [r]
        if not isinstance(items, list):
            items = [items]
        tot = None
        for it in items:
            if isinstance(it, symqutip.Q):
                q, c = it, ring.ONE
            else:
                q, c = it
                if mode == 'pyfunc':
                    c = c(tt, {})
                else:
                    ns = {v.name: v for v in (tt, g, gI)}
                    ns.update(sqrt=sympy.sqrt, exp=sympy.exp, sin=sympy.sin, cos=sympy.cos, pi=sympy.pi)
                    c = eval(c, {'__builtins__': {}}, ns)
                c = sem.val(sympy.nsimplify(c, rational=True) if isinstance(c, sympy.Basic) else c, S.env)
            u = sem.scale(c, symqutip.to_T(q, hs, S.env))
            tot = u if tot is None else sem.add(tot, u)
        yield Eq('sum of f_i(t) Q_i', tot, S.ref(e, hs))
    return f


def refuse():
    def f(cx):
        from qnet.algebra.core.exceptions import AlgebraError
        S = Sys()
        for nm, e, hs in (('outside', S.op('a'), S.q), ('outside product', S.op('a*s'), S.f), ('outside ket', S.ket('0g'), S.q)):
            try:
                S.qutip(e, hs)
                yield Holds(nm, False)
            except ValueError:
                yield Holds(nm, True)
        for nm, e, hs in (('outside', S.op('a'), S.q), ('outside product', S.op('a*s'), S.f)):
            try:
                S.sympy(e, hs)
                yield Holds('sympy ' + nm, False)
            except ValueError:
                yield Holds('sympy ' + nm, True)
        try:
            S.qutip(S.op('1'))
            yield Holds('trivial', False)
        except AlgebraError:
            yield Holds('trivial', True)
        # without a mapping an unknown symbol and a symbolic coefficient have no matrix
        from qnet.convert.to_qutip import convert_to_qutip
        for nm, e in (('symbol', oa().OperatorSymbol('A', hs=S.q)), ('coefficient', y * S.op('sge'))):
            try:
                convert_to_qutip(e)
                yield Holds(nm, False)
            except (ValueError, TypeError):
                yield Holds(nm, True)
    return f


def standin(cx):
    bad = symqutip.selfcheck()
    if bad:
        raise RuntimeError('stand-in disagrees with QuTiP: %s' % bad)
    yield Holds('stand-in', True)


def cases(tier):
    th = tier == 'thorough'
    out = [Case('stand-in', standin), Case('refused', refuse())]

    def opts(*ns):
        return dict(maxgrade=3, grades={'x': 1}) if any(n in ('D', 'Sq', 'x') for n in ns) else {}
    for n in OPS:
        for order in ORD:
            for spin in (1, H, 3 * H) if n in ('jz', 'jp', 'jm', 'sj', 's*j') else (1,):
                out.append(Case('op/%s/%s/%s' % (n, order, spin), one(n, order, spin), weight=2, **opts(n)))
    for n in KETS:
        for order in ORD:
            out.append(Case('ket/%s/%s' % (n, order), ket(n, order), **opts(n)))
    for n in SUPS:
        for order in ORD if th else ORD[:3]:
            out.append(Case('super/%s/%s' % (n, order), sup(n, order), weight=3))
        for m in SUPS:
            out.append(Case('super/%s|%s' % (n, m), spair(n, m), weight=3))
    for a in OPS:
        for b in OPS:
            for order in ORD if th else ORD[:1] + ORD[3:4]:
                out.append(Case('op/%s|%s/%s' % (a, b, order), pair(a, b, order), weight=2, **opts(a, b)))
    for n in ('plain', 'drive', 'two', 'scalar', 'zero', 'jc'):
        out.append(Case('slh/' + n, slh(n)))
    for n in ('tx', 'n+tx', 'poly', 'i', 'gI', 'static', 'two', 'one', 'sq', 'Ii'):
        for mode in ('pyfunc', 'str'):
            out.append(Case('time/%s/%s' % (n, mode), timedep(n, mode)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
