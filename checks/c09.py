"""C09: the adjoint is a conjugate-linear involution reversing products."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import c01, c02, c05, c06

PROPERTY = 'C09'
MODULE = 'checks.c09'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('the real adjoint of every scalar, operator, ket, bra, superoperator and matrix shape, and of sums, products and '
               'multiples of pairs of them, is compared by z3 with the conjugate transpose (trace dual for superoperators) of '
               'the operand, for all matrix elements and coefficients; adjoint twice gives an equal expression')
BOUNDS = {'quick': 'two/three-level systems, oscillators truncated to 9 levels, compared on the lowest 3 (exact), displacement and '
                   'squeezing as power series up to total degree 4, spins 1/2..3/2; all shapes and all pairs from the lists; '
                   'matrices up to 2x3', 'thorough': 'as quick, with triples'}
x, y = sympy.symbols('x y')
t = sympy.Symbol('t', real=True)


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def fock(k):
    return k.ls('f')


def lib(mod, name):
    import importlib
    return getattr(importlib.import_module('qnet.algebra.library.' + mod), name)


def fk(name, *args):
    return lambda k: k.wrap(lib('fock_operators', name)(*args, hs=fock(k)))


def spin(name, s):
    def f(k):
        SpinSpace = lib('spin_algebra', 'SpinSpace')
        return k.wrap(lib('spin_algebra', name)(hs=SpinSpace('s', spin=s)))
    return f


H = sympy.Rational(1, 2)


def isum(k, kind):
    """sum_i c_i ... over a three-level system"""
    from qnet.utils.indices import IdxSym, FockIndex, IndexOverRange
    i, j = IdxSym('i'), IdxSym('j')
    s = k.ls('q', dimension=3)
    c = sympy.IndexedBase('c')
    if kind == 'op':
        e = oa().OperatorIndexedSum.create(c[i, j] * oa().LocalSigma(FockIndex(i), FockIndex(j), hs=s),
                                           IndexOverRange(i, 0, 2), IndexOverRange(j, 0, 2))
        r = sem.S(0)
        for a in range(3):
            for b in range(3):
                r = sem.add(r, (k.sc(c[a, b]) * k.sig(a, b, s)).r)
        return k.of(e, r)
    raise KeyError(kind)


FOCK = {
    'a': fk('Destroy'), 'ad': fk('Create'), 'P': fk('Phase', t), 'D': fk('Displace', x), 'Sq': fk('Squeeze', x),
    'a*a': lambda k: fk('Destroy')(k) * fk('Destroy')(k), 'ad*a': lambda k: fk('Create')(k) * fk('Destroy')(k),
    'xa': lambda k: (1j * y) * fk('Destroy')(k), 'P*a': lambda k: fk('Phase', t)(k) * fk('Destroy')(k),
    'a+ad': lambda k: fk('Create')(k) + (y * fk('Destroy')(k)),
    'D*P': lambda k: fk('Displace', x)(k) * fk('Phase', t)(k),
}
SPIN = {'%s_%s' % (n, s): spin(n, s) for n in ('Jz', 'Jplus', 'Jminus') for s in (H, 1, 3 * H)}
SPIN['Jp*Jz'] = lambda k: spin('Jplus', 1)(k) * spin('Jz', 1)(k)
SPIN['xJm+Jp'] = lambda k: (x * spin('Jminus', 1)(k)) + spin('Jplus', 1)(k)
OPX = {
    'isum': lambda k: isum(k, 'op'),
    'cc*': lambda k: k.call(lambda a: oa().OperatorPlusMinusCC.create(a, sign=-1), lambda a: sem.sub(a, sem.dag(a)),
                            x * k.op('A', k.ls(1))),
    '[A,xB]': lambda k: k.comm(k.op('A', k.ls(1)), x * k.op('B', k.ls(1))),
    '[AB,D]': lambda k: k.comm(k.op('A', k.ls(1)) * k.op('B', k.ls(1)), k.op('D', k.ls(1))),
    '[[A,B],D]': lambda k: k.comm(k.comm(k.op('A', k.ls(1)), k.op('B', k.ls(1))), k.op('D', k.ls(1))),
    'i[A,B]': lambda k: 1j * k.comm(k.op('A', k.ls(1)), k.op('B', k.ls(1))),
    'trxC': lambda k: k.tr(x * k.op('C', k.ls(1) * k.ls(2)), k.ls(1)),
    'dF': lambda k: k.wrap(oa().OperatorSymbol('F', t, hs=k.ls(1)).diff(t)),
    'ddF': lambda k: k.wrap(oa().OperatorSymbol('F', t, y, hs=k.ls(1)).diff(t).diff(t)),
    'SA': lambda k: k.sop('L', k.ls(1)) * k.op('A', k.ls(1)),
    '|P><F|': lambda k: k.ket('Psi', k.ls(1)) * k.ket('Phi', k.ls(1)).dag(),
    'A|P><F|B': lambda k: k.op('A', k.ls(1)) * (k.ket('Psi', k.ls(1)) * k.ket('Phi', k.ls(1)).dag()) * k.op('B', k.ls(1)),
    'x|P><F|': lambda k: (x * k.ket('Psi', k.ls(1))) * (y * k.ket('Phi', k.ls(1))).dag(),
    '<P|A|F>B': lambda k: (k.ket('Psi', k.ls(1)).dag() * k.op('A', k.ls(1)) * k.ket('Phi', k.ls(1))) * k.op('B', k.ls(1)),
    '|P><P|+h': lambda k: k.ket('Psi', k.ls(1)) * k.ket('Psi', k.ls(1)).dag() + 1j * k.op('B', k.ls(1)),
}
SKIP = set(c02.SCALARS)
OPS = {n: f for n, f in c02.ATOMS.items() if n not in SKIP}
OPS.update(OPX)


def kx(kind):
    if kind == 'fock':
        k = K(fock=9)
        k.guard = {'f': 3}
        return k
    return K(normalized=(kind == 'state'))


SAME_TWICE = {}


def one(f0, kind, name):
    def f(cx):
        k = kx(kind)
        u = f0(k)
        d = u.dag()
        yield d.eq('adjoint')
        dd = d.dag()
        yield dd.eq('adjoint twice')
        yield Holds('adjoint twice is the expression', dd.e == u.e)
        yield k.of(u.e.dag(), d.r).eq('dag()')
        yield (-u).dag().eq('adjoint of negative')
        if kind != 'bra' or True:
            yield (x * u).dag().eq('adjoint of multiple')
            yield ((1 - 2j) * u).dag().eq('adjoint of complex multiple')
            yield (x * d).eq('multiple of adjoint')
            yield (u * y).dag().dag().eq('adjoint twice of multiple')
        yield Eq('expand of adjoint', sem.den(d.e.expand(), k.env), d.r)
        if name != 'isum':
            yield (u + u.dag()).dag().eq('hermitian part') if kind in ('op', 'fock', 'spin', 'sup') else (u + u).dag().eq('double')
        if kind in ('op', 'fock', 'spin', 'sup'):
            yield (u * u).dag().eq('adjoint of square')
            yield (u * d).dag().eq('adjoint of u u^+')
            yield (d * u).eq('u^+ u')
        if kind in ('op', 'fock', 'spin'):
            A = oa().Adjoint.create
            yield k.of(A(u.e), d.r).eq('Adjoint.create')
            yield k.of(A(A(u.e)), u.r).eq('Adjoint.create twice')
    return f


def two(f0, f1, kind, names):
    def f(cx):
        k = kx(kind)
        u, v = f0(k), f1(k)
        if kind != 'state':
            yield (u * v).dag().eq('(uv)^+')
            yield (v.dag() * u.dag()).eq('v^+u^+')
            yield (u * v.dag()).dag().eq('(uv^+)^+')
            yield (u.dag() * v).dag().eq('(u^+v)^+')
        if 'isum' not in names:
            yield (u + x * v).dag().eq('(u+xv)^+')
            yield (u - v).dag().eq('(u-v)^+')
            if kind != 'state':
                yield ((u + v) * v).dag().eq('((u+v)v)^+')
    return f


def three(fs, kind):
    def f(cx):
        k = kx(kind)
        u, v, w = [g(k) for g in fs]
        yield (u * v * w).dag().eq('(uvw)^+')
        yield ((u + x * v) * w).dag().eq('((u+xv)w)^+')
        yield (u * v + w).dag().eq('(uv+w)^+')
    return f


def scalar(a):
    def f(cx):
        k = K()
        u = c01.ATOMS[a](k)
        from qnet.algebra.core.scalar_algebra import ScalarValue
        s = u if not isinstance(u.e, (int, float, complex, sympy.Basic)) else k.of(ScalarValue.create(u.e), u.r)
        c = sem.dag(s.r)
        for n in ('adjoint', 'dag', 'conjugate'):
            g = getattr(s.e, n, None)
            if g is not None:
                e = g()
                yield k.of(e, c).eq(n)
                yield Holds('%s twice' % n, getattr(e, n)() == s.e)
        yield (x * s).dag().eq('multiple')
        yield (s * s).dag().eq('square')
        if a != 'sum':
            yield (s + 1j).dag().eq('sum')
    return f


def opket(a, b):
    def f(cx):
        k = kx('state')
        A, u = c05.OPS[a][1](k), c05.KETS[b][1](k)
        yield (A * u).dag().eq('(A|u>)^+')
        yield (u.dag() * A).dag().eq('(<u|A)^+')
        yield (A * u * u.dag()).dag().eq('(A|u><u|)^+')
        yield (u.dag() * A * u).dag().eq('<u|A|u>^*')
        yield (u * (A * u).dag()).dag().eq('(|u>(A|u>)^+)^+')
        if b != 'sumq':
            yield (x * A * u + (1j * y) * u).dag().eq('(xA|u>+iy|u>)^+')
    return f


MS = ('A', 'AB', 'x', '1', '0', 'xA+B', 'C', 'Ad')


def entry(k, n):
    h = k.ls(1)
    return {'A': lambda: k.op('A', h), 'AB': lambda: k.op('A', h) * k.op('B', h), 'x': lambda: k.sym('x'), '1': lambda: k.sc(1),
            '0': lambda: k.sc(0), 'xA+B': lambda: x * k.op('A', h) + k.op('B', h), 'C': lambda: k.op('C', h * k.ls(2)),
            'Ad': lambda: k.op('A', h).dag(), 'bk': lambda: k.ket('Psi', h).dag() * k.ket('Phi', h), 'i': lambda: k.sc(1j),
            'xO': lambda: k.sym('x') * k.one(), '[A,B]': lambda: k.comm(k.op('A', h), k.op('B', h))}[n]()


def matrix(rows):
    def f(cx):
        from qnet.algebra.core.matrix_algebra import Matrix
        k = K()
        m = [[entry(k, n) for n in r] for r in rows]
        M = Matrix([[v.e for v in r] for r in m])
        nr, nc = len(m), len(m[0])
        for lab, D in (('adjoint', M.adjoint()), ('dag', M.dag()), ('H', M.H)):
            yield Holds(lab + ' shape', tuple(D.shape) == (nc, nr))
            for i in range(nr):
                for j in range(nc):
                    yield Eq('%s[%d,%d]' % (lab, j, i), sem.den(D.matrix[j, i], k.env), sem.dag(m[i][j].r))
        D = M.adjoint().adjoint()
        for lab, C in (('conjugate', M.conjugate()),) if set(sum(rows, ())) <= {'x', '0', '1', 'i', 'bk'} else ():
            for i in range(nr):
                for j in range(nc):
                    yield Eq('%s[%d,%d]' % (lab, i, j), sem.den(C.matrix[i, j], k.env), sem.dag(m[i][j].r))
                    yield Eq('twice[%d,%d]' % (i, j), sem.den(D.matrix[i, j], k.env), m[i][j].r)
    return f


def cases(tier):
    out = []
    for a in OPS:
        out.append(Case('op/' + a, one(OPS[a], 'op', a), weight=3))
    for a in FOCK:
        o = dict(maxgrade=4, grades={'x': 1}) if a[0] in 'DS' else {}
        out.append(Case('fock/' + a, one(FOCK[a], 'fock', a), weight=5, **o))
    for a in SPIN:
        out.append(Case('spin/' + a, one(SPIN[a], 'spin', a), weight=3))
    for a in c05.KETS:
        out.append(Case('ket/' + a, one(c05.KETS[a][1], 'state', 'isum' if a == 'sumq' else a), weight=3))
        if a != 'triv':
            out.append(Case('bra/' + a, one(lambda k, a=a: c05.KETS[a][1](k).dag(), 'state', 'isum' if a == 'sumq' else a), weight=3))
    for a in c06.SUP:
        out.append(Case('sup/' + a, one(c06.SUP[a], 'sup', a), weight=4))
    for a in c01.ATOMS:
        out.append(Case('scalar/' + a, scalar(a), weight=2))
    names = list(OPS)
    for a in names:
        for b in names:
            out.append(Case('op/%s|%s' % (a, b), two(OPS[a], OPS[b], 'op', (a, b))))
    for a in FOCK:
        for b in FOCK:
            o = dict(maxgrade=3, grades={'x': 1}) if a[0] in 'DS' or b[0] in 'DS' else {}
            if (a[0] in 'DS' or b[0] in 'DS' or 'P' in a + b):
                continue     # products rewrite using identities of the infinite oscillator: C03
            out.append(Case('fock/%s|%s' % (a, b), two(FOCK[a], FOCK[b], 'fock', (a, b)), **o))
    for a in c05.KETS:
        for b in c05.KETS:
            if set(c05.KETS[a][0]) == set(c05.KETS[b][0]) and c05.KETS[a][0] and 'sumq' not in (a, b):
                out.append(Case('ket/%s|%s' % (a, b), two(c05.KETS[a][1], c05.KETS[b][1], 'state', (a, b))))
                out.append(Case('bra/%s|%s' % (a, b), two(lambda k, a=a: c05.KETS[a][1](k).dag(),
                                                          lambda k, b=b: c05.KETS[b][1](k).dag(), 'state', (a, b))))
    sup = list(c06.SUP)
    for a in sup:
        for b in sup:
            out.append(Case('sup/%s|%s' % (a, b), two(c06.SUP[a], c06.SUP[b], 'sup', (a, b)), weight=2))
    for a in c05.OPS:
        for b in c05.KETS:
            if c05.has(c05.OPS[a][0], c05.KETS[b][0]) and b != 'triv':
                out.append(Case('opket/%s|%s' % (a, b), opket(a, b), weight=2))
    for rows in ([('A',)], [('A', 'x')], [('A', 'AB'), ('x', 'xA+B')], [('C', '0'), ('1', 'Ad')], [('AB', 'bk', 'i')],
                 [('AB',), ('i',), ('[A,B]',)], [('xO', 'A', 'AB'), ('x', 'i', 'C')], [('bk', 'x'), ('i', '1')], [('x', 'i', '0')]):
        out.append(Case('matrix/' + ';'.join(','.join(r) for r in rows), matrix(rows), weight=2))
    if tier == 'thorough':
        T = c02.TRIPLES_T
        for a in T:
            for b in T:
                for c in T:
                    if any(z in c02.SCALARS for z in (a, b, c)):
                        continue
                    out.append(Case('triple/%s|%s|%s' % (a, b, c), three([c02.ATOMS[z] for z in (a, b, c)], 'op')))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
