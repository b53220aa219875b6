"""C24: operator matrices follow block-matrix algebra."""
import itertools
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from qv.dse import And, Or, Not, Implies, select

PROPERTY = 'C24'
MODULE = 'checks.c24'
LEVEL = 'translation_validation'
BUDGET = {'quick': 300, 'thorough': 4000}
EXPLANATION = ('matrices of operators on spaces of dimension 2, scalars and numbers are combined by the real code; z3 decides for every entry of the result that '
               'it equals the entry of the usual matrix formula in the entries of the operands, for all operators and scalars; zero patterns and '
               'permutations are symbolic')
BOUNDS = {'quick': 'matrices up to 3x3 over 12 kinds of entries (operators, products, sums, transition operators, scalars, overlaps, numbers, zero); all shapes of products up to 3; '
                   'all zero patterns up to 3x3 and all off-diagonal patterns up to 4x4; symbols are real or complex scalars',
          'thorough': 'as quick, all pairs of the 2x2 matrices in every operation and all triples of the small ones'}

x, y, t = sympy.symbols('x y t')
r_ = sympy.Symbol('r', real=True)

ENT = {
    'A': lambda k: k.op('A', k.ls(1)), 'B': lambda k: k.op('B', k.ls(1)), 'C': lambda k: k.op('C', k.ls(1) * k.ls(2)), 'D': lambda k: k.op('D', k.ls(2)),
    'AB': lambda k: k.op('A', k.ls(1)) * k.op('B', k.ls(1)), 'Ad': lambda k: k.op('A', k.ls(1)).dag(), 'xA+B': lambda k: x * k.op('A', k.ls(1)) + k.op('B', k.ls(1)),
    '[A,B]': lambda k: k.comm(k.op('A', k.ls(1)), k.op('B', k.ls(1))), 's01': lambda k: k.sig(0, 1, k.ls('q')), 's11': lambda k: k.sig(1, 1, k.ls('q')),
    'Ft': lambda k: k.op('F', k.ls(1), t), 'tA': lambda k: t * k.op('A', k.ls(1)), '(A+t)^2': lambda k: (k.op('A', k.ls(1)) + t * k.one()) ** 2, 't2B': lambda k: (t ** 2 + x) * k.op('B', k.ls(1)),
    'I': lambda k: k.one(), 'O': lambda k: k.zero(), 'xI': lambda k: x * k.one(),
    'x': lambda k: k.sc(x), 'y': lambda k: k.sc(y), 'ex': lambda k: k.sc(sympy.exp(sympy.I * r_)), 'x2+y': lambda k: k.sc(x ** 2 + y), 'ix': lambda k: k.sc(sympy.I * x), 'r': lambda k: k.sc(r_),
    'bk': lambda k: k.ket('Psi', k.ls(1)).dag() * k.ket('Phi', k.ls(1)), 'Sx': lambda k: k.S(x), 'Siy': lambda k: k.S(sympy.I * y),
    '0': lambda k: k.sc(0), '1': lambda k: k.sc(1), '-2': lambda k: k.sc(-2), 'half': lambda k: k.sc(sympy.Rational(1, 2)), 'i': lambda k: k.sc(sympy.I), 's2': lambda k: k.sc(sympy.sqrt(2)),
}
OPER = {'A', 'B', 'C', 'D', 'AB', 'Ad', 'xA+B', '[A,B]', 's01', 's11', 'Ft', 'tA', '(A+t)^2', 'I', 'O', 'xI', 't2B'}
SCAL = {'x', 'y', 'ex', 'x2+y', 'ix', 'r', 'i', '1', '0', '-2', 'half', 's2'}

MATS = {
    '11A': ['A'], '11x': ['x'], '110': ['0'],
    '12': ['A x'], '12s': ['x y'], '12o': ['C s01'], '21': ['B', 'Ad'], '21s': ['1', 'ix'], '21m': ['xA+B', '0'], '13': ['A B 0'], '31': ['x', 'A', 's11'], '31s': ['y', '1', 'ex'],
    '22o': ['A B', 'C D'], '22m': ['A x', '0 B'], '22s': ['x y', 'ex 1'], '22n': ['1 0', '0 1'], '22z': ['0 0', '0 0'], '22p': ['0 1', '1 0'], '22i': ['I O', 'O I'], '22x': ['AB Ad', 'xA+B s01'], '22c': ['[A,B] xI', 'x2+y D'],
    '22b': ['bk 0', '1 Sx'], '22d': ['A 0', '0 D'], '22u': ['s01 s11', 'i -2'],
    '23': ['A x D', '0 B 1'], '23s': ['x 1 0', 'y ex half'], '32': ['B 0', 'x A', '1 C'], '32s': ['1 x', '0 y', 'i s2'],
    '33o': ['A B D', '0 A x', 's01 1 Ad'], '33s': ['x 0 0', '0 y 1', '0 1 ex'], '33d': ['A 0 0', '0 B D', '0 x 1'], '33n': ['0 1 0', '0 0 1', '1 0 0'],
}
SCALARS = {'x': lambda k: k.sc(x), '2': lambda k: k.sc(2), 'I': lambda k: k.sc(sympy.I), 'x+1': lambda k: k.sc(x + 1), 'Sx': lambda k: k.S(x), 'bk': ENT['bk'], '-1': lambda k: k.sc(-1), 'half': ENT['half'], '0': lambda k: k.sc(0)}
OPS = {'A': ENT['A'], 'D': ENT['D'], 'xA+B': ENT['xA+B'], 's01': ENT['s01'], 'I': ENT['I'], 'O': ENT['O']}


def mm():
    from qnet.algebra.core import matrix_algebra as m
    return m


class M:
    """a real Matrix with the reference rows of values"""

    def __init__(self, e, r, k, shape=None):
        self.e, self.r, self.k = e, r, k
        self.shape = shape or (len(r), len(r[0]) if r else 0)

    @classmethod
    def make(cls, k, rows):
        vs = [[ENT[n](k) for n in r.split()] for r in rows]
        return cls(mm().Matrix([[v.e for v in r] for r in vs]), [[v.r for v in r] for r in vs], k)

    def wrap(self, e, r, shape=None):
        return M(e, r, self.k, shape)

    def __mul__(self, o):
        if isinstance(o, V):
            return self.wrap(self.e * o.e, [[sem.mul(a, o.r) for a in q] for q in self.r])
        return self.wrap(self.e * o.e, prod(self.r, o.r))

    def __rmul__(self, o):
        return self.wrap(o.e * self.e, [[sem.mul(o.r, a) for a in q] for q in self.r])

    def __add__(self, o):
        if isinstance(o, V):
            return self.wrap(self.e + o.e, [[sem.add(a, o.r) for a in q] for q in self.r])
        return self.wrap(self.e + o.e, zipw(sem.add, self.r, o.r))

    def __sub__(self, o):
        return self.wrap(self.e - o.e, zipw(sem.sub, self.r, o.r) if isinstance(o, M) else [[sem.sub(a, o.r) for a in q] for q in self.r])

    def dag(self):
        return self.wrap(self.e.dag(), [[sem.dag(self.r[i][j]) for i in range(self.shape[0])] for j in range(self.shape[1])])

    def eq(self, label):
        yield Holds(label + ': shape', tuple(self.e.shape) == tuple(self.shape), '%s, expected %s' % (self.e.shape, self.shape))
        if tuple(self.e.shape) != tuple(self.shape):
            return
        for i in range(self.shape[0]):
            for j in range(self.shape[1]):
                yield Eq('%s[%d,%d]' % (label, i, j), entry(self.e.matrix[i, j], self.k), self.r[i][j])


def entry(e, k):
    from qnet.algebra.core.abstract_algebra import Expression
    if hasattr(e, 'item'):
        e = e.item()
    return sem.den(e, k.env) if isinstance(e, Expression) else sem.S(ring.as_poly(sem.val(e, k.env)))


def prod(a, b):
    return [[sum_([sem.mul(a[i][l], b[l][j]) for l in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


def sum_(l):
    r = l[0]
    for a in l[1:]:
        r = sem.add(r, a)
    return r


def zipw(f, a, b):
    return [[f(p, q) for p, q in zip(u, v)] for u, v in zip(a, b)]


def T(r):
    return [list(q) for q in zip(*r)]


def one(name):
    def f(cx):
        k = K()
        u = M.make(k, MATS[name])
        m, e, (a, b) = mm(), u.e, u.shape
        names = {q for r in MATS[name] for q in r.split()}
        W = u.wrap
        yield from u.eq('u')
        yield from W(-e, [[sem.neg(q) for q in r] for r in u.r]).eq('-u')
        yield from W(e.T, T(u.r)).eq('T')
        yield from W(e.transpose(), T(u.r)).eq('transpose')
        yield from W(e.T.T, u.r).eq('T.T')
        yield from u.dag().eq('dag')
        yield from W(e.H, u.dag().r).eq('H')
        yield from W(e.adjoint().adjoint(), u.r).eq('adjoint twice')
        yield from W(e.expand(), u.r).eq('expand')
        yield from W(e.simplify_scalar(), u.r).eq('simplify')
        yield from W(m.Matrix(e), u.r).eq('copy')
        yield from W(m.Matrix.create(e.matrix), u.r).eq('create')
        yield from W(m.Matrix.create(*e.args), u.r).eq('rebuilt')
        yield Holds('copy equal', m.Matrix(e) == e and hash(m.Matrix(e)) == hash(e))
        yield from W(e.element_wise(lambda q: q * 2), [[sem.add(q, q) for q in r] for r in u.r]).eq('element_wise')
        yield from W(e.element_wise(lambda q, c, d=1: q * c + d, 3, d=2), [[sem.add(sem.scale(ring.const(3), q), sem.S(ring.const(2))) for q in r] for r in u.r]).eq('element_wise with arguments') if names <= SCAL else ()
        if names <= SCAL | {'bk', 'Sx', 'Siy'}:
            cj = [[sem.dag(q) for q in r] for r in u.r]
            yield from W(e.conjugate(), cj).eq('conjugate')
            yield from W(e.T.conjugate(), T(cj)).eq('T conjugate')
            hf = ring.inverse(ring.const(2))
            re = [[sem.scale(hf, sem.add(p, q)) for p, q in zip(*rr)] for rr in zip(u.r, cj)]
            im = [[sem.scale(-hf * ring.I, sem.sub(p, q)) for p, q in zip(*rr)] for rr in zip(u.r, cj)]
            yield from W(e.real, re).eq('real')
            yield from W(e.imag, im).eq('imag')
        if a == b:
            yield Eq('trace', entry(e.trace(), k), sum_([u.r[i][i] for i in range(a)]))
            yield Eq('trace of transpose', entry(e.T.trace(), k), sum_([u.r[i][i] for i in range(a)]))
        else:
            from qnet.algebra.core.exceptions import NonSquareMatrix
            try:
                e.trace()
                yield Holds('trace of a non-square matrix is refused', False)
            except NonSquareMatrix:
                pass
        for cn, c in SCALARS.items():
            c = c(k)
            yield from (u * c).eq('u*' + cn)
            yield from u.__rmul__(c).eq(cn + '*u')
            if cn not in ('0', 'bk', 'Sx'):
                iv = ring.inverse(c.r.scalar())
                yield from W(e / c.e, [[sem.scale(iv, q) for q in r] for r in u.r]).eq('u/' + cn)
        for on, o in OPS.items():
            o = o(k)
            yield from (u * o).eq('u*' + on)
            yield from u.__rmul__(o).eq(on + '*u')
        for cn in ('x', '2', 'I', 'A'):
            c = SCALARS[cn](k) if cn in SCALARS else OPS[cn](k)
            yield from (u + c).eq('u + %s (every entry)' % cn)
            yield from W(c.e + e, (u + c).r).eq('%s + u' % cn)
            yield from (u - c).eq('u - %s' % cn)
            yield from W(c.e - e, [[sem.sub(c.r, q) for q in r] for r in u.r]).eq('%s - u' % cn)
        # indexing and slices
        for i in range(a):
            for j in range(b):
                yield Eq('u[%d,%d]' % (i, j), entry(e[i, j], k), u.r[i][j])
        for i0 in range(a):
            for i1 in range(i0 + 1, a + 1):
                yield from W(e[i0:i1, :], u.r[i0:i1]).eq('rows %d:%d' % (i0, i1))
                for j0 in range(b):
                    for j1 in range(j0 + 1, b + 1):
                        yield from W(e[i0:i1, j0:j1], [r[j0:j1] for r in u.r[i0:i1]]).eq('block %d:%d,%d:%d' % (i0, i1, j0, j1))
        # splitting and joining
        for i in range(1, a):
            yield from W(m.vstackm((e[:i, :], e[i:, :])), u.r).eq('vstack at %d' % i)
        for j in range(1, b):
            yield from W(m.hstackm((e[:, :j], e[:, j:])), u.r).eq('hstack at %d' % j)
        for i in range(1, a):
            for j in range(1, b):
                bl = m.block_matrix(e[:i, :j], e[:i, j:], e[i:, :j], e[i:, j:])
                yield from W(bl, u.r).eq('block_matrix at %d,%d' % (i, j))
                yield Holds('block matrix equal', bl == e)
        # spaces and symbols
        sp = set()
        fs = set()
        for r in MATS[name]:
            for n in r.split():
                v = ENT[n](k)
                if n in OPER and n not in ('I', 'O', 'xI'):
                    sp |= {q.label for q in v.e.space.local_factors}
                if hasattr(v.e, 'free_symbols'):
                    fs |= v.e.free_symbols
        yield Holds('space', {q.label for q in e.space.local_factors} == sp) if not names & {'bk', 'Sx'} else Holds('space', True)
        yield Holds('free symbols', e.free_symbols == fs)
        # substitution
        rep = M.make(k, MATS[name])
        from qnet.algebra.core.abstract_algebra import substitute
        A, B = ENT['A'](k), ENT['B'](k)
        vs = [[ENT[n](k) for n in r.split()] for r in MATS[name]]
        sb = [[k.of(substitute(v.e, {A.e: B.e, x: 2}) if not isinstance(v.e, (int, float)) else v.e, None) for v in r] for r in vs]
        yield from W(e.substitute({A.e: B.e, x: 2}), [[entry(v.e, k) for v in r] for r in sb]).eq('substitute')
        yield Holds('is_zero', (not e.is_zero) or name in ('110', '22z'))
        yield Holds('zero is zero', e.is_zero == (name in ('110', '22z')))
        yield from W(m.zerosm((a, b)) + e, u.r).eq('0 + u')
        yield from W(m.zerosm((a, b), dtype=int) + e, u.r).eq('int 0 + u')
        yield from W(m.identity_matrix(a) * e, u.r).eq('1 u')
        yield from W(e * m.identity_matrix(b), u.r).eq('u 1')
        if a == 1:
            d = [[u.r[0][i] if i == j else sem.S(ring.ZERO) for j in range(b)] for i in range(b)]
            yield from W(m.diagm(list(e.matrix[0])), d).eq('diagm')
            d1 = [[u.r[0][i] if j == i + 1 else sem.S(ring.ZERO) for j in range(b + 1)] for i in range(b + 1)]
            yield from W(m.diagm(list(e.matrix[0]), 1), d1).eq('diagm above')
            yield from W(m.Matrix(list(e.matrix[0])), T(u.r)).eq('column from a list')
    return f


def pair(n1, n2):
    def f(cx):
        k = K()
        u, v = M.make(k, MATS[n1]), M.make(k, MATS[n2])
        m, W = mm(), u.wrap
        if u.shape == v.shape:
            yield from (u + v).eq('u+v')
            yield from (u - v).eq('u-v')
            yield from W((u + v).e - v.e, u.r).eq('u+v-v')
        if u.shape[1] == v.shape[0]:
            p = u * v
            yield from p.eq('uv')
            yield from W(p.e.dag(), prod(v.dag().r, u.dag().r)).eq('(uv)^+')
            yield from W(v.e.dag() * u.e.dag(), p.dag().r).eq('v^+u^+')
            yield from W(p.e.expand(), p.r).eq('expand uv')
        if u.shape[0] == v.shape[0]:
            yield from W(m.hstackm((u.e, v.e)), [p + q for p, q in zip(u.r, v.r)]).eq('hstack')
        if u.shape[1] == v.shape[1]:
            yield from W(m.vstackm((u.e, v.e)), u.r + v.r).eq('vstack')
        za, zb = [[sem.S(ring.ZERO)] * v.shape[1]] * u.shape[0], [[sem.S(ring.ZERO)] * u.shape[1]] * v.shape[0]
        bl = m.block_matrix(u.e, m.zerosm((u.shape[0], v.shape[1])), m.zerosm((v.shape[0], u.shape[1]), dtype=int), v.e)
        yield from W(bl, [p + q for p, q in zip(u.r, za)] + [p + q for p, q in zip(zb, v.r)]).eq('block diagonal')
        if u.shape[0] == u.shape[1] and v.shape[0] == v.shape[1]:
            bs = bl.block_structure
            yield Holds('split at the block', u.shape[0] in list(itertools.accumulate(bs)))
            b1, b2 = bl.get_blocks((u.shape[0], v.shape[0])) if hasattr(bl, 'get_blocks') else bl._get_blocks((u.shape[0], v.shape[0]))
            yield from W(b1, u.r).eq('first block')
            yield from W(b2, v.r).eq('second block')
            yield Holds('blocks equal', b1 == u.e and b2 == v.e)
        yield Holds('equal only to itself', (u.e == v.e) == (n1 == n2))
    return f


def triple(n1, n2, n3):
    def f(cx):
        k = K()
        u, v, w = [M.make(k, MATS[n]) for n in (n1, n2, n3)]
        yield from ((u * v) * w).eq('(uv)w')
        yield from (u * (v * w)).eq('u(vw)')
    return f


def series(rows, about, order):
    def f(cx):
        k = K()
        u = M.make(k, rows)
        cs = u.e.series_expand(t, about, order)
        yield Holds('one matrix per order', len(cs) == order + 1)
        for n in range(order + 1):
            ref = []
            for r in rows:
                q = []
                for name in r.split():
                    e = ENT[name](k).e
                    from qnet.algebra.core.abstract_quantum_algebra import QuantumExpression
                    c = e.series_expand(t, about, order) if isinstance(e, QuantumExpression) else [sympy.sympify(e).diff(t, j).subs(t, about) / sympy.factorial(j) for j in range(order + 1)]
                    q.append(entry(c[n], k))
                ref.append(q)
            yield from u.wrap(cs[n], ref).eq('coefficient %d' % n)
    return f


def zeros(a, b, sym_diag):
    """zero patterns: block structure, blocks and is_zero"""
    def f(cx):
        m = mm()
        xs = [[sympy.Symbol('z%d%d' % (i, j)) for j in range(b)] for i in range(a)]
        zs = [[cx.bool('z%d%d' % (i, j)) if i != j or sym_diag else False for j in range(b)] for i in range(a)]
        e = m.Matrix([[0 if z else s for z, s in zip(*r)] for r in zip(zs, xs)])
        yield Holds('is_zero', e.is_zero == bool(And(*[z for r in zs for z in r])))
        if a != b:
            try:
                e.block_structure
                yield Holds('no block structure', False)
            except AttributeError:
                pass
            return
        bs = e.block_structure
        yield Holds('sizes add up', sum(bs) == a and all(q > 0 for q in bs))
        cut = set(itertools.accumulate(bs))
        for c in range(1, a):
            iso = And(*[zs[i][j] for i in range(a) for j in range(a) if (i < c) != (j < c)])
            yield Holds('cut at %d exactly if nothing connects the parts' % c, Implies(iso, True) if c in cut and bool(iso) else Not(iso) if c not in cut else False)
        bl = e._get_blocks(bs)
        yield Holds('blocks', tuple(q.shape for q in bl) == tuple((q, q) for q in bs))
        o = 0
        for q, n in zip(bl, bs):
            yield Holds('block at %d' % o, all(q[i, j] == e[o + i, o + j] for i in range(n) for j in range(n)))
            o += n
        for c in range(1, a):
            try:
                w = e._get_blocks((c, a - c))
                yield Holds('coarser split', c in cut and w[0] == e[:c, :c] and w[1] == e[c:, c:])
            except ValueError:
                yield Holds('split refused only if not block diagonal', c not in cut)
        for bad in ((a + 1,), (1,) * (a + 1)) + (((1,),) if a > 1 else ()):
            try:
                e._get_blocks(bad)
                yield Holds('wrong sizes are refused', False)
            except ValueError:
                pass
    return f


def columns(n):
    """a column splits into the requested parts"""
    def f(cx):
        m = mm()
        xs = [sympy.Symbol('z%d' % i) for i in range(n)]
        e = m.Matrix([[q] for q in xs])
        cuts = [bool(cx.bool('cut%d' % i)) for i in range(1, n)]
        bs, last = [], 0
        for i, c in enumerate(cuts, 1):
            if c:
                bs.append(i - last)
                last = i
        bs.append(n - last)
        bl = e._get_blocks(tuple(bs))
        yield Holds('parts', tuple(q.shape for q in bl) == tuple((q, 1) for q in bs), '%s' % ([q.shape for q in bl],))
        yield Holds('reassembled', m.vstackm(bl) == e)
        for bad in ((n + 1,), tuple(bs) + (1,)) + (((n - 1,),) if n > 1 else ()):
            try:
                e._get_blocks(bad)
                yield Holds('wrong sizes are refused', False)
            except ValueError:
                pass
    return f


def permutations(n):
    def f(cx):
        m = mm()
        p = tuple(cx.permutation('p', n))
        e = m.permutation_matrix(p)
        for i in range(n):
            for j in range(n):
                v = int(e[i, j])
                yield Holds('entry', p[j] == i if v == 1 else Not(p[j] == i))
                yield Holds('0 or 1', v in (0, 1))
        yield Holds('orthogonal', (e * e.T) == m.identity_matrix(n) and (e.T * e) == m.identity_matrix(n))
    return f


def cases(tier):
    q = tier == 'quick'
    out = [Case('one/' + n, one(n), weight=6) for n in MATS]
    sh = {n: (len(r), len(r[0].split())) for n, r in MATS.items()}
    big = lambda a: a.startswith('33')
    for a in MATS:
        for b in MATS:
            if q and len(set(a[:2] + b[:2])) > 1 and sh[a][1] != sh[b][0] and sh[a][0] != sh[b][0] and (len(a) + len(b)) % 3:
                continue
            out.append(Case('pair/%s|%s' % (a, b), pair(a, b), weight=3))
    S3 = ['22o', '22m', '22x', '22p', '12', '21', '23', '32', '22s']
    for a, b, c in itertools.product(S3, repeat=3):
        if sh[a][1] == sh[b][0] and sh[b][1] == sh[c][0]:
            if q and len({a, b, c}) < 3:
                continue
            out.append(Case('triple/%s|%s|%s' % (a, b, c), triple(a, b, c), weight=4))
    for rows in (['Ft tA', 'A t2B'], ['(A+t)^2', 'xA+B'], ['tA (A+t)^2 Ft'], ['tA x', '0 t2B'], ['1', 'tA']):
        for about in (0, 2, y):
            for order in (0, 1, 2) if q else (0, 1, 2, 3):
                out.append(Case('series/%s/%s/%d' % (';'.join(rows), about, order), series(rows, about, order), weight=3))
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)):
        out.append(Case('zeros/%dx%d' % (a, b), zeros(a, b, a * b < 9), weight=8, max_paths=20000))
    if not q:
        out.append(Case('zeros/4x4', zeros(4, 4, False), weight=60, max_paths=20000))
    for n in range(1, 6):
        out.append(Case('columns/%d' % n, columns(n)))
    for n in range(1, 5 if q else 6):
        out.append(Case('permutations/%d' % n, permutations(n), weight=3))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
