"""C16: every operation on an indexed sum equals the operation on the explicit finite sum."""
import itertools
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
from checks import vocab as vo
from checks.vocab import x, y, t, s, A, P, C, X, h, hs, oa, st, so

PROPERTY = 'C16'
MODULE = 'checks.c16'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('indexed sums over operators, kets and scalars (one and two indices; ranges, lists and bases; symbolic integer, string, basis '
               'and spin labels) are built and combined by the real code and evaluated by enumeration of their ranges; z3 decides equality '
               'with the operation applied to the explicitly written sums, for all values of the coefficients and matrix elements')
BOUNDS = {'quick': 'index ranges of at most 3 values, at most 2 indices per sum (4 after products), three-level/spin-1 systems; all pairs of sums '
                   'over the same, disjoint and permuted index names, products with plain factors containing a free index, Kronecker deltas in one or two indices',
          'thorough': 'as quick, plus triple products of all sums'}


def idx():
    from qnet.utils import indices as m
    return m


def B(n, *i):
    return sympy.IndexedBase(n)[tuple(i)]


def esum(k, f, *values):
    r = None
    for v in itertools.product(*values):
        w = f(*v)
        r = w.r if r is None else sem.add(r, w.r)
    return r


def sy(k, n):
    return idx().IdxSym(n)


def spin(k):
    from qnet.algebra.library.spin_algebra import SpinSpace
    return SpinSpace('s', spin=1)


def lab3(k):
    return k.ls('r', basis=('g', 'e', 'f'))


def rng(k, i, kind, space=None):
    m = idx()
    if kind == 'fock':
        return m.IndexOverFockSpace(i, hs=space)
    if isinstance(kind, list):
        return m.IndexOverList(i, kind)
    return m.IndexOverRange(i, *kind)


def vals(kind):
    if kind == 'fock':
        return range(3)
    if isinstance(kind, list):
        return kind
    a, b, *c = kind
    c = c[0] if c else 1
    return range(a, b + (1 if c > 0 else -1), c)


def ksig(k, i, j, sp):
    m = idx()
    f = lambda v: m.FockIndex(v) if isinstance(v, sympy.Basic) else v
    return oa().LocalSigma(f(i), f(j), hs=sp)


def kb(k, i, sp):
    m = idx()
    return st().BasisKet(m.FockIndex(i) if isinstance(i, sympy.Basic) else i, hs=sp)


def osym(n, sp, *i):
    m = idx()
    return oa().OperatorSymbol(m.StrLabel(B(n, *i)), hs=sp)


def ksym(n, sp, *i):
    m = idx()
    return st().KetSymbol(m.StrLabel(B(n, *i)), hs=sp)


def osum(k, term, rs):
    return oa().OperatorIndexedSum.create(term, *rs)


def S1(kind, f, g, space='q', cls=None):
    """one-index sum: f(i) real term, g(k, n) reference term"""
    def mk(k, i, j):
        q = h(k, 'q') if space == 'q' else space(k)
        e = cls_of(cls).create(f(k, i, q), rng(k, i, kind, q))
        return k.of(e, esum(k, lambda n: g(k, n, q), vals(kind)))
    return mk


def S2(ki, kj, f, g, cls=None):
    def mk(k, i, j):
        q = h(k, 'q')
        e = cls_of(cls).create(f(k, i, j, q), rng(k, i, ki, q), rng(k, j, kj, q))
        return k.of(e, esum(k, lambda n, m: g(k, n, m, q), vals(ki), vals(kj)))
    return mk


def cls_of(c):
    from qnet.algebra.core.scalar_algebra import ScalarIndexedSum
    return {'op': oa().OperatorIndexedSum, 'ket': st().KetIndexedSum, 'sc': ScalarIndexedSum}[c]


def delta(a, b):
    return sympy.KroneckerDelta(a, b)


def d(a, b):
    return 1 if a == b else 0


def SV(e):
    from qnet.algebra.core.scalar_algebra import ScalarValue
    return ScalarValue.create(e)


def on(k, v):
    """reference operator/ket symbols with rendered labels"""
    return v


OPS = {
    'b|i><i|': S1('fock', lambda k, i, q: B('b', i) * ksig(k, i, i, q), lambda k, n, q: B('b', n) * k.sig(n, n, q), cls='op'),
    'i|i><0|': S1((0, 2), lambda k, i, q: (i + 1) * y * ksig(k, i, 0, q), lambda k, n, q: (n + 1) * y * k.sig(n, 0, q), cls='op'),
    '|i+1><i|': S1((0, 1), lambda k, i, q: sympy.sqrt(i + 1) * ksig(k, i + 1, i, q), lambda k, n, q: sympy.sqrt(n + 1) * k.sig(n + 1, n, q), cls='op'),
    '[2,0]|0><i|': S1([2, 0], lambda k, i, q: B('b', i) * ksig(k, 0, i, q), lambda k, n, q: B('b', n) * k.sig(0, n, q), cls='op'),
    'Ai': S1((1, 2), lambda k, i, q: osym('A', h(k, 1), i), lambda k, n, q: k.op('A_%d' % n, h(k, 1)), cls='op'),
    'cAiBi': S1((1, 2), lambda k, i, q: B('c', i) * (osym('A', h(k, 1), i) * osym('B', h(k, 1), i)),
                lambda k, n, q: B('c', n) * (k.op('A_%d' % n, h(k, 1)) * k.op('B_%d' % n, h(k, 1))), cls='op'),
    'b|i><i|Z': S1('fock', lambda k, i, q: B('b', i) * (ksig(k, i, i, q) * A(k, 1, 'Z').e), lambda k, n, q: B('b', n) * (k.sig(n, n, q) * A(k, 1, 'Z')), cls='op'),
    'bi const A': S1((0, 2), lambda k, i, q: B('b', i) * A(k).e, lambda k, n, q: B('b', n) * A(k), cls='op'),
    'bc|i><j|': S2('fock', (0, 1), lambda k, i, j, q: B('b', i) * B('c', j) * ksig(k, i, j, q), lambda k, n, m, q: B('b', n) * B('c', m) * k.sig(n, m, q), cls='op'),
    'a|i><j|': S2((0, 1), [0, 2], lambda k, i, j, q: B('a', i, j) * ksig(k, i, j, q), lambda k, n, m, q: B('a', n, m) * k.sig(n, m, q), cls='op'),
    'dij b|i><j|': S2('fock', (0, 1), lambda k, i, j, q: delta(i, j) * B('b', i) * ksig(k, i, j, q), lambda k, n, m, q: d(n, m) * B('b', n) * k.sig(n, m, q), cls='op'),
    'dij Aij': S2((0, 1), (0, 1), lambda k, i, j, q: delta(i, j) * osym('A', h(k, 1), i, j), lambda k, n, m, q: d(n, m) * k.op('A_%d%d' % (n, m), h(k, 1)), cls='op'),
    'spin': S1('fock', lambda k, i, q: B('b', i) * oa().LocalSigma(idx().SpinIndex(i - 1, hs=q), idx().SpinIndex(i - 1, hs=q), hs=q),
               lambda k, n, q: B('b', n) * k.sig(['-1', '0', '+1'][n], ['-1', '0', '+1'][n], q), space=spin, cls='op'),
    'lab': S1('fock', lambda k, i, q: B('b', i) * oa().LocalSigma(idx().FockLabel(i, hs=q), 'g', hs=q), lambda k, n, q: B('b', n) * k.sig('gef'[n], 'g', q), space=lab3, cls='op'),
}
KETS = {
    'b|i>': S1('fock', lambda k, i, q: B('b', i) * kb(k, i, q), lambda k, n, q: B('b', n) * k.bket(n, q), cls='ket'),
    'c|i>r': S1((0, 1), lambda k, i, q: B('c', i) * kb(k, i, q), lambda k, n, q: B('c', n) * k.bket(n, q), cls='ket'),
    '|i+1>': S1((0, 1), lambda k, i, q: sympy.sqrt(i + 1) * kb(k, i + 1, q), lambda k, n, q: sympy.sqrt(n + 1) * k.bket(n + 1, q), cls='ket'),
    '[2,0]x|i>': S1([2, 0], lambda k, i, q: x * B('b', i) * kb(k, i, q), lambda k, n, q: x * B('b', n) * k.bket(n, q), cls='ket'),
    'Psi_i': S1((1, 2), lambda k, i, q: ksym('Psi', h(k, 1), i), lambda k, n, q: k.ket('Psi_%d' % n, h(k, 1)), cls='ket'),
    'A Phi_i': S1((1, 2), lambda k, i, q: B('b', i) * (A(k).e * ksym('Phi', h(k, 1), i)), lambda k, n, q: B('b', n) * (A(k) * k.ket('Phi_%d' % n, h(k, 1))), cls='ket'),
    'b|i>R': S1('fock', lambda k, i, q: B('b', i) * (kb(k, i, q) * P(k, 2, 'R').e), lambda k, n, q: B('b', n) * (k.bket(n, q) * P(k, 2, 'R')), cls='ket'),
    'bi const': S1((0, 1), lambda k, i, q: B('b', i) * P(k, 1, 'Chi').e, lambda k, n, q: B('b', n) * P(k, 1, 'Chi'), cls='ket'),
    'ij': S2((0, 1), (0, 1), lambda k, i, j, q: B('a', i, j) * (kb(k, i, q) * ksym('Psi', h(k, 1), j)), lambda k, n, m, q: B('a', n, m) * (k.bket(n, q) * k.ket('Psi_%d' % m, h(k, 1))), cls='ket'),
    'dij': S2('fock', (0, 1), lambda k, i, j, q: delta(i, j) * B('b', i) * B('c', j) * kb(k, j, q), lambda k, n, m, q: d(n, m) * B('b', n) * B('c', m) * k.bket(m, q), cls='ket'),
    'spin': S1('fock', lambda k, i, q: B('b', i) * st().BasisKet(idx().SpinIndex(i - 1, hs=q), hs=q), lambda k, n, q: B('b', n) * k.bket(['-1', '0', '+1'][n], q), space=spin, cls='ket'),
    'lab': S1('fock', lambda k, i, q: B('b', i) * st().BasisKet(idx().FockLabel(i, hs=q), hs=q), lambda k, n, q: B('b', n) * k.bket('gef'[n], q), space=lab3, cls='ket'),
}
SCS = {
    'b': S1((0, 2), lambda k, i, q: SV(B('b', i)), lambda k, n, q: k.sc(B('b', n)), cls='sc'),
    'x(i+1)c': S1([0, 2], lambda k, i, q: SV(x * (i + 1) * B('c', i)), lambda k, n, q: k.sc(x * (n + 1) * B('c', n)), cls='sc'),
    'step': S1((4, 0, -2), lambda k, i, q: SV(i * B('b', i)), lambda k, n, q: k.sc(n * B('b', n)), cls='sc'),
    'const': S1((0, 2), lambda k, i, q: SV(x + 1), lambda k, n, q: k.sc(x + 1), cls='sc'),
    'bij': S2((0, 1), [0, 2], lambda k, i, j, q: SV(B('a', i, j) * B('b', i)), lambda k, n, m, q: k.sc(B('a', n, m) * B('b', n)), cls='sc'),
    'd': S2((0, 2), (1, 3), lambda k, i, j, q: SV(delta(i, j) * B('b', i) * B('c', j)), lambda k, n, m, q: k.sc(d(n, m) * B('b', n) * B('c', m)), cls='sc'),
    '(1+d)': S2((0, 1), (0, 1), lambda k, i, j, q: SV((1 + delta(i, j)) * B('b', i) * B('c', j)), lambda k, n, m, q: k.sc((1 + d(n, m)) * B('b', n) * B('c', m)), cls='sc'),
    'd(i,j+1)': S2((0, 2), (0, 2), lambda k, i, j, q: SV(delta(i, j + 1) * B('b', i) * B('c', j)), lambda k, n, m, q: k.sc(d(n, m + 1) * B('b', n) * B('c', m)), cls='sc'),
    'd(i,1)': S1((0, 2), lambda k, i, q: SV(delta(i, 1) * B('b', i)), lambda k, n, q: k.sc(d(n, 1) * B('b', n)), cls='sc'),
    'd(i,5)': S1((0, 2), lambda k, i, q: SV(delta(i, 5) * B('b', i)), lambda k, n, q: k.sc(d(n, 5) * B('b', n)), cls='sc'),
    'd(2i,j)': S2((0, 2), (0, 2), lambda k, i, j, q: SV(delta(2 * i, j) * B('b', i) * B('c', j)), lambda k, n, m, q: k.sc(d(2 * n, m) * B('b', n) * B('c', m)), cls='sc'),
    'd([0,0,1])': S1([0, 0, 1], lambda k, i, q: SV(delta(i, 0) * B('b', i) + B('c', i)), lambda k, n, q: k.sc(d(n, 0) * B('b', n) + B('c', n)), cls='sc'),
    '<b|i>': S1((0, 2), lambda k, i, q: B('b', i) * (P(k, 'q', 'W').e.dag() * kb(k, i, q)), lambda k, n, q: B('b', n) * (P(k, 'q', 'W').dag() * k.bket(n, q)), cls='sc'),
}
TAB = {'op': OPS, 'ket': KETS, 'sc': SCS}
NAMES = ('i', 'j')
VAR = {'same': ('i', 'j'), 'swap': ('j', 'i'), 'other': ('m', 'n'), 'primed': ("i'", 'i')}


def sym(n):
    m = idx()
    return m.IdxSym(n.rstrip("'"), primed=n.count("'"))


def mk(k, grp, a, names=NAMES):
    return TAB[grp][a](k, sym(names[0]), sym(names[1]))


def kk():
    return K(normalized=True)


def walk(e):
    """all IndexedSum nodes of an expression"""
    from qnet.algebra.core.indexed_operations import IndexedSum
    if isinstance(e, IndexedSum):
        yield e
    for o in getattr(e, 'operands', ()) or ():
        if o is not e:
            yield from walk(o)
    if getattr(e, 'isbra', False):
        yield from walk(e.ket)


def explicit(u, label):
    yield u.eq(label)
    w = SV(u.e) if isinstance(u.e, sympy.Basic) else u.e
    r = w.doit()
    yield u.k.of(r, u.r).eq(label + ' doit')
    yield Holds(label + ' doit: no sum is left', not list(walk(r)))
    from qnet.algebra.core.indexed_operations import IndexedSum
    yield u.k.of(w.doit([IndexedSum]), u.r).eq(label + ' doit(IndexedSum)')


def one(grp, a):
    def f(cx):
        from qnet.algebra.core.indexed_operations import IndexedSum
        k = kk()
        for names in (('i', 'j'), ("i'", 'i'), ('n', 'm')):
            u = mk(k, grp, a, names)
            yield from explicit(u, 'u')
            if names != ('i', 'j'):
                continue
            yield from explicit(u.dag(), 'u^+')
            yield from explicit(u.dag().dag(), 'u^++')
            yield from explicit(x * u, 'x u')
            yield from explicit(u * x, 'u x')
            yield from explicit(u * 3, 'u 3')
            yield from explicit(-u, '-u')
            yield from explicit(u / 2, 'u/2')
            yield from explicit(u / x, 'u/x')
            yield u.do(lambda e: e.expand()).eq('expand')
            yield u.do(lambda e: e.simplify_scalar()).eq('simplify_scalar')
            yield k.of(u.e.diff(x), sem.tdiff(u.r, x)).eq('diff x')
            if grp == 'sc':
                yield from explicit(u ** 2, 'u^2')
                yield (u ** 3).eq('u^3')
                yield from explicit(u * u * x, 'u u x')
                yield k.of(u.e.conjugate(), sem.dag(u.r)).eq('conj')
                yield k.of(u.e.real, sem.scale(ring.const(1) / 2 if False else ring.const(sympy_half()), sem.add(u.r, sem.dag(u.r)))).eq('real')
            elif grp == 'op':
                yield (u ** 2).eq('u^2')
                yield (u * u * u).eq('u u u')
            e = u.e
            if isinstance(e, IndexedSum):
                n = 1
                for r in e.ranges:
                    n *= len(list(r.iter()))
                yield Holds('len', len(e) == n)
                ts = list(e.terms)
                yield Holds('number of terms', len(ts) == n)
                tot = None
                for q in ts:
                    v = sem.den(q, k.env)
                    tot = v if tot is None else sem.add(tot, v)
                yield Eq('sum of terms', tot, u.r)
                for r in range(n + 2):
                    if r:
                        part = None
                        for q in ts[:r]:
                            v = sem.den(q, k.env)
                            part = v if part is None else sem.add(part, v)
                        yield k.of(e.doit(max_terms=r), part).eq('max_terms=%d' % r)
                for nm in range(1, len(e.ranges) + 1):
                    for p in itertools.permutations([r.index_symbol for r in e.ranges], nm):
                        w = e.doit(indices=list(p))
                        yield k.of(w, u.r).eq('doit over %s' % (p,))
                        left = set()
                        for q in walk(w):
                            left |= set(q.variables)
                        yield Holds('doit over %s leaves the other indices' % (p,), not left & set(p))
                        yield k.of(e.doit(indices=[str(z) for z in p]), u.r).eq('doit over names %s' % (p,))
                        z = [sym('zz')] + list(p)
                        yield k.of(e.doit(indices=z), u.r).eq('doit over %s' % (z,))
                        left = set()
                        for q in walk(e.doit(indices=z)):
                            left |= set(q.variables)
                        yield Holds('an unknown index is skipped, the others are written out %s' % (z,), not left & set(p))
                for others in ([sym('i')], [sym('j')], [sym('i'), sym('j')], [sym("i'"), sym('i')], [e], list(e.ranges), [sym('zz')]):
                    w = e.make_disjunct_indices(*others)
                    yield k.of(w, u.r).eq('disjunct %s' % (others,))
                    names_ = set()
                    for o in others:
                        names_ |= {o} if o.__class__.__name__ == 'IdxSym' else {o.index_symbol} if hasattr(o, 'index_symbol') else set(o.variables)
                    yield Holds('disjunct from %s' % (others,), not (set(w.variables) & names_) and len(set(w.variables)) == len(e.ranges))
    return f


def sympy_half():
    from fractions import Fraction
    return Fraction(1, 2)


def spaces(v):
    sp = v.e.space
    return None if str(sp) == 'FullSpace' else set(map(str, sp.local_factors))


def products(ga, gb, u, v):
    if ga == gb == 'op':
        yield 'uv', u * v
        yield 'vu', v * u
    elif ga == gb == 'ket':
        a, b = spaces(u), spaces(v)
        if a == b:
            yield '|u><v|', u * v.dag()
            yield '<u|v>', u.dag() * v
        elif not a & b:
            yield 'u*v', u * v
            yield '(u*v)^+', (u * v).dag()
            yield '<u|<v|', u.dag() * v.dag()
    elif (ga, gb) == ('op', 'ket'):
        if spaces(u) <= spaces(v):
            yield 'u v', u * v
            yield '<v|u', v.dag() * u
    elif 'sc' in (ga, gb):
        yield 'u v', u * v
        if ga == gb:
            yield 'v u', v * u


def pair(ga, a, gb, b, variants, deep=True):
    def f(cx):
        k = kk()
        for vn in variants:
            u, v = mk(k, ga, a), mk(k, gb, b, VAR[vn])
            for n, w in products(ga, gb, u, v):
                yield w.eq('%s %s' % (n, vn))
                yield k.of(w.e.doit(), w.r).eq('%s %s doit' % (n, vn))
                if deep:
                    yield w.dag().eq('%s %s ^+' % (n, vn))
                    yield w.expand().eq('%s %s expand' % (n, vn))
                    yield (x * w).eq('x %s %s' % (n, vn))
    return f


def free_index(grp, a):
    """products with a plain factor or a scalar that contains a free index of the same name as an index of the sum"""
    def f(cx):
        for vi, vj in ((0, 1), (2, 0), (1, 1)):
            k = K(normalized=True, bind={sym('i'): vi, sym('j'): vj, sym("i'"): 2})
            u = mk(k, grp, a)
            i, j, ip = sym('i'), sym('j'), sym("i'")
            q = h(k, 'q')
            plain = []
            for nm, (i_, n_) in {'i': (i, vi), 'j': (j, vj), "i'": (ip, 2)}.items():
                plain.append(('|%s><0|' % nm, 'op', k.of(ksig(k, i_, 0, q), k.sig(n_, 0, q).r)))
                plain.append(('b_%s A' % nm, 'op', k.of(B('b', i_) * A(k).e, (B('b', n_) * A(k)).r)))
                plain.append(('A_%s' % nm, 'op', k.of(osym('A', h(k, 1), i_), k.op('A_%d' % n_, h(k, 1)).r)))
                plain.append(('|%s>' % nm, 'ket', k.of(kb(k, i_, q), k.bket(n_, q).r)))
                plain.append(('c|%s>' % nm, 'ket', k.of(B('c', i_) * kb(k, i_, q), (B('c', n_) * k.bket(n_, q)).r)))
                plain.append(('<%s|W>' % nm, 'sc', k.of(kb(k, i_, q).dag() * P(k, 'q', 'W').e, (k.bket(n_, q).dag() * P(k, 'q', 'W')).r)))
                if grp != 'sc':  # see scale()
                    plain.append(('b_%s' % nm, 'sc', k.of(SV(B('b', i_)), k.sc(B('b', n_)).r)))
            for n, g, p in plain:
                if g == 'sc':
                    todo = [('pu', lambda: p * u), ('up', lambda: u * p)]
                elif grp == 'sc':
                    todo = [('up', lambda: u * p)]
                elif grp == g == 'op':
                    todo = [('up', lambda: u * p), ('pu', lambda: p * u)]
                elif grp == g == 'ket':
                    if spaces(u) == spaces(p):
                        todo = [('<p|u>', lambda: p.dag() * u), ('<u|p>', lambda: u.dag() * p), ('|u><p|', lambda: u * p.dag()), ('|p><u|', lambda: p * u.dag())]
                    elif not spaces(u) & spaces(p):
                        todo = [('up', lambda: u * p), ('pu', lambda: p * u)]
                    else:
                        todo = []
                elif grp == 'op':
                    todo = [('up', lambda: u * p)] if spaces(u) <= spaces(p) else []
                else:
                    todo = [('pu', lambda: p * u)] if spaces(p) <= spaces(u) else []
                for m, w in todo:
                    w = w()
                    yield w.eq('%s %s i=%d j=%d' % (n, m, vi, vj))
                    yield k.of(w.e.doit(), w.r).eq('%s %s i=%d j=%d doit' % (n, m, vi, vj))
    return f


def plain(grp, a):
    """products with plain factors"""
    def f(cx):
        k = kk()
        u = mk(k, grp, a)
        q = h(k, 'q')
        sp = u.e.space if str(u.e.space) != 'FullSpace' and u.e.space.local_factors else q
        one_ = [('op', 'Z', k.op('Z', sp)), ('op', 'Z2', A(k, 2)), ('op', 'xZ', x * k.op('Z', sp)), ('op', 'Z+Y', k.op('Z', sp) + k.op('Y', sp)), ('op', '3', 3 * k.one()), ('op', '0', k.zero()),
                ('ket', 'W', k.ket('W', sp)), ('ket', 'xW', x * k.ket('W', sp)), ('ket', 'W+V', k.ket('W', sp) + k.ket('V', sp)), ('ket', 'R5', k.ket('R5', h(k, 5))), ('ket', '0', k.of(k.zket().e, sem.scale(ring.ZERO, k.ket('W', sp).r))),
                ('sc', 'x', k.S(x)), ('sc', '<W|V>', k.ket('W', q).dag() * k.ket('V', q)), ('sc', '<W|V>+x', (k.ket('W', q).dag() * k.ket('V', q)) + k.S(x))]
        for g, n, p in one_:
            if grp == 'sc' and g != 'sc':
                yield (u * p).eq('u ' + n)
            elif g == 'sc':
                yield (u * p).eq('u ' + n)
                yield (p * u).eq(n + ' u')
                yield (u / p).eq('u / ' + n)
            else:
                args = (grp, g, u, p) if (grp, g) != ('ket', 'op') else ('op', 'ket', p, u)
                if (grp, g) == ('ket', 'op') and n in ('3', '0'):
                    yield (p * u).eq(n + ' u')
                    continue
                if n == '0' and g == 'ket':
                    yield k.of(u.e * p.e if grp == 'op' else u.e.dag() * p.e, sem.mul(u.r, p.r) if grp == 'op' else sem.mul(sem.dag(u.r), p.r)).eq('u 0')
                    continue
                for m, w in products(*args):
                    yield w.eq('%s %s' % (m, n))
                    yield w.dag().eq('%s %s ^+' % (m, n))
                if grp == g and n not in ('0', '3', 'R5', 'Z2'):
                    for m, w in products(g, grp, p, u):
                        yield w.eq('%s %s rev' % (m, n))
        if grp == 'op':
            Z = k.op('Z', sp)
            yield k.comm(u, Z).eq('[u,Z]')
            yield k.comm(Z, u).eq('[Z,u]')
            yield k.spre(u).eq('SPre')
            yield k.spost(u).eq('SPost')
            S_ = k.sop('S', sp)
            for ls in sp.local_factors:
                yield k.tr(u, ls).eq('tr %s' % ls)
                yield k.tr(u * Z, ls).eq('tr(uZ) %s' % ls)
            yield (k.ket('W', sp).dag() * (u * k.ket('V', sp))).eq('<W|u|V>')
            yield (u * (k.ket('W', sp) * k.ket('V', sp).dag())).eq('u |W><V|')
    return f


def nested(cx):
    """sums of sums are merged, also when they use the same index name"""
    k = kk()
    i, j, m = sym('i'), sym('j'), sym('m')
    q = h(k, 'q')
    cr = {g: cls_of(g).create for g in ('op', 'ket', 'sc')}
    for jn in (j, i):
        inner = cr['op'](B('b', jn) * ksig(k, jn, 0, q), rng(k, jn, (0, 1)))
        ri = esum(k, lambda n: B('b', n) * k.sig(n, 0, q), range(2))
        for n, e, c in (('x', inner, lambda z: 1), ('c_i', B('c', i) * inner if jn != i else None, lambda z: B('c', z))):
            if e is None:
                continue
            for r_, vs in (((0, 2), range(3)), ([1, 2], [1, 2])):
                o = cr['op'](e, rng(k, i, r_))
                ref = None
                for z in vs:
                    w = sem.scale(sem.val(sympy.sympify(c(z)), k.env), ri)
                    ref = w if ref is None else sem.add(ref, w)
                yield k.of(o, ref).eq('nested %s %s %s' % (jn, n, r_))
                yield k.of(o.doit(), ref).eq('nested doit %s %s %s' % (jn, n, r_))
    e = cr['ket'](B('a', i, j) * kb(k, i, q), rng(k, j, (0, 1)))
    e2 = cr['ket'](e, rng(k, i, (0, 2)))
    ref = esum(k, lambda n, m: B('a', n, m) * k.bket(n, q), range(3), range(2))
    yield k.of(e2, ref).eq('nested ket')
    yield k.of(e2.doit(), ref).eq('nested ket doit')
    e = cr['sc'](SV(B('a', i, j)), rng(k, j, (0, 1)))
    # a scalar sum as coefficient of the term of another sum
    for jn in (j,):
        coef = cr['sc'](SV(B('a', i, jn)), rng(k, jn, (0, 1)))
        o = cr['op'](coef * ksig(k, i, 0, q), rng(k, i, (0, 2)))
        ref = esum(k, lambda n, m: B('a', n, m) * k.sig(n, 0, q), range(3), range(2))
        yield k.of(o, ref).eq('scalar sum as coefficient')
        yield k.of(o.doit(), ref).eq('scalar sum as coefficient doit')
        yield Holds('the inner index is bound too', o.bound_symbols == {i, j} and not {i, j} & o.free_symbols)
        o2 = o.make_disjunct_indices(i)
        yield k.of(o2, ref).eq('scalar sum as coefficient disjunct')
        o3 = cr['op'](coef * ksig(k, i, m, q), rng(k, i, (0, 2)))
        p = o * cr['op'](B('b', j) * ksig(k, 0, j, q), rng(k, j, (0, 1)))
        yield k.of(p, esum(k, lambda n, m, l: B('a', n, m) * B('b', l) * (k.sig(n, 0, q) * k.sig(0, l, q)), range(3), range(2), range(2))).eq('product with the inner index')
    ksum = cr['ket'](coef * kb(k, i, q), rng(k, i, (0, 2)))
    kr = esum(k, lambda n, m: B('a', n, m) * k.bket(n, q), range(3), range(2))
    yield k.of(ksum, kr).eq('ket with scalar sum coefficient')
    K2 = k.of(ksum, kr)
    yield (K2.dag() * K2).eq('norm')
    yield (K2 * K2.dag()).eq('projector')


def deltas(cx):
    """Kronecker deltas of one and two indices over all kinds of ranges"""
    k = kk()
    i, j, m = sym('i'), sym('j'), sym('m')
    q = h(k, 'q')
    cr = {g: cls_of(g).create for g in ('op', 'ket', 'sc')}
    kinds = {'fock': 'fock', '0..2': (0, 2), '0..1': (0, 1), '1..2': (1, 2), '[2,0]': [2, 0], '[1,1]': [1, 1], '2..0': (2, 0, -1), '0..2/2': (0, 2, 2)}
    D = {'i-j': (lambda i, j: delta(i, j), lambda a, b: d(a, b)), 'i-j-1': (lambda i, j: delta(i, j + 1), lambda a, b: d(a, b + 1)), 'i-2j': (lambda i, j: delta(i, 2 * j), lambda a, b: d(a, 2 * b)),
         'i-1': (lambda i, j: delta(i, 1), lambda a, b: d(a, 1)), '1+dij': (lambda i, j: 1 + delta(i, j), lambda a, b: 1 + d(a, b)),
         'dij di1': (lambda i, j: delta(i, j) * delta(i, 1), lambda a, b: d(a, b) * d(a, 1)), 'di0+dj1': (lambda i, j: delta(i, 0) + delta(j, 1), lambda a, b: d(a, 0) + d(b, 1)),
         'i+j-2': (lambda i, j: delta(i + j, 2), lambda a, b: d(a + b, 2)), 'dij^2': (lambda i, j: delta(i, j) ** 2, lambda a, b: d(a, b)), 'x dij + b': (lambda i, j: x * delta(i, j) + B('b', i), lambda a, b: x * d(a, b) + B('b', a))}
    for ni, ki in kinds.items():
        for nj, kj in kinds.items():
            for dn, (f, g) in D.items():
                for order in (0, 1):
                    rs = [rng(k, i, ki, q), rng(k, j, kj, q)]
                    if order:
                        rs.reverse()
                    lbl = '%s %s %s %d' % (ni, nj, dn, order)
                    e = cr['sc'](SV(f(i, j) * B('a', i, j)), *rs)
                    yield k.of(e, esum(k, lambda a, b: k.sc(g(a, b) * B('a', a, b)), vals(ki), vals(kj))).eq('sc ' + lbl)
                    if order == 0 and dn not in ('i-2j', 'dij^2'):
                        e = cr['op'](f(i, j) * B('b', j) * ksig(k, i, j, q), *rs)
                        yield k.of(e, esum(k, lambda a, b: g(a, b) * B('b', b) * k.sig(a, b, q), vals(ki), vals(kj))).eq('op ' + lbl)
                        e = cr['ket'](f(i, j) * B('b', j) * kb(k, i, q), *rs)
                        yield k.of(e, esum(k, lambda a, b: g(a, b) * B('b', b) * k.bket(a, q), vals(ki), vals(kj))).eq('ket ' + lbl)
    # overlaps and matrix elements produce deltas
    for ni, ki in kinds.items():
        for nj, kj in kinds.items():
            a = k.of(cr['ket'](B('b', i) * kb(k, i, q), rng(k, i, ki, q)), esum(k, lambda n: B('b', n) * k.bket(n, q), vals(ki)))
            for jn in (i, j):
                b = k.of(cr['ket'](B('c', jn) * kb(k, jn, q), rng(k, jn, kj, q)), esum(k, lambda n: B('c', n) * k.bket(n, q), vals(kj)))
                o = k.of(cr['op'](B('o', jn) * ksig(k, jn, jn, q), rng(k, jn, kj, q)), esum(k, lambda n: B('o', n) * k.sig(n, n, q), vals(kj)))
                yield (a.dag() * b).eq('<a|b> %s %s %s' % (ni, nj, jn))
                yield (o * a).eq('o a %s %s %s' % (ni, nj, jn))
                yield (b.dag() * (o * a)).eq('<b|o|a> %s %s %s' % (ni, nj, jn))
                yield (o * o).eq('o o %s %s' % (nj, jn))


def three(ga, a, gb, b, gc, c):
    def f(cx):
        k = kk()
        u, v, w = mk(k, ga, a), mk(k, gb, b), mk(k, gc, c)
        yield ((u * v) * w).eq('(uv)w')
        yield (u * (v * w)).eq('u(vw)')
    return f


def empty(cx):
    """sums over no values"""
    k = kk()
    i = sym('i')
    q = h(k, 'q')
    m = idx()
    for g, term in (('op', B('b', i) * ksig(k, i, i, q)), ('op', A(k).e), ('ket', B('b', i) * kb(k, i, q)), ('ket', P(k).e), ('sc', SV(B('b', i))), ('sc', SV(x))):
        for r in (m.IndexOverRange(i, 1, 0), m.IndexOverList(i, [])):
            e = cls_of(g).create(term, r)
            zero = {'op': k.zero(), 'ket': k.zket(), 'sc': k.sc(0)}[g]
            yield Holds('%s %s: an empty sum is zero' % (g, r), e == zero.e or e.doit() == zero.e)
            z = e.doit()
            yield Holds('%s %s: doit of an empty sum is zero' % (g, r), z is not None and (z == zero.e or getattr(z, 'is_zero', False)))


def cases(tier):
    q = tier == 'quick'
    out = []
    for g, tab in TAB.items():
        for a in tab:
            out.append(Case('one/%s/%s' % (g, a), one(g, a), weight=3))
            out.append(Case('plain/%s/%s' % (g, a), plain(g, a), weight=3))
            out.append(Case('free/%s/%s' % (g, a), free_index(g, a), weight=4))
    two = [('op', 'op'), ('ket', 'ket'), ('op', 'ket'), ('sc', 'sc'), ('sc', 'op'), ('sc', 'ket')]
    for ga, gb in two:
        for a in TAB[ga]:
            for b in TAB[gb]:
                if q and ga == 'sc' and gb != 'sc' and b not in ('b|i><i|', 'bc|i><j|', 'Ai', 'b|i>', 'ij', 'Psi_i'):
                    continue
                out.append(Case('%s-%s/%s|%s' % (ga, gb, a, b), pair(ga, a, gb, b, ('same', 'swap') if q else VAR), weight=4))
    small = [('op', 'b|i><i|'), ('op', '|i+1><i|'), ('op', 'bc|i><j|'), ('ket', 'b|i>')]
    for (ga, a) in small[:3] if q else [('op', o) for o in OPS]:
        for (gb, b) in small[:3]:
            for (gc, c) in small:
                out.append(Case('three/%s|%s|%s' % (a, b, c), three(ga, a, gb, b, gc, c), weight=5))
    out += [Case('nested', nested), Case('deltas', deltas, weight=50), Case('empty', empty)]
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
