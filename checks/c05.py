"""C05: states, overlaps, outer products keep their meaning under rewriting."""
import sys

import sympy

from qv import harness, sem
from qv.dual import K, V
from qv.harness import Case, Eq, Holds

PROPERTY = 'C05'
MODULE = 'checks.c05'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('kets, bras, tensor products, overlaps, outer products and operator applications are built by the real code '
               'from symbolic vectors and matrices (unit vectors for state symbols); z3 decides equality of every entry '
               'of the result with the mathematical operation on the operands, for all vectors, matrices and scalars; '
               'index labels stay symbolic in the real code and are then decided for every value of the index')
BOUNDS = {'quick': 'two-level (default), three-level and labelled two-level systems, up to 3 degrees of freedom; all pairs '
                   'of kets, kets/bras, operators/kets out of the shape lists; triples; symbolic labels 0..3',
          'thorough': 'as quick, with larger triple lists and 4-factor chains'}

x, y = sympy.symbols('x y')


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def h(k, l):
    if l == 'q':
        return k.ls('q', dimension=3)
    if l == 'a':
        return k.ls('atom', basis=('g', 'e'))
    return k.ls(l)


def hs(k, *ls):
    r = h(k, ls[0])
    for l in ls[1:]:
        r = r * h(k, l)
    return r


def ksum(k, l='q', base='b', coef=None):
    """sum_i c_i |i> (IndexOverRange / IndexOverFockSpace)"""
    from qnet.utils.indices import IdxSym, FockIndex, IndexOverFockSpace, IndexOverRange
    i = IdxSym('i')
    s = h(k, l)
    c = sympy.IndexedBase('c')
    t = c[i] * st().BasisKet(FockIndex(i), hs=s)
    e = st().KetIndexedSum.create(t, IndexOverRange(i, 0, 1))
    r = None
    for n in range(2):
        v = k.sc(c[n]) * k.bket(n, s)
        r = v.r if r is None else sem.add(r, v.r)
    return k.of(e, r)


# name: (space labels, builder)
KETS = {
    'P1': ('1', lambda k: k.ket('Psi', h(k, 1))),
    'F1': ('1', lambda k: k.ket('Phi', h(k, 1))),
    'xP1': ('1', lambda k: k.sym('x') * k.ket('Psi', h(k, 1))),
    'P1+F1': ('1', lambda k: k.ket('Psi', h(k, 1)) + k.ket('Phi', h(k, 1))),
    'P1-iF1': ('1', lambda k: k.ket('Psi', h(k, 1)) - k.sc(1j) * k.ket('Phi', h(k, 1))),
    'A1P1': ('1', lambda k: k.op('A', h(k, 1)) * k.ket('Psi', h(k, 1))),
    'A1B1P1': ('1', lambda k: k.op('A', h(k, 1)) * k.op('B', h(k, 1)) * k.ket('Psi', h(k, 1))),
    'yA1F1': ('1', lambda k: k.sym('y') * (k.op('A', h(k, 1)) * k.ket('Phi', h(k, 1)))),
    'P2': ('2', lambda k: k.ket('Psi', h(k, 2))),
    'F2+xP2': ('2', lambda k: k.ket('Phi', h(k, 2)) + k.sym('x') * k.ket('Psi', h(k, 2))),
    'A2P2': ('2', lambda k: k.op('A', h(k, 2)) * k.ket('Psi', h(k, 2))),
    'X12': ('12', lambda k: k.ket('X', hs(k, 1, 2))),
    'P1P2': ('12', lambda k: k.ket('Psi', h(k, 1)) * k.ket('Psi', h(k, 2))),
    'F1P2': ('12', lambda k: k.ket('Phi', h(k, 1)) * k.ket('Psi', h(k, 2))),
    'iP2F1': ('12', lambda k: k.sc(1j) * k.ket('Psi', h(k, 2)) * k.ket('Phi', h(k, 1))),
    'ent12': ('12', lambda k: k.ket('Psi', h(k, 1)) * k.ket('Psi', h(k, 2)) + k.ket('Phi', h(k, 1)) * k.ket('Phi', h(k, 2))),
    'C12X12': ('12', lambda k: k.op('C', hs(k, 1, 2)) * k.ket('X', hs(k, 1, 2))),
    'A1X12': ('12', lambda k: k.op('A', h(k, 1)) * k.ket('X', hs(k, 1, 2))),
    'b0': ('q', lambda k: k.bket(0, h(k, 'q'))),
    'b1': ('q', lambda k: k.bket(1, h(k, 'q'))),
    'b2': ('q', lambda k: k.bket(2, h(k, 'q'))),
    'xb0-b2': ('q', lambda k: k.sym('x') * k.bket(0, h(k, 'q')) - k.bket(2, h(k, 'q'))),
    'Pq': ('q', lambda k: k.ket('Psi', h(k, 'q'))),
    'sumq': ('q', ksum),
    'bg': ('a', lambda k: k.bket('g', h(k, 'a'))),
    'be': ('a', lambda k: k.bket('e', h(k, 'a'))),
    'be_i': ('a', lambda k: k.of(st().BasisKet(1, hs=h(k, 'a')), k.bket('e', h(k, 'a')).r)),
    'P1b1': ('1q', lambda k: k.ket('Psi', h(k, 1)) * k.bket(1, h(k, 'q'))),
    'b0bg': ('qa', lambda k: k.bket(0, h(k, 'q')) * k.bket('g', h(k, 'a'))),
    'bebg': ('qa', lambda k: k.bket('e', h(k, 'a')) * k.bket(0, h(k, 'q'))),
    'P1X23': ('123', lambda k: k.ket('Psi', h(k, 1)) * k.ket('X', hs(k, 2, 3))),
    'P1P2P3': ('123', lambda k: k.ket('Psi', h(k, 1)) * k.ket('Psi', h(k, 2)) * k.ket('Psi', h(k, 3))),
    'X12P3': ('123', lambda k: k.ket('X', hs(k, 1, 2)) * k.ket('Phi', h(k, 3))),
    'X13P2': ('123', lambda k: k.ket('X', hs(k, 1, 3)) * k.ket('Phi', h(k, 2))),
    'triv': ('', lambda k: k.tket()),
    'Px1': ('1', lambda k: k.ket('Psi', h(k, 1), x)),
}
OPS = {
    'I': ('', lambda k: k.one()),
    'O': ('', lambda k: k.zero()),
    'A1': ('1', lambda k: k.op('A', h(k, 1))),
    'A1d': ('1', lambda k: k.op('A', h(k, 1)).dag()),
    'xA1': ('1', lambda k: k.sym('x') * k.op('A', h(k, 1))),
    'A1+2': ('1', lambda k: k.op('A', h(k, 1)) + 2),
    'A1B1': ('1', lambda k: k.op('A', h(k, 1)) * k.op('B', h(k, 1))),
    '[A1,B1]': ('1', lambda k: k.comm(k.op('A', h(k, 1)), k.op('B', h(k, 1)))),
    'kb1': ('1', lambda k: k.ket('Psi', h(k, 1)) * k.ket('Phi', h(k, 1)).dag()),
    'kbPP': ('1', lambda k: k.ket('Psi', h(k, 1)) * k.ket('Psi', h(k, 1)).dag()),
    'A2': ('2', lambda k: k.op('A', h(k, 2))),
    'A1A2': ('12', lambda k: k.op('A', h(k, 1)) * k.op('A', h(k, 2))),
    'A2B1A1': ('12', lambda k: k.op('A', h(k, 2)) * k.op('B', h(k, 1)) * k.op('A', h(k, 1))),
    'C12': ('12', lambda k: k.op('C', hs(k, 1, 2))),
    'C12A1': ('12', lambda k: k.op('C', hs(k, 1, 2)) * k.op('A', h(k, 1))),
    'A1C12': ('12', lambda k: k.op('A', h(k, 1)) * k.op('C', hs(k, 1, 2))),
    'A1+A2': ('12', lambda k: k.op('A', h(k, 1)) + k.op('A', h(k, 2))),
    'tr': ('1', lambda k: k.tr(k.op('C', hs(k, 1, 2)), h(k, 2))),
    's01': ('q', lambda k: k.sig(0, 1, h(k, 'q'))),
    's11': ('q', lambda k: k.sig(1, 1, h(k, 'q'))),
    's20': ('q', lambda k: k.sig(2, 0, h(k, 'q'))),
    's01s': ('q', lambda k: k.sym('x') * k.sig(0, 1, h(k, 'q')) + k.sig(2, 2, h(k, 'q'))),
    'Qq': ('q', lambda k: k.op('Q', h(k, 'q'))),
    'Qs01': ('q', lambda k: k.op('Q', h(k, 'q')) * k.sig(0, 1, h(k, 'q'))),
    'sge': ('a', lambda k: k.sig('g', 'e', h(k, 'a'))),
    'A1s10': ('1q', lambda k: k.op('A', h(k, 1)) * k.sig(1, 0, h(k, 'q'))),
    's01sge': ('qa', lambda k: k.sig(0, 1, h(k, 'q')) * k.sig('g', 'e', h(k, 'a'))),
    'D23': ('23', lambda k: k.op('D', hs(k, 2, 3))),
    'A1D23': ('123', lambda k: k.op('A', h(k, 1)) * k.op('D', hs(k, 2, 3))),
    'C12D23': ('123', lambda k: k.op('C', hs(k, 1, 2)) * k.op('D', hs(k, 2, 3))),
    'E3A1': ('13', lambda k: k.op('E', h(k, 3)) * k.op('A', h(k, 1))),
    'kb12': ('12', lambda k: KETS['P1P2'][1](k) * KETS['F1P2'][1](k).dag()),
}
SCAL = {
    '2': lambda k: k.sc(2), '0': lambda k: k.sc(0), '1': lambda k: k.sc(1), '-1': lambda k: k.sc(-1),
    '1-2i': lambda k: k.sc(1 - 2j), 'x': lambda k: k.sym('x'), 'S(x)': lambda k: k.S(x), 'S(0)': lambda k: k.S(0),
    'S(1)': lambda k: k.S(1), 'xy': lambda k: k.sc(x * y + sympy.I), '0.5': lambda k: k.sc(0.5),
    'bk': lambda k: k.ket('Psi', h(k, 1)).dag() * k.ket('Phi', h(k, 1)),
}


def kk():
    return K(normalized=True)


def unary(a):
    def f(cx):
        k = kk()
        u = KETS[a][1](k)
        yield u.eq('itself')
        if a != 'sumq':
            yield (u + u).eq('double')
            yield (u - u).eq('cancel')
            yield (x * u + y * u - u).eq('combine')
        yield (-u).eq('negative')
        b = u.dag()
        yield b.eq('bra')
        yield b.dag().eq('bra of bra')
        if a != 'sumq':
            yield (b + b).eq('bra double')
            yield (b - b).eq('bra cancel')
            yield (x * b + (y * u).dag()).eq('bra combine')
        if a != 'triv':
            yield (b * u).eq('norm')
            yield (u * b).eq('outer')
            yield ((u * b) * u).eq('outer*ket')
            yield (b * (u * b)).eq('bra*outer')
            yield ((u * b) * (u * b)).eq('outer*outer')
            yield ((b * u) * u).eq('norm*ket')
            yield (u * (b * u)).eq('ket*norm')
        for s in SCAL:
            v = SCAL[s](k)
            yield (v * u).eq('%s*ket' % s)
            yield (u * v).eq('ket*%s' % s)
            yield (v * b).eq('%s*bra' % s)
            yield (b * v).eq('bra*%s' % s)
            if s not in ('0', 'S(0)'):
                yield (u / v).eq('ket/%s' % s)
                yield (b / v).eq('bra/%s' % s)
    return f


def same(a, b):
    def f(cx):
        k = kk()
        u, v = KETS[a][1](k), KETS[b][1](k)
        su = 'sumq' in (a, b)
        if not su:
            yield (u + v).eq('u+v')
            yield (u - v).eq('u-v')
            yield (u.dag() + v.dag()).eq('bra+bra')
            yield (u.dag() - v.dag()).eq('bra-bra')
            yield k.call(st().KetPlus.create, lambda p, q, r: sem.add(sem.add(p, q), r), u, v, u).eq('KetPlus')
        yield (u.dag() * v).eq('<u|v>')
        yield (u * v.dag()).eq('|u><v|')
        yield ((u * v.dag()) * v).eq('|u><v|v>')
        yield (v.dag() * (u * v.dag())).eq('<v|u><v|')
        yield ((u * v.dag()) * (v * u.dag())).eq('outer outer')
        yield ((u.dag() * v) * u).eq('<u|v>|u>')
        yield (u * (v.dag() * u)).eq('|u><v|u>')
        yield k.call(st().BraKet.create, lambda p, q: sem.mul(sem.dag(p), q), u, v).eq('BraKet')
        yield k.call(st().KetBra.create, lambda p, q: sem.mul(p, sem.dag(q)), u, v).eq('KetBra')
        if a == b:
            yield Holds('<u|u> of unit vector', not (a in ('P1', 'X12', 'P1P2', 'b1', 'be') and (u.dag() * v).e != 1))
    return f


def disjoint(a, b):
    def f(cx):
        k = kk()
        u, v = KETS[a][1](k), KETS[b][1](k)
        w = u * v
        yield w.eq('tensor')
        yield (v * u).eq('tensor reversed')
        yield Holds('canonical', w.e == (v * u).e or 'sumq' in (a, b))
        yield (u.dag() * v.dag()).eq('bra tensor')
        yield (w.dag() * w).eq('norm')
        yield (w * w.dag()).eq('outer')
        yield ((u * u.dag()) * (v * v.dag())).eq('outer tensor outer') if 'triv' not in (a, b) else w.eq('t')
        yield ((u * u.dag()) * w).eq('outer on tensor') if a != 'triv' else w.eq('t')
        yield (u * 2 * v).eq('scalar between')
        yield ((x * u) * (y * v)).eq('scalars out')
    return f


def opket(a, b):
    def f(cx):
        k = kk()
        A, u = OPS[a][1](k), KETS[b][1](k)
        w = A * u
        yield w.eq('A|u>')
        yield (A.dag() * u).eq('A^+|u>')
        yield (u.dag() * A).eq('<u|A')
        yield (u.dag() * A.dag()).eq('<u|A^+')
        yield (u.dag() * A * u).eq('<u|A|u>')
        yield (u.dag() * w).eq('<u|(A|u>)')
        yield (w.dag() * w).eq('<u|A^+A|u>')
        yield (A * (A * u)).eq('A(A|u>)')
        yield ((A * A) * u).eq('(AA)|u>')
        yield ((A * u) * u.dag()).eq('A|u><u|')
        yield (A * (u * u.dag())).eq('A(|u><u|)')
        yield ((u * u.dag()) * A).eq('|u><u|A')
        yield (u * (A * u).dag()).eq('|u>(A|u>)^+')
        yield k.call(st().OperatorTimesKet.create, sem.mul, A, u).eq('create')
        if 'sumq' != b:
            yield (A * u + 2 * u).eq('A|u>+2|u>')
            yield (x * A * u - A * u).eq('combine')
    return f


def opopket(a, b, c):
    def f(cx):
        k = kk()
        A, B, u = OPS[a][1](k), OPS[b][1](k), KETS[c][1](k)
        yield ((A * B) * u).eq('(AB)u')
        yield (A * (B * u)).eq('A(Bu)')
        yield ((A + B) * u).eq('(A+B)u')
        yield ((u.dag() * A) * B).eq('(<u|A)B')
        yield (u.dag() * (A * B) * u).eq('<AB>')
        yield ((A * u).dag() * (B * u)).eq('<A^+B>')
        yield ((A * u) * (B * u).dag()).eq('A|u><u|B^+')
        if c != 'sumq':
            yield (A * u + B * u).eq('Au+Bu')
    return f


def optensor(a, b, c):
    """operator on tensor product of two kets"""
    def f(cx):
        k = kk()
        A, u, v = OPS[a][1](k), KETS[b][1](k), KETS[c][1](k)
        yield (A * (u * v)).eq('A(u v)')
        yield ((A * u) * v).eq('(A u) v') if OPS[a][0] and set(OPS[a][0]) <= set(KETS[b][0]) else (u * v).eq('uv')
        yield ((u * v).dag() * A).eq('<uv|A')
        yield ((u * v).dag() * A * (u * v)).eq('<uv|A|uv>')
    return f


def symlabel(cls, what):
    """symbolic labels: decided for every value of the indices"""
    def f(cx):
        from qnet.utils import indices as ind
        L = getattr(ind, cls)
        i, j, l, m = (ind.IdxSym(n) for n in 'ijlm')
        N = 3
        k0 = K()
        s = k0.ls('q', dimension=N)
        b = lambda t: st().BasisKet(L(t), hs=s)       # noqa
        g = lambda p, q: oa().LocalSigma(L(p), L(q), hs=s)   # noqa
        if what == 'overlap':
            e, syms = b(i).dag() * b(j), (i, j)
            ref = lambda k, v: k.bket(v[0], s).dag() * k.bket(v[1], s)    # noqa
        elif what == 'outer':
            e, syms = b(i) * b(j).dag(), (i, j)
            ref = lambda k, v: k.bket(v[0], s) * k.bket(v[1], s).dag()    # noqa
        elif what == 'sigma ket':
            e, syms = g(i, j) * b(l), (i, j, l)
            ref = lambda k, v: k.sig(v[0], v[1], s) * k.bket(v[2], s)    # noqa
        elif what == 'bra sigma':
            e, syms = b(l).dag() * g(i, j), (i, j, l)
            ref = lambda k, v: k.bket(v[2], s).dag() * k.sig(v[0], v[1], s)    # noqa
        elif what == 'sigma sigma':
            e, syms = g(i, j) * g(l, m), (i, j, l, m)
            ref = lambda k, v: k.sig(v[0], v[1], s) * k.sig(v[2], v[3], s)    # noqa
        elif what == 'outer outer':
            e, syms = (b(i) * b(j).dag()) * (b(l) * b(m).dag()), (i, j, l, m)
            ref = lambda k, v: k.sig(v[0], v[1], s) * k.sig(v[2], v[3], s)    # noqa
        elif what == 'mixed':
            e, syms = st().BasisKet(1, hs=s).dag() * b(i), (i,)
            ref = lambda k, v: k.bket(1, s).dag() * k.bket(v[0], s)    # noqa
        elif what == 'mixed sigma':
            e, syms = oa().LocalSigma(0, 1, hs=s) * b(i), (i,)
            ref = lambda k, v: k.sig(0, 1, s) * k.bket(v[0], s)    # noqa
        elif what == 'same':
            e, syms = (b(i).dag() * b(i)) * g(i, i), (i,)
            ref = lambda k, v: k.sig(v[0], v[0], s)    # noqa
        elif what == 'next':
            e, syms = b(i).next(), (i,)
            ref = lambda k, v: k.bket(v[0] + 1, s) if v[0] + 1 < N else k.zket()    # noqa
        elif what == 'trace':
            e, syms = oa().OperatorTrace.create(g(i, j), over_space=s), (i, j)
            ref = lambda k, v: k.one() if v[0] == v[1] else k.zero()    # noqa
        import itertools
        for v in itertools.product(range(N), repeat=len(syms)):
            kv = K(bind=dict(zip(syms, v)))
            if what == 'next' and v[0] + 1 >= N:
                continue
            r = ref(K(), v).r
            yield Eq('%s at %r' % (what, v), sem.den(e, kv.env), r)
    return f


def has(a, b):
    return set(a) <= set(b)


def cases(tier):
    out = []
    for a in KETS:
        out.append(Case('ket/' + a, unary(a), weight=5))
    for a in KETS:
        for b in KETS:
            if set(KETS[a][0]) == set(KETS[b][0]) and KETS[a][0]:
                out.append(Case('same/%s|%s' % (a, b), same(a, b), weight=3))
            elif not set(KETS[a][0]) & set(KETS[b][0]):
                if len(KETS[a][0] + KETS[b][0]) <= 3 and a <= b:
                    out.append(Case('disjoint/%s|%s' % (a, b), disjoint(a, b), weight=4))
    for a in OPS:
        for b in KETS:
            if has(OPS[a][0], KETS[b][0]) and b != 'triv':
                out.append(Case('op/%s|%s' % (a, b), opket(a, b), weight=4))
    tri = {'1': ('A1', 'A1d', 'xA1', 'A1B1', 'kb1', 'A1+2', 'I'),
           'q': ('s01', 's11', 's20', 'Qq', 's01s', 'I'),
           '12': ('A1', 'A2', 'C12', 'A1A2', 'C12A1', 'kb12', 'kb1', 'A1+A2'),
           '123': ('D23', 'C12', 'A1D23', 'A2', 'C12D23', 'E3A1')}
    ket3 = {'1': ('P1', 'P1-iF1', 'A1P1'), 'q': ('b0', 'b1', 'xb0-b2', 'sumq'), '12': ('P1P2', 'X12', 'ent12'),
            '123': ('P1P2P3', 'P1X23')}
    if tier == 'thorough':
        tri = {s: [a for a in OPS if has(OPS[a][0], s)] for s in tri}
        ket3 = {s: [a for a in KETS if set(KETS[a][0]) == set(s)] for s in tri}
    for s in tri:
        for a in tri[s]:
            for b in tri[s]:
                for c in ket3[s]:
                    out.append(Case('opop/%s|%s|%s' % (a, b, c), opopket(a, b, c), weight=4))
    for a in OPS:
        for b, c in (('P1', 'P2'), ('P1', 'F2+xP2'), ('A1P1', 'P2'), ('P1', 'b1'), ('b0', 'be'), ('X12', 'b0'),
                     ('sumq', 'P1'), ('P1+F1', 'b2'), ('P2', 'P1'), ('sumq', 'bg')):
            if has(OPS[a][0], KETS[b][0] + KETS[c][0]):
                out.append(Case('optensor/%s|%s|%s' % (a, b, c), optensor(a, b, c), weight=3))
    for cls in ('FockIndex',):
        for w in ('overlap', 'outer', 'sigma ket', 'bra sigma', 'sigma sigma', 'outer outer', 'mixed', 'mixed sigma', 'same',
                  'next', 'trace'):
            out.append(Case('label/%s/%s' % (cls, w), symlabel(cls, w), weight=5))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
