"""C06: superoperator expressions act as the maps they denote; Liouvillian normal form."""
import sys

import sympy

from qv import harness, sem, ring
from qv.dual import K, V
from qv.harness import Case, Eq, Holds

PROPERTY = 'C06'
MODULE = 'checks.c06'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('superoperator expressions are built and rewritten by the real code over symbolic maps and matrices; z3 '
               'decides that the resulting map on the doubled space (and the operator obtained by applying it) equals the '
               'composition of the maps of the operands for all matrices, maps and coefficients; the adjoint is the trace '
               'dual; the Hamiltonian and jump operators of the Liouvillian normal form are recomposed by the textbook '
               'formula and compared with the Liouvillian as a map')
BOUNDS = {'quick': 'two-level systems (three-level for transition operators), superoperators on 1 degree of freedom, '
                   'left/right multiplications on up to 3, all pairs and selected triples of shapes; up to 3 jump operators',
          'thorough': 'all triples of the short list, longer chains'}
x, y = sympy.symbols('x y')
r = sympy.Symbol('r', real=True)


def so():
    from qnet.algebra.core import super_operator_algebra as m
    return m


def A(k, n=1, name='A'):
    return k.op(name, k.ls(n))


def C(k):
    return k.op('C', k.ls(1) * k.ls(2))


def sg(k, i, j):
    return k.sig(i, j, k.ls('q', dimension=3))


SUP = {
    'one': lambda k: k.sone(),
    'zero': lambda k: k.szero(),
    'L1': lambda k: k.sop('L', k.ls(1)),
    'M1': lambda k: k.sop('M', k.ls(1)),
    'L2': lambda k: k.sop('L', k.ls(2)),
    'L1d': lambda k: k.sop('L', k.ls(1)).dag(),
    'xL1': lambda k: k.sym('x') * k.sop('L', k.ls(1)),
    'L1+M1': lambda k: k.sop('L', k.ls(1)) + k.sop('M', k.ls(1)),
    'L1-xL2': lambda k: k.sop('L', k.ls(1)) - k.sym('x') * k.sop('L', k.ls(2)),
    'M1L1': lambda k: k.sop('M', k.ls(1)) * k.sop('L', k.ls(1)),
    'pA': lambda k: k.spre(A(k)),
    'pB': lambda k: k.spre(A(k, 1, 'B')),
    'pxA': lambda k: k.spre(k.sym('x') * A(k)),
    'pA+': lambda k: k.spre(A(k) + 2 * A(k, 1, 'B') + 3),
    'pAB': lambda k: k.spre(A(k) * A(k, 1, 'B')),
    'pAd': lambda k: k.spre(A(k).dag()),
    'pA2': lambda k: k.spre(A(k, 2)),
    'pC': lambda k: k.spre(C(k)),
    'pI': lambda k: k.spre(k.one()),
    'pO': lambda k: k.spre(k.zero()),
    'psig': lambda k: k.spre(sg(k, 0, 1)),
    'qA': lambda k: k.spost(A(k)),
    'qB': lambda k: k.spost(A(k, 1, 'B')),
    'qiA': lambda k: k.spost(k.sc(1j) * A(k)),
    'qA+': lambda k: k.spost(A(k) - k.sym('y') * A(k, 1, 'B')),
    'qAB': lambda k: k.spost(A(k) * A(k, 1, 'B')),
    'qA2': lambda k: k.spost(A(k, 2)),
    'qC': lambda k: k.spost(C(k)),
    'qI': lambda k: k.spost(k.one()),
    'qsig': lambda k: k.spost(sg(k, 1, 2)),
    'pAqB': lambda k: k.spre(A(k)) * k.spost(A(k, 1, 'B')),
    'qBpA': lambda k: k.spost(A(k, 1, 'B')) * k.spre(A(k)),
    'commA': lambda k: k.spre(A(k)) - k.spost(A(k)),
    'pAL1': lambda k: k.spre(A(k)) * k.sop('L', k.ls(1)),
    'L1qA': lambda k: k.sop('L', k.ls(1)) * k.spost(A(k)),
    'pA2L1': lambda k: k.spre(A(k, 2)) * k.sop('L', k.ls(1)),
}
OPS = {
    'I': lambda k: k.one(), 'O': lambda k: k.zero(),
    'A': lambda k: A(k), 'B': lambda k: A(k, 1, 'B'), 'A2': lambda k: A(k, 2), 'C': C,
    'A+B': lambda k: A(k) + k.sym('y') * A(k, 1, 'B'), 'AB': lambda k: A(k) * A(k, 1, 'B'),
    'xA': lambda k: k.sym('x') * A(k), 'AA2': lambda k: A(k) * A(k, 2), 'sig': lambda k: sg(k, 2, 0),
    'L(B)': lambda k: k.sop('L', k.ls(1)) * A(k, 1, 'B'),
}
SC = ('0', '1', '-1', '2', '1j', 'x', 'S0', 'S1')


def sca(k, s):
    return {'0': lambda: k.sc(0), '1': lambda: k.sc(1), '-1': lambda: k.sc(-1), '2': lambda: k.sc(2),
            '1j': lambda: k.sc(1j), 'x': lambda: k.sym('x'), 'S0': lambda: k.S(0), 'S1': lambda: k.S(1)}[s]()


BIG = {'pC', 'qC', 'L1-xL2', 'L2', 'pA2L1', 'pA2', 'qA2'}


def unary(a):
    def f(cx):
        k = K()
        u = SUP[a](k)
        yield u.eq('itself')
        yield (-u).eq('negative')
        yield (u + u).eq('double')
        yield (u - u).eq('cancel')
        yield (x * u + y * u - u).eq('combine')
        yield u.dag().eq('adjoint')
        yield u.dag().dag().eq('adjoint twice')
        yield k.call(so().SuperAdjoint.create, sem.super_dual, u).eq('SuperAdjoint')
        yield (x * u).dag().eq('adjoint of multiple')
        yield u.expand().eq('expand')
        yield (u * u).eq('square')
        yield (u ** 3).eq('cube') if a not in BIG else (u ** 2).eq('square')
        for s in SC:
            v = sca(k, s)
            yield (v * u).eq(s + '*')
            yield (u * v).eq('*' + s)
            if s not in ('0', 'S0'):
                yield (u / v).eq('/' + s)
        for o in OPS:
            w = OPS[o](k)
            yield (u * w).eq('on ' + o)
            yield (u * w).expand().eq('on %s expanded' % o)
            yield (x * u * w).eq('x on ' + o)
            yield (u * (u * w)).eq('twice on ' + o)
            yield ((u * u) * w).eq('square on ' + o)
    return f


def binary(a, b):
    def f(cx):
        k = K()
        u, v = SUP[a](k), SUP[b](k)
        yield (u * v).eq('product')
        yield (u + v).eq('sum')
        yield (u - v).eq('difference')
        yield (u + 2 * v - u).eq('sum cancels')
        yield (u * v).dag().eq('adjoint of product')
        yield (u + v).dag().eq('adjoint of sum')
        yield (u * v).expand().eq('expanded product')
        yield ((u + v) * v).expand().eq('expanded (u+v)v')
        for o in ('A', 'AA2', 'sig', 'A+B'):
            w = OPS[o](k)
            yield ((u * v) * w).eq('uv on ' + o)
            yield (u * (v * w)).eq('u on v on ' + o)
            yield ((u + v) * w).eq('u+v on ' + o)
    return f


def triple(a, b, c):
    def f(cx):
        k = K()
        u, v, w = SUP[a](k), SUP[b](k), SUP[c](k)
        yield (u * v * w).eq('uvw')
        yield (u * (v * w)).eq('u(vw)')
        yield ((u + v) * w - u).eq('(u+v)w-u')
        yield k.call(so().SuperOperatorTimes.create, lambda p, q, s: sem.mul(sem.mul(p, q), s), u, v, w).eq('create')
        yield k.call(so().SuperOperatorPlus.create, lambda p, q, s: sem.add(sem.add(p, q), s), u, v, w).eq('plus')
        yield ((u * v * w) * OPS['A'](k)).eq('uvw on A')
        yield (u * v * w).dag().eq('adjoint')
    return f


# ---- commutator(), lindblad(), liouvillian()
def ref_comm(a):
    return sem.sub(lift(a, 'L'), lift(a, 'R'))


def lift(a, side):
    if a.is_scalar():
        return sem.T((), (), dict(a.d), {}, True)
    return sem.spre(a) if side == 'L' else sem.spost(a)


def ref_lindblad(c):
    cd = sem.dag(c)
    n = sem.mul(cd, c)
    h = ring.const(ring.Fraction(1, 2))
    return sem.sub(sem.mul(lift(c, 'L'), lift(cd, 'R')), sem.scale(h, sem.add(lift(n, 'L'), lift(n, 'R'))))


def ref_liouvillian(h, ls):
    t = sem.scale(-ring.I, ref_comm(h))
    for l in ls:
        t = sem.add(t, ref_lindblad(l))
    return t


JUMP = {
    'A': lambda k: A(k), 'xA': lambda k: k.sym('x') * A(k), 'A+x': lambda k: A(k) + k.sym('x'),
    'A+B': lambda k: A(k) + 2 * A(k, 1, 'B'), 'AB': lambda k: A(k) * A(k, 1, 'B'), 'C': C, 'sig': lambda k: sg(k, 0, 1),
    'AA2': lambda k: A(k) * A(k, 2), 'Ad': lambda k: A(k).dag(), 'A+iA2': lambda k: A(k) + k.sc(1j) * A(k, 2), 'O': lambda k: k.zero(),
    'I': lambda k: k.one(), 'comm': lambda k: k.comm(A(k), A(k, 1, 'B')),
}


def dissip(a):
    def f(cx):
        k = K()
        c = JUMP[a](k)
        cm, ac = so().commutator, so().anti_commutator
        yield k.call(cm, ref_comm, c).eq('commutator(c)')
        yield k.call(ac, lambda q: sem.add(lift(q, 'L'), lift(q, 'R')), c).eq('anti_commutator(c)')
        for o in OPS:
            w = OPS[o](k)
            yield k.call(cm, sem.comm, c, w).eq('commutator(c,%s)' % o)
            yield k.call(ac, lambda p, q: sem.add(sem.mul(p, q), sem.mul(q, p)), c, w).eq('anti_commutator(c,%s)' % o)
        yield k.call(so().lindblad, ref_lindblad, c).eq('lindblad')
        yield k.call(so().lindblad, ref_lindblad, c).expand().eq('lindblad expanded')
        h = A(k) + A(k).dag() + x * sg(k, 0, 1)
        yield k.of(so().liouvillian(h.e, [c.e]), ref_liouvillian(h.r, [c.r])).eq('liouvillian')
        rho = k.op('rho', k.ls(1))
        l = k.of(so().liouvillian(h.e, [c.e, A(k).e]), ref_liouvillian(h.r, [c.r, A(k).r]))
        yield (l * rho).eq('liouvillian on rho')
        yield (l * rho).expand().eq('liouvillian on rho expanded')
        yield l.dag().eq('adjoint')
    return f


def pos(n):
    return sympy.Symbol(n, positive=True)


NF = {
    'none': lambda k: [],
    'A': lambda k: [A(k)],
    '2A': lambda k: [k.sc(2) * A(k)],
    'kA': lambda k: [pos('k') * A(k)],
    'xA': lambda k: [k.sym('x') * A(k)],
    'A+x': lambda k: [A(k) + k.sym('x')],
    '2A,3B': lambda k: [k.sc(2) * A(k), k.sc(3) * A(k, 1, 'B')],
    '3A+4B': lambda k: [k.sc(3) * A(k) + k.sc(4) * A(k, 1, 'B')],
    'kA,gB': lambda k: [pos('k') * A(k), pos('g') * A(k, 1, 'B')],
    'kA,gA2': lambda k: [pos('k') * A(k) + k.sym('x'), pos('g') * A(k, 2)],
    'k(A+B)': lambda k: [pos('k') * A(k) + pos('k') * A(k, 1, 'B')],
    'k(A+iB)': lambda k: [pos('k') * A(k) + (sympy.I * pos('k')) * A(k, 1, 'B')],
    'kA,gA': lambda k: [pos('k') * A(k) + k.sym('x'), pos('g') * A(k)],
    'k(A+B),k(A-B)': lambda k: [pos('k') * A(k) + pos('k') * A(k, 1, 'B'), pos('k') * A(k) - pos('k') * A(k, 1, 'B')],
    'k(A+B+D)': lambda k: [pos('k') * A(k) + pos('k') * A(k, 1, 'B') + pos('k') * A(k, 1, 'D')],
    'kA,gB,A2': lambda k: [pos('k') * A(k), pos('g') * A(k, 1, 'B'), A(k, 2)],
    'sig': lambda k: [pos('k') * sg(k, 0, 1), pos('g') * sg(k, 1, 2)],
    '2A,3B,4D': lambda k: [k.sc(2) * A(k), k.sc(3) * A(k, 1, 'B'), k.sc(4) * A(k, 1, 'D')],
    'A+2,B': lambda k: [A(k) + k.sc(2), k.sc(2) * A(k, 1, 'B')],
    'AB': lambda k: [A(k) * A(k, 1, 'B')],
}


def normal(a, hh):
    def f(cx):
        import contextlib, io
        k = K()
        ls = NF[a](k)
        h = {'H': lambda: A(k) + A(k).dag(), 'rH': lambda: r * (A(k).dag() * A(k)) + A(k, 2).dag() * A(k, 2),
             '0': lambda: k.zero()}[hh]()
        L = so().liouvillian(h.e, [l.e for l in ls])
        with contextlib.redirect_stdout(io.StringIO()):
            H2, L2 = so().liouvillian_normal_form(L)
        yield Eq('same map', ref_liouvillian(sem.den(H2, k.env), [sem.den(l, k.env) for l in L2]), sem.den(L, k.env))
        t = sem.den(H2, k.env)
        yield Eq('H self-adjoint', t, sem.dag(t))
        yield Eq('textbook', sem.den(L, k.env), ref_liouvillian(h.r, [l.r for l in ls]))
        yield Holds('no more jump operators than given', len(L2) <= max(len(ls), sum(len(getattr(l.e, 'operands', [1])) for l in ls)))
    return f


def cases(tier):
    out = []
    for a in SUP:
        out.append(Case('unary/' + a, unary(a), weight=6))
    for a in SUP:
        for b in SUP:
            out.append(Case('pair/%s|%s' % (a, b), binary(a, b), weight=2 if a not in BIG and b not in BIG else 3))
    tri = ['L1', 'pA', 'qB', 'pAqB', 'xL1', 'pA2', 'qA', 'commA', 'qsig']
    if tier == 'thorough':
        tri += ['L1+M1', 'M1', 'pxA', 'qiA', 'L1d', 'pC', 'qA2', 'one', 'zero', 'pAL1', 'L1qA']
    for a in tri:
        for b in tri:
            for c in tri:
                out.append(Case('triple/%s|%s|%s' % (a, b, c), triple(a, b, c), weight=3))
    for a in JUMP:
        out.append(Case('dissipator/' + a, dissip(a), weight=6))
    for a in NF:
        for h in ('H', 'rH', '0'):
            out.append(Case('normal form/%s/%s' % (a, h), normal(a, h), weight=4))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
