"""Reference semantics of input-output networks (Gough & James): a network of n channels is (S, L, H).

Entries are values of one algebra: ring.Poly (commuting scalars) or sem.T (operators).  A loop is closed by solving the linear
relation of the looped channel."""
from . import ring, sem
from .ring import Poly, ONE, ZERO, const
from fractions import Fraction

HALF = const(Fraction(1, 2))


class IllPosed(Exception):
    pass


def add(a, b):
    return a + b if isinstance(a, Poly) and isinstance(b, Poly) else sem.add(lift(a), lift(b))


def mul(a, b):
    return a * b if isinstance(a, Poly) and isinstance(b, Poly) else sem.mul(lift(a), lift(b))


def dag(a):
    return a.conj() if isinstance(a, Poly) else sem.dag(a)


def lift(a):
    return sem.S(a) if isinstance(a, Poly) else a


def neg(a):
    return -a if isinstance(a, Poly) else sem.neg(a)


def scale(c, a):
    return c * a if isinstance(a, Poly) else sem.scale(c, a)


def im(a):
    """(a - a^+) / 2i"""
    return scale(HALF * ring.I, add(dag(a), neg(a)))


def scalar(a):
    if isinstance(a, Poly):
        return a
    if a.is_scalar():
        return a.scalar()
    raise ring.Undecidable('operator in the loop')


class Net:
    def __init__(self, S, L, H):
        self.S, self.L, self.H = [list(r) for r in S], list(L), H
        self.n = len(self.L)

    def __lshift__(self, o):
        return series(self, o)

    def __add__(self, o):
        return concat(self, o)


def dot(r, c):
    t = None
    for a, b in zip(r, c):
        p = mul(a, b)
        t = p if t is None else add(t, p)
    return ZERO if t is None else t


def series(a, b):
    """a << b: the outputs of b drive a"""
    n = a.n
    assert b.n == n
    S = [[dot(a.S[i], [b.S[k][j] for k in range(n)]) for j in range(n)] for i in range(n)]
    SL = [dot(a.S[i], b.L) for i in range(n)]
    L = [add(a.L[i], SL[i]) for i in range(n)]
    H = add(add(a.H, b.H), im(dot([dag(l) for l in a.L], SL)))
    return Net(S, L, H)


def concat(*nets):
    n = sum(a.n for a in nets)
    S = [[ZERO] * n for _ in range(n)]
    L, H, o = [], ZERO, 0
    for a in nets:
        for i in range(a.n):
            for j in range(a.n):
                S[o + i][o + j] = a.S[i][j]
        L += a.L
        H = add(H, a.H)
        o += a.n
    return Net(S, L, H)


def feedback(a, out_port, in_port):
    n = a.n
    d = ONE - scalar(a.S[out_port][in_port])
    if not d.t:
        raise IllPosed()
    w = ring.inverse(d)
    ks = [k for k in range(n) if k != out_port]
    ls = [l for l in range(n) if l != in_port]
    S = [[add(a.S[k][l], scale(w, mul(a.S[k][in_port], a.S[out_port][l]))) for l in ls] for k in ks]
    L = [add(a.L[k], scale(w, mul(a.S[k][in_port], a.L[out_port]))) for k in ks]
    col = dot([dag(l) for l in a.L], [a.S[k][in_port] for k in range(n)])
    H = add(a.H, im(scale(w, mul(col, a.L[out_port]))))
    return Net(S, L, H)


def inverse(a):
    n = a.n
    Sd = [[dag(a.S[j][i]) for j in range(n)] for i in range(n)]
    return Net(Sd, [neg(dot(Sd[i], a.L)) for i in range(n)], neg(a.H))


def perm(p):
    n = len(p)
    S = [[ZERO] * n for _ in range(n)]
    for i, j in enumerate(p):
        S[j][i] = ONE
    return Net(S, [ZERO] * n, ZERO)


def ident(n):
    return perm(list(range(n)))


def rot(n, i, j, name):
    """rotation by a free angle and phase between channels i and j"""
    from .ring import unit, inverse as inv
    u, v = unit(name + '.th'), unit(name + '.ph')
    c = (u + inv(u)) * HALF
    s = (u - inv(u)) * HALF * (-ring.I)
    m = [[ONE if a == b else ZERO for b in range(n)] for a in range(n)]
    m[i][i], m[j][j] = c, c
    m[i][j], m[j][i] = -(s * v), s * inv(v)
    return m


def matmul(a, b):
    n = len(b)
    return [[dot(r, [b[k][j] for k in range(n)]) for j in range(len(b[0]))] for r in a]


def unitary(n, name):
    """a general unitary scattering matrix (n <= 2), or a product of rotations between neighbours and phases"""
    from .ring import unit
    m = [[ONE if a == b else ZERO for b in range(n)] for a in range(n)]
    if n == 3 and name == 'D':      # kept sparse, for products
        m[0][0] = unit('%s.p0' % name)
        return matmul(rot(n, 0, 2, name + '.x'), m)
    for k in range(n):
        m[k][k] = unit('%s.p%d' % (name, k))
    for k in range(n - 1):
        m = matmul(rot(n, k, k + 1, '%s.%d' % (name, k)), m)
    return m


def generic(n, name):
    """an arbitrary component: unitary scattering, scalar couplings and energy"""
    return Net(unitary(n, name), [ring.cplx('%s.l%d' % (name, k)) for k in range(n)], ring.real('%s.h' % name))


def den(e, table, env=None):
    """value of a circuit expression by composition of the network formulas; `table`: CircuitSymbol -> Net"""
    from qnet.algebra.core import circuit_algebra as c
    if e in table:
        return table[e]
    if e is c.CIdentity:
        return ident(1)
    if e is c.CircuitZero:
        return Net([], [], ZERO)
    if isinstance(e, c.CPermutation):
        return perm(e.permutation)
    if isinstance(e, c.SeriesProduct):
        r = None
        for o in e.operands:
            d = den(o, table, env)
            r = d if r is None else series(r, d)
        return r
    if isinstance(e, c.Concatenation):
        return concat(*[den(o, table, env) for o in e.operands])
    if isinstance(e, c.Feedback):
        return feedback(den(e.operand, table, env), e.out_port, e.in_port)
    if isinstance(e, c.SeriesInverse):
        return inverse(den(e.operand, table, env))
    if isinstance(e, c.SLH):
        return of_slh(e, env)
    if isinstance(e, c.Component):
        return of_slh(e.toSLH(), env)
    raise ring.Undecidable('circuit %r' % (e,))


def of_slh(e, env):
    n = e.L.shape[0]
    from qnet.algebra.core.abstract_algebra import Expression

    def v(x):
        if hasattr(x, 'item'):
            x = x.item()
        return simple(sem.den(x, env)) if isinstance(x, Expression) else ring.as_poly(sem.val(x, env))
    return Net([[v(e.S.matrix[i, j]) for j in range(e.S.shape[1])] for i in range(n)], [v(e.L.matrix[i, 0]) for i in range(n)],
               v(e.H))


def simple(t):
    """a multiple of the identity as a scalar"""
    if isinstance(t, Poly):
        return t
    return t.scalar() if t.is_scalar() else t


def equal(label, a, b):
    """obligations: the two networks are the same"""
    from .harness import Eq, Holds
    yield Holds(label + ': number of channels (%d, expected %d)' % (a.n, b.n), a.n == b.n and len(a.S) == len(b.S))
    if a.n != b.n or len(a.S) != len(b.S):
        return
    for i in range(a.n):
        for j in range(a.n):
            yield Eq('%s: S[%d,%d]' % (label, i, j), a.S[i][j], b.S[i][j])
        yield Eq('%s: L[%d]' % (label, i), a.L[i], b.L[i])
    yield Eq(label + ': H', a.H, b.H)
