"""Stand-in for the qutip module over symbolic entries (Poly), with qutip's documented conventions.

The real code of qnet.convert.to_qutip runs against it; `selfcheck` compares every primitive with the installed qutip.
"""
import cmath
import math
from itertools import product

import numpy as np
import sympy

from . import ring, scal, sem
from .ring import Poly, ONE, ZERO, I, as_poly, const, sqrt_frac
from fractions import Fraction


class Num:
    """symbolic complex number that numpy and the stand-in can work with"""
    __slots__ = ('p',)
    __array_priority__ = 100

    def __init__(self, p):
        self.p = p

    def _b(self, o, f):
        if isinstance(o, (np.ndarray, Q)):
            return NotImplemented
        return Num(f(self.p, topoly(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return Num(-self.p)

    def __truediv__(self, o):
        return self._b(o, lambda a, b: a * ring.inverse(b))

    def __pow__(self, n):
        return Num(self.p ** n)

    def conjugate(self):
        return Num(self.p.conj())
    conj = conjugate

    def exp(self):
        return Num(scal.poly_exp(self.p))

    def cos(self):
        return Num((scal.poly_exp(I * self.p) + scal.poly_exp(-I * self.p)) * const(Fraction(1, 2)))

    def sin(self):
        return Num((scal.poly_exp(I * self.p) - scal.poly_exp(-I * self.p)) * const(Fraction(1, 2)) * (-I))

    @property
    def real(self):
        return Num((self.p + self.p.conj()) * const(Fraction(1, 2)))

    @property
    def imag(self):
        return Num((self.p - self.p.conj()) * const(Fraction(1, 2)) * (-I))

    def __eq__(self, o):
        return not (self.p - topoly(o)).t

    def __hash__(self):
        return hash(str(self.p))


ENV = [None]


def topoly(x):
    if isinstance(x, Num):
        return x.p
    if isinstance(x, Poly):
        return x
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (int, float, complex)):
        return as_poly(x)
    return sem.val(x, ENV[0])


class _CMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, Num))


class sym_complex(metaclass=_CMeta):
    """takes the place of the builtin complex() in the code under test"""
    def __new__(cls, x=0, y=0):
        if isinstance(y, Num) or y:
            return Num(topoly(x) + I * topoly(y))
        return Num(topoly(x))


def multi(dims):
    return list(product(*[range(n) for n in dims]))


class Q:
    """Qobj: kind oper (kets and bras have dims (1,)*n on one side), super, operator-ket"""

    def __init__(self, arr=None, dims=None, **kw):
        self.isherm = None
        if isinstance(arr, Q):
            self.kind, self.o, self.i, self.d = arr.kind, arr.o, arr.i, dict(arr.d)
        else:
            if hasattr(arr, 'toarray'):
                arr = arr.toarray()
            arr = np.atleast_2d(np.array(arr, dtype=object))
            if np.ndim(arr) == 2 and arr.shape[0] == 1 and arr.shape[1] > 1 and dims is None:
                arr = arr.T if np.ndim(arr) == 1 else arr
            self.kind = 'oper'
            self.o, self.i = (arr.shape[0],), (arr.shape[1],)
            self.d = {}
            for r in range(arr.shape[0]):
                for c in range(arr.shape[1]):
                    p = topoly(arr[r, c])
                    if p.t:
                        self.d[((r,), (c,))] = p
        if dims is not None:
            self.dims = dims

    @classmethod
    def mk(cls, o, i, d, kind='oper'):
        q = cls.__new__(cls)
        q.o, q.i, q.d, q.kind = tuple(o), tuple(i), {k: v for k, v in d.items() if v.t}, kind
        q.isherm = None
        return q

    @property
    def type(self):
        if self.kind != 'oper':
            return self.kind
        if all(n == 1 for n in self.i) and not all(n == 1 for n in self.o):
            return 'ket'
        if all(n == 1 for n in self.o) and not all(n == 1 for n in self.i):
            return 'bra'
        return 'oper'

    @property
    def dims(self):
        if self.kind == 'super':
            return [[list(self.o), list(self.o)], [list(self.i), list(self.i)]]
        if self.kind == 'operator-ket':
            return [[list(self.o), list(self.i)], [1]]
        return [list(self.o), list(self.i)]

    @dims.setter
    def dims(self, dims):
        o, i = tuple(dims[0]), tuple(dims[1])
        a = self._flat()
        R, C = multi(o), multi(i)
        self.d = {(R[r], C[c]): v for (r, c), v in a.items()}
        self.o, self.i = o, i

    def _flat(self):
        ro = {x: n for n, x in enumerate(multi(self.o))}
        ci = {x: n for n, x in enumerate(multi(self.i))}
        return {(ro[a], ci[b]): v for (a, b), v in self.d.items()}

    @property
    def shape(self):
        o = int(np.prod(self.o))
        i = int(np.prod(self.i))
        return (o * o, i * i) if self.kind == 'super' else (o, i)

    def _same(self, o):
        if self.o != o.o or self.i != o.i or self.kind != o.kind:
            raise TypeError('Incompatible quantum object dimensions')

    def _ident(self, p):
        if self.o != self.i or self.kind != 'oper':
            raise TypeError('scalar added to a non-square object')
        return Q.mk(self.o, self.i, {(k, k): p for k in multi(self.o)})

    def __add__(self, o):
        if not isinstance(o, Q):
            p = topoly(o)
            if not p.t:
                return self
            o = self._ident(p)
        self._same(o)
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, ZERO) + v
        return Q.mk(self.o, self.i, d, self.kind)
    __radd__ = __add__

    def __neg__(self):
        return Q.mk(self.o, self.i, {k: -v for k, v in self.d.items()}, self.kind)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Q):
            if isinstance(o, np.ndarray):
                raise TypeError('array times Qobj')
            p = topoly(o)
            return Q.mk(self.o, self.i, {k: v * p for k, v in self.d.items()}, self.kind)
        if self.kind != o.kind and not (self.kind == 'super' and o.kind == 'operator-ket'):
            raise TypeError('Incompatible Qobj shapes')
        if self.kind == 'super' and o.kind == 'operator-ket':
            if self.i != o.o or self.i != o.i:
                raise TypeError('Incompatible Qobj shapes')
            d = {}
            for (x, y), v in self.d.items():
                w = o.d.get(y)
                if w is not None:
                    d[x] = d.get(x, ZERO) + v * w
            return Q.mk(self.o, self.o, d, 'operator-ket')
        if self.i != o.o:
            raise TypeError('Incompatible Qobj shapes')
        by = {}
        for (x, y), v in o.d.items():
            by.setdefault(x, []).append((y, v))
        d = {}
        for (x, y), v in self.d.items():
            for z, w in by.get(y, ()):
                d[(x, z)] = d.get((x, z), ZERO) + v * w
        r = Q.mk(self.o, o.i, d, self.kind)
        if self.type == 'bra' and o.type == 'ket':
            r = Q.mk((1,), (1,), {((0,), (0,)): v for v in r.d.values()})
        return r
    __matmul__ = __mul__

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return self * Num(ring.inverse(topoly(o)))

    def __pow__(self, n):
        r = Q.mk(self.o, self.i, {(k, k): ONE for k in multi(self.o)})
        for _ in range(n):
            r = r * self
        return r

    def __array__(self, *a, **k):
        raise TypeError('stand-in Qobj is no array')

    def dag(self):
        return Q.mk(self.i, self.o, {(b, a): v.conj() for (a, b), v in self.d.items()}, self.kind)

    def conj(self):
        return Q.mk(self.o, self.i, {k: v.conj() for k, v in self.d.items()}, self.kind)

    def trans(self):
        return Q.mk(self.i, self.o, {(b, a): v for (a, b), v in self.d.items()}, self.kind)

    def permute(self, order):
        f = lambda t: tuple(t[k] for k in order)   # noqa
        return Q.mk(f(self.o), f(self.i), {(f(a), f(b)): v for (a, b), v in self.d.items()}, self.kind)

    def expm(self, *a, **k):
        r = t = Q.mk(self.o, self.i, {(x, x): ONE for x in multi(self.o)})
        for n in range(1, ring.MAXGRADE[0] + 1):
            t = t * self * Num(const(Fraction(1, n)))
            r = r + t
        return r

    def norm(self, *a, **k):
        return 1.0 if any(v.t for v in self.d.values()) else 0.0

    def tr(self):
        return Num(sum((v for (a, b), v in self.d.items() if a == b), ZERO))


def single(n, ent):
    return Q.mk((n,), (n,), {((a,), (b,)): as_poly(v) for (a, b), v in ent.items()})


class Module:
    """namespace of the stand-in"""
    Qobj = Q
    __version__ = '4.7.6'

    @staticmethod
    def tensor(*args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        for a in args:
            if not isinstance(a, Q):
                raise TypeError('One of inputs is not a quantum object')
        r = args[0]
        for b in args[1:]:
            if r.kind != b.kind:
                raise TypeError('In tensor products of superroperators, all must be superoperators')
            if r.kind == 'super':
                d = {}
                for ((a1, a2), (c1, c2)), v in r.d.items():
                    for ((b1, b2), (e1, e2)), w in b.d.items():
                        d[((a1 + b1, a2 + b2), (c1 + e1, c2 + e2))] = v * w
            else:
                d = {(x + z, y + u): v * w for (x, y), v in r.d.items() for (z, u), w in b.d.items()}
            r = Q.mk(r.o + b.o, r.i + b.i, d, r.kind)
        return r

    @staticmethod
    def qeye(n):
        return single(n, {(k, k): ONE for k in range(n)})
    identity = qeye

    @staticmethod
    def qzero(n):
        return single(n, {})

    @staticmethod
    def destroy(n):
        return single(n, {(k - 1, k): sqrt_frac(Fraction(k)) for k in range(1, n)})

    @staticmethod
    def create(n):
        return Module.destroy(n).dag()

    @staticmethod
    def num(n):
        return single(n, {(k, k): const(k) for k in range(n)})

    @staticmethod
    def jmat(j, *args):
        j = Fraction(j).limit_denominator(2)
        if (2 * j).denominator != 1 or j < 0:
            raise TypeError('j must be a non-negative integer or half-integer')
        if not args:
            return [Module.jmat(j, c) for c in 'xyz']
        n = int(2 * j) + 1
        up = single(n, {(k - 1, k): sqrt_frac(j * (j + 1) - (j - k) * (j - k + 1)) for k in range(1, n)})   # m = j - k
        h = Num(const(Fraction(1, 2)))
        if args[0] == '+':
            return up
        if args[0] == '-':
            return up.dag()
        if args[0] == 'x':
            return (up + up.dag()) * h
        if args[0] == 'y':
            return (up - up.dag()) * h * (-1j)
        if args[0] == 'z':
            return single(n, {(k, k): const(j - k) for k in range(n)})
        raise TypeError('Invalid type')

    @staticmethod
    def displace(n, alpha, offset=0):
        a = Module.destroy(n)
        al = Num(topoly(alpha))
        return (al * a.dag() - al.conjugate() * a).expm()

    @staticmethod
    def squeeze(n, z, offset=0):
        a = Module.destroy(n)
        z = Num(topoly(z))
        h = Num(const(Fraction(1, 2)))
        return (h * z.conjugate() * a * a - h * z * a.dag() * a.dag()).expm()

    @staticmethod
    def basis(n, k=0):
        k = int(k)
        if not 0 <= k < n:
            raise ValueError('All basis indices must be integers in the range 0 <= n < dimension')
        return Q.mk((n,), (1,), {((k,), (0,)): ONE})
    fock = basis

    @staticmethod
    def coherent(n, alpha, offset=0, method='operator'):
        return Module.displace(n, alpha) * Module.basis(n, 0)

    @staticmethod
    def dag(q):
        return q.dag()

    @staticmethod
    def spre(a):
        idx = multi(a.i)
        return Q.mk(a.o, a.i, {((x, k), (y, k)): v for (x, y), v in a.d.items() for k in idx}, 'super')

    @staticmethod
    def spost(a):
        idx = multi(a.o)
        return Q.mk(a.o, a.i, {((k, y), (k, x)): v for (x, y), v in a.d.items() for k in idx}, 'super')

    @staticmethod
    def sprepost(a, b):
        return Module.spre(a) * Module.spost(b)

    @staticmethod
    def operator_to_vector(a):
        return Q.mk(a.o, a.i, {(x, y): v for (x, y), v in a.d.items()}, 'operator-ket')

    @staticmethod
    def vector_to_operator(a):
        return Q.mk(a.o, a.i, dict(a.d), 'oper')


def to_T(q, hs, env, sup=False):
    """Q in the ordered tensor basis of hs -> T"""
    facs = list(hs.local_factors)
    labels = [l.label for l in facs]
    dims = {l.label: env.dim(l) for l in facs}
    want = tuple(dims[l] for l in labels)
    order = sem.srt(labels)
    if sup:
        if q.kind != 'super':
            raise sem.IllTyped('not a superoperator: %s' % q.kind)
    elif q.kind != 'oper':
        raise sem.IllTyped('not an operator or state: %s' % q.kind)
    ket, bra = q.type == 'ket', q.type == 'bra'
    if (q.o != want and not bra) or (q.i != want and not ket):
        if not (q.o == q.i == (1,)):
            raise sem.IllTyped('dimensions %s x %s instead of %s' % (q.o, q.i, want))
        return sem.S(q.d.get(((0,), (0,)), ZERO))
    perm = [labels.index(l) for l in order]
    f = lambda t: tuple(t[k] for k in perm)   # noqa
    if sup:
        full = sem.srt([sem.lab(l, s) for l in order for s in 'LR'])
        def g(x, y):   # noqa
            v = {}
            for l, a, b in zip(labels, x, y):
                v[sem.lab(l, 'L')] = a
                v[sem.lab(l, 'R')] = b
            return tuple(v[z] for z in full)
        d = {(g(*a), g(*b)): v for (a, b), v in q.d.items()}
        return sem.T(full, full, d, {sem.lab(l, s): dims[l] for l in labels for s in 'LR'}, True)
    d = {(() if bra else f(a), () if ket else f(b)): v for (a, b), v in q.d.items()}
    return sem.T(() if bra else order, () if ket else order, d, dims)


def selfcheck():
    """every primitive against the installed qutip (numerically)"""
    import qutip
    M = Module

    def num(p, vals):
        return p

    def arr(q):
        if q.kind == 'super':
            n = multi(q.o)
            # column stacking: index of (row, col) is col * N + row
            ix = {(r, c): n.index(c) * len(n) + n.index(r) for r in n for c in n}
            A = np.zeros((len(n) ** 2,) * 2, dtype=complex)
            for (x, y), v in q.d.items():
                A[ix[x], ix[y]] += poly_c(v)
            return A
        A = np.zeros(q.shape, dtype=complex)
        for (r, c), v in q._flat().items():
            A[r, c] = poly_c(v)
        return A

    def poly_c(p):
        tot = 0
        for m, c in p.t.items():
            z = complex(float(c))
            for g, e in m:
                z *= gen_c(g) ** e
            tot += z
        return tot

    def gen_c(g):
        nm = ring.GENS[g].name
        if nm == 'I':
            return 1j
        if nm.startswith('sqrt'):
            return math.sqrt(float(Fraction(nm.split('_')[1] if '_' in nm else nm[4:].strip('()'))))
        raise KeyError(nm)
    bad = []

    def same(name, q, ref):
        A, B = arr(q), ref.full()
        if A.shape != B.shape or abs(A - B).max() > 1e-9:
            bad.append(name)
    for n in (2, 3, 4):
        same('create', M.create(n), qutip.create(n))
        same('destroy', M.destroy(n), qutip.destroy(n))
        same('qeye', M.qeye(n), qutip.qeye(n))
        for c in 'xyz+-':
            same('jmat' + c, M.jmat((n - 1) / 2., c), qutip.jmat((n - 1) / 2., c))
        for k in range(n):
            same('basis', M.basis(n, k), qutip.basis(n, k))
    a, b = M.destroy(2) + 2 * M.create(2), M.destroy(3)
    ra, rb = qutip.destroy(2) + 2 * qutip.create(2), qutip.destroy(3)
    same('tensor', M.tensor(a, b), qutip.tensor(ra, rb))
    same('tensor ket', M.tensor(M.basis(2, 1), M.basis(3, 2)), qutip.tensor(qutip.basis(2, 1), qutip.basis(3, 2)))
    same('permute', M.tensor(a, b).permute([1, 0]), qutip.tensor(ra, rb).permute([1, 0]))
    same('spre', M.spre(a), qutip.spre(ra))
    same('spost', M.spost(a * (1 + 2j)), qutip.spost(ra * (1 + 2j)))
    same('super product', M.spre(a) * M.spost(a.dag()), qutip.spre(ra) * qutip.spost(ra.dag()))
    same('tensor eye super', M.spre(M.tensor(a, M.qeye(2))), qutip.spre(qutip.tensor(ra, qutip.qeye(2))))
    same('apply', M.vector_to_operator(M.spre(a) * M.operator_to_vector(a)),
         qutip.vector_to_operator(qutip.spre(ra) * qutip.operator_to_vector(ra)))
    for f in (lambda m: m.spre(m.create(2)) * m.create(2), lambda m: m.create(2) + m.create(3)):
        for m in (M, qutip):
            try:
                f(m)
                bad.append('no error')
            except TypeError:
                pass
    old = ring.MAXGRADE[0]
    try:
        ring.MAXGRADE[0] = 40
        for n in (2, 3):
            same('displace', M.displace(n, 0.25 + 0.5j), qutip.displace(n, 0.25 + 0.5j))
            same('squeeze', M.squeeze(n, 0.25 + 0.5j), qutip.squeeze(n, 0.25 + 0.5j))
            same('coherent', M.coherent(n, 0.25j), qutip.coherent(n, 0.25j))
    finally:
        ring.MAXGRADE[0] = old
    return bad
