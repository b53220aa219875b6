"""Pairs (real expression, reference value): every operation is applied by the real code and by the reference side."""
from fractions import Fraction

import sympy

from . import sem, ring, scal
from .ring import ONE, ZERO, I, const, as_poly, Undecidable
from .sem import Env, T, S, den, val
from .harness import Eq, Holds


def sub(i):
    return str(i)


class V:
    """e: object of the real library (or a native scalar); r: its value"""
    __slots__ = ('e', 'r', 'k')

    def __init__(self, e, r, k):
        self.e, self.r, self.k = e, r, k

    def _c(self, o):
        return o if isinstance(o, V) else self.k.sc(o)

    def __add__(self, o):
        o = self._c(o)
        return V(self.e + o.e, sem.add(self.r, o.r), self.k)

    def __sub__(self, o):
        o = self._c(o)
        return V(self.e - o.e, sem.sub(self.r, o.r), self.k)

    def __mul__(self, o):
        o = self._c(o)
        return V(self.e * o.e, vmul(self, o), self.k)

    def __radd__(self, o):
        return self._c(o) + self

    def __rsub__(self, o):
        return self._c(o) - self

    def __rmul__(self, o):
        return self._c(o) * self

    def __truediv__(self, o):
        o = self._c(o)
        return V(self.e / o.e, sem.scale(ring.inverse(o.r.scalar()), self.r), self.k)

    def __rtruediv__(self, o):
        return self._c(o) / self

    def __pow__(self, n):
        if n < 0:
            return V(self.e ** n, sem.S(ring.inverse(self.r.scalar()) ** (-n)), self.k)
        return V(self.e ** n, sem.power(self.r, n), self.k)

    def __neg__(self):
        return V(-self.e, sem.neg(self.r), self.k)

    def dag(self):
        r = sem.super_dual(self.r) if self.r.sup else sem.dag(self.r)
        e = self.e
        if isinstance(e, sympy.Basic):
            e = sympy.conjugate(e)
        elif isinstance(e, (int, float, complex, Fraction)):
            e = e.conjugate()
        else:
            e = e.adjoint()
        return V(e, r, self.k)

    def expand(self):
        return V(self.e.expand(), self.r, self.k)

    def do(self, f):
        """a transformation that must not change the value"""
        return V(f(self.e), self.r, self.k)

    def eq(self, label='value', guard=None):
        return Eq(label, den(self.e, self.k.env), self.r, guard or self.k.guard)


def vmul(u, v):
    a, b = u.r, v.r
    if a.sup and not b.sup:
        from qnet.algebra.core.operator_algebra import Operator
        if isinstance(v.e, Operator):
            return sem.apply_super(a, b)
    return sem.mul(a, b)


class K:
    """constructors; one environment per case"""

    def __init__(self, **kw):
        self.env = Env(**kw)
        self.guard = None
        import qnet
        self.q = qnet

    # -- spaces
    def ls(self, label, **kw):
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        return LocalSpace(label, **kw)

    def wrap(self, e):
        return V(e, den(e, self.env), self)

    def of(self, e, r):
        return V(e, r, self)

    # -- scalars
    def sc(self, x):
        return V(x, den(x, self.env), self)

    def sym(self, name, **kw):
        return self.sc(sympy.Symbol(name, **kw))

    def S(self, x):
        """as a QNET scalar"""
        from qnet.algebra.core.scalar_algebra import ScalarValue
        return V(ScalarValue.create(x), den(x, self.env), self)

    # -- operators
    def op(self, name, hs, *args):
        from qnet.algebra.core.operator_algebra import OperatorSymbol
        e = OperatorSymbol(name, *args, hs=hs)
        return self.wrap(e)

    def one(self):
        from qnet.algebra.core.operator_algebra import IdentityOperator
        return V(IdentityOperator, S(ONE), self)

    def zero(self):
        from qnet.algebra.core.operator_algebra import ZeroOperator
        return V(ZeroOperator, S(ZERO), self)

    def sig(self, j, k, ls):
        from qnet.algebra.core.operator_algebra import LocalSigma
        e = LocalSigma(j, k, hs=ls)
        n = self.env.dim(ls)
        a, b = sem.sym_index(j, ls, self.env), sem.sym_index(k, ls, self.env)
        return V(e, T((ls.label,), (ls.label,), {((a,), (b,)): ONE}, {ls.label: n}), self)

    # -- states
    def ket(self, name, hs, *args):
        from qnet.algebra.core.state_algebra import KetSymbol
        return self.wrap(KetSymbol(name, *args, hs=hs))

    def bket(self, j, ls):
        from qnet.algebra.core.state_algebra import BasisKet
        n = self.env.dim(ls)
        return V(BasisKet(j, hs=ls), T((ls.label,), (), {((sem.sym_index(j, ls, self.env),), ()): ONE},
                                      {ls.label: n}), self)

    def zket(self):
        from qnet.algebra.core.state_algebra import ZeroKet
        return V(ZeroKet, S(ZERO), self)

    def tket(self):
        from qnet.algebra.core.state_algebra import TrivialKet
        return V(TrivialKet, S(ONE), self)

    def bra(self, v):
        from qnet.algebra.core.state_algebra import Bra
        return V(Bra.create(v.e), sem.dag(v.r), self)

    # -- superoperators
    def sop(self, name, hs):
        from qnet.algebra.core.super_operator_algebra import SuperOperatorSymbol
        return self.wrap(SuperOperatorSymbol(name, hs=hs))

    def sone(self):
        from qnet.algebra.core.super_operator_algebra import IdentitySuperOperator
        return V(IdentitySuperOperator, T((), (), {((), ()): ONE}, {}, True), self)

    def szero(self):
        from qnet.algebra.core.super_operator_algebra import ZeroSuperOperator
        return V(ZeroSuperOperator, T((), (), {}, {}, True), self)

    def spre(self, v):
        from qnet.algebra.core.super_operator_algebra import SPre
        r = sem.spre(v.r) if not v.r.is_scalar() else T((), (), dict(v.r.d), {}, True)
        return V(SPre.create(v.e), r, self)

    def spost(self, v):
        from qnet.algebra.core.super_operator_algebra import SPost
        r = sem.spost(v.r) if not v.r.is_scalar() else T((), (), dict(v.r.d), {}, True)
        return V(SPost.create(v.e), r, self)

    # -- others
    def comm(self, a, b):
        from qnet.algebra.core.operator_algebra import Commutator
        return V(Commutator.create(a.e, b.e), sem.comm(a.r, b.r), self)

    def tr(self, a, hs):
        from qnet.algebra.core.operator_algebra import OperatorTrace
        labels, dims = self.env.local(hs)
        return V(OperatorTrace.create(a.e, over_space=hs), sem.ptrace(a.r, labels, dims), self)

    def call(self, f, ref, *vs, **kw):
        return V(f(*[v.e for v in vs], **kw), ref(*[v.r for v in vs]), self)
