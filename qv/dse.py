"""Dynamic symbolic execution of real Python code over symbolic integers (z3)."""
import time

import z3

from . import smt


class Hang(BaseException):
    """a case exceeded its time limit"""


class PathAbort(BaseException):
    pass


_current = [None]


def _lift(x):
    if isinstance(x, _Sym):
        return x._e
    if type(x) is bool:
        return z3.IntVal(int(x))
    if type(x) is int:
        return z3.IntVal(x)
    return None


class _Sym:
    __slots__ = ()


class SymBool(_Sym):
    """symbolic truth value; deciding it forks the execution"""
    __slots__ = ('_b', '_ex')

    def __init__(self, b, ex):
        self._b = b
        self._ex = ex

    def __bool__(self):
        return self._ex.branch(self._b)

    @property
    def __class__(self):
        return bool

    @property
    def _e(self):
        return z3.If(self._b, z3.IntVal(1), z3.IntVal(0))

    def __and__(self, o):
        return SymBool(z3.And(self._b, as_z3bool(o)), self._ex)
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self._b, as_z3bool(o)), self._ex)
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self._b), self._ex)

    def __eq__(self, o):
        return SymBool(self._b == as_z3bool(o), self._ex)

    def __ne__(self, o):
        return SymBool(self._b != as_z3bool(o), self._ex)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return 1 if self else 0
    __index__ = __int__

    def __repr__(self):
        return 'SymBool(%s)' % self._b


def as_z3bool(o):
    if isinstance(o, SymBool) or type(o) is SymBool:
        return o._b
    if type(o) is bool:
        return z3.BoolVal(o)
    return z3.BoolVal(bool(o))


def _bin(op):
    def f(self, o):
        e = _lift(o)
        if e is None:
            return NotImplemented
        return SymInt(op(self._e, e), self._ex)
    return f


def _rbin(op):
    def f(self, o):
        e = _lift(o)
        if e is None:
            return NotImplemented
        return SymInt(op(e, self._e), self._ex)
    return f


def _cmp(op):
    def f(self, o):
        e = _lift(o)
        if e is None:
            if not isinstance(o, float):
                return NotImplemented
            if o != o or o in (float('inf'), -float('inf')):
                return SymBool(z3.BoolVal(bool(op(0, o))), self._ex)
            n, d = o.as_integer_ratio()
            return SymBool(op(self._e * d, z3.IntVal(n)), self._ex)
        return SymBool(op(self._e, e), self._ex)
    return f


def _floordiv(a, b):
    # Python floor division for either sign of b (z3 div is Euclidean)
    q = a / b
    return z3.If(b > 0, q, z3.If(a % b == 0, q, q - 1)) if not z3.is_int_value(b) or b.as_long() < 0 else q


class SymInt(_Sym):
    __slots__ = ('_e', '_ex')

    def __init__(self, e, ex):
        self._e = e
        self._ex = ex

    @property
    def __class__(self):
        return int

    __add__ = _bin(lambda a, b: a + b)
    __radd__ = _rbin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _rbin(lambda a, b: a - b)
    __mul__ = _bin(lambda a, b: a * b)
    __rmul__ = _rbin(lambda a, b: a * b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        e = _lift(o)
        if e is None:
            if isinstance(o, float):
                return self == int(o) if o == o and abs(o) != float('inf') and o == int(o) else SymBool(z3.BoolVal(False), self._ex)
            return NotImplemented
        return SymBool(self._e == e, self._ex)

    def __ne__(self, o):
        e = _lift(o)
        if e is None:
            if isinstance(o, float):
                return ~(self == o)
            return NotImplemented
        return SymBool(self._e != e, self._ex)

    def __neg__(self):
        return SymInt(-self._e, self._ex)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self._e >= 0, self._e, -self._e), self._ex)

    def __floordiv__(self, o):
        if isinstance(o, _Sym):
            o = int(o)
        if type(o) is not int:
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError
        if o > 0:
            return SymInt(self._e / z3.IntVal(o), self._ex)
        return SymInt((-self._e) / z3.IntVal(-o), self._ex)

    def __mod__(self, o):
        if isinstance(o, _Sym):
            o = int(o)
        if type(o) is not int:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return o % int(self)

    def __rfloordiv__(self, o):
        return o // int(self)

    def __truediv__(self, o):
        return int(self) / (int(o) if isinstance(o, _Sym) else o)

    def __rtruediv__(self, o):
        return o / int(self)

    def __pow__(self, o):
        return int(self) ** (int(o) if isinstance(o, _Sym) else o)

    def __rpow__(self, o):
        return o ** int(self)

    def __int__(self):
        return self._ex.concretize(self._e)
    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __complex__(self):
        return complex(int(self))

    def __bool__(self):
        return self._ex.branch(self._e != 0)

    def __hash__(self):
        return hash(int(self))

    def __str__(self):
        return str(int(self))

    def __repr__(self):
        return repr(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def __reduce__(self):
        return (int, (int(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def is_integer(self):
        raise AttributeError('is_integer')

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return int(self).bit_length()

    def _sympy_(self):
        import sympy
        return sympy.Integer(int(self))


class Explorer:
    """explores all feasible paths of func(ex)"""

    symbolic = True

    def __init__(self, max_paths=20000, deadline=None, timeout_ms=20000):
        self.max_paths = max_paths
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.paths = 0
        self.branches = 0
        self.incomplete = None
        self.max_depth = 0

    # -- used by harnesses
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume_z3(v >= lo)
        if hi is not None:
            self.assume_z3(v <= hi)
        return SymInt(v, self)

    def choice(self, name, options):
        """symbolic choice among a finite list (its index is a symbolic integer, concretised by the solver)"""
        return options[int(self.int(name, 0, len(options) - 1))]

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def permutation(self, name, n):
        xs = [self.int('%s%d' % (name, k), 0, n - 1) for k in range(n)]
        if n > 1:
            self.assume_z3(z3.Distinct(*[x._e for x in xs]))
        return xs

    def assume(self, cond):
        c = cond._b if type(cond) is SymBool else (z3.BoolVal(bool(cond)) if not z3.is_expr(cond) else cond)
        self.assume_z3(c)
        if self._feasible(None) is False:
            raise PathAbort()

    def assume_z3(self, c):
        self.solver.add(c)
        self.pc.append(c)

    # -- engine
    def _feasible(self, c):
        t = time.time()
        r = self.solver.check() if c is None else self.solver.check(c)
        smt.STATS['z3_seconds'] += time.time() - t
        smt.STATS['queries'] += 1
        smt.STATS[str(r)] += 1
        if r == z3.unknown:
            self.incomplete = 'solver unknown'
            return True
        return r == z3.sat

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.pos
        self.pos += 1
        self.max_depth = max(self.max_depth, self.pos)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            if self.deadline is not None and time.time() > self.deadline:
                self.incomplete = 'deadline'
                raise PathAbort()
            self.branches += 1
            if self._feasible(c):
                d = True
                if self._feasible(z3.Not(c)):
                    self.work.append(list(self.prefix) + [False])
            else:
                d = False
            self.prefix.append(d)
        self.assume_z3(c if d else z3.Not(c))
        return d

    def concretize(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            k = self.pos
            if k < len(self.prefix):
                d = self.prefix[k]
                # decisions on concretisations are stored as ('v', value) / ('n', value)
                kind, v = d
                self.pos += 1
                if kind == 'v':
                    self.assume_z3(e == v)
                    return v
                self.assume_z3(e != v)
                continue
            if self.deadline is not None and time.time() > self.deadline:
                self.incomplete = 'deadline'
                raise PathAbort()
            if not self._feasible(None):
                raise PathAbort()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            self.branches += 1
            if self._feasible(e != v):
                self.work.append(list(self.prefix) + [('n', v)])
            self.prefix.append(('v', v))
            self.pos += 1
            self.assume_z3(e == v)
            return v

    def run(self, func):
        """yields (result | exception, explorer) per path; the solver holds the path condition meanwhile"""
        self.work = [[]]
        while self.work:
            if self.paths >= self.max_paths:
                self.incomplete = 'path bound %d' % self.max_paths
                return
            self.prefix = self.work.pop()
            self.pos = 0
            self.pc = []
            self.inputs = {}
            self.solver = z3.Solver()
            self.solver.set('timeout', self.timeout_ms)
            try:
                res = ('ok', func(self))
            except PathAbort:
                continue
            except (Exception, Hang) as e:      # noqa
                res = ('exc', e)
            self.paths += 1
            yield res

    def valid(self, cond):
        """does the path condition imply cond?  -> None if so, else a model {input: int}; 'unknown' if undecided"""
        c = as_z3bool(cond) if not z3.is_expr(cond) else cond
        self.solver.push()
        self.solver.add(z3.Not(c))
        t = time.time()
        r = self.solver.check()
        smt.STATS['z3_seconds'] += time.time() - t
        smt.STATS['queries'] += 1
        smt.STATS[str(r)] += 1
        out = None
        if r == z3.sat:
            out = self._model_ints(self.solver.model())
        elif r == z3.unknown:
            out = 'unknown'
        self.solver.pop()
        return out

    def path_model(self):
        if not self.inputs:
            return {}
        if self.solver.check() != z3.sat:
            return {}
        return self._model_ints(self.solver.model())

    def _model_ints(self, m):
        return {k: m.eval(v, model_completion=True).as_long() for k, v in self.inputs.items()}


class Concrete:
    """replays a harness function on plain integers"""
    symbolic = False

    def __init__(self, values):
        self.values = values

    def int(self, name, lo=None, hi=None):
        v = int(self.values.get(name, lo if lo is not None else 0))
        return v

    def choice(self, name, options):
        return options[self.int(name, 0)]

    def bool(self, name):
        return self.int(name, 0) == 1

    def permutation(self, name, n):
        return [self.int('%s%d' % (name, k), 0) for k in range(n)]

    def assume(self, cond):
        if not bool(cond):
            raise PathAbort()


def And(*xs):
    ex = next((x._ex for x in xs if type(x) is SymBool), None)
    if ex is None:
        return all(bool(x) for x in xs)
    return SymBool(z3.And(*[as_z3bool(x) for x in xs]), ex)


def Or(*xs):
    ex = next((x._ex for x in xs if type(x) is SymBool), None)
    if ex is None:
        return any(bool(x) for x in xs)
    return SymBool(z3.Or(*[as_z3bool(x) for x in xs]), ex)


def Not(x):
    if type(x) is SymBool:
        return ~x
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def eqs(a, b):
    """element-wise equality of sequences as one (symbolic) truth value, without forking"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return And(*[eq1(x, y) for x, y in zip(a, b)]) if a else True


def eq1(x, y):
    if type(x) in (list, tuple) and type(y) in (list, tuple):
        return eqs(x, y)
    r = (x == y)
    return r


def select(seq, idx):
    """seq[idx] for a symbolic index, without forking (elements ints)"""
    if type(idx) is not SymInt:
        return seq[idx]
    e = _lift(seq[-1])
    for k in range(len(seq) - 2, -1, -1):
        e = z3.If(idx._e == k, _lift(seq[k]), e)
    return SymInt(e, idx._ex)
