"""SymPy / Python scalars -> ring elements (the reference semantics of scalars)."""
from fractions import Fraction

import sympy
from sympy import Symbol

from . import ring
from .ring import (Poly, ONE, ZERO, I, const, as_poly, Undecidable, inverse, real, cplx, unit, sqrt_poly, gen_poly,
                   GENS, _by_name, _new, mono_mul_into)

EXP_DEN = 4       # exponentials are integer powers of exp(m/4)
GRADES = {}       # symbol name -> grade (formal power series mode)
POLAR = {}        # symbol -> (Poly modulus r, Poly phase u): symbol = r*u


def symbol_poly(s):
    name = 's:' + s.name
    if s in POLAR:
        r, u = POLAR[s]
        return r * u
    grade = GRADES.get(s.name, 0)
    if grade:
        name += '#%d' % grade
    if s.is_integer and not s.is_commutative is False and s.is_real:
        return real(name, grade=grade, info=('sym', s))
    if s.is_positive:
        return real(name + '+', grade=grade, info=('sym', s), positive=True)
    if s.is_real:
        return real(name + 'r', grade=grade, info=('sym', s))
    return cplx(name, grade=grade, info=('sym', s))


def atom_of(expr):
    """an opaque function value: one unknown per distinct expression"""
    if expr.is_real:
        return real('f:' + sympy.srepr(expr), info=('sym', expr))
    return cplx('f:' + sympy.srepr(expr), info=('sym', expr))


def mono_grade(m):
    return sum(GENS[g].grade * e for g, e in m)


def poly_exp(p):
    """exp of a ring element"""
    if not p.t:
        return ONE
    res = ONE
    graded = {m: c for m, c in p.t.items() if mono_grade(m) > 0}
    if graded:
        if ring.MAXGRADE[0] is None:
            raise Undecidable('graded exp without truncation')
        x = Poly(graded)
        term = ONE
        res = ONE
        for k in range(1, ring.MAXGRADE[0] + 1):
            term = term * x * const(Fraction(1, k))
            if not term.t:
                break
            res = res + term
    for m, c in p.t.items():
        if m in graded:
            continue
        f = pi_phase(m, Fraction(c))
        if f is not None:
            res = res * f
            continue
        e = Fraction(c) * EXP_DEN
        if e.denominator != 1:
            # finer denominators get their own atom
            base = const(Fraction(1, Fraction(c).denominator))
            e = Fraction(c).numerator
            den = Fraction(c).denominator
        else:
            e = int(e)
            den = EXP_DEN
        res = res * exp_atom(m, den) ** e if e > 0 else res * inverse(exp_atom(m, den)) ** (-e)
    return res


def pi_phase(m, c):
    """exp(I*pi*c) for fractions with a radical form"""
    g = _by_name.get('pi')
    if g is None or sorted(m) != sorted(((0, 1), (g.id, 1))) or c.denominator not in (1, 2, 3, 4, 6, 8, 12):
        return None
    a = sympy.pi * sympy.Rational(c.numerator, c.denominator)
    return _tp(sympy.expand(sympy.cos(a) + sympy.I * sympy.sin(a)))


def exp_atom(m, den):
    if m == ((0, 1),) or not m:
        pass
    arg = Poly({m: Fraction(1, den)})
    # exp(I*pi*r) handled by the caller (sympy evaluates those)
    name = 'exp(%r)' % arg
    g = _by_name.get(name)
    if g is None:
        g = _new(name, 'free', info=('exp', arg))
        ca = arg.conj()
        if ca.key() == arg.key():
            g.real = True
            g.rel = 'pos'
        elif (-ca).key() == arg.key():
            g.unit = True
        else:
            (mc, cc), = ca.t.items()
            sgn = 1 if cc > 0 else -1
            h = gen_poly(g)
            other_name = 'exp(%r)' % Poly({mc: Fraction(1, den)})
            o = _by_name.get(other_name)
            if o is None:
                o = _new(other_name, 'free', info=('exp', Poly({mc: Fraction(1, den)})))
            g.conj = gen_poly(o) if sgn > 0 else inverse(gen_poly(o))
            o.conj = h if sgn > 0 else inverse(h)
    return gen_poly(g)


def to_poly(x, bind=None):
    """value of a native / SymPy scalar"""
    if isinstance(x, (int, float, complex, Fraction, Poly)):
        return as_poly(x)
    if not isinstance(x, sympy.Basic):
        try:
            import numpy as np
            if isinstance(x, np.generic):
                return as_poly(x.item())
        except ImportError:
            pass
        raise Undecidable('scalar %r' % (x,))
    if bind:
        sub = {k: v for k, v in bind.items() if k in x.free_symbols}
        if sub:
            x = x.xreplace({k: sympy.sympify(v) for k, v in sub.items()})
            x = x.doit()
    return _tp(x)


def _tp(x):
    if x.is_Integer:
        return const(int(x))
    if x.is_Rational:
        return const(Fraction(int(x.p), int(x.q)))
    if x.is_Float:
        return as_poly(float(x))
    if x is sympy.I:
        return I
    if x is sympy.pi:
        return pi_poly()
    if x is sympy.E:
        return poly_exp(ONE)
    if isinstance(x, Symbol):
        return symbol_poly(x)
    if isinstance(x, sympy.Indexed):
        if all(i.is_Integer for i in x.indices):
            return cplx('s:' + str(x), info=('sym', x))
        raise Undecidable('indexed symbol %s with unbound index' % x)
    if x.is_Add:
        r = ZERO
        for a in x.args:
            r = r + _tp(a)
        return r
    if x.is_Mul:
        r = ONE
        for a in x.args:
            r = r * _tp(a)
        return r
    if isinstance(x, sympy.exp):
        return _exp(x.args[0])
    if x.is_Pow:
        b, e = x.args
        if b is sympy.E:
            return _exp(e)
        if e.is_Integer:
            n = int(e)
            p = _tp(b)
            return p ** n if n >= 0 else inverse(p) ** (-n)
        if e.is_Rational:
            n, d = int(e.p), int(e.q)
            if d == 2:
                q = sqrt_of(b)
                return q ** n if n >= 0 else inverse(q) ** (-n)
        return atom_of(x)
    if isinstance(x, sympy.conjugate):
        return _tp(x.args[0]).conj()
    if isinstance(x, sympy.adjoint):
        return _tp(x.args[0]).conj()
    if isinstance(x, sympy.re):
        p = _tp(x.args[0])
        return (p + p.conj()) * const(Fraction(1, 2))
    if isinstance(x, sympy.im):
        p = _tp(x.args[0])
        return (p - p.conj()) * (-I) * const(Fraction(1, 2))
    if isinstance(x, sympy.Abs):
        a = x.args[0]
        if a in POLAR:
            return POLAR[a][0]
        p = _tp(a)
        return sqrt_poly(p * p.conj())
    if isinstance(x, sympy.arg) and False:
        pass
    if isinstance(x, sympy.cos):
        p = I * _tp(x.args[0])
        return trig_pair(x.args[0], p)[0]
    if isinstance(x, sympy.sin):
        p = I * _tp(x.args[0])
        return trig_pair(x.args[0], p)[1] * (-I)
    if isinstance(x, sympy.cosh):
        return trig_pair(x.args[0], _tp(x.args[0]))[0]
    if isinstance(x, sympy.sinh):
        return trig_pair(x.args[0], _tp(x.args[0]))[1]
    if isinstance(x, sympy.KroneckerDelta):
        i, j = x.args
        if i.is_Integer and j.is_Integer:
            return ONE if int(i) == int(j) else ZERO
        raise Undecidable('unbound KroneckerDelta')
    if isinstance(x, sympy.factorial) and x.args[0].is_Integer:
        return const(int(sympy.factorial(x.args[0])))
    if isinstance(x, sympy.Piecewise):
        for v, c in x.args:
            if c == True:      # noqa
                return _tp(v)
            if c == False:     # noqa
                continue
            raise Undecidable('Piecewise condition %r' % c)
    from sympy.core.function import AppliedUndef
    if isinstance(x, (AppliedUndef, sympy.Derivative, sympy.Subs)):
        return atom_of(x)
    raise Undecidable('sympy %s: %s' % (type(x), x))


def pi_poly():
    p = real('pi', positive=True)
    _by_name['pi'].numeric = 3.141592653589793
    return p


def trig_pair(arg, p):
    """((e^p+e^-p)/2, (e^p-e^-p)/2)"""
    e, f = poly_exp(p), poly_exp(-p)
    h = const(Fraction(1, 2))
    return (e + f) * h, (e - f) * h


def _exp(a):
    # polar phases: exp(I*arg(x)) = u
    a = sympy.expand(a)
    res = ONE
    rest = []
    for t in sympy.Add.make_args(a):
        args = [z for z in t.atoms(sympy.arg)]
        if args:
            z = args[0]
            c = t / (sympy.I * z)
            if not c.is_Integer:
                raise Undecidable('exp(arg)')
            if z.args[0] in POLAR:
                u = POLAR[z.args[0]][1]
            else:
                raise Undecidable('arg')
            n = int(c)
            res = res * (u ** n if n >= 0 else inverse(u) ** (-n))
        elif t.has(sympy.pi):
            c = t / (sympy.I * sympy.pi)
            if c.is_Rational:
                v = sympy.cos(sympy.pi * c) + sympy.I * sympy.sin(sympy.pi * c)
                res = res * _tp(sympy.expand(v))
            else:
                rest.append(t)
        else:
            rest.append(t)
    for t in rest:
        res = res * poly_exp(_tp(t))
    return res


def sqrt_of(b):
    p = _tp(b)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if all(GENS[g].rel == 'pos' and GENS[g].kind == 'free' for g, _ in m) and c > 0:
            r = ring.sqrt_frac(c)
            for g, e in m:
                q, rem = divmod(e, 2)
                base = gen_poly(GENS[g])
                if rem:
                    r = r * sqrt_poly(base)
                if q:
                    r = r * (base ** q if q > 0 else inverse(base) ** (-q))
            return r
    if len(p.t) == 1 and not list(p.t)[0]:
        return ring.sqrt_frac(list(p.t.values())[0])
    return sqrt_poly(p)
