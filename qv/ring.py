"""Exact symbolic values: Laurent polynomials with rational coefficients over registered generators.

This is the term language of the symbolic execution; every verdict is z3's (see smt.py).  A generator is an unknown.
Its complex conjugate is another generator (or itself, or its inverse), so a complex unknown z is the pair (z, z*).  The
imaginary unit and square roots of integers are generators with a quadratic defining equation.
"""
from fractions import Fraction


class Gen:
    __slots__ = ('id', 'name', 'conj', 'sq', 'inv', 'grade', 'kind', 'real', 'unit', 'info', 'numeric', 'rel')


GENS = []
_by_name = {}
MAXGRADE = [None]          # truncation degree for graded generators (formal power series)


class Undecidable(Exception):
    """The encoding does not cover this; never reported as a pass or a violation."""


def _new(name, kind, real=False, unit=False, grade=0, sq=None, info=None, inv=True):
    g = Gen()
    g.id = len(GENS)
    g.name = name
    g.kind = kind
    g.real = real
    g.unit = unit
    g.grade = grade
    g.sq = sq
    g.inv = inv
    g.conj = None
    g.info = info
    g.numeric = None
    g.rel = None
    GENS.append(g)
    _by_name[name] = g
    return g


I_GEN = _new('I', 'I', sq=None, inv=False)


class Poly:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    # -- arithmetic
    def __add__(self, o):
        o = as_poly(o)
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) + c
            if s == 0:
                del r[m]
            else:
                r[m] = s
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-as_poly(o))

    def __rsub__(self, o):
        return as_poly(o) + (-self)

    def __mul__(self, o):
        o = as_poly(o)
        if not self.t or not o.t:
            return ZERO
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                mono_mul_into(r, m1, m2, c1 * c2)
        return Poly({m: c for m, c in r.items() if c != 0})
    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inverse(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        return self * inverse(as_poly(o))

    def conj(self):
        r = ZERO
        for m, c in self.t.items():
            r = r + mono_conj(m) * const(c)
        return r

    def is_zero(self):
        return not self.t

    def key(self):
        return frozenset(self.t.items())

    def split(self):
        """-> (re-part terms, im-part terms) w.r.t. the generator I"""
        re, im = {}, {}
        for m, c in self.t.items():
            if m and m[0][0] == 0:
                im[m[1:]] = c
            else:
                re[m] = c
        return re, im

    def gens(self):
        return {g for m in self.t for g, _ in m}

    def diff(self, dgen):
        """derivation given by dgen(gen) -> Poly"""
        r = ZERO
        for m, c in self.t.items():
            for k, (g, e) in enumerate(m):
                d = dgen(GENS[g])
                if d is None or not d.t:
                    continue
                rest = list(m)
                if e == 1:
                    del rest[k]
                else:
                    rest[k] = (g, e - 1)
                r = r + Poly({tuple(rest): c * e}) * d
        return r

    def evalf(self, val):
        s = 0
        for m, c in self.t.items():
            p = complex(c)
            for g, e in m:
                p *= val(g) ** e
            s += p
        return s

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: str(kv[0])):
            f = '*'.join(GENS[g].name + ('^%d' % e if e != 1 else '') for g, e in m)
            out.append('%s*%s' % (c, f) if f else str(c))
        return ' + '.join(out)


ZERO = Poly({})
ONE = Poly({(): 1})


def const(c):
    if c == 0:
        return ZERO
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return Poly({(): c})


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(frac_of_float(x))
    if isinstance(x, complex):
        return const(frac_of_float(x.real)) + I * const(frac_of_float(x.imag))
    raise Undecidable('as_poly(%r)' % (x,))


def frac_of_float(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Undecidable('non-finite float')
    f = Fraction(x)
    g = f.limit_denominator(10 ** 6)
    return g if abs(float(g) - x) <= 1e-12 * max(1.0, abs(x)) else f


def mono_mul_into(r, m1, m2, c):
    if not m1:
        m = m2
    elif not m2:
        m = m1
    else:
        d = dict(m1)
        special = False
        for g, e in m2:
            s = d.get(g, 0) + e
            if s == 0:
                del d[g]
            else:
                d[g] = s
                G = GENS[g]
                if G.kind != 'free' and s not in (1,):
                    special = True
        if special:
            extra = ONE
            for g in list(d):
                G = GENS[g]
                e = d[g]
                if G.kind == 'I' and e >= 2:
                    q, rem = divmod(e, 2)
                    c = c * (-1) ** q
                    if rem:
                        d[g] = 1
                    else:
                        del d[g]
                elif G.sq is not None and (e >= 2 or e < 0):
                    q, rem = divmod(e, 2)
                    if q < 0:
                        extra = extra * inverse(G.sq) ** (-q)
                    else:
                        extra = extra * G.sq ** q
                    if rem:
                        d[g] = 1
                    else:
                        del d[g]
            if extra is not ONE:
                m = tuple(sorted(d.items()))
                p = Poly({m: c}) * extra
                for mm, cc in p.t.items():
                    r[mm] = r.get(mm, 0) + cc
                return
        m = tuple(sorted(d.items()))
    if MAXGRADE[0] is not None:
        gr = 0
        for g, e in m:
            gr += GENS[g].grade * e
        if gr > MAXGRADE[0]:
            return
    s = r.get(m, 0) + c
    r[m] = s


def gen_poly(g, e=1):
    return Poly({((g.id, e),): 1})


I = gen_poly(I_GEN)


def mono_conj(m):
    r = ONE
    for g, e in m:
        G = GENS[g]
        if G.kind == 'I':
            r = r * (-I)
        elif G.real:
            r = r * Poly({((g, e),): 1})
        elif G.unit:
            r = r * Poly({((g, -e),): 1})
        else:
            c = G.conj
            if isinstance(c, Poly):
                r = r * (c ** e)
            elif c is None:
                raise Undecidable('no conjugate for ' + G.name)
            else:
                r = r * Poly({((c.id, e),): 1})
    return r


# -- generator constructors (idempotent by name)

def real(name, grade=0, info=None, positive=False):
    g = _by_name.get(name)
    if g is None:
        g = _new(name, 'free', real=True, grade=grade, info=info)
        g.rel = 'pos' if positive else None
    return gen_poly(g)


def cplx(name, grade=0, info=None):
    g = _by_name.get(name)
    if g is None:
        g = _new(name, 'free', grade=grade, info=info)
        h = _new(name + '~', 'free', grade=grade, info=info)
        g.conj, h.conj = h, g
    return gen_poly(g)


def unit(name, info=None):
    g = _by_name.get(name)
    if g is None:
        g = _new(name, 'free', unit=True, info=info)
    return gen_poly(g)


def _isqrt_factor(n):
    """n = s^2 * f, f squarefree -> s, primes of f"""
    s, primes, p = 1, [], 2
    while p * p <= n:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        s *= p ** (k // 2)
        if k % 2:
            primes.append(p)
        p += 1
    if n > 1:
        primes.append(n)
    return s, primes


def sqrt_int(n):
    if n == 0:
        return ZERO
    if n < 0:
        return I * sqrt_int(-n)
    s, primes = _isqrt_factor(n)
    r = const(s)
    for p in primes:
        g = _by_name.get('sqrt%d' % p)
        if g is None:
            g = _new('sqrt%d' % p, 'alg', real=True, sq=const(p), inv=True)
            g.numeric = p ** 0.5
            g.rel = 'pos'
        r = r * gen_poly(g)
    return r


def sqrt_frac(q):
    q = Fraction(q)
    return sqrt_int(q.numerator * q.denominator) * const(Fraction(1, q.denominator))


_inv_cache = {}
_sqrt_cache = {}


def inverse(p):
    if not p.t:
        raise Undecidable('1/0')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = const(Fraction(1, 1) / c)
        for g, e in m:
            G = GENS[g]
            if G.kind == 'I':
                r = r * (-I)
            elif G.sq is not None:
                for _ in range(abs(e)):
                    r = r * gen_poly(G) * inverse(G.sq)
            else:
                r = r * Poly({((g, -e),): 1})
        return r
    # normalise scaling so that 1/(2x+2y) = 1/2 * 1/(x+y)
    lead_m = min(p.t, key=lambda m: tuple(m))
    lead = p.t[lead_m]
    q = p * const(Fraction(1, 1) / lead)
    re, im = q.split()
    if not any(G.sq is not None or G.kind == 'I' for m in q.t for G in [GENS[g] for g, _ in m]) \
            or not all(GENS[g].kind in ('I', 'alg') for m in q.t for g, _ in m):
        k = q.key()
        if k not in _inv_cache:
            g = _new('inv(%r)' % q, 'inv', info=q)
            g.rel = ('inv', q)
            _inv_cache[k] = g
            if MAXGRADE[0] is not None and any(GENS[x].grade for x in q.gens()):
                raise Undecidable('inverse in series mode')
            qc = q.conj()
            if qc.key() == k:
                g.real = True
            else:
                leadc = qc.t[min(qc.t, key=lambda m: tuple(m))]
                qn = qc * const(Fraction(1, 1) / leadc) if len(GENS) else qc
                kk = qn.key()
                if kk == k:
                    g.conj = gen_poly(g) * const(Fraction(1, 1) / leadc)
                else:
                    if kk not in _inv_cache:
                        h = _new('inv(%r)' % qn, 'inv', info=qn)
                        h.rel = ('inv', qn)
                        _inv_cache[kk] = h
                        h.conj = None
                    h = _inv_cache[kk]
                    g.conj = gen_poly(h) * const(Fraction(1, 1) / leadc)
                    # conj(h) = conj(conj(g) * leadc) = g * leadc (leadc rational)
                    h.conj = gen_poly(g) * const(leadc)
        return gen_poly(_inv_cache[k]) * const(Fraction(1, 1) / lead)
    # algebraic number a+b*sqrt(..)+..: multiply by conjugates
    num = ONE
    den = p
    for gid in sorted(den.gens(), reverse=True):
        if gid not in den.gens():
            continue
        a = Poly({m: c for m, c in den.t.items() if gid not in dict(m)})
        b = den - a
        f = a - b
        num, den = num * f, den * f
    if len(den.t) != 1:
        raise Undecidable('inverse of %r' % p)
    return num * inverse(den)


def sqrt_poly(p, positive=True):
    """sqrt of a polynomial taken to be non-negative real (principal branch); atoms with defining equation"""
    if not p.t:
        return ZERO
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if not m:
            return sqrt_frac(c)
    k = p.key()
    if k not in _sqrt_cache:
        g = _new('sqrt(%r)' % p, 'alg', sq=p)
        pc = p.conj()
        if pc.key() == k:
            g.real = True
            g.rel = 'nonneg'
        else:
            h = _new('sqrt(%r)' % pc, 'alg', sq=pc)
            g.conj, h.conj = h, g
            _sqrt_cache[pc.key()] = h
        _sqrt_cache[k] = g
    return gen_poly(_sqrt_cache[k])
