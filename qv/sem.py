"""Reference semantics: QNET expressions -> exact linear maps over symbolic values.

Independent of QNET's algebra code: only the constructor arguments of the nodes (operands, labels, coefficients, spaces)
are read.  An operator is a sparse map {(out_index, in_index): value} over named local spaces; kets have no inputs,
bras no outputs, scalars neither; a superoperator acts on the doubled spaces (label, 'L'), (label, 'R').
"""
from fractions import Fraction
from itertools import product

import sympy

from . import ring, scal
from .ring import ONE, ZERO, I, Poly, const, as_poly, Undecidable, cplx, gen_poly, GENS, sqrt_int, sqrt_frac, _by_name
from .scal import to_poly


class IllTyped(Undecidable):
    """a result that is not an object of any single type (e.g. the sum of a ket and an operator)"""


class T:
    """linear map in -> out.  out/in_: sorted tuples of labels; d: {(o, i): Poly}; dims: {label: N}"""
    __slots__ = ('out', 'in_', 'd', 'dims', 'sup')

    def __init__(self, out, in_, d, dims, sup=False):
        self.out = out
        self.in_ = in_
        self.d = d
        self.dims = dims
        self.sup = sup

    def is_scalar(self):
        return not self.out and not self.in_

    def scalar(self):
        assert self.is_scalar()
        return self.d.get(((), ()), ZERO)


def S(p):
    """scalar as T"""
    p = as_poly(p)
    return T((), (), {((), ()): p} if p.t else {}, {})


def lkey(l):
    return (str(l),)


def srt(labels):
    return tuple(sorted(labels, key=lkey))


def ident(labels, dims):
    labels = srt(labels)
    d = {}
    for idx in product(*[range(dims[l]) for l in labels]):
        d[(idx, idx)] = ONE
    return T(labels, labels, d, {l: dims[l] for l in labels})


def extend(a, extra, dims):
    """a (x) identity on extra labels"""
    extra = [l for l in extra if l not in a.out or l not in a.in_]
    for l in extra:
        if l in a.out or l in a.in_:
            raise IllTyped('extend over a half-open label')
    if not extra:
        return a
    out = srt(a.out + tuple(extra))
    in_ = srt(a.in_ + tuple(extra))
    pos_o = [('a', a.out.index(l)) if l in a.out else ('e', extra.index(l)) for l in out]
    pos_i = [('a', a.in_.index(l)) if l in a.in_ else ('e', extra.index(l)) for l in in_]
    d = {}
    ranges = [range(dims[l]) for l in extra]
    for e in product(*ranges):
        for (o, i), v in a.d.items():
            oo = tuple(o[p] if k == 'a' else e[p] for k, p in pos_o)
            ii = tuple(i[p] if k == 'a' else e[p] for k, p in pos_i)
            d[(oo, ii)] = v
    nd = dict(a.dims)
    nd.update({l: dims[l] for l in extra})
    return T(out, in_, d, nd, a.sup)


def merge_dims(a, b):
    d = dict(a.dims)
    for l, n in b.dims.items():
        if d.get(l, n) != n:
            raise Undecidable('dimension clash for %r' % (l,))
        d[l] = n
    return d


def mul(a, b):
    """composition a after b, tensoring with identities where needed (bra-ket contraction, tensor products)"""
    dims = merge_dims(a, b)
    if a.is_scalar() or b.is_scalar():
        if a.is_scalar():
            s, t = a.scalar(), b
        else:
            s, t = b.scalar(), a
        return T(t.out, t.in_, {k: x for k, v in t.d.items() for x in [s * v] if x.t}, t.dims, a.sup or b.sup)
    b2 = extend(b, [l for l in a.in_ if l not in b.out], dims)
    a2 = extend(a, [l for l in b2.out if l not in a.in_], dims)
    if a2.in_ != b2.out:
        raise IllTyped('cannot compose')
    rows = {}
    for (m, i), v in b2.d.items():
        rows.setdefault(m, []).append((i, v))
    d = {}
    for (o, m), v in a2.d.items():
        for i, w in rows.get(m, ()):
            x = v * w
            if x.t:
                k = (o, i)
                if k in d:
                    s = d[k] + x
                    if s.t:
                        d[k] = s
                    else:
                        del d[k]
                else:
                    d[k] = x
    return T(a2.out, b2.in_, d, dims, a.sup or b.sup)


def align(a, b):
    dims = merge_dims(a, b)
    la = set(a.out) | set(a.in_)
    lb = set(b.out) | set(b.in_)
    a2 = extend(a, srt(lb - la), dims)
    b2 = extend(b, srt(la - lb), dims)
    if not a2.d:
        a2 = T(b2.out, b2.in_, {}, dims, a.sup)
    if not b2.d:
        b2 = T(a2.out, a2.in_, {}, dims, b.sup)
    if a2.out != b2.out or a2.in_ != b2.in_:
        raise IllTyped('adding objects of different type: %r->%r vs %r->%r' % (a2.in_, a2.out, b2.in_, b2.out))
    return a2, b2


def add(a, b):
    a, b = align(a, b)
    d = dict(a.d)
    for k, v in b.d.items():
        if k in d:
            s = d[k] + v
            if s.t:
                d[k] = s
            else:
                del d[k]
        else:
            d[k] = v
    return T(a.out, a.in_, d, merge_dims(a, b), a.sup or b.sup)


def scale(c, a):
    return mul(S(c), a)


def neg(a):
    return scale(-ONE, a)


def sub(a, b):
    return add(a, neg(b))


def dag(a):
    return T(a.in_, a.out, {(i, o): v.conj() for (o, i), v in a.d.items()}, a.dims, a.sup)


def comm(a, b):
    return sub(mul(a, b), mul(b, a))


def power(a, n):
    r = S(ONE)
    for _ in range(n):
        r = mul(r, a)
    return r


def ptrace(a, labels, dims=None):
    """partial trace over the labels; a label on which a acts trivially contributes its dimension"""
    miss = [l for l in labels if l not in a.out]
    if miss:
        a = extend(a, miss, dims)
    keep = tuple(l for l in a.out if l not in labels)
    ki = [a.out.index(l) for l in keep]
    ti = [a.out.index(l) for l in a.out if l in labels]
    d = {}
    for (o, i), v in a.d.items():
        if all(o[t] == i[t] for t in ti):
            k = (tuple(o[x] for x in ki), tuple(i[x] for x in ki))
            d[k] = d.get(k, ZERO) + v
    return T(keep, keep, {k: v for k, v in d.items() if v.t}, {l: a.dims[l] for l in keep})


# ---- superoperators
def lab(l, side):
    return (l, side)


def spre(a):
    m = lambda ls: tuple(lab(l, 'L') for l in ls)   # noqa
    return T(m(a.out), m(a.in_), dict(a.d), {lab(l, 'L'): n for l, n in a.dims.items()}, True)


def spost(a):
    m = lambda ls: tuple(lab(l, 'R') for l in ls)   # noqa
    return T(m(a.in_), m(a.out), {(i, o): v for (o, i), v in a.d.items()},
             {lab(l, 'R'): n for l, n in a.dims.items()}, True)


def vec(a):
    out = srt([lab(l, 'L') for l in a.out] + [lab(l, 'R') for l in a.out])
    d = {}
    for (o, i), v in a.d.items():
        vals = {}
        for l, x in zip(a.out, o):
            vals[lab(l, 'L')] = x
        for l, x in zip(a.in_, i):
            vals[lab(l, 'R')] = x
        d[(tuple(vals[l] for l in out), ())] = v
    dims = {}
    for l, n in a.dims.items():
        dims[lab(l, 'L')] = dims[lab(l, 'R')] = n
    return T(out, (), d, dims)


def unvec(a):
    labels = srt({l[0] for l in a.out})
    d = {}
    for (o, _), v in a.d.items():
        vals = dict(zip(a.out, o))
        d[(tuple(vals[lab(l, 'L')] for l in labels), tuple(vals[lab(l, 'R')] for l in labels))] = v
    return T(labels, labels, d, {l: a.dims[lab(l, 'L')] for l in labels})


def apply_super(s, a):
    """superoperator on operator"""
    ls = {l[0] for l in s.out}
    dims = dict(a.dims)
    for l, n in s.dims.items():
        dims[l[0]] = n
    a = extend(a, srt(ls - set(a.out)), dims)
    if s.is_scalar():
        m = mul(S(s.scalar()), a)
        return T(m.out, m.in_, m.d, m.dims)
    return unvec(mul(s, vec(a)))


def super_dual(s):
    """trace dual: tr[M (S N)] = tr[(S* M) N]"""
    ls = {l[0] for l in s.out}
    dims = {l[0]: n for l, n in s.dims.items()}
    full = []
    for l in srt(ls):
        full += [lab(l, 'L'), lab(l, 'R')]
    ddims = {x: dims[x[0]] for x in full}
    s = extend(s, [x for x in full if x not in s.out], ddims)
    flip = lambda labs, idx: tuple({lab(l[0], 'R' if l[1] == 'L' else 'L'): v    # noqa
                                    for l, v in zip(labs, idx)}[x] for x in labs)
    d = {}
    for (o, i), v in s.d.items():
        # tr[M SN] = sum M_{ba} S_{ab,cd} N_{cd};  (S*M)_{dc} = sum M_{ba} S_{ab,cd}
        d[(flip(s.in_, i), flip(s.out, o))] = v
    return T(s.in_, s.out, d, s.dims, True)


# ---- environment
class Env:
    """representation dimensions of local spaces; bindings of (index) symbols; Fock margins"""

    def __init__(self, default_dim=2, dims=None, fock=None, support=None, bind=None, margin=0, normalized=False):
        self.default_dim = default_dim
        self.dims = dict(dims or {})        # label -> rep. dimension
        self.fock = fock                    # rep. dim. of spaces without a dimension when ladder operators are used
        self.support = support or {}        # label -> dimension of the block on which symbols act
        self.bind = dict(bind or {})
        self.spaces = {}                    # label -> rep dim actually used
        self.margin = margin
        self.normalized = normalized        # kets of symbols are unit vectors by construction

    def with_bind(self, b):
        e = Env.__new__(Env)
        e.__dict__.update(self.__dict__)
        e.bind = dict(self.bind)
        e.bind.update(b)
        return e

    def dim(self, ls):
        l = ls.label
        if l in self.dims:
            n = self.dims[l]
        elif getattr(ls, '_dimension', None) is not None:
            n = int(ls._dimension)
        elif self.fock is not None:
            n = self.fock
        else:
            n = self.default_dim
        self.spaces[l] = n
        return n

    def local(self, hs):
        """sorted local labels of a space and dims"""
        fs = hs.local_factors
        d = {ls.label: self.dim(ls) for ls in fs}
        return srt(d), d

    def poly(self, x):
        return val(x, self)


def clsnames(x):
    return [c.__name__ for c in type(x).__mro__]


def val(x, env):
    """any scalar (native, SymPy, QNET) -> Poly"""
    if isinstance(x, Poly):
        return x
    if isinstance(x, (int, float, complex)):
        return as_poly(x)
    if isinstance(x, sympy.Basic):
        return to_poly(x, env.bind)
    t = den(x, env)
    if isinstance(t, T):
        if t.is_scalar():
            return t.scalar()
        raise IllTyped('not a scalar: %r' % (x,))
    return as_poly(t)


def bind_expr(e, env):
    """substitute bindings in a SymPy expression (simultaneously)"""
    sub = {k: sympy.sympify(v) for k, v in env.bind.items() if k in e.free_symbols}
    return e.xreplace(sub) if sub else e


def sym_index(label, ls, env):
    """index of a basis label (concrete or symbolic) in the local space"""
    names = clsnames(label)
    if 'SymbolicLabelBase' in names:
        e = bind_expr(label.expr, env)
        e = sympy.sympify(e)
        if e.free_symbols:
            raise IllTyped('unbound label %r' % (label,))
        if 'SpinIndex' in names:
            spin = Fraction(int(ls._dimension) - 1, 2)
            m = Fraction(int(sympy.Rational(e).p), int(sympy.Rational(e).q))
            i = m + spin
            if i.denominator != 1:
                raise Undecidable('bad spin index')
            return int(i)
        if 'FockLabel' in names or 'IntIndex' in names:
            return int(e)
        s = str(e)
        return name_index(s, ls)
    if isinstance(label, int):
        return int(label)
    return name_index(label, ls)


def name_index(s, ls):
    b = getattr(ls, '_basis', None)
    if b is not None:
        return list(b).index(s)
    return int(s)


def label_name(label, env):
    names = clsnames(label)
    if 'SymbolicLabelBase' in names:
        e = bind_expr(label.expr, env)
        return render_label(sympy.sympify(e))
    return str(label)


def render_label(e):
    if any('IdxSym' in clsnames(s) for s in e.free_symbols):
        raise IllTyped('index symbol %s is not bound' % e)
    if isinstance(e, sympy.Indexed):
        ind = [render_label(i) for i in e.indices]
        return '%s_%s' % (render_label(e.base.args[0]), ('' if all(len(i) == 1 for i in ind) else ',').join(ind))
    if isinstance(e, (sympy.Symbol, sympy.Integer)):
        return str(e)
    raise Undecidable('label %s' % e)


def op_gens(kind, base, args, hs_key, idx, order=()):
    """unknown for one matrix element of a symbol, or of a partial derivative of it

    `args` are the values (Poly) of the arguments; ``order[i]`` is the number of derivatives in the i-th argument"""
    nm = '%s:%s(%s)@%s' % (kind, base, ';'.join(repr(a) for a in args), hs_key)
    if any(order):
        nm = 'd%r ' % (tuple(order),) + nm
    else:
        order = (0,) * len(args)
    nm += '[%s]' % ','.join(map(str, idx))
    p = cplx(nm)
    g = _by_name[nm]
    if g.info is None:
        g.info = ('op', kind, base, args, hs_key, idx, tuple(order))
        if isinstance(g.conj, ring.Gen):
            g.conj.info = ('opconj', g)
    return p


def symbol_T(kind, base, args, hs, env):
    args = tuple(val(x, env) for x in args)
    labels, dims = env.local(hs)
    key = '*'.join(map(str, labels))
    sup = {l: min(env.support.get(l, dims[l]), dims[l]) for l in labels}
    rng = [range(sup[l]) for l in labels]
    d = {}
    if kind == 'ket':
        idx = list(product(*rng))
        for o in idx:
            d[(o, ())] = op_gens(kind, base, args, key, o)
        if env.normalized:
            # first component = phase * sqrt(1 - sum |others|^2)
            rest = ZERO
            for o in idx[1:]:
                p = d[(o, ())]
                rest = rest + p * p.conj()
            ph = ring.unit('phase ket:%s(%s)@%s' % (base, ';'.join(repr(x) for x in args), key))
            d[(idx[0], ())] = ph * ring.sqrt_poly(ONE - rest)
        return T(labels, (), d, dims)
    if kind == 'sop':
        full = []
        for l in labels:
            full += [lab(l, 'L'), lab(l, 'R')]
        full = srt(full)
        ddims = {x: dims[x[0]] for x in full}
        r2 = [range(sup[x[0]]) for x in full]
        for o in product(*r2):
            for i in product(*r2):
                d[(o, i)] = op_gens(kind, base, args, key, o + i)
        return T(full, full, d, ddims, True)
    for o in product(*rng):
        for i in product(*rng):
            d[(o, i)] = op_gens(kind, base, args, key, o + i)
    return T(labels, labels, d, dims)


def local_T(ls, env, entries):
    n = env.dim(ls)
    return T((ls.label,), (ls.label,), {((o,), (i,)): v for (o, i), v in entries(n).items() if v.t}, {ls.label: n})


def destroy_entries(n):
    return {(k - 1, k): sqrt_int(k) for k in range(1, n)}


def create_entries(n):
    return {(k, k - 1): sqrt_int(k) for k in range(1, n)}


def spin_entries(which):
    def f(n):
        s = Fraction(n - 1, 2)
        d = {}
        for k in range(n):
            m = k - s
            if which == 'z':
                d[(k, k)] = const(m)
            elif which == '+' and k + 1 < n:
                d[(k + 1, k)] = sqrt_frac(s * (s + 1) - m * (m + 1))
            elif which == '-' and k >= 1:
                d[(k - 1, k)] = sqrt_frac(s * (s + 1) - m * (m - 1))
        return d
    return f


def mat_exp_series(gen, labels, dims):
    """exp of a T all of whose entries have grade >= 1 (formal power series)"""
    res = ident(labels, dims)
    term = res
    for k in range(1, ring.MAXGRADE[0] + 1):
        term = scale(const(Fraction(1, k)), mul(term, gen))
        if not term.d:
            break
        res = add(res, term)
    return res


def range_values(r, env):
    names = clsnames(r)
    if 'IndexOverList' in names:
        return list(r.values)
    if 'IndexOverRange' in names:
        out, k = [], r.start_from
        if r.step == 0:
            raise Undecidable('zero step')
        while (k <= r.to) if r.step > 0 else (k >= r.to):
            out.append(k)
            k += r.step
        return out
    if 'IndexOverFockSpace' in names:
        return list(range(env.dim(r.hs)))
    raise Undecidable('range %r' % r)


def dsum(ts, like=None):
    r = None
    for t in ts:
        r = t if r is None else add(r, t)
    if r is None:
        return S(ZERO)
    return r


class SLHv:
    """denotation of an SLH model: lists of lists"""

    def __init__(self, S_, L, H):
        self.S, self.L, self.H = S_, L, H


def den(x, env):
    """denotation of a QNET expression / native scalar as T"""
    if isinstance(x, (int, float, complex, Poly)):
        return S(as_poly(x))
    if isinstance(x, sympy.Basic):
        return S(to_poly(x, env.bind))
    names = clsnames(x)
    for n in names:
        f = TABLE.get(n)
        if f is not None:
            return f(x, env)
    raise Undecidable('no semantics for %s' % names[0])


def _fock_phase(x, env):
    phi = val(x.args[0], env)

    def entries(n):
        e = scal.poly_exp(I * phi)
        d, r = {}, ONE
        for k in range(n):
            d[(k, k)] = r
            r = r * e
        return d
    return local_T(x.space, env, entries)


def _displace(x, env):
    a = val(x.args[0], env)
    ls = x.space
    n = env.dim(ls)
    g = {}
    for (o, i), v in create_entries(n).items():
        g[((o,), (i,))] = a * v
    for (o, i), v in destroy_entries(n).items():
        g[((o,), (i,))] = -a.conj() * v
    l = (ls.label,)
    return mat_exp_series(T(l, l, g, {ls.label: n}), l, {ls.label: n})


def _squeeze(x, env):
    a = val(x.args[0], env)
    ls = x.space
    n = env.dim(ls)
    l = (ls.label,)
    dims = {ls.label: n}
    ad = T(l, l, {((o,), (i,)): v for (o, i), v in create_entries(n).items()}, dims)
    an = T(l, l, {((o,), (i,)): v for (o, i), v in destroy_entries(n).items()}, dims)
    h = const(Fraction(1, 2))
    g = sub(scale(a * h, mul(ad, ad)), scale(a.conj() * h, mul(an, an)))
    return mat_exp_series(g, l, dims)


def _coherent(x, env):
    a = val(x.args[0], env)
    ls = x.space
    n = env.dim(ls)
    if ring.MAXGRADE[0] is None or not all(scal.mono_grade(m) > 0 for m in a.t):
        # opaque vector labelled by its amplitude
        return symbol_T('ket', 'coherent', (x.args[0],), ls, env)
    pre = scal.poly_exp(-a * a.conj() * const(Fraction(1, 2)))
    d, f, p = {}, 1, ONE
    for k in range(n):
        v = pre * p * sqrt_frac(Fraction(1, f))
        if v.t:
            d[((k,), ())] = v
        p = p * a
        f *= (k + 1)
    return T((ls.label,), (), d, {ls.label: n})


def _sigma(x, env):
    ls = x.space
    j, k = x.args[0], x.args[1]
    n = env.dim(ls)
    a, b = sym_index(j, ls, env), sym_index(k, ls, env)
    d = {}
    if 0 <= a < n and 0 <= b < n:
        d[((a,), (b,))] = ONE
    elif getattr(ls, '_dimension', None) is None and (a >= n or b >= n):
        raise Undecidable('basis label beyond the truncation')
    return T((ls.label,), (ls.label,), d, {ls.label: n})


def _basisket(x, env):
    ls = x.space
    lb = x.args[0]
    n = env.dim(ls)
    a = sym_index(lb, ls, env)
    d = {}
    if 0 <= a < n:
        d[((a,), ())] = ONE
    elif getattr(ls, '_dimension', None) is None and a >= n:
        raise Undecidable('basis label beyond the truncation')
    return T((ls.label,), (), d, {ls.label: n})


def _derivative(x, env):
    derivs = x.derivs
    vals = x.vals
    op = x.operand
    # the variable must stay symbolic while differentiating
    env0 = env.with_bind({})
    for s in derivs:
        env0.bind.pop(s, None)
    t = den(op, env0)
    for s, n in derivs.items():
        for _ in range(int(n)):
            t = tdiff(t, s)
    if vals:
        sub_ = {}
        for s, v in vals.items():
            sub_[s] = val(v, env)
        t = tsubs(t, sub_)
    late = {s: env.bind[s] for s in derivs if s in env.bind and s not in (vals or {})}
    if late:
        t = tsubs(t, {s: val(sympy.sympify(v), Env()) for s, v in late.items()})
    return t


def tmap(t, f):
    d = {}
    for k, v in t.d.items():
        w = f(v)
        if w.t:
            d[k] = w
    return T(t.out, t.in_, d, t.dims, t.sup)


def tdiff(t, sym):
    return tmap(t, lambda p: pdiff(p, sym))


def pdiff(p, sym):
    return p.diff(lambda g: gdiff(g, sym))


def gdiff(g, sym):
    """derivative of a generator with respect to a (real) symbol"""
    if g.kind == 'I' or g.info is None and g.sq is None and not isinstance(g.rel, tuple):
        if g.conj is not None and isinstance(g.conj, ring.Gen) and g.conj.info is not None:
            return gdiff(g.conj, sym).conj()
        return ZERO
    if isinstance(g.rel, tuple) and g.rel[0] == 'inv':
        q = gen_poly(g)
        return -(q * q) * pdiff(g.rel[1], sym)
    if g.sq is not None:
        return pdiff(g.sq, sym) * ring.inverse(gen_poly(g)) * const(Fraction(1, 2))
    info = g.info
    if info[0] == 'sym':
        e = info[1]
        if isinstance(g.conj, ring.Gen) and g.conj.id < g.id:
            return gdiff(g.conj, sym).conj()
        if sym not in e.free_symbols:
            return ZERO
        if e == sym:
            return ONE
        return to_poly(sympy.diff(e, sym))
    if info[0] == 'exp':
        return gen_poly(g) * pdiff(info[1], sym)
    if info[0] == 'opconj':
        return gdiff(info[1], sym).conj()
    if info[0] == 'op':
        _, kind, base, args, hs_key, idx, order = info
        r = ZERO
        for i, a in enumerate(args):
            da = pdiff(a, sym)
            if da.t:
                r = r + da * op_gens(kind, base, args, hs_key, idx, order[:i] + (order[i] + 1,) + order[i + 1:])
        return r
    raise Undecidable('derivative of %s' % g.name)


def tsubs(t, sub_):
    return tmap(t, lambda p: psubs(p, sub_))


def psubs(p, sub_):
    r = ZERO
    for m, c in p.t.items():
        x = const(c)
        for gid, e in m:
            v = gsubs(GENS[gid], sub_)
            x = x * (v ** e if e > 0 else ring.inverse(v) ** (-e))
        r = r + x
    return r


def gsubs(g, sub_):
    if g.kind == 'I':
        return I
    if isinstance(g.rel, tuple) and g.rel[0] == 'inv':
        return ring.inverse(psubs(g.rel[1], sub_))
    if g.sq is not None:
        q = psubs(g.sq, sub_)
        if q.key() == g.sq.key():
            return gen_poly(g)
        return ring.sqrt_poly(q)
    info = g.info
    if info is None:
        return gen_poly(g)
    if info[0] == 'sym':
        e = info[1]
        hit = [s for s in sub_ if s in e.free_symbols]
        if not hit:
            return gen_poly(g)
        if isinstance(g.conj, ring.Gen) and g.conj.id < g.id:
            return gsubs(g.conj, sub_).conj()
        if e in sub_:
            return as_poly(sub_[e])
        e2 = e.xreplace({s: poly_to_sympy(sub_[s]) for s in hit})
        return to_poly(e2.doit())
    if info[0] == 'exp':
        return scal.poly_exp(psubs(info[1], sub_))
    if info[0] == 'opconj':
        return gsubs(info[1], sub_).conj()
    if info[0] == 'op':
        _, kind, base, args, hs_key, idx, order = info
        return op_gens(kind, base, tuple(psubs(a, sub_) for a in args), hs_key, idx, order)
    raise Undecidable('substitution in %s' % g.name)


def poly_to_sympy(p):
    p = as_poly(p)
    r = sympy.Integer(0)
    for m, c in p.t.items():
        c = Fraction(c)
        x = sympy.Rational(c.numerator, c.denominator)
        for gid, e in m:
            g = GENS[gid]
            if g.kind == 'I':
                b = sympy.I
            elif g.sq is not None and not g.sq.gens():
                b = sympy.sqrt(poly_to_sympy(g.sq))
            elif g.info and g.info[0] == 'sym':
                b = g.info[1]
                if isinstance(g.conj, ring.Gen) and g.conj.id < g.id:
                    b = sympy.conjugate(b)
            else:
                raise Undecidable('poly_to_sympy(%s)' % g.name)
            x = x * b ** e
        r = r + x
    return r


def _indexed_sum(x, env):
    ranges = list(x.ranges)
    term = x.term

    def rec(k, e):
        if k == len(ranges):
            yield den(term, e)
            return
        for v in range_values(ranges[k], e):
            yield from rec(k + 1, e.with_bind({ranges[k].index_symbol: v}))
    res = dsum(rec(0, env))
    return res


def _space_labels(hs, env):
    return env.local(hs)


def _trace(x, env):
    labels, dims = env.local(x.kwargs['over_space'])
    return ptrace(den(x.operand, env), labels, dims)


def _plus(x, env):
    return dsum([den(o, env) for o in x.operands])


def _times(x, env):
    r = None
    for o in x.operands:
        t = den(o, env)
        r = t if r is None else mul(r, t)
    return r


def _scalar_times(x, env):
    return mul(S(val(x.operands[0], env)), den(x.operands[1], env))


def _adj(x, env):
    return dag(den(x.operands[0], env))


def _pmcc(x, env):
    a = den(x.operands[0], env)
    sign = x.kwargs.get('sign', 1)
    return add(a, dag(a)) if sign > 0 else sub(a, dag(a))


def _opaque(x, env):
    t = den(x.operands[0], env)
    key = sorted((repr(k), repr(v)) for k, v in t.d.items())
    return symbol_T('op', type(x).__name__ + str(hash(str(key)) % 10**12), (), x.space, env)


TABLE = {
    'OperatorSymbol': lambda x, env: symbol_T('op', label_name(x.label, env), x.sym_args, x.space, env),
    'SuperOperatorSymbol': lambda x, env: symbol_T('sop', label_name(x.label, env), x.sym_args, x.space, env),
    'BasisKet': _basisket,
    'KetSymbol': lambda x, env: symbol_T('ket', label_name(x.label, env), x.sym_args, x.space, env),
    'CoherentStateKet': _coherent,
    'IdentityOperator': lambda x, env: S(ONE),
    'ZeroOperator': lambda x, env: S(ZERO),
    'IdentitySuperOperator': lambda x, env: S(ONE),
    'ZeroSuperOperator': lambda x, env: S(ZERO),
    'ZeroKet': lambda x, env: S(ZERO),
    'TrivialKet': lambda x, env: S(ONE),
    'Zero': lambda x, env: S(ZERO),
    'One': lambda x, env: S(ONE),
    'ScalarValue': lambda x, env: S(val(x.val, env)),
    'LocalSigma': _sigma,
    'Destroy': lambda x, env: local_T(x.space, env, destroy_entries),
    'Create': lambda x, env: local_T(x.space, env, create_entries),
    'Phase': _fock_phase,
    'Displace': _displace,
    'Squeeze': _squeeze,
    'Jz': lambda x, env: local_T(x.space, env, spin_entries('z')),
    'Jplus': lambda x, env: local_T(x.space, env, spin_entries('+')),
    'Jminus': lambda x, env: local_T(x.space, env, spin_entries('-')),
    'ScalarPower': lambda x, env: S(_scalar_power(x, env)),
    'Commutator': lambda x, env: comm(den(x.operands[0], env), den(x.operands[1], env)),
    'OperatorTrace': _trace,
    'SuperAdjoint': lambda x, env: super_dual(den(x.operands[0], env)),
    'OperatorPlusMinusCC': _pmcc,
    'PseudoInverse': _opaque,
    'NullSpaceProjector': _opaque,
    'OperatorTimesKet': lambda x, env: mul(den(x.operands[0], env), den(x.operands[1], env)),
    'Bra': _adj,
    'BraKet': lambda x, env: mul(dag(den(x.operands[0], env)), den(x.operands[1], env)),
    'KetBra': lambda x, env: mul(den(x.operands[0], env), dag(den(x.operands[1], env))),
    'SPre': lambda x, env: spre(den(x.operands[0], env)),
    'SPost': lambda x, env: spost(den(x.operands[0], env)),
    'SuperOperatorTimesOperator': lambda x, env: apply_super(den(x.operands[0], env), den(x.operands[1], env)),
    'IndexedSum': _indexed_sum,
    'QuantumDerivative': _derivative,
    'ScalarTimesQuantumExpression': _scalar_times,
    'QuantumPlus': _plus,
    'QuantumTimes': _times,
    'QuantumAdjoint': _adj,
}


def _scalar_power(x, env):
    b, e = x.operands
    b = val(b, env)
    e = val(e, env)
    if len(e.t) <= 1 and not e.gens():
        c = Fraction(e.t.get((), 0))
        if c.denominator == 1:
            n = int(c)
            return b ** n if n >= 0 else ring.inverse(b) ** (-n)
        if c.denominator == 2:
            q = ring.sqrt_poly(b)
            n = c.numerator
            return q ** n if n >= 0 else ring.inverse(q) ** (-n)
    raise Undecidable('scalar power')


def pairs(a, b, guard=None, name=''):
    """entrywise comparison; guard: {label: n} compares only indices < n on that label"""
    a, b = align(a, b)
    keys = set(a.d) | set(b.d)
    out = []
    for k in sorted(keys):
        o, i = k
        if guard:
            skip = False
            for l, v in list(zip(a.out, o)) + list(zip(a.in_, i)):
                l0 = l[0] if isinstance(l, tuple) else l
                if l0 in guard and v >= guard[l0]:
                    skip = True
            if skip:
                continue
        out.append(('%s%r' % (name, k), a.d.get(k, ZERO), b.d.get(k, ZERO)))
    return out
