"""C03: every automatic simplification of oscillator operators and their action on states is an exact identity."""
import sys

import sympy

from qv import harness, sem, ring, dse
from qv.dual import K, V
from qv.harness import Case, Eq, Holds
import z3

PROPERTY = 'C03'
MODULE = 'checks.c03'
LEVEL = 'translation_validation'
BUDGET = {'quick': 500, 'thorough': 6000}
EXPLANATION = ('(a) every word of ladder, phase, displacement and squeezing operators, transition operators, number and coherent '
               'states built with the real library is compared entry by entry with the product of the operand matrices for all '
               'phases, amplitudes and squeezing parameters (formal power series in the amplitudes); (b) words around a state or '
               'transition with a symbolic level are decided by z3 over all integer levels >= 0 at once')
BOUNDS = {
    'quick': '(a) oscillator truncated to 9 levels, compared on the lowest 3 (exact there); displacement, squeezing and coherent '
             'amplitudes to total degree 4 (pairs) or 3 (triples); all pairs and most triples of the listed atoms; symbolic level '
             'labels bound to 0..3; finite and custom bases of 3 to 5 levels; (b) every level (unbounded), words up to length 3',
    'thorough': 'as quick, all triples, words on unbounded levels up to length 5 and 4-letter words'}
ASSUMPTIONS = ['phases are real symbols', 'amplitudes are generic complex symbols; identities between power series in them are '
               'compared up to the stated degree', 'for spaces of finite dimension only the level shifts are checked (the '
               'normal-ordering identity holds in the infinite oscillator only)']
t, s = sympy.symbols('t s', real=True)
x, y = sympy.symbols('x y')
H = sympy.Rational(1, 2)


def lib(name):
    from qnet.algebra.library import fock_operators as m
    return getattr(m, name)


def st():
    from qnet.algebra.core import state_algebra as m
    return m


def oa():
    from qnet.algebra.core import operator_algebra as m
    return m


def fock(k):
    return k.ls('f')


def fop(name, *args):
    return lambda k: k.wrap(lib(name)(*args, hs=fock(k)))


def cket(a):
    return lambda k: k.wrap(st().CoherentStateKet(a, hs=fock(k)))


def isig(j, l):
    """transition between symbolic levels; the case binds i and j"""
    def f(k):
        from qnet.utils.indices import IdxSym, FockIndex
        lab = [FockIndex(IdxSym(z)) if isinstance(z, str) else z for z in (j, l)]
        return k.sig(lab[0], lab[1], fock(k))
    return f


def iket(j):
    def f(k):
        from qnet.utils.indices import IdxSym, FockIndex
        return k.bket(FockIndex(IdxSym(j)), fock(k))
    return f


OP = {
    'a': fop('Destroy'), 'ad': fop('Create'), 'P': fop('Phase', t), 'Q': fop('Phase', s), 'P-': fop('Phase', -t),
    'D': fop('Displace', x), 'E': fop('Displace', y), 'D-': fop('Displace', -x), 'Di': fop('Displace', 2 * sympy.I * x),
    'S': fop('Squeeze', x), 'S-': fop('Squeeze', -x),
    's00': lambda k: k.sig(0, 0, fock(k)), 's01': lambda k: k.sig(0, 1, fock(k)), 's20': lambda k: k.sig(2, 0, fock(k)),
    's12': lambda k: k.sig(1, 2, fock(k)), 's22': lambda k: k.sig(2, 2, fock(k)),
    'n': lambda k: fop('Create')(k) * fop('Destroy')(k), 'yA': lambda k: y * k.op('A', fock(k)),
    'a+ad': lambda k: fop('Create')(k) + fop('Destroy')(k), 'Pd': lambda k: fop('Phase', t)(k).dag(),
    'Dd': lambda k: fop('Displace', x)(k).dag(), 'Sd': lambda k: fop('Squeeze', x)(k).dag(),
}
OP['sij'] = isig('i', 'j')
OP['sii'] = isig('i', 'i')
OP['s1i'] = isig(1, 'i')
KETS = {
    '|0>': lambda k: k.bket(0, fock(k)), '|1>': lambda k: k.bket(1, fock(k)), '|2>': lambda k: k.bket(2, fock(k)),
    '|x>': cket(x), '|y>': cket(y), '|ix>': cket(sympy.I * x), '|i>': iket('i'), 'y|1>': lambda k: y * k.bket(1, fock(k)),
    '|0>+|x>': lambda k: k.bket(0, fock(k)) + cket(x)(k),
    '|x>|e>': lambda k: cket(x)(k) * k.bket(1, k.ls(2)), '|1>|e>': lambda k: k.bket(1, fock(k)) * k.bket(1, k.ls(2)),
    'a|x>': lambda k: k.of(st().OperatorTimesKet(lib('Destroy')(hs=fock(k)), st().CoherentStateKet(x, hs=fock(k))),
                           sem.mul(fop('Destroy')(k).r, cket(x)(k).r)),
}


def symbolic(names):
    return any(n in ('sij', 'sii', 's1i', '|i>') for n in names)


def graded(names):
    return any(n[0] in 'DES' or 'x>' in n or 'y>' in n for n in names)


SUPP = {'f': 4}
MOVES = {}


def kx(b=None):
    k = K(fock=9, support=dict(SUPP), bind=b or {})
    k.guard = {'f': 3}
    return k


def binds(names):
    """the choices of the symbolic levels"""
    if not symbolic(names):
        return [{}]
    from qnet.utils.indices import IdxSym
    i, j = IdxSym('i'), IdxSym('j')
    if 'sij' in names:
        return [{i: u, j: v} for u, v in ((0, 0), (0, 1), (1, 0), (2, 1), (1, 3), (3, 3))]
    return [{i: u} for u in range(4)]


def word(names):
    def f(cx):
        for b in binds(names):
            k = kx(b)
            tag = ','.join('%s=%s' % z for z in b.items())
            us = [OP[n](k) for n in names]
            left = us[0]
            for u in us[1:]:
                left = left * u
            yield left.eq('product ' + tag)
            right = us[-1]
            for u in us[-2::-1]:
                right = u * right
            yield right.eq('product from the right ' + tag)
            if len(us) == 2:
                yield k.comm(*us).eq('commutator ' + tag)
                yield left.dag().eq('adjoint ' + tag)
                yield (us[0] * (y * us[1]) + (us[1] * us[0])).eq('yAB+BA ' + tag)
            yield left.expand().eq('expanded ' + tag)
    return f


def acts(names, kn):
    def f(cx):
        for b in binds(names + (kn,)):
            k = kx(b)
            tag = ','.join('%s=%s' % z for z in b.items())
            us = [OP[n](k) for n in names]
            v = KETS[kn](k)
            w = v
            for u in us[::-1]:
                w = u * w
            yield w.eq('A(B|v>) ' + tag)
            if len(us) > 1:
                p = us[0]
                for u in us[1:]:
                    p = p * u
                yield (p * v).eq('(AB)|v> ' + tag)
            yield (v.dag() * us[-1].dag()).eq('<v|A^+ ' + tag)
            if '|e>' not in kn:
                yield (k.bra(k.bket(1, fock(k))) * w).eq('<1|A|v> ' + tag)
                yield (w * v.dag()).eq('A|v><v| ' + tag)
    return f


def states(a, b):
    def f(cx):
        for bd in binds((a, b)):
            k = kx(bd)
            u, v = KETS[a](k), KETS[b](k)
            if ('|e>' in a) == ('|e>' in b):
                yield (u.dag() * v).eq('overlap')
                yield (u * v.dag()).eq('outer product')
                yield ((u * v.dag()) * v).eq('|u><v|v>')
                yield (u + v).eq('sum')
            yield (OP['a'](k) * (u * u.dag())).eq('a|u><u|')
            yield ((u * u.dag()) * OP['ad'](k)).eq('|u><u|ad')
    return f


def basics(n):
    """special arguments and Fock representation of the coherent state"""
    def f(cx):
        k = kx()
        h = fock(k)
        if n == 'zero':
            for c in ('Phase', 'Displace', 'Squeeze'):
                for z in (0, 0.0, sympy.Integer(0)):
                    yield Eq('%s(%r)' % (c, z), sem.den(lib(c).create(z, hs=h), k.env), sem.S(1))
        if n == 'pinv':
            for c, z in (('Phase', t), ('Displace', x), ('Squeeze', x)):
                u = k.wrap(lib(c)(z, hs=h))
                p = oa().PseudoInverse.create(u.e)
                k.guard = {'f': 3}
                yield (k.of(p, sem.den(lib(c)(-z, hs=h), k.env)) * 1).eq(c)
                yield Eq(c + ' inverse', sem.den(p * u.e, k.env), sem.S(1), k.guard)
        if n == 'rep':
            from qnet.utils.indices import IdxSym
            c = st().CoherentStateKet(x, hs=h)
            ref = sem.den(c, k.env)
            for m in (1, 2, 3, 5):
                for isy in ('n', 'm', IdxSym('i')):
                    r = c.to_fock_representation(index_symbol=isy, max_terms=m)
                    cut = sem.T(ref.out, ref.in_, {q: v for q, v in ref.d.items() if q[0][0] < m}, ref.dims)
                    yield Eq('%d terms' % m, sem.den(r, k.env), cut)
                    yield Eq('%d terms written out' % m, sem.den(r.doit(), k.env), cut)
            yield Eq('all terms', sem.den(c.to_fock_representation(), k.env), ref)
        if n == 'diff':
            kk = KETS['|x>'](k)
            a = OP['ad'](k)
            tt = sympy.Symbol('t', real=True)
            c = st().CoherentStateKet(tt * x, hs=h)
            yield Eq('d|tx>/dt', sem.den(c.diff(tt), k.env), sem.tdiff(sem.den(c, k.env), tt, k.env) if False else
                     sem.sub(sem.mul((x * a).r, sem.den(c, k.env)), sem.mul(sem.den(tt * x * sympy.conjugate(x), k.env), sem.den(c, k.env))))
    return f


def finite(which):
    """spaces of finite dimension, custom labels and FockLabel symbols: level shifts and level-dependent phases"""
    def f(cx):
        from qnet.utils.indices import IdxSym, FockIndex, FockLabel
        i, j = IdxSym('i'), IdxSym('j')
        basis = {'dim': None, 'gem': ('g', 'e', 'm'), 'num': ('2', '1', '0')}[which.split('-')[0]]
        n = 3
        labs = list(basis) if basis else [0, 1, 2]
        mk = (lambda k: k.ls('h', basis=basis)) if basis else (lambda k: k.ls('h', dimension=n))
        sym = which.split('-')[1] == 'sym'
        for u in range(n):
            for v in range(n):
                k = K(bind={i: u, j: v} if sym else {})
                h = mk(k)
                F = (lambda z: FockLabel(z, hs=h)) if basis else FockIndex
                lu, lv = (F(i), F(j)) if sym else (labs[u], labs[v])
                sg = k.of(oa().LocalSigma(lu, lv, hs=h), sem.T(('h',), ('h',), {((u,), (v,)): ring.ONE}, {'h': n}))
                kt = k.of(st().BasisKet(lu, hs=h), sem.T(('h',), (), {((u,), ()): ring.ONE}, {'h': n}))
                tag = '%d,%d' % (u, v)
                yield sg.eq('sigma ' + tag)
                yield kt.eq('ket ' + tag)
                ops = [k.wrap(lib(c)(hs=h)) for c in ('Destroy', 'Create')] + [k.wrap(lib('Phase')(t, hs=h))]
                for o, c in zip(ops, ('a', 'ad', 'P')):
                    yield (o * sg).eq('%s sigma %s' % (c, tag))
                    yield (sg * o).eq('sigma %s %s' % (c, tag))
                    yield (o * kt).eq('%s|u> %s' % (c, tag))
                    yield (kt.dag() * o).eq('<u|%s %s' % (c, tag))
                    yield (o * o * kt).eq('%s%s|u> %s' % (c, c, tag)) if c == 'P' else (o * (o * kt)).eq('%s%s|u> %s' % (c, c, tag))
                yield (sg * kt).eq('sigma|u> ' + tag)
                yield (sg * sg).eq('sigma^2 ' + tag)
                yield (sg.dag() * sg).eq('sigma^+sigma ' + tag)
                yield (kt.dag() * kt).eq('<u|u> ' + tag)
                for z in range(n):
                    yield (k.bket(labs[z], h).dag() * kt).eq('<%d|u> %s' % (z, tag))
                    yield (kt * k.bket(labs[z], h).dag()).eq('|u><%d| %s' % (z, tag))
    return f


# ---- all levels at once
class Lev:
    """weighted shifts with a symbolic level: {(p, q): {phase exponent: [z3 real coefficient]}}"""


def zint(e, env):
    """SymPy integer-coefficient expression in the level symbols -> z3 real"""
    e = sympy.sympify(e)
    if e.is_Symbol:
        return z3.ToReal(env['lev'][e.name])
    if e.is_Rational:
        return z3.RealVal('%d/%d' % (e.p, e.q))
    if e.is_Add:
        return z3.Sum(*[zint(a, env) for a in e.args])
    if e.is_Mul:
        r = z3.RealVal(1)
        for a in e.args:
            r = r * zint(a, env)
        return r
    if e.is_Pow:
        if e.exp == H:
            return zroot(sympy.expand(e.base), env)
        if e.exp.is_Integer and e.exp > 0:
            b = zint(e.base, env)
            r = b
            for _ in range(int(e.exp) - 1):
                r = r * b
            return r
        if e.exp.is_Rational and e.exp.q == 2 and e.exp > 0:
            b = zroot(sympy.expand(e.base), env)
            r = b
            for _ in range(int(e.exp.p) - 1):
                r = r * b
            return r
    raise ring.Undecidable('coefficient %s' % e)


def zroot(arg, env):
    k = sympy.srepr(arg)
    if k not in env['root']:
        v = z3.Real('root%d' % len(env['root']))
        a = zint(arg, env)
        env['root'][k] = v
        env['cons'].append(z3.Implies(a >= 0, z3.And(v >= 0, v * v == a)))
        env['cons'].append(v >= 0)
    return env['root'][k]


def coeff(c, env):
    """QNET/SymPy coefficient -> {canonical phase exponent: z3 real}"""
    val = getattr(c, 'val', c)
    e = sympy.expand(sympy.sympify(val), power_exp=False, power_base=False, deep=False)
    out = {}
    for term in sympy.Add.make_args(e):
        ex, rest = sympy.Integer(0), sympy.Integer(1)
        for f in sympy.Mul.make_args(term):
            if f.func is sympy.exp:
                ex += f.args[0]
            elif f.is_Pow and f.base.func is sympy.exp:
                ex += f.base.args[0] * f.exp
            else:
                rest = rest * f
        k = sympy.srepr(sympy.expand(ex))
        out.setdefault(k, []).append(zint(rest, env))
    return {k: z3.Sum(*v) for k, v in out.items()}


def terms(e):
    n = type(e).__name__
    if n in ('OperatorPlus', 'KetPlus'):
        for a in e.operands:
            for z in terms(a):
                yield z
    elif n in ('ScalarTimesOperator', 'ScalarTimesKet'):
        for c, u in terms(e.term):
            yield getattr(e.coeff, 'val', e.coeff) * c, u
    elif n in ('ZeroOperator', 'ZeroKet') or e == 0:
        return
    else:
        yield sympy.Integer(1), e


def lab_expr(label):
    return sympy.sympify(getattr(label, 'expr', label))


def unbounded(names, pos, kind):
    """word with the transition |i><j| (or the ket |i>) at position pos, all i, j >= 0"""
    def f(cx):
        from qnet.utils.indices import IdxSym, FockIndex
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        h = LocalSpace('f')
        i, j = IdxSym('i'), IdxSym('j')
        lev = {n: cx.int(n, 0) for n in ('i', 'j')}
        concrete = type(lev['i']) is int
        env = dict(lev={n: z3.IntVal(v) if concrete else v._e for n, v in lev.items()}, root={}, cons=[])
        mk = {'a': lambda: lib('Destroy')(hs=h), 'ad': lambda: lib('Create')(hs=h), 'P': lambda: lib('Phase')(t, hs=h),
              'Q': lambda: lib('Phase')(s, hs=h), 'n': lambda: lib('Create')(hs=h) * lib('Destroy')(hs=h)}
        if kind == 'ket':
            c = st().BasisKet(FockIndex(i), hs=h)
            for n in names[::-1]:
                c = mk[n]() * c
        else:
            c = oa().LocalSigma(FockIndex(i), FockIndex(j), hs=h)
            for n in names[:pos][::-1]:
                c = mk[n]() * c
            for n in names[pos:]:
                c = c * mk[n]()
        c = c.expand()
        got = {}
        for co, u in terms(c):
            yield Holds('node %s' % type(u).__name__, type(u).__name__ == ('BasisKet' if kind == 'ket' else 'LocalSigma'))
            a = [lab_expr(z) for z in u.args]
            sh = tuple(sympy.expand(q - w) for q, w in zip(a, (i, j)))
            for q, v in coeff(co, env).items():
                got.setdefault((sh, q), []).append(v)
        # reference: |i+p><j+q| with exact ladder coefficients
        p = q = sympy.Integer(0)
        ex, z = sympy.Integer(0), z3.RealVal(1)
        for n in (names if kind == 'ket' else names[:pos])[::-1]:
            for l in {'n': ('a', 'ad')}.get(n, (n,)):
                if l == 'a':
                    z, p = z * zroot(sympy.expand(i + p), env), p - 1
                elif l == 'ad':
                    z, p = z * zroot(sympy.expand(i + p + 1), env), p + 1
                else:
                    ex += sympy.I * (t if l == 'P' else s) * (i + p)
        for n in ([] if kind == 'ket' else names[pos:]):
            for l in {'n': ('ad', 'a')}.get(n, (n,)):
                if l == 'ad':          # <m|ad = sqrt(m) <m-1|
                    z, q = z * zroot(sympy.expand(j + q), env), q - 1
                elif l == 'a':
                    z, q = z * zroot(sympy.expand(j + q + 1), env), q + 1
                else:
                    ex += sympy.I * (t if l == 'P' else s) * (j + q)
        key = ((p, q) if kind != 'ket' else (p,), sympy.srepr(sympy.expand(ex)))
        want = {key: z}
        pre = z3.And(env['lev']['i'] >= 0, env['lev']['j'] >= 0, *env['cons'])
        for kk in set(got) | set(want):
            g = z3.Sum(*got[kk]) if kk in got else z3.RealVal(0)
            claim = z3.Implies(pre, g == want.get(kk, z3.RealVal(0)))
            if concrete:
                so = z3.Solver()
                so.add(z3.Not(claim))
                claim = so.check() == z3.unsat
            else:
                claim = dse.SymBool(claim, cx)
            yield Holds('coefficient of shift %s, phase %s' % (kk[0], kk[1]), claim)
    return f


def cases(tier):
    out = []
    th = tier == 'thorough'
    deg2, deg3 = (5, 4) if th else (4, 3)

    def opts(names, d):
        return dict(maxgrade=d, grades={'x': 1, 'y': 1}) if graded(names) else {}
    for n in ('zero', 'pinv', 'rep', 'diff'):
        out.append(Case('basic/' + n, basics(n), weight=3, maxgrade=4, grades={'x': 1, 'y': 1}))
    for w in ('dim-int', 'gem-str', 'num-str', 'dim-sym', 'gem-sym', 'num-sym'):
        out.append(Case('finite/' + w, finite(w), weight=3))
    for a in OP:
        for b in OP:
            out.append(Case('op/%s.%s' % (a, b), word((a, b)), weight=2 + 3 * graded((a, b)), **opts((a, b), deg2)))
    T3 = [a for a in OP if a not in ('Q', 'E', 'S', 'S-', 'Sd', 'P-', 'D-', 'Di', 's12', 's22', 'Pd', 'Dd', 's1i', 'sij')]
    for a in OP if th else T3:
        for b in OP if th else T3:
            for c in OP if th else T3:
                out.append(Case('op/%s.%s.%s' % (a, b, c), word((a, b, c)), weight=2 + 3 * graded((a, b, c)), **opts((a, b, c), deg3)))
    for u in KETS:
        for a in OP:
            out.append(Case('ket/%s.%s' % (a, u), acts((a,), u), weight=2 + 3 * graded((a, u)), **opts((a, u), deg2)))
        for v in KETS:
            out.append(Case('states/%s.%s' % (u, v), states(u, v), weight=3, **opts((u, v), deg2)))
        for a in OP if th else ('a', 'ad', 'P', 'D', 's01', 'n'):
            for b in OP if th else ('a', 'ad', 'P', 'D', 's20', 'sii'):
                out.append(Case('ket/%s.%s.%s' % (a, b, u), acts((a, b), u), weight=3, **opts((a, b, u), deg3)))
    L = ('a', 'ad', 'P', 'Q', 'n')
    import itertools
    for m in range(1, 6 if th else 4):
        for w in itertools.product(L, repeat=m):
            if m > 3 and ('Q' in w or 'n' in w):
                continue
            out.append(Case('level/ket/' + '.'.join(w), unbounded(list(w), 0, 'ket')))
            for p in range(m + 1):
                if m > 3 and p not in (0, 2):
                    continue
                out.append(Case('level/%s|ij|%s' % ('.'.join(w[:p]), '.'.join(w[p:])), unbounded(list(w), p, 'op')))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
