"""C29: library circuit components are physically consistent."""
import itertools
import sys

import sympy

from qv import harness, sem, ring, slh
from qv.dual import K
from qv.harness import Case, Eq, Holds
from qv.slh import Net
from checks.c20 import C, Tab, ca, solvable

PROPERTY = 'C29'
MODULE = 'checks.c29'
LEVEL = 'translation_validation'
BUDGET = {'quick': 200, 'thorough': 2000}
EXPLANATION = ('every component of the library is built with symbolic parameters and converted to its SLH model by the real code; z3 decides for all parameter values that '
               'the scattering matrix is unitary, the Hamiltonian self-adjoint, and that scattering and coupling are the documented functions of the parameters, also '
               'after substitution, composition, driving and feedback')
BOUNDS = {'quick': 'all components exported by the library, parameter expressions: free symbols (real angles, complex amplitudes), sums, multiples, multiples of pi/4, numbers, zero; '
                   'networks of up to three components',
          'thorough': 'all pairs and triples of the parameter expressions in networks'}

th, ph, ps = sympy.symbols('theta phi psi', real=True)
al, be = sympy.symbols('alpha beta')
i, pi = sympy.I, sympy.pi
ANG = {'default': None, 'theta': th, '2phi': 2 * ph, '-theta': -th, 'theta+phi': th + ph, '0': 0, 'pi': pi, 'pi/2': pi / 2, 'pi/4': pi / 4, '3pi/4+phi': 3 * pi / 4 + ph, 'pi/4-theta': pi / 4 - th, '-pi/2': -pi / 2, '3theta-phi': 3 * th - ph}
AMP = {'default': None, 'alpha': al, 'alpha+beta': al + be, 'i*alpha': i * al, '2': 2, '0': 0, '-alpha*beta': -al * be, 'phase': al * sympy.exp(i * ph), 'half': sympy.Rational(1, 2) + i, 'conj': sympy.conjugate(al)}


def lib():
    from qnet.algebra.library import circuit_components as m
    return m


def comps():
    m = lib()
    return [getattr(m, n) for n in m.__all__ if isinstance(getattr(m, n), type) and issubclass(getattr(m, n), ca().Component)]


SPEC = {'CoherentDriveCC': ('displacement', AMP, al, 'W', 1), 'PhaseCC': ('phase', ANG, ph, 'Phase', 1), 'Beamsplitter': ('mixing_angle', ANG, pi / 4, 'BS', 2)}


def make(t, name, val, label=None):
    arg, _, default, _, n = SPEC[name]
    kw = {} if val is None else {arg: val}
    if label:
        kw['label'] = label
    v = lambda q: ring.as_poly(sem.val(sympy.sympify(q), t.env))
    p = default if val is None else val
    if name == 'CoherentDriveCC':
        r = Net([[ring.ONE]], [v(p)], ring.ZERO)
    elif name == 'PhaseCC':
        r = Net([[v(sympy.exp(i * p))]], [ring.ZERO], ring.ZERO)
    else:
        c, s = v(sympy.cos(p)), v(sympy.sin(p))
        r = Net([[c, -s], [s, c]], [ring.ZERO] * 2, ring.ZERO)
    return C(getattr(lib(), name)(**kw), r, t)


def generic(cls):
    """for any library component, with fresh symbols for every declared argument"""
    def physical(e, t, lab):
        w = e.toSLH()
        n = e.CDIM
        yield Holds(lab + 'ports', e.cdim == n == w.cdim == len(e.PORTSIN) == len(e.PORTSOUT) and w.S.shape == (n, n) and w.L.shape == (n, 1))
        yield Holds(lab + 'port names are distinct', len(set(e.PORTSIN)) == n == len(set(e.PORTSOUT)))
        N = slh.of_slh(w, t.env)
        for a in range(n):
            for b in range(n):
                one = ring.ONE if a == b else ring.ZERO
                yield Eq('%sS S^+ [%d,%d]' % (lab, a, b), slh.dot(N.S[a], [slh.dag(q) for q in N.S[b]]), one)
                yield Eq('%sS^+ S [%d,%d]' % (lab, a, b), slh.dot([slh.dag(N.S[q][a]) for q in range(n)], [N.S[q][b] for q in range(n)]), one)
        yield Eq(lab + 'H self-adjoint', N.H, slh.dag(N.H))

    def f(cx):
        t = Tab()
        yield from physical(cls(), t, 'default ')
        args = {}
        for k, a in enumerate(cls.ARGNAMES):
            d = cls.DEFAULTS[a]
            real = isinstance(d, (int, float)) or (isinstance(d, sympy.Basic) and d.is_real)
            args[a] = sympy.Symbol('p%d' % k, real=True) if real else sympy.Symbol('p%d' % k)
        e = cls(**args)
        yield from physical(e, t, '')
        e2 = cls(label='X1', **args)
        yield Holds('label', e.label == cls.IDENTIFIER and e2.label == 'X1' and e != e2)
        for a in cls.ARGNAMES:
            yield Holds('argument ' + a, getattr(e, a) == args[a] and getattr(cls(), a) == cls.DEFAULTS[a])
            yield Holds('parameter ' + a + ' distinguishes', e != cls(**dict(args, **{a: args[a] + 1})))
        yield Holds('free symbols', e.free_symbols == set(args.values()))
        yield Holds('rebuilt', cls(**e.kwargs) == e and cls.create(**e.kwargs) == e and cls(**e.minimal_kwargs) == e and hash(cls(**e.kwargs)) == hash(e))
        yield Holds('rebuilt from args', type(e).create(*e.args, **e.kwargs) == e)
        try:
            cls(no_such_argument=1)
            yield Holds('unknown argument is refused', False)
        except TypeError:
            pass
        new = {s: sympy.Symbol('q_' + s.name, real=s.is_real) for s in args.values()}
        s1 = e.substitute(new)
        yield Holds('substitution', s1 == cls(**{a: new[s] for a, s in args.items()}))
        yield from slh.equal('substituted model', slh.of_slh(s1.toSLH(), t.env), slh.of_slh(e.toSLH().substitute(new), t.env))
        a = slh.of_slh(e.toSLH(), t.env)
        yield from C(e.toSLH(), a, t).eq('model')
        yield from C(e.series_inverse(), slh.inverse(a), t).eq('inverse')
        yield from C((e.series_inverse() << e).toSLH(), slh.ident(a.n), t).eq('inverse undone')
        yield from C((e + e2).toSLH(), slh.concat(a, a), t).eq('parallel')
    return f


def one(name, val):
    def f(cx):
        t = Tab()
        arg, vals, default, ident, n = SPEC[name]
        u = make(t, name, vals[val])
        yield Holds('label', u.e.label == ident)
        yield Holds('argument', getattr(u.e, arg) == (default if vals[val] is None else vals[val]))
        yield from C(u.e.toSLH(), u.r, t).eq('model')
        yield from C(u.e.toSLH().expand().simplify_scalar(), u.r, t).eq('simplified')
        yield from C(u.e.series_inverse().toSLH(), slh.inverse(u.r), t).eq('inverse')
        yield from C(make(t, name, vals[val], 'X').e.toSLH(), u.r, t).eq('labelled')
        if vals[val] is not None:
            q = make(t, name, sympy.Symbol('zeta', real=name != 'CoherentDriveCC'))
            w = q.e.substitute({sympy.Symbol('zeta', real=name != 'CoherentDriveCC'): vals[val]})
            yield from C(w.toSLH(), u.r, t).eq('by substitution')
            yield Holds('by substitution equal', w == u.e)
    return f


def compose(name, a, b):
    """two components in a row: angles, phases and amplitudes add"""
    def f(cx):
        t = Tab()
        arg, vals, default, ident, n = SPEC[name]
        va, vb = [default if vals[q] is None else vals[q] for q in (a, b)]
        u, w = make(t, name, va, 'U'), make(t, name, vb, 'V')
        s = make(t, name, va + vb)
        got = slh.of_slh((u.e << w.e).toSLH(), t.env)
        for p in range(n):
            for q in range(n):
                yield Eq('S[%d,%d]' % (p, q), got.S[p][q], s.r.S[p][q])
            yield Eq('L[%d]' % p, got.L[p], s.r.L[p])
        yield from C((u.e << w.e).toSLH(), slh.series(u.r, w.r), t).eq('series')
        if name == 'Beamsplitter':
            p1, p2 = make(t, 'PhaseCC', vb, 'P'), make(t, 'CoherentDriveCC', al)
            i1 = t.id(1)
            for lab, c in (('mach-zehnder', u << (p1 + i1) << w), ('driven', u << (p2 + i1) << w), ('drive after', (i1 + p2) << u), ('swap', t.perm(1, 0) << u << t.perm(1, 0)), ('phases', (p1 + i1) << u << (i1 + p1))):
                yield from c.eq(lab)
                yield from C(c.e.toSLH(), c.r, t).eq(lab + ' model')
            for o, q in itertools.product(range(2), repeat=2):
                if solvable(u.r, o, q):
                    yield from C(u.e.feedback(out_port=o, in_port=q).toSLH(), slh.feedback(u.r, o, q), t).eq('loop %d->%d' % (o, q))
    return f


def documented(cx):
    """statements of the documentation"""
    t = Tab()
    m = lib()
    z, one_ = ring.ZERO, ring.ONE
    S = lambda e: slh.of_slh(e.toSLH(), t.env).S
    for lab, a, ref in (('full transmission', 0, [[one_, z], [z, one_]]), ('full reflection', pi / 2, [[z, -one_], [one_, z]])):
        r = S(m.Beamsplitter(mixing_angle=a))
        for p in range(2):
            for q in range(2):
                yield Eq('%s [%d,%d]' % (lab, p, q), r[p][q], ref[p][q])
    h = ring.as_poly(sem.val(1 / sympy.sqrt(2), t.env))
    r = S(m.Beamsplitter())
    for p in range(2):
        for q in range(2):
            yield Eq('50-50 [%d,%d]' % (p, q), r[p][q], -h if (p, q) == (0, 1) else h)
    # symmetric beam splitter from phases
    P = lambda a, l: m.PhaseCC(phase=a, label=l)
    sym = (P(pi / 2, 'P1') + ca().circuit_identity(1)) << m.Beamsplitter(mixing_angle=th) << (P(-pi / 2, 'P2') + ca().circuit_identity(1))
    r = S(sym)
    v = lambda q: ring.as_poly(sem.val(q, t.env))
    ref = [[v(sympy.cos(th)), v(-i * sympy.sin(th))], [v(-i * sympy.sin(th)), v(sympy.cos(th))]]
    for p in range(2):
        for q in range(2):
            yield Eq('symmetric [%d,%d]' % (p, q), r[p][q], ref[p][q])
    bs = m.Beamsplitter()
    yield Holds('ports', bs.PORTSIN == ('in', 'vac') and bs.PORTSOUT == ('tr', 'rf'))
    for c, n in ((m.PhaseCC, 1), (m.CoherentDriveCC, 1), (m.Beamsplitter, 2)):
        yield Holds('%s channels' % c.__name__, c.CDIM == n and c().cdim == n)
    yield Holds('all exported components are covered', {c.__name__ for c in comps()} >= set(SPEC))


def cases(tier):
    q = tier == 'quick'
    out = [Case('generic/' + c.__name__, generic(c), weight=3) for c in comps()]
    for name, (_, vals, _, _, _) in SPEC.items():
        for v in vals:
            out.append(Case('one/%s/%s' % (name, v), one(name, v)))
        for a in vals:
            for b in vals:
                if q and name == 'Beamsplitter' and (len(a) + len(b)) % 2 and a != b:
                    continue
                out.append(Case('compose/%s/%s|%s' % (name, a, b), compose(name, a, b), weight=2))
    out.append(Case('documented', documented))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
