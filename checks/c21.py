"""C21: channel routing helpers connect exactly the ports they are asked to."""
import itertools
import sys

import sympy

from qv import harness, sem, ring, slh
from qv.harness import Case, Eq, Holds
from qv.dse import And, Or, Not, Implies
from qv.slh import Net
from checks.c20 import C, Tab, ca, solvable, closed

PROPERTY = 'C21'
MODULE = 'checks.c21'
LEVEL = 'model_checking'
BUDGET = {'quick': 400, 'thorough': 5000}
TECHNIQUE = ('symbolic execution of the real routing helpers on symbolic channel numbers (z3 decides every branch and assertion), and z3 equality of the '
             'scattering matrix, couplings and Hamiltonian of the connected circuit with the linked network')
EXPLANATION = ('map_channels, extract_channel, pad_with_identity run on symbolic channel indices; connect runs on components with arbitrary unitary '
               'scattering, coupling and energy, with component and port references drawn symbolically; the result is compared by z3 with the network in which '
               'exactly the requested outputs feed the requested inputs and the remaining ports keep their order')
BOUNDS = {'quick': 'up to 4 channels for channel maps (all partial one-to-one maps) and padding, up to 3 components with up to 5 channels in total and up to 3 '
                   'links, every output/input pair for one and two links of the listed component lists',
          'thorough': 'up to 5 channels for channel maps, up to 4 components, all link sets of up to 3 links of the listed component lists'}


def permutation_of(e):
    """channel k goes to p[k]; p is read off the scattering matrix"""
    N = slh.den(e, {})
    one = lambda a: isinstance(a, ring.Poly) and a == ring.ONE
    p = [[j for j in range(N.n) if one(N.S[j][k])] for k in range(N.n)]
    return [x[0] for x in p] if all(len(x) == 1 for x in p) else None


def refused(f, exc=ValueError):
    try:
        f()
    except exc:
        return True
    return False


def mapping(n, m, ordered=False):
    def f(cx):
        ks = [cx.int('k%d' % i, 0, n - 1) for i in range(m)]
        vs = [cx.int('v%d' % i, 0, n - 1) for i in range(m)]
        for i in range(m):
            for j in range(i):
                cx.assume(ks[j] < ks[i] if ordered else Not(ks[i] == ks[j]))
                cx.assume(Not(vs[i] == vs[j]))
        mp = {k: v for k, v in zip(ks, vs)}
        e = ca().map_channels(mp, n)
        yield Holds('number of channels', e.cdim == n)
        p = permutation_of(e)
        yield Holds('is a permutation', p is not None and sorted(p) == list(range(n)))
        for i in range(m):
            yield Holds('in %d' % i, Or(*[And(ks[i] == k, vs[i] == p[k]) for k in range(n)]))
        for a in range(n):
            for b in range(a):
                free = And(*[Not(Or(k == a, k == b)) for k in ks]) if ks else True
                yield Holds('other channels keep their order', Implies(free, p[b] < p[a]) if ks else p[b] < p[a])
    return f


def bad_mapping(n):
    def f(cx):
        k, v = cx.int('k', 0, n + 1), cx.int('v', 0, n + 1)
        bad = Or(k >= n, v >= n)
        yield Holds('refused exactly if out of range', bad if refused(lambda: ca().map_channels({k: v}, n)) else Not(bad))
        w = cx.int('w', 0, n - 1)
        if n > 1:
            yield Holds('two inputs to one output are refused', refused(lambda: ca().map_channels({0: w, 1: w}, n)))
    return f


def extract(n):
    def f(cx):
        k = cx.int('k', 0, n - 1)
        e = ca().extract_channel(k, n)
        p = permutation_of(e)
        yield Holds('channels', e.cdim == n and p is not None)
        for a in range(n):
            yield Holds('extracted', Implies(k == a, p[a] == n - 1))
            for b in range(a):
                yield Holds('rest in order', Implies(And(Not(k == a), Not(k == b)), p[b] < p[a]))
    return f


CIRC = {'A': 1, 'B': 2, 'G': 3, 'A+A2': 2, 'A+B': 3, 'B+A': 3, 'p': 2, 'p120': 3, 'B<<p': 2, 'A+A2+A3': 3, 'B+B2': 4, 'A+B+A2': 4, 'p<<(A+B)': 3, 'i2': 2, 'i+A': 2}


def circ(t, name):
    A, A2, A3, B, B2, G = t.sym('A', 1), t.sym('A2', 1), t.sym('A3', 1), t.sym('B', 2), t.sym('B2', 2), t.sym('G', 3)
    return {'A': lambda: A, 'B': lambda: B, 'G': lambda: G, 'A+A2': lambda: A + A2, 'A+B': lambda: A + B, 'B+A': lambda: B + A, 'p': lambda: t.perm(1, 0), 'p120': lambda: t.perm(1, 2, 0),
            'B<<p': lambda: B << t.perm(1, 0), 'A+A2+A3': lambda: t.cat(A, A2, A3), 'B+B2': lambda: B + B2, 'A+B+A2': lambda: t.cat(A, B, A2), 'p<<(A+B)': lambda: t.perm(1, 2, 0) << (A + B),
            'i2': lambda: t.id(2), 'i+A': lambda: t.id(1) + A}[name]()


def pad(name, n):
    """n channels that pass through are inserted at k; the others keep their behaviour and order"""
    def f(cx):
        t = Tab()
        u = circ(t, name)
        m = u.r.n
        k = int(cx.int('k', 0, m))
        e = ca().pad_with_identity(u.e, k, n)
        yield Holds('channels', e.cdim == m + n)
        pos = lambda j: j if j < k else j + n
        S = [[ring.ZERO] * (m + n) for _ in range(m + n)]
        L = [ring.ZERO] * (m + n)
        for i in range(m):
            for j in range(m):
                S[pos(i)][pos(j)] = u.r.S[i][j]
            L[pos(i)] = u.r.L[i]
        for j in range(k, k + n):
            S[j][j] = ring.ONE
        yield from C(e, Net(S, L, u.r.H), t).eq('padded at %d' % k)
    return f


# --------------------------------------------------------------------------------------- connect
class Ill(Exception):
    pass


def linked(nets, links):
    """reference: close each (output, input) pair of global port numbers; the rest keep their order"""
    N = slh.concat(*nets)
    outs, ins = list(range(N.n)), list(range(N.n))
    for o, i in links:
        if N.n < 2 or closed(N, outs.index(o), ins.index(i)):
            raise Ill()
        try:
            N = slh.feedback(N, outs.index(o), ins.index(i))
        except slh.IllPosed:
            raise Ill()
        outs.remove(o)
        ins.remove(i)
    return N


def beamsplitter(t, label, a):
    from qnet.algebra.library.circuit_components import Beamsplitter
    v = lambda q: sem.val(sympy.sympify(q), t.env)
    return C(Beamsplitter(label=label, mixing_angle=a), Net([[v(sympy.cos(a)), v(-sympy.sin(a))], [v(sympy.sin(a)), v(sympy.cos(a))]], [ring.ZERO] * 2, ring.ZERO), t)


def drive(t, label, a):
    from qnet.algebra.library.circuit_components import CoherentDriveCC
    return C(CoherentDriveCC(label=label, displacement=a), Net([[ring.ONE]], [sem.val(a, t.env)], ring.ZERO), t)


def phase(t, label, a):
    from qnet.algebra.library.circuit_components import PhaseCC
    return C(PhaseCC(label=label, phase=a), Net([[sem.val(sympy.exp(sympy.I * a), t.env)]], [ring.ZERO], ring.ZERO), t)


def comps(t, name):
    th, ph = sympy.symbols('theta phi', real=True)
    al, be = sympy.symbols('alpha beta')
    one = {'A': lambda: t.sym('A', 1), 'A2': lambda: t.sym('A2', 1), 'A3': lambda: t.sym('A3', 1), 'B': lambda: t.sym('B', 2), 'B2': lambda: t.sym('B2', 2), 'G': lambda: t.sym('G', 3), 'D': lambda: t.sym('D', 3),
           'BS1': lambda: beamsplitter(t, 'BS1', th), 'BS2': lambda: beamsplitter(t, 'BS2', 2 * ph), 'W': lambda: drive(t, 'W1', al), 'W2': lambda: drive(t, 'W2', be), 'P': lambda: phase(t, 'P1', ph),
           'BB': lambda: beamsplitter(t, 'BS', th), 'S1': lambda: t.slh(1, 'a'), 'S2': lambda: t.slh(2, 'b'), 'S2f': lambda: t.slh(2, 'f'), 'p': lambda: t.perm(1, 0), 'i': lambda: t.id(1), 'cat': lambda: t.sym('A', 1) + t.sym('B', 2),
           'ser': lambda: t.sym('B', 2) << t.perm(1, 0)}
    return [one[x]() for x in name.split()]


LISTS = ['A A2', 'A B', 'B A', 'B B2', 'A A2 A3', 'A B A2', 'B A A2', 'BS1 W', 'BS1 BS2', 'W BS1 P', 'BS1 B', 'p B', 'i B', 'cat A2', 'ser A', 'D A', 'BB BB', 'B B', 'A A A', 'D', 'B']
LISTS3 = ['BS1 BS2 P', 'BS1 P BS2', 'BS1 A BS2', 'BS1 A B']
SLHL = ['S1 S1', 'S2 S1', 'S2 W', 'BS1 S2', 'S1 BS1 W', 'S2 S2f', 'S1 BS1 BS2']
PAIRED = ['BS1 BS2', 'W BS1 P', 'BS1 P BS2']


def link_sets(n, m):
    return [tuple(zip(o, i)) for o in itertools.permutations(range(n), m) for i in itertools.combinations(range(n), m)]


def conn(name, links, **kw):
    """links over global port numbers; references alternate between index and object, number and name"""
    def f(cx):
        t = Tab()
        cs = comps(t, name)
        es = [c.e for c in cs]
        off, where = 0, []
        for j, c in enumerate(cs):
            where += [(j, q) for q in range(c.r.n)]
        by_obj = cx.bool('by component')
        by_name = any(hasattr(x, 'PORTSIN') for x in es) and (cx.bool('by name') if len(links) == 1 else not by_obj)

        def ref(g, side):
            j, q = where[g]
            port = q
            if by_name and hasattr(es[j], side):
                port = getattr(type(es[j]), side)[q]
            return (es[j] if by_obj and es.count(es[j]) == 1 else j), port
        lk = [(ref(o, 'PORTSOUT'), ref(i, 'PORTSIN')) for o, i in links]
        try:
            r = linked([c.r for c in cs], links)
        except Ill:
            return
        from qnet.algebra.toolbox.circuit_manipulation import connect
        try:
            e = connect(list(es), lk, **kw)
        except ValueError as x:
            if 'needs to be > 1' in str(x):
                return          # a part without external ports
            raise
        if kw.get('force_SLH'):
            yield Holds('is an SLH', isinstance(e, ca().SLH))
        yield from C(e, r, t).eq('connected %s' % (lk,))
    return f


def some(name, sets, **kw):
    def f(cx):
        for s in sets:
            if kw.get('force_SLH'):
                kw2 = dict(kw, expand_simplify=(sum(map(sum, s)) % 2 == 0))
            else:
                kw2 = kw
            yield from conn(name, s, **kw2)(cx)
    return f


def invalid(cx):
    from qnet.algebra.toolbox.circuit_manipulation import connect
    from qnet.algebra.library.circuit_components import Beamsplitter
    m = ca()
    A, B, Z = m.CircuitSymbol('A', cdim=2), m.CircuitSymbol('B', cdim=1), m.CircuitSymbol('Z', cdim=1)
    bs = Beamsplitter()
    k, p = cx.int('component', -1, 3), cx.int('port', -1, 3)
    ports = lambda c: [2, 1, 2][c]
    k_, p_ = int(k), int(p)
    good = 0 <= k_ < 3 and 0 <= p_ < ports(k_)
    for lk in ([((k_, p_), ((k_ + 1) % 3, 0))], [(((k_ + 1) % 3, 0), (k_, p_))]):
        yield Holds('invalid references are refused, valid ones are not', refused(lambda: connect([A, B, bs], lk)) != good, '%s' % lk)
    for lk in ([((Z, 0), (A, 0))], [((A, 0), (Z, 0))], [((A, 'tr'), (B, 0))], [((B, 0), (A, 'in'))], [((bs, 'in'), (A, 0))], [((A, 0), (bs, 'tr'))]):
        yield Holds('unknown component or port name is refused', refused(lambda: connect([A, B, bs], lk)), '%s' % lk)
    yield Holds('ambiguous component is refused', refused(lambda: connect([A, A], [((A, 0), (1, 0))])) and refused(lambda: connect([A, A], [((0, 0), (A, 0))])))
    yield Holds('no links: side by side', connect([A, B], []) == A + B)


def cases(tier):
    q = tier == 'quick'
    out = []
    for n in range(1, 5 if q else 6):
        for m in range(0, n + 1):
            out.append(Case('map/%d/%d' % (n, m), mapping(n, m, n > 3), weight=5 * m + n, max_paths=200000))
        out.append(Case('badmap/%d' % n, bad_mapping(n)))
    for n in range(1, 7):
        out.append(Case('extract/%d' % n, extract(n)))
    for name in CIRC:
        for n in (1, 2) if q else (1, 2, 3):
            out.append(Case('pad/%s/%d' % (name, n), pad(name, n), weight=4))
    size = lambda l: sum({'A': 1, 'A2': 1, 'A3': 1, 'D': 3, 'W': 1, 'P': 1, 'S1': 1, 'i': 1, 'cat': 3}.get(x, 2) for x in l.split())
    for l in LISTS + LISTS3:
        n = size(l)
        for m in (1, 2):
            if m >= n:
                continue
            ss = link_sets(n, m)
            if q and m == 2:
                ss = ss[::1 if n <= 3 else 2 if n == 4 and 'B' not in l.split() else 7]
            for c in range(0, len(ss), 6):
                out.append(Case('connect/%s/%s' % (l.replace(' ', '+'), ss[c][:1] if m == 1 else '%d-%d' % (m, c)), some(l, ss[c:c + 6]), weight=6))
    for l in LISTS3 + ([] if q else ['B B2', 'A B A2', 'A A2 A3 A']):
        ss = link_sets(size(l), 3)[::37 if q else 3]
        for c in range(0, len(ss), 6):
            out.append(Case('connect3/%s/%d' % (l.replace(' ', '+'), c), some(l, ss[c:c + 6]), weight=8))
    for l in SLHL:
        n = size(l)
        for m in (1, 2):
            if m < n:
                ss = link_sets(n, m)
                ss = ss[::1 if m == 1 else 3 if n == 3 else 11] if q else ss[::1 if n < 5 else 3]
                for c in range(0, len(ss), 4):
                    out.append(Case('slh/%s/%d-%d' % (l.replace(' ', '+'), m, c), some(l, ss[c:c + 4], force_SLH=True), weight=8))
    for l in PAIRED:
        ss = link_sets(size(l), 2)[::5 if q else 1]
        out.append(Case('slhsimple/%s' % l.replace(' ', '+'), some(l, ss, force_SLH=True), weight=10))
    out.append(Case('invalid', invalid, weight=4))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
