"""C28: index ranges and symbolic labels enumerate and evaluate exactly (real code over symbolic integers)."""
import sys

import sympy

from qv import harness, dse
from qv.harness import Case, Eq, Holds
from qv.dse import And, Or, Not, Implies

PROPERTY = 'C28'
MODULE = 'checks.c28'
LEVEL = 'model_checking'
BUDGET = {'quick': 300, 'thorough': 3000}
EXPLANATION = ('the index ranges, symbolic labels and ladder steps of the real code run on symbolic integers (dynamic symbolic '
               'execution; builtin range replaced by its defining arithmetic); z3 decides every assertion on every feasible path')
BOUNDS = {'quick': 'membership and length: unbounded start, stop and value (step -3..3); ladder steps: indices and steps n within 5 beyond the basis; '
                   'iteration: up to 5 elements from unbounded starts; spaces of dimension 1 to 4 and without basis, spins 1/2 '
                   'to 2, named and default bases; symbolic labels: i + c with i, c in -4..6, and 2*i',
          'thorough': 'iteration up to 8 elements, ladder steps within 9 beyond the basis, spaces to dimension 6, spins to 3, labels with i, c in -7..9'}
ASSUMPTIONS = ['builtin range follows its defining arithmetic']


class SRange:
    """builtin range over symbolic bounds (concrete step)"""

    def __init__(self, *a):
        self.lo, self.hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        self.step = int(step)
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')

    def __len__(self):
        return self.length()

    def length(self):
        if self.step > 0:
            return (self.hi - self.lo + self.step - 1) // self.step if self.hi > self.lo else 0
        return (self.lo - self.hi - self.step - 1) // (-self.step) if self.lo > self.hi else 0

    def __iter__(self):
        v = self.lo
        while (v < self.hi if self.step > 0 else v > self.hi):
            yield v
            v = v + self.step

    def __contains__(self, v):
        if self.step > 0:
            return And(v >= self.lo, v < self.hi, (v - self.lo) % self.step == 0)
        return And(v <= self.lo, v > self.hi, (self.lo - v) % (-self.step) == 0)

    def __eq__(self, o):
        return self is o


def ix():
    from qnet.utils import indices as m
    m.range = SRange
    m.len = lambda x: x.length() if isinstance(x, SRange) else len(x)
    return m


def i_sym(name='i', primed=0):
    return ix().IdxSym(name, primed=primed)


def space(kind, d=None):
    from qnet.algebra.core.hilbert_space_algebra import LocalSpace
    from qnet.algebra.library.spin_algebra import SpinSpace
    if kind == 'fock':
        return LocalSpace('f')
    if kind == 'dim':
        return LocalSpace('d', dimension=d)
    if kind == 'names':
        return LocalSpace('q', basis=['abcdefgh'[(3 * k) % 8] for k in range(d)])
    if kind == 'digits':             # labels that look like other indices
        return LocalSpace('r', basis=[str(d - 1 - k) for k in range(d)])
    if kind == 'spin':
        return SpinSpace('s', spin=sympy.Rational(d - 1, 2))
    if kind == 'spinnames':
        return SpinSpace('s', spin=sympy.Rational(d - 1, 2), basis=['abcdefgh'[k] for k in range(d)])


def raised(f, *exc):
    try:
        return False, f()
    except exc:
        return True, None


# -- ranges

def rng(cx, bounded=None, steps=(1, -1, 2, -2, 3, -3)):
    m = ix()
    step = cx.choice('step', list(steps))
    lo = cx.int('start')
    if bounded is None:
        hi = cx.int('to')
    else:
        hi = lo + cx.int('span', -abs(step) - 1, bounded) * (1 if step > 0 else -1)
    return m.IndexOverRange(i_sym(), lo, hi, step), lo, hi, step


def r_contains(cx):
    r, lo, hi, st = rng(cx)
    v = cx.int('v')
    ref = And(v >= lo, v <= hi, (v - lo) % st == 0) if st > 0 else And(v <= lo, v >= hi, (lo - v) % (-st) == 0)
    yield Holds('v in range iff start <= v <= to in steps', eqb(r.__contains__(v), ref), 'membership')


def r_len(cx):
    r, lo, hi, st = rng(cx)
    n = r.__len__()
    # exactly the k >= 0 with start + k*step not beyond to
    last, after = lo + (n - 1) * st, lo + n * st
    beyond = lambda v: v > hi if st > 0 else v < hi      # noqa
    yield Holds('length counts the elements', And(n >= 0, beyond(after), Or(n == 0, Not(beyond(last)))))


def eqb(a, b):
    return Or(And(a, b), And(Not(a), Not(b)))


def r_iter(N):
    def f(cx):
        r, lo, hi, st = rng(cx, bounded=N * 3)
        sym = r.index_symbol
        got = []
        for d in r.iter():
            yield Holds('element is a map of the symbol', list(d) == [sym])
            got.append(d[sym])
            if len(got) > N * 3 + 2:
                break
        n = len(got)
        yield Holds('values', And(*[g == lo + k * st for k, g in enumerate(got)]) if got else True)
        yield Holds('complete', (lo + n * st > hi) if st > 0 else (lo + n * st < hi))
        yield Holds('nothing beyond', And(*[(g <= hi if st > 0 else g >= hi) for g in got]) if got else True)
        yield Holds('length', r.__len__() == n)
        for g in got:
            yield Holds('members', r.__contains__(g))
    return f


def r_default_step(cx):
    m = ix()
    lo, v = cx.int('start'), cx.int('v')
    hi = cx.int('to')
    r = m.IndexOverRange(i_sym(), lo, hi)
    yield Holds('step one', eqb(r.__contains__(v), And(lo <= v, v <= hi)))
    r2 = r.substitute({i_sym(): i_sym('j')})
    yield Holds('renamed', r2.index_symbol == i_sym('j'))
    yield Holds('renamed keeps bounds', And(r2.start_from == lo, r2.to == hi, r2.step == 1))


def pw(p, env, v):
    """piecewise 0/1 value at v -> z3-able claim that it equals 1"""
    if not isinstance(p, sympy.Piecewise):
        return bool(p == 1)
    res, rest = None, True
    out = False
    for e, c in p.args:
        cond = rel(c, env, v)
        out = Or(out, And(rest, cond, bool(e == 1)))
        rest = And(rest, Not(cond))
    return out


def rel(c, sym, v):
    if c in (sympy.true, True):
        return True
    if c in (sympy.false, False):
        return False
    if isinstance(c, sympy.And):
        return And(*[rel(a, sym, v) for a in c.args])
    if isinstance(c, sympy.Or):
        return Or(*[rel(a, sym, v) for a in c.args])
    if isinstance(c, sympy.Not):
        return Not(rel(c.args[0], sym, v))
    if isinstance(c, sympy.Contains):
        return Or(*[v == int(a) for a in c.args[1]])
    a, b = [v if t == sym else (10 ** 9 if t is sympy.oo else -10 ** 9 if t is -sympy.oo else int(t)) for t in c.args]
    return {'Equality': lambda: a == b, 'Unequality': lambda: Not(a == b), 'StrictLessThan': lambda: a < b, 'LessThan': lambda: a <= b,
            'StrictGreaterThan': lambda: a > b, 'GreaterThan': lambda: a >= b}[type(c).__name__]()


def r_piecewise(cx):
    m = ix()
    st = cx.choice('step', [1, 2, -1, -2])
    lo = int(cx.int('start', -2, 3))
    hi = int(cx.int('to', -2, 4))
    v = cx.int('v', -10 ** 6, 10 ** 6)
    r = m.IndexOverRange(i_sym(), lo, hi, st)
    j = i_sym('j')
    yield Holds('indicator of the range', eqb(pw(r.piecewise_one(j), j, v), r.__contains__(v)))


def r_list(n):
    def f(cx):
        m = ix()
        vs = [cx.int('v%d' % k) for k in range(n)]
        w = cx.int('w')
        r = m.IndexOverList(i_sym(), vs)
        got = [d[i_sym()] for d in r.iter()]
        yield Holds('iteration', And(len(got) == n, *[a == b for a, b in zip(got, vs)]))
        yield Holds('length', r.__len__() == n)
        yield Holds('membership', eqb(bool(r.__contains__(w)), Or(False, *[w == v for v in vs])))
    return f


def r_list_mixed(cx):
    """labels, symbols and integers in lists; substitution acts on every element"""
    m = ix()
    i, j, k = i_sym(), i_sym('j'), i_sym('k')
    pool = ['g', 'e', 0, 1, j, k]
    vs = [cx.choice('e%d' % t, pool) for t in range(3)]
    r = m.IndexOverList(i, vs)
    yield Holds('iteration', [d for d in r.iter()] == [{i: v} for v in vs])
    w = cx.choice('w', pool)
    yield Holds('membership', (w in r) == any(type(w) == type(v) and w == v for v in vs))
    s = r.substitute({j: k, i: i_sym('l')})
    yield Holds('substitution', s.index_symbol == i_sym('l') and list(s.values) == [k if v == j else v for v in vs])


def r_list_piecewise(cx):
    m = ix()
    vs = sorted({int(cx.int('v%d' % k, -2, 3)) for k in range(3)})
    v = cx.int('v', -10 ** 6, 10 ** 6)
    r = m.IndexOverList(i_sym(), vs)
    j = i_sym('j')
    yield Holds('indicator', eqb(pw(r.piecewise_one(j), j, v), Or(*[v == a for a in vs])))


def r_fock(kind, d):
    def f(cx):
        m = ix()
        hs = space(kind, d)
        r = m.IndexOverFockSpace(i_sym(), hs)
        v = cx.int('v', -10 ** 6, 10 ** 6)
        got = []
        for t in r.iter():
            got.append(t[i_sym()])
            if len(got) > 12:
                break
        if kind == 'fock':
            yield Holds('counts on', got == list(range(13)))
            yield Holds('membership', eqb(bool(r.__contains__(v)), v >= 0))
        else:
            yield Holds('all levels', got == list(range(d)))
            yield Holds('length', r.__len__() == d)
            yield Holds('membership', eqb(bool(r.__contains__(v)), And(0 <= v, v < d)))
        j = i_sym('j')
        yield Holds('indicator', eqb(pw(r.piecewise_one(j), j, v), bool(r.__contains__(v))))
        h2 = space('dim', 3)
        s = r.substitute({i_sym(): j, hs: h2})
        yield Holds('substitution', s.index_symbol == j and s.hs == h2)
    return f


def r_nested(a, b, c):
    """cartesian product of ranges, last one fastest"""
    def f(cx):
        m = ix()
        vs = [[cx.int('%s%d' % (s, k)) for k in range(n)] for s, n in (('a', a), ('b', b), ('c', c))]
        syms = [i_sym(s) for s in 'ijk']
        rs = [m.IndexOverList(s, v) for s, v in zip(syms, vs)]
        got = list(m.yield_from_ranges(rs))
        want = [(x, y, z) for x in vs[0] for y in vs[1] for z in vs[2]]
        yield Holds('number', len(got) == len(want))
        yield Holds('elements', And(True, *[g[s] == w[q] for g, w in zip(got, want) for q, s in enumerate(syms)]))
    return f


def r_none(cx):
    m = ix()
    yield Holds('no ranges', list(m.yield_from_ranges([])) == [{}])
    yield Holds('product of nothing', list(m.product()) == [()])
    yield Holds('repeat', list(m.product([0, 1], repeat=3)) == [(x, y, z) for x in (0, 1) for y in (0, 1) for z in (0, 1)])


# -- symbols

def primes(cx):
    m = ix()
    a, b = cx.choice('n', ['i', 'j', 'n_1']), cx.choice('m', ['i', 'j', 'n_1'])
    p, q, n = int(cx.int('p', 0, 3)), int(cx.int('q', 0, 3)), int(cx.int('k', 0, 3))
    s, t = m.IdxSym(a, primed=p), m.IdxSym(b, primed=q)
    yield Holds('identity', (s == t) == (a == b and p == q))
    yield Holds('hash', s != t or hash(s) == hash(t))
    yield Holds('incremented', s.incr_primed(n) == m.IdxSym(a, primed=p + n) and s.incr_primed(n).primed == p + n)
    yield Holds('prime', s.prime == s.incr_primed(1))
    yield Holds('assumptions kept', s.incr_primed(n).is_integer is True)
    yield Holds('integer', s.is_integer is True and s.is_finite is True)
    yield Holds('difference is nonzero unless equal', ((s - t) == 0) == (a == b and p == q))
    neg, _ = raised(lambda: m.IdxSym(a, primed=-1 - n), ValueError)
    yield Holds('negative primes refused', neg)
    for e in (s + t, 2 * s - 3 * t):
        w = {s: 5, t: 7}
        val = e.subs(w)
        yield Holds('substitution distinguishes primes', val == (5 + 7 if e == s + t else 10 - 21) or s == t)


# -- symbolic labels

def exprs(cx, lo, hi):
    i, j = i_sym(), i_sym('j')
    v, c = cx.int('v', lo, hi), cx.int('c', lo, hi)
    form = cx.choice('form', ['i+c', '2i', 'i-j', 'i'])
    if form == 'i+c':
        c = int(c)
        return i + c, v + c, {i: int(v)}
    if form == '2i':
        return 2 * i, v * 2, {i: int(v)}
    if form == 'i-j':
        w = cx.int('c', lo, hi)
        return i - j, v - w, {i: int(v), j: int(w)}
    return i, v, {i: int(v)}


def label_int(cls, lo, hi):
    def f(cx):
        m = ix()
        e, val, env = exprs(cx, lo, hi)
        lab = getattr(m, cls)(e)
        part = dict(list(env.items())[:1])
        if len(env) > 1:
            p = lab.substitute(part)
            yield Holds('partly substituted', isinstance(p, getattr(m, cls)) and p.substitute(env) == val)
        r = lab.substitute(env)
        yield Holds('value', And(type(r) is int, r == val))
        yield Holds('other symbols untouched', lab.substitute({i_sym('k'): 3}) == lab)
        if cls == 'FockIndex':
            yield Holds('fock index', lab.fock_index == e)
        yield Holds('arithmetic', lab + 1 == e + 1 and lab * 2 == e * 2 and 2 * e == lab * 2)
    return f


def label_str(lo, hi):
    def f(cx):
        m = ix()
        e, val, env = exprs(cx, lo, hi)
        r = m.StrLabel(e).substitute(env)
        yield Holds('text of the value', And(type(r) is str, r == str(int(val))))
    return f


def label_fock(kind, d, lo, hi):
    """a symbolic level of a space: substituted, it is the level at that index"""
    def f(cx):
        from qnet.algebra.core.state_algebra import BasisKet
        from qnet.algebra.core.operator_algebra import LocalSigma
        m = ix()
        hs = space(kind, d)
        e, val, env = exprs(cx, lo, hi)
        cls = cx.choice('cls', ['FockIndex', 'FockLabel'] if kind != 'fock' else ['FockIndex'])
        lab = m.FockIndex(e) if cls == 'FockIndex' else m.FockLabel(e, hs=hs)
        yield Holds('fock index', lab.fock_index == e)
        ok = And(val >= 0, val < d) if d else val >= 0
        cx.assume(ok)
        val = int(val)
        r = lab.substitute(env)
        if cls == 'FockLabel':
            yield Holds('label', r == hs.basis_labels[val])
        else:
            yield Holds('index', r == val)
        k = BasisKet(lab, hs=hs).substitute(env)
        yield Holds('ket', k == BasisKet(val, hs=hs) and k.index == val)
        if d:
            yield Holds('ket by label', k == BasisKet(hs.basis_labels[val], hs=hs))
        s = LocalSigma(lab, lab, hs=hs).substitute(env)
        yield Holds('sigma', s.index_j == val and s.index_k == val)
        s = LocalSigma(lab, 0, hs=hs).substitute(env)
        yield Holds('sigma left', s.index_j == val and s.index_k == 0)
        # ladder step commutes with evaluation
        n = cx.choice('n', [1, -1, 2, -3])
        st = hs.next_basis_label_or_index(lab, n)
        inside = 0 <= val + n and (not d or val + n < d)
        if inside:
            b = st.substitute(env)
            b = hs.basis_labels.index(b) if isinstance(b, str) else b
            yield Holds('ladder then evaluate', b == val + n)
            yield Holds('ket ladder', BasisKet(lab, hs=hs).next(n).substitute(env) == BasisKet(val, hs=hs).next(n))
    return f


def label_spin(twice, lo, hi):
    """m labels: i (+1/2) + c"""
    def f(cx):
        from qnet.algebra.core.state_algebra import BasisKet
        from qnet.algebra.core.operator_algebra import LocalSigma
        m = ix()
        hs = space('spin', twice + 1)
        s2 = cx.int('m2', -twice - 3, twice + 3)
        half = bool(cx.bool('half'))
        i = i_sym()
        mm = cx.int('v', lo, hi)
        c = int(cx.int('c', -2, 2))
        e = i + c + (sympy.Rational(1, 2) if half else 0)
        val2 = mm * 2 + 2 * c + (1 if half else 0)            # 2m
        lab = m.SpinIndex(e, hs=hs)
        yield Holds('fock index', sympy.expand(lab.fock_index - e - sympy.Rational(twice, 2)) == 0)
        inside = And(val2 >= -twice, val2 <= twice, (val2 - twice) % 2 == 0)
        cx.assume(inside)
        mm, val2 = int(mm), int(val2)
        idx = (val2 + twice) // 2
        r = lab.substitute({i: mm})
        yield Holds('label', r == hs.basis_labels[idx])
        sgn = '+' if val2 > 0 else ''
        yield Holds('text', r == (sgn + ('%d' % (val2 // 2) if val2 % 2 == 0 else '%d/2' % val2)))
        k = BasisKet(lab, hs=hs).substitute({i: mm})
        yield Holds('ket', k == BasisKet(r, hs=hs) and k.index == idx)
        sg = LocalSigma(lab, hs.basis_labels[0], hs=hs).substitute({i: mm})
        yield Holds('sigma', sg.index_j == idx and sg.index_k == 0)
        n = cx.choice('n', [1, -1, 2])
        st = hs.next_basis_label_or_index(lab, n)
        if 0 <= idx + n <= twice:
            yield Holds('ladder', st.substitute({i: mm}) == hs.basis_labels[idx + n])
        del s2
    return f


def render_spin(cx):
    """_static_render on a symbolic integer / half integer"""
    m = ix()

    class Val:
        def __init__(self, num2):
            self.n = num2

        @property
        def is_integer(self):
            return self.n % 2 == 0

        def __int__(self):
            return int(self.n // 2)

        def as_numer_denom(self):
            class Z(int):
                is_integer = True
            return Z(int(self.n)), 2
    n = cx.int('twice m', -9, 9)
    r = m.SpinIndex._static_render(Val(n))
    k = int(n)
    want = ('%+d' % (k // 2) if k else '0') if k % 2 == 0 else '%+d/2' % k
    yield Holds('text', r == want, r)


def label_space(lo, hi):
    """spaces labelled by a symbol"""
    def f(cx):
        from qnet.algebra.core.hilbert_space_algebra import LocalSpace
        m = ix()
        e, val, env = exprs(cx, lo, hi)
        hs = LocalSpace(m.StrLabel(e), dimension=3)
        r = hs.substitute(env)
        yield Holds('space', r == LocalSpace(str(int(val)), dimension=3))
        lab = m.FockLabel(i_sym('k'), hs=hs)
        full = dict(env)
        full[i_sym('k')] = 2
        yield Holds('level of an indexed space', lab.substitute(full) == '2')
        part = lab.substitute(env)
        yield Holds('space of the label is substituted', part.hs == r)
    return f


# -- ladder

def ladder(kind, d, B):
    """any index and step: moves exactly by n or reports leaving the basis"""
    def f(cx):
        hs = space(kind, d)
        idx, n = cx.int('index', -B, (d or 4) + B), cx.int('n', -B, B)
        new = idx + n
        if kind == 'fock':
            ok = new >= 0
        else:
            ok = And(new >= 0, new < d)
        bad, r = raised(lambda: hs.next_basis_label_or_index(idx, n), IndexError)
        yield Holds('refuses exactly outside', eqb(bad, Not(ok)))
        if not bad:
            if isinstance(r, str):
                yield Holds('label at the new index', r == hs.basis_labels[int(new)])
            else:
                yield Holds('new index', r == new)
        bad, r = raised(lambda: hs.next_basis_label_or_index(idx), IndexError)
        up = idx + 1
        yield Holds('default step', eqb(bad, Not(up >= 0 if kind == 'fock' else And(up >= 0, up < d))))
        if kind != 'fock':
            k = int(cx.int('k', 0, d - 1))
            bad, r = raised(lambda: hs.next_basis_label_or_index(hs.basis_labels[k], n), IndexError)
            ok = And(n + k >= 0, n + k < d)
            yield Holds('label: refuses exactly outside', eqb(bad, Not(ok)))
            if not bad:
                yield Holds('label at the new index', r == hs.basis_labels[int(n + k)])
    return f


def ladder_ket(kind, d, hi):
    def f(cx):
        from qnet.algebra.core.state_algebra import BasisKet, ZeroKet
        hs = space(kind, d)
        k = int(cx.int('k', 0, (d or 4) - 1))
        n = int(cx.int('n', -hi, hi))
        by = cx.bool('by label') if kind != 'fock' else False
        spin = kind.startswith('spin')
        b = BasisKet(hs.basis_labels[k] if by or spin else k, hs=hs)
        want = k + n
        inside = want >= 0 and (kind == 'fock' or want < d)
        for nm, r in (('next', b.next(n)), ('prev', b.prev(-n))):
            if inside:
                yield Holds(nm, r != ZeroKet and r.index == want and (kind == 'fock' or r.label == hs.basis_labels[want]))
                yield Holds(nm + ' returns', r.prev(n) == b)
            else:
                yield Holds(nm + ' leaves the basis', r == ZeroKet)
        yield Holds('default', b.next() == b.next(1) and b.prev() == b.next(-1))
    return f


def unpack(kind, d, B):
    """label and index of a level are consistent, anything else is refused"""
    def f(cx):
        hs = space(kind, d)
        idx = cx.int('index', -B, (d or 4) + B)
        spin = kind.startswith('spin')
        if not spin:
            bad, r = raised(lambda: hs._unpack_basis_label_or_index(idx), ValueError)
            ok = idx >= 0 if kind == 'fock' else And(idx >= 0, idx < d)
            yield Holds('index refused exactly outside', eqb(bad, Not(ok)))
            if not bad and kind != 'fock':
                yield Holds('label', r[0] == hs.basis_labels[int(idx)])
                yield Holds('index', r[1] == idx)
        else:
            bad, r = raised(lambda: hs._unpack_basis_label_or_index(idx), TypeError)
            yield Holds('spin spaces take labels only', bad)
        if kind != 'fock':
            lab = cx.choice('label', list(hs.basis_labels) + ['nolabel', '77'])
            bad, r = raised(lambda: hs._unpack_basis_label_or_index(lab), ValueError)
            yield Holds('label refused exactly outside', bad == (lab not in hs.basis_labels))
            if not bad:
                yield Holds('index of the label', hs.basis_labels[r[1]] == lab and r[0] == lab)
    return f


def spin_ket(twice):
    def f(cx):
        from qnet.algebra.library.spin_algebra import SpinBasisKet
        hs = space('spin', twice + 1)
        n = int(cx.int('numer', -twice - 3, twice + 3))
        if twice % 2 == 0:
            bad, r = raised(lambda: SpinBasisKet(n, hs=hs), ValueError)
            ok = -twice <= 2 * n <= twice
            yield Holds('refused exactly outside', bad == (not ok))
            if not bad:
                yield Holds('index', r.index == n + twice // 2 and r.label == hs.basis_labels[r.index])
        else:
            bad, r = raised(lambda: SpinBasisKet(n, 2, hs=hs), ValueError)
            ok = -twice <= n <= twice and n % 2 != 0
            yield Holds('refused exactly outside', bad == (not ok))
            if not bad:
                yield Holds('index', 2 * r.index == n + twice and r.label == hs.basis_labels[r.index])
    return f


def infinite(cx):
    """an infinite range has no length; a sum over it reports that"""
    from qnet.algebra.core.exceptions import InfiniteSumError
    from qnet.algebra.core.state_algebra import KetIndexedSum, BasisKet
    m = ix()
    hs = space('fock')
    n = int(cx.int('n', 1, 3))
    s = KetIndexedSum(BasisKet(m.FockIndex(i_sym()), hs=hs), m.IndexOverFockSpace(i_sym(), hs))
    bad, _ = raised(lambda: len(s), InfiniteSumError)
    yield Holds('no length', bad)
    it = s.terms
    yield Holds('terms', [next(it) for _ in range(n)] == [BasisKet(k, hs=hs) for k in range(n)])


def cases(tier):
    th = tier == 'thorough'
    N = 8 if th else 5
    D = 6 if th else 4
    lo, hi = (-7, 9) if th else (-4, 6)
    out = [Case('range/membership', r_contains), Case('range/length', r_len), Case('range/iteration', r_iter(N // 2), max_paths=3000),
           Case('range/default', r_default_step), Case('range/indicator', r_piecewise), Case('list/labels', r_list_mixed),
           Case('list/indicator', r_list_piecewise), Case('nested/none', r_none), Case('infinite', infinite),
           Case('symbols', primes), Case('spin/text', render_spin), Case('labels/str', label_str(lo, hi)),
           Case('labels/space', label_space(lo, hi))]
    for n in range(0, 4):
        out.append(Case('list/%d' % n, r_list(n)))
    for a in range(0, 3):
        for b in range(0, 4):
            for c in range(0, 3):
                out.append(Case('nested/%d%d%d' % (a, b, c), r_nested(a, b, c)))
    for c in ('IntIndex', 'FockIndex'):
        out.append(Case('labels/' + c, label_int(c, lo, hi), max_paths=5000))
    out.append(Case('fockspace/infinite', r_fock('fock', None)))
    for k in ('fock', 'dim', 'names', 'digits', 'spin', 'spinnames'):
        for d in ([None] if k == 'fock' else range(2 if k.startswith('spin') else 1, D + 1)):
            if d:
                out.append(Case('fockspace/%s%d' % (k, d), r_fock(k, d)))
            t = '%s%s' % (k, d or '')
            out.append(Case('ladder/' + t, ladder(k, d, 9 if th else 5), max_paths=5000))
            out.append(Case('ladder/ket/' + t, ladder_ket(k, d, (d or 4) + 1)))
            out.append(Case('levels/' + t, unpack(k, d, 30 if th else 9)))
            if not k.startswith('spin'):
                out.append(Case('labels/level/' + t, label_fock(k, d, lo, hi), max_paths=5000))
    for tw in range(1, 7 if th else 5):
        out.append(Case('spin/label/%d' % tw, label_spin(tw, lo, hi), max_paths=5000))
        out.append(Case('spin/ket/%d' % tw, spin_ket(tw)))
    return out


if __name__ == '__main__':
    sys.exit(harness.main(sys.modules[__name__]))
