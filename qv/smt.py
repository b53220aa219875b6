"""The deciding step: z3 verdicts over the symbolic values, models and statistics."""
import cmath
import random
import time
from fractions import Fraction

import z3

from . import ring
from .ring import GENS, Poly

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, z3_seconds=0.0, asserted_terms=0)
TIMEOUT_MS = 120000


def zfrac(c):
    if isinstance(c, Fraction):
        return z3.RealVal('%d/%d' % (c.numerator, c.denominator))
    return z3.RealVal(int(c))


class Enc:
    """Encoding of ring elements as z3 real terms.

    complexified=True: every generator is one real unknown (a polynomial identity in z and z* holds for all complex z
    iff it holds for z, z* independent).  complexified=False: genuine complex numbers z = a + ib, used for witnesses.
    """

    def __init__(self, complexified=True):
        self.cx = complexified
        self.vars = {}
        self.cons = []
        self.mono = {}
        self.poly = {}
        self.done = set()

    def gvar(self, gid, e):
        """(re, im) of generator^sign(e)"""
        neg = e < 0
        G = GENS[gid]
        k = (gid, neg)
        if k in self.vars:
            return self.vars[k]
        if self.cx:
            v = z3.Real('g%d%s' % (gid, 'i' if neg else ''))
            self.vars[k] = (v, None)
            if neg:
                b, _ = self.gvar(gid, 1)
                self.cons.append(b * v == 1)
            elif G.rel == 'pos':
                self.cons.append(v > 0)
            elif G.rel == 'nonneg':
                self.cons.append(v >= 0)
        else:
            if neg:
                br, bi = self.gvar(gid, 1)
                r = z3.Real('g%dir' % gid)
                if bi is None:
                    self.vars[k] = (r, None)
                    self.cons.append(br * r == 1)
                else:
                    i = z3.Real('g%dii' % gid)
                    self.vars[k] = (r, i)
                    self.cons += [br * r - bi * i == 1, br * i + bi * r == 0]
                return self.vars[k]
            r = z3.Real('g%dr' % gid)
            if G.real:
                self.vars[k] = (r, None)
                if G.rel == 'pos':
                    self.cons.append(r > 0)
                elif G.rel == 'nonneg':
                    self.cons.append(r >= 0)
            elif G.unit:
                i = z3.Real('g%di' % gid)
                self.vars[k] = (r, i)
                self.cons.append(r * r + i * i == 1)
            else:
                c = G.conj
                if isinstance(c, ring.Gen) and c.id < gid:
                    cr, ci = self.gvar(c.id, 1)
                    self.vars[k] = (cr, -ci)
                    return self.vars[k]
                i = z3.Real('g%di' % gid)
                self.vars[k] = (r, i)
        if gid not in self.done:
            self.done.add(gid)
            if G.sq is not None:
                self.eqn(ring.Poly({((gid, 1),): 1}), G.sq, square=True)
            if isinstance(G.rel, tuple) and G.rel[0] == 'inv':
                self.eqn_inv(gid, G.rel[1])
        return self.vars[k]

    def eqn(self, p, q, square=False):
        a, b = self.term(p)
        if square:
            a, b = cmul((a, b), (a, b))
        c, d = self.term(q)
        self.cons.append(a == c)
        if b is not None or d is not None:
            self.cons.append((z0 if b is None else b) == (z0 if d is None else d))

    def eqn_inv(self, gid, p):
        x = cmul(self.gvar(gid, 1), self.term(p))
        self.cons.append(x[0] == 1)
        if x[1] is not None:
            self.cons.append(x[1] == 0)

    def mono_term(self, m):
        if m in self.mono:
            return self.mono[m]
        r = None
        for g, e in m:
            v = self.gvar(g, e)
            for _ in range(abs(e)):
                r = v if r is None else cmul(r, v)
        self.mono[m] = r
        return r

    def term(self, p):
        """-> (re, im)  (im None when identically zero)"""
        k = p.key()
        if k in self.poly:
            return self.poly[k]
        re, im = p.split()
        res, ims = [], []
        for part, isim in ((re, False), (im, True)):
            for m, c in sorted(part.items()):
                if not m:
                    (ims if isim else res).append(zfrac(c))
                    continue
                a, b = self.mono_term(m)
                z = zfrac(c)
                one = (c == 1)
                ca = a if one else z * a
                cb = None if b is None else (b if one else z * b)
                if not isim:
                    res.append(ca)
                    if cb is not None:
                        ims.append(cb)
                else:
                    ims.append(ca)
                    if cb is not None:
                        res.append(-cb)
        out = (zsum(res), zsum(ims) if ims else None)
        self.poly[k] = out
        STATS['asserted_terms'] += len(p.t)
        return out


z0 = z3.RealVal(0)


def zsum(l):
    if not l:
        return z0
    if len(l) == 1:
        return l[0]
    return z3.Sum(l)


def cmul(a, b):
    ar, ai = a
    br, bi = b
    if ai is None and bi is None:
        return (ar * br, None)
    if ai is None:
        return (ar * br, ar * bi)
    if bi is None:
        return (ar * br, ai * br)
    return (ar * br - ai * bi, ar * bi + ai * br)


def _differ(enc, pairs):
    dis = []
    for l, r in pairs:
        a, b = enc.term(l)
        c, d = enc.term(r)
        dis.append(a != c)
        if b is not None or d is not None:
            dis.append((z0 if b is None else b) != (z0 if d is None else d))
    return z3.Or(dis) if dis else z3.BoolVal(False)


class CxEnc:
    """The complexified encoding (one real unknown per generator), built through z3's C interface and shared by the
    obligations of one case."""

    def __init__(self):
        from z3 import z3core as c
        self.c = c
        self.ctx = z3.main_ctx()
        self.x = self.ctx.ref()
        self.real = z3.RealSort().ast
        self.keep = []
        self.var = {}
        self.cons = {}
        self.deps = {}
        self.mono = {}
        self.num = {}
        self.poly = {}

    def _k(self, a):
        self.c.Z3_inc_ref(self.x, a)
        self.keep.append(a)
        return a

    def __del__(self):
        for a in self.keep:
            self.c.Z3_dec_ref(self.x, a)

    def mk(self, f, l):
        if len(l) == 1:
            return l[0]
        return self._k(f(self.x, len(l), (z3.z3core.Ast * len(l))(*l)))

    def add(self, l):
        return self.mk(self.c.Z3_mk_add, l) if l else self.const(0)

    def mul(self, l):
        return self.mk(self.c.Z3_mk_mul, l)

    def eq(self, a, b):
        return self._k(self.c.Z3_mk_eq(self.x, a, b))

    def const(self, v):
        if v not in self.num:
            t = '%d/%d' % (v.numerator, v.denominator) if isinstance(v, Fraction) else str(int(v))
            self.num[v] = self._k(self.c.Z3_mk_numeral(self.x, t, self.real))
        return self.num[v]

    def gvar(self, gid, neg):
        k = (gid, neg)
        if k in self.var:
            return self.var[k]
        G = GENS[gid]
        v = z3.Real('g%d%s' % (gid, 'i' if neg else ''))
        v = self.var[k] = self._k(v.as_ast())
        cons, deps = self.cons.setdefault(k, []), self.deps.setdefault(k, set())
        if neg:
            cons.append(self.eq(self.mul([self.gvar(gid, False), v]), self.const(1)))
            deps.add((gid, False))
            return v
        if G.rel == 'pos':
            cons.append(self._k(self.c.Z3_mk_gt(self.x, v, self.const(0))))
        elif G.rel == 'nonneg':
            cons.append(self._k(self.c.Z3_mk_ge(self.x, v, self.const(0))))
        if G.sq is not None:
            self.rel(cons, deps, self.mul([v, v]), G.sq)
        if isinstance(G.rel, tuple) and G.rel[0] == 'inv':
            p = G.rel[1]
            re, im = self.term(p)
            deps |= self.gens(p)
            cons.append(self.eq(self.mul([v, re]), self.const(1)))
            if im is not None:
                cons.append(self.eq(self.mul([v, im]), self.const(0)))
        return v

    def rel(self, cons, deps, a, p):
        re, im = self.term(p)
        deps |= self.gens(p)
        cons.append(self.eq(a, re))
        if im is not None:
            cons.append(self.eq(im, self.const(0)))

    @staticmethod
    def gens(p):
        return {(g, e < 0) for m in p.t for g, e in m}

    def term(self, p):
        k = p.key()
        if k in self.poly:
            return self.poly[k]
        out = []
        for part in p.split():
            l = []
            for m, c in sorted(part.items()):
                if not m:
                    l.append(self.const(c))
                    continue
                f = self.mono.get(m)
                if f is None:
                    f = self.mono[m] = [self.gvar(g, e < 0) for g, e in m for _ in range(abs(e))]
                l.append(self.mul(([] if c == 1 else [self.const(c)]) + f))
            out.append(l)
        r = self.poly[k] = (self.add(out[0]), self.add(out[1]) if out[1] else None)
        STATS['asserted_terms'] += len(p.t)
        return r

    def query(self, pairs):
        """-> (constraints, goal) as z3 expressions"""
        dis, need = [], set()
        for l, r in pairs:
            a, b = self.term(l)
            c, d = self.term(r)
            need |= self.gens(l) | self.gens(r)
            dis.append(self.eq(a, c))
            if b is not None or d is not None:
                dis.append(self.eq(self.const(0) if b is None else b, self.const(0) if d is None else d))
        todo, done = list(need), set()
        while todo:
            k = todo.pop()
            if k in done:
                continue
            done.add(k)
            self.gvar(*k)
            todo.extend(self.deps.get(k, ()))
        cons = [z3.BoolRef(a, self.ctx) for k in sorted(done) for a in self.cons.get(k, ())]
        if not dis:
            return cons, z3.BoolVal(False)
        return cons, z3.Not(z3.BoolRef(self.mk(self.c.Z3_mk_and, dis), self.ctx))


SHARED = [None]


def reset():
    SHARED[0] = None


def _check(solver):
    t = time.time()
    r = solver.check()
    STATS['z3_seconds'] += time.time() - t
    STATS['queries'] += 1
    STATS[str(r)] += 1
    return r


MAXCLEAR = 30000


def clear(l, r):
    """multiply both sides by the (non-zero) denominators of all reciprocal generators"""
    while True:
        gs = [g for p in (l, r) for g in p.gens() if isinstance(GENS[g].rel, tuple) and GENS[g].rel[0] == 'inv']
        if not gs:
            return l, r
        g = max(gs)
        q = GENS[g].rel[1]
        k = max(dict(m).get(g, 0) for p in (l, r) for m in p.t)
        pw = {}
        res = []
        for p in (l, r):
            parts = {}
            for m, c in p.t.items():
                e = dict(m).get(g, 0)
                parts.setdefault(k - e, {})[tuple(x for x in m if x[0] != g)] = c
            t = ring.ZERO
            for e, part in parts.items():
                if e not in pw:
                    pw[e] = q ** e
                t = t + ring.Poly(part) * pw[e]
            if len(t.t) > MAXCLEAR:
                return None
            res.append(t)
        l, r = res


def decide_equal(pairs, timeout_ms=None, seed=1):
    """pairs: [(label, lhs, rhs)].  -> ('holds', None) | ('differs', (label, assignment)) | ('unknown', reason)"""
    if SHARED[0] is None:
        SHARED[0] = CxEnc()
    cons, goal = SHARED[0].query([clear(l, r) or (l, r) for _, l, r in pairs])
    s = z3.Solver()
    s.set('timeout', timeout_ms or TIMEOUT_MS)
    s.add(*cons)
    s.add(goal)
    r = _check(s)
    if r == z3.unsat:
        return 'holds', None
    if r != z3.sat:
        return 'unknown', 'z3: %s' % s.reason_unknown()
    # witness: genuinely complex assignment, per entry (smallest first)
    cand = sorted((p for p in pairs if p[1].key() != p[2].key()), key=lambda p: len(p[1].t) + len(p[2].t))
    rnd = random.Random(seed)
    for label, l, r_ in cand[:4]:
        enc = Enc(False)
        goal = _differ(enc, [(l, r_)])
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*enc.cons)
        s.add(goal)
        models = []
        if _check(s) == z3.sat:
            models.append(model_values(enc, s.model()))
        models.append({})
        for base in models:
            for k in range(12):
                asg = Assignment(base if k == 0 or base else {}, rnd if k else random.Random(seed),
                                 jitter=0.0 if k == 0 else 0.37)
                try:
                    a, b = l.evalf(asg), r_.evalf(asg)
                except (ZeroDivisionError, OverflowError):
                    continue
                if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
                    return 'differs', (label, asg.dump(), a, b)
    return 'unknown', 'sat without a confirmed witness: %s' % (cand[0][0] if cand else '?')


def model_values(enc, m):
    out = {}
    for (gid, neg), (r, i) in enc.vars.items():
        if neg:
            continue
        out[GENS[gid].name] = complex(zval(m, r), 0.0 if i is None else zval(m, i))
    return out


def zval(m, t):
    v = m.eval(t, model_completion=True)
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(v.as_fraction())
    except Exception:
        return 0.0


class Assignment:
    """Numeric values of generators: independent ones from the model (or seeded random), derived ones computed."""

    def __init__(self, base, rnd, jitter=0.0):
        self.base = dict(base)
        self.rnd = rnd
        self.jit = jitter
        self.val = {}

    def __call__(self, gid):
        if gid in self.val:
            return self.val[gid]
        G = GENS[gid]
        if G.kind == 'I':
            v = 1j
        elif G.numeric is not None:
            v = G.numeric
        elif isinstance(G.rel, tuple) and G.rel[0] == 'inv':
            v = 1 / G.rel[1].evalf(self)
        elif G.info is not None and isinstance(G.info, tuple) and G.info[0] == 'exp':
            v = cmath.exp(G.info[1].evalf(self))
        elif G.sq is not None:
            v = cmath.sqrt(G.sq.evalf(self))
        elif isinstance(G.conj, ring.Gen) and G.conj.id < gid:
            v = complex(self(G.conj.id)).conjugate()
        else:
            v = self.base.get(G.name)
            if v is None or self.jit:
                d = complex(self.rnd.uniform(0.3, 1.7), 0 if G.real else self.rnd.uniform(-1, 1))
                if self.rnd.random() < 0.4:
                    d = -d
                v = d if v is None else v + self.jit * 3 * d
            if G.unit:
                v = v / abs(v) if v else 1.0
            if G.real:
                v = complex(v).real
            if G.rel == 'pos' and v <= 0:
                v = abs(v) + 0.5
        self.val[gid] = v
        return v

    def dump(self):
        return {GENS[g].name: (complex(v).real, complex(v).imag) for g, v in self.val.items()}
