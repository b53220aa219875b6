"""Runs the cases of one property: real code under symbolic execution, z3 verdicts, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import qv
from . import smt, ring, scal, sem, dse
from .ring import Poly, ONE, ZERO, Undecidable

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Mismatch(Exception):
    """the result is not even an object of the type/space of the reference"""


class Case:
    __slots__ = ('id', 'func', 'opts', 'weight')

    def __init__(self, id, func, weight=1, **opts):
        self.id = id
        self.func = func
        self.opts = opts
        self.weight = weight


class Eq:
    """obligation: two denotations agree"""
    __slots__ = ('label', 'l', 'r', 'guard')

    def __init__(self, label, l, r, guard=None):
        self.label, self.l, self.r, self.guard = label, l, r, guard


class Holds:
    """obligation: a (symbolic) truth value"""
    __slots__ = ('label', 'b', 'detail')

    def __init__(self, label, b, detail=''):
        self.label, self.b, self.detail = label, b, detail


def obligations_pairs(o):
    l, r = o.l, o.r
    if isinstance(l, Poly) or isinstance(r, Poly) or isinstance(l, (int,)) or isinstance(r, (int,)):
        l = l.scalar() if isinstance(l, sem.T) and l.is_scalar() else l
        r = r.scalar() if isinstance(r, sem.T) and r.is_scalar() else r
        if not isinstance(l, sem.T) and not isinstance(r, sem.T):
            return [(o.label, ring.as_poly(l), ring.as_poly(r))]
        l = l if isinstance(l, sem.T) else sem.S(l)
        r = r if isinstance(r, sem.T) else sem.S(r)
    try:
        return sem.pairs(l, r, o.guard, o.label + ' ')
    except sem.IllTyped as e:
        raise Mismatch(str(e))


def reset_state(opts):
    """every case starts from the same library state"""
    from qnet.algebra.core.abstract_algebra import Expression
    todo, seen = [Expression], set()
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo.extend(c.__subclasses__())
        if isinstance(c.__dict__.get('_instances'), dict):
            c._instances.clear()
    Expression.instance_caching = True
    smt.reset()
    ring.MAXGRADE[0] = opts.get('maxgrade')
    scal.GRADES.clear()
    scal.GRADES.update(opts.get('grades', {}))
    scal.POLAR.clear()


def from_real_code(tb):
    src = os.path.join(qv.REPO, 'src', 'qnet')
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(src):
            return True
    return False


def tb_text(e):
    return ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]


LIMIT = 150      # seconds for one case; normal cases take a few seconds at most


def run_case(case, max_paths=None, deadline=None, seed=1):
    """-> dict(status=holds|differs|raises|undecided|unknown, ...)"""
    q0 = dict(smt.STATS)
    t0 = time.time()
    ex = dse.Explorer(max_paths=case.opts.get('max_paths', max_paths or 5000), deadline=deadline)
    out = dict(id=case.id, status='holds', obligations=0, paths=0, branches=0, note='', nontrivial=0)

    def body(cx):
        reset_state(case.opts)
        r = case.func(cx)
        return list(r) if r is not None else []

    for kind, res in ex.run(body):
        if kind == 'exc':
            if isinstance(res, Undecidable) and not isinstance(res, sem.IllTyped):
                out['status'] = 'undecided'
                out['note'] = 'Undecidable: %s' % res
                out['tb'] = tb_text(res)
                continue
            if isinstance(res, (Mismatch, sem.IllTyped)) or from_real_code(res.__traceback__):
                out.update(status='raises', model=ex.path_model(), note='%s: %s' % (type(res).__name__, res),
                           tb=tb_text(res))
                break
            out.update(status='error', note='%s: %s' % (type(res).__name__, res), tb=tb_text(res))
            break
        bad = None
        for o in res:
            out['obligations'] += 1
            if isinstance(o, Holds):
                if type(o.b) is dse.SymBool:
                    m = ex.valid(o.b)
                elif o.b:       # the same on the whole (solver-feasible) path
                    m = None
                else:
                    m = ex.path_model()
                if m == 'unknown':
                    out['status'] = 'unknown'
                    out['note'] = 'z3 unknown on %s' % o.label
                elif m is not None:
                    bad = dict(status='differs', model=m, note='%s %s' % (o.label, o.detail))
                    break
                out['nontrivial'] += 1
            else:
                try:
                    ps = obligations_pairs(o)
                except Mismatch as e:
                    bad = dict(status='raises', model=ex.path_model(), note='%s: result is of another type: %s'
                               % (o.label, e))
                    break
                if any(l.t or r.t for _, l, r in ps):
                    out['nontrivial'] += 1
                v, info = smt.decide_equal(ps, seed=seed)
                if v == 'differs':
                    label, asg, a, b = info
                    bad = dict(status='differs', model=ex.path_model(), values=asg,
                               note='%s: expected/actual %s vs %s' % (label, b, a))
                    break
                if v == 'unknown':
                    out['status'] = 'unknown'
                    out['note'] = info
        if bad:
            out.update(bad)
            break
    out['paths'] = ex.paths
    out['branches'] = ex.branches
    if ex.incomplete and out['status'] == 'holds':
        out['status'] = 'partial'
        out['note'] = ex.incomplete
    if ex.paths == 0 and out['status'] == 'holds':
        out['status'] = 'vacuous'
    out['wall'] = time.time() - t0
    out['smt'] = {k: smt.STATS[k] - q0[k] for k in q0}
    return out


def replay_case(case, model, values):
    """concrete re-execution on the real code -> (reproduced, text)"""
    import random
    reset_state(case.opts)
    cx = dse.Concrete(model or {})
    try:
        res = list(case.func(cx) or [])
    except dse.PathAbort:
        return False, 'assumption not met'
    except sem.IllTyped as e:
        return True, 'ill-typed result: %s' % e
    except Undecidable as e:
        return False, 'undecidable %s' % e
    except Exception as e:       # noqa
        if isinstance(e, Mismatch) or from_real_code(e.__traceback__):
            return True, tb_text(e)
        return False, 'harness error ' + tb_text(e)
    for o in res:
        if isinstance(o, Holds):
            if not bool(o.b):
                return True, 'violated: %s %s' % (o.label, o.detail)
            continue
        try:
            ps = obligations_pairs(o)
        except Mismatch as e:
            return True, 'violated: %s: %s' % (o.label, e)
        base = {k: complex(*v) for k, v in (values or {}).items()}
        for k in range(8):
            asg = smt.Assignment(base if k < 4 else {}, random.Random(7 + k), 0.0 if k == 0 else 0.3)
            for label, l, r in ps:
                try:
                    a, b = l.evalf(asg), r.evalf(asg)
                except (ZeroDivisionError, OverflowError):
                    continue
                if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
                    return True, 'violated: %s: expected %s, real code gives %s' % (label, b, a)
    return False, 'not reproduced'


# ---- function coverage of the real code
FUNCS = set()


def start_monitor():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    src = os.path.join(qv.REPO, 'src', 'qnet') + os.sep
    try:
        mon.use_tool_id(3, 'qv')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(src):
            FUNCS.add('%s:%s' % (code.co_filename[len(src):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


_CASES = None


def _skipped(c):
    return dict(id=c.id, status='skipped', obligations=0, paths=0, branches=0, note='deadline', wall=0, smt={}, nontrivial=0)


def _serial(idx, deadline, seed):
    out = []
    for i in idx:
        c = _CASES[i]
        out.append(_skipped(c) if deadline is not None and time.time() > deadline
                   else run_case(c, deadline=deadline, seed=seed))
    return out


def _worker(conn, stackfile, deadline, seed):
    """serves chunks of case numbers; announces every case before running it"""
    import faulthandler
    f = open(stackfile, 'w')
    faulthandler.register(signal.SIGUSR1, file=f)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except (ValueError, OSError):
        pass
    sent = set()
    while True:
        chunk = conn.recv()
        if chunk is None:
            break
        for i in chunk:
            conn.send(('start', i, None))
            try:
                r = _serial([i], deadline, seed)[0]
            except Exception as e:
                r = dict(_skipped(_CASES[i]), status='error', note='%s: %s' % (type(e).__name__, e), tb=tb_text(e))
            new = FUNCS - sent
            sent.update(new)
            conn.send(('done', i, (r, new)))
        conn.send(('idle', None, None))
    os._exit(0)


class _Slot:
    def __init__(self, ctx, tmp, n, deadline, seed):
        self.stack = os.path.join(tmp, 'stack%d' % n)
        self.conn, child = ctx.Pipe()
        self.p = ctx.Process(target=_worker, args=(child, self.stack, deadline, seed), daemon=True)
        self.p.start()
        child.close()
        self.todo = []          # cases handed out and not finished
        self.current = None     # (case number, start time)
        self.done = 0


def _hang_result(slot, i, seconds):
    """the case ran into its time limit: in the real code or in the machinery?"""
    try:
        os.kill(slot.p.pid, signal.SIGUSR1)
        time.sleep(1.0)
        with open(slot.stack) as f:
            text = f.read()
    except (OSError, TypeError):
        text = ''
    real = os.path.join(qv.REPO, 'src', 'qnet') in text
    c = _CASES[i]
    return dict(id=c.id, status='raises' if real else 'unknown', obligations=0, paths=0, branches=0, nontrivial=0,
                note='does not terminate within %d s' % seconds, wall=seconds, smt={}, tb=text[-1500:])


def run_parallel(chunks, jobs, deadline, seed, enough=None):
    ctx = mp.get_context('fork')
    tmp = tempfile.mkdtemp(prefix='qv')
    results, slots, n = [], [], 0
    queue = list(reversed(chunks))
    t0 = time.time()
    try:
        while queue or any(s.todo for s in slots):
            if enough is not None and enough(results, time.time() - t0):
                break
            while queue and len(slots) < jobs:
                slots.append(_Slot(ctx, tmp, n, deadline, seed))
                n += 1
            for s in slots:
                if not s.todo and queue:
                    s.todo = queue.pop()
                    s.conn.send(s.todo)
            mp.connection.wait([s.conn for s in slots if s.todo], timeout=1.0)
            for s in list(slots):
                dead = False
                try:
                    while s.todo and s.conn.poll():
                        kind, i, x = s.conn.recv()
                        if kind == 'start':
                            s.current = (i, time.time())
                        elif kind == 'done':
                            results.append(x[0])
                            FUNCS.update(x[1])
                            s.todo.remove(i)
                            s.current = None
                            s.done += 1
                        if kind == 'idle':
                            break
                except (EOFError, OSError):
                    dead = True
                if not dead and s.current is not None:
                    i, t = s.current
                    lim = _CASES[i].opts.get('limit', LIMIT)
                    if time.time() - t > lim:
                        results.append(_hang_result(s, i, lim))
                        s.todo.remove(i)
                        s.current = None
                        dead = True
                elif dead and s.current is not None:
                    i = s.current[0]
                    results.append(dict(_skipped(_CASES[i]), status='unknown', note='worker process ended'))
                    s.todo.remove(i)
                if dead or (not s.todo and s.done > 1500):
                    s.p.kill()
                    s.p.join()
                    slots.remove(s)
                    if s.todo:
                        queue.append(s.todo)
    finally:
        for s in slots:
            s.p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return results


class Enough:
    """a broken tree needs no complete list: stop after some violations"""

    def __init__(self, known):
        self.known, self.seen, self.score = known, 0, 0

    def __call__(self, results, seconds):
        for r in results[self.seen:]:
            if r['status'] in ('differs', 'raises') and r['id'] not in self.known:
                self.score += 5 if r.get('wall', 0) > 60 else 1
        self.seen = len(results)
        return self.score >= 10 or self.score and seconds > 150


def load_known(prop):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        d = json.load(f)
    return {k['case']: k for k in d.get('findings', []) if k['property'] == prop}


def main(mod):
    prop = mod.PROPERTY
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('QV_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--times', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    start_monitor()
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 7200)
    deadline = t0 + budget
    global _CASES
    cases = list(mod.cases(tier))
    ids = {}
    for c in cases:
        if c.id in ids:
            raise SystemExit('duplicate case id %s' % c.id)
        ids[c.id] = c
    if a.only:
        cases = [c for c in cases if a.only in c.id]
    if a.list:
        for c in cases:
            print(c.id)
        return 0
    _CASES = cases
    known = load_known(prop)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].weight)
    results = []
    if a.jobs <= 1:
        results += _serial(order, deadline, seed)
    else:
        heavy = [i for i in order if cases[i].weight >= 20]
        light = [i for i in order if cases[i].weight < 20]
        n = max(1, min(25, len(light) // (a.jobs * 6) or 1))
        chunks = [[i] for i in heavy] + [light[k::max(1, -(-len(light) // n))] for k in range(-(-len(light) // n))]
        results += run_parallel([c for c in chunks if c], a.jobs, deadline, seed, None if a.v else Enough(known))
    by = {}
    for r in results:
        by.setdefault(r['status'], []).append(r)
    violations, unrepro, knownhit = [], [], []
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    bad = sorted(by.get('differs', []) + by.get('raises', []), key=lambda r: r['id'])
    for r in bad:
        if r['id'] in known:
            knownhit.append(r)
            continue
        if len(violations) >= 5:
            continue
        h = hashlib.sha1(r['id'].encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, module=mod.__name__ if mod.__name__ != '__main__' else mod.MODULE, tier=tier,
                           case=r['id'], model=r.get('model') or {}, values=r.get('values') or {}, note=r['note'],
                           traceback=r.get('tb', '')), f, indent=1)
        if len(violations) >= 5 or time.time() > deadline + 200:
            violations.append((r, path)) if violations else unrepro.append((r, 'no time left for the replay'))
            continue
        try:
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'qv.replay', path], cwd=VERIF, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True, timeout=100)
        except subprocess.TimeoutExpired as e:
            # replay arms faulthandler: a hang in the real code shows up in its output
            p = subprocess.CompletedProcess([], 1 if os.path.join(qv.REPO, 'src', 'qnet') in str(e.stdout) else 0, str(e.stdout))
        if p.returncode == 1:
            violations.append((r, path))
        else:
            unrepro.append((r, p.stdout[-600:]))
    for r in knownhit:
        print('KNOWN-FINDING: property=%s %s [%s]' % (prop, known[r['id']]['what'], r['id']))
    for r, path in violations:
        print('  case %s: %s' % (r['id'], r['note'][:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    st = {k: len(v) for k, v in by.items()}
    tot = {}
    for r in results:
        for k, v in r.get('smt', {}).items():
            tot[k] = tot.get(k, 0) + v
    # vacuity twins: the same obligation with a perturbed right-hand side must be refuted
    quick_ids = {r['id'] for r in results if r['status'] == 'holds' and r.get('wall', 0) < 10}
    twins = vacuity_twins([c for c in cases if c.id in quick_ids], seed)
    wall = time.time() - t0
    if a.times:
        import collections
        g = collections.Counter()
        for r in results:
            g[r['id'].split('/')[0]] += r.get('wall', 0)
        print('cpu by group:', {k: round(v, 1) for k, v in g.most_common(12)})
        for r in sorted(results, key=lambda r: -r.get('wall', 0))[:25]:
            print(' %.1f %s' % (r.get('wall', 0), r['id']))
    ok = by.get('holds', [])
    samples = [dict(case=r['id'], obligations=r['obligations'], paths=r['paths'], z3_queries=r['smt'].get('queries'))
               for r in sorted(ok, key=lambda r: -r['obligations'])[:3] + ok[:3]]
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(wall, 2), violations=len(violations),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  explanation=getattr(mod, 'EXPLANATION', ''),
                  bounds=(mod.BOUNDS.get(tier) if isinstance(getattr(mod, 'BOUNDS', ''), dict) else getattr(mod, 'BOUNDS', '')),
                  programs=len(results), cases_by_status=st,
                  disagreements_checked=sum(r['obligations'] for r in results),
                  nontrivial_obligations=sum(r.get('nontrivial', 0) for r in results),
                  states=sum(r['paths'] for r in results), transitions=sum(r['branches'] for r in results),
                  traces_validated_against_impl=len(bad) + twins[0],
                  evaluations=sum(r['obligations'] for r in results),
                  distinct_nontrivial=len({r['id'] for r in results if r.get('nontrivial')}),
                  rule='a case is one symbolic run of the real code; non-trivial if some compared entry is non-zero or '
                       'a path-condition query was needed',
                  solver='z3 %s' % dse.z3.get_version_string(), solver_queries=tot.get('queries', 0),
                  unsat=tot.get('unsat', 0), sat=tot.get('sat', 0), unknown=tot.get('unknown', 0),
                  solver_seconds=round(tot.get('z3_seconds', 0.0), 2),
                  vacuity_twins_refuted=twins[0], vacuity_twins_not_refuted=twins[1],
                  functions_encoded=sorted(FUNCS)[:400], functions_encoded_count=len(FUNCS),
                  samples=samples,
                  undecided=[(r['id'], r['note'][:200]) for s in ('undecided', 'unknown', 'partial', 'skipped', 'vacuous')
                             for r in by.get(s, [])][:50],
                  known_findings=[r['id'] for r in knownhit]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d cases %s, %d obligations, %d paths, %d z3 queries (%.1fs), twins %s, %.1fs' % (
        prop, tier, len(results), st, ev['coverage']['disagreements_checked'], ev['coverage']['states'],
        tot.get('queries', 0), tot.get('z3_seconds', 0.0), twins, wall))
    if a.v:
        for s in ('differs', 'raises', 'undecided', 'unknown', 'partial', 'vacuous', 'error'):
            for r in by.get(s, []):
                print(' %s %s: %s' % (s, r['id'], r['note'][:300]))
                if a.v and s in ('raises', 'error', 'undecided') and a.only:
                    print(r.get('tb', ''))
    if violations:
        return 1
    if unrepro:
        for r, t in unrepro[:5]:
            print('NOT REPRODUCED %s: %s\n%s' % (r['id'], r['note'], t))
        return 2
    if by.get('error'):
        for r in by['error'][:5]:
            print('HARNESS ERROR %s: %s\n%s' % (r['id'], r['note'], r.get('tb', '')))
        return 3
    if not ok:
        print('nothing was decided')
        return 4
    return 0


COMMON_ASSUMPTIONS = [
    'scalars are exact complex numbers (no floating-point rounding); floats occurring in results are read as the nearest '
    'small rational', 'z3 is sound; the reference semantics in qv/sem.py is the textbook one',
    'nothing is claimed outside the stated bounds (expression shapes, dimensions, labels, lengths)']


def vacuity_twins(cases, seed, n=6):
    """perturb the right-hand side of some obligations: z3 must refute them (the assertions are reached)"""
    done = fail = 0
    step = max(1, len(cases) // n)
    for c in cases[::step][:n]:
        try:
            ex = dse.Explorer(max_paths=1)

            def body(cx):
                reset_state(c.opts)
                return list(c.func(cx) or [])
            for kind, res in ex.run(body):
                if kind != 'ok' or not res:
                    break
                o = res[-1]
                if isinstance(o, Holds):
                    v = ex.valid(dse.z3.Not(dse.as_z3bool(o.b)))
                    good = v not in (None, 'unknown')
                else:
                    ps = obligations_pairs(o)
                    l = ps[-1] if ps else ('', ONE, ONE)
                    v, _ = smt.decide_equal(ps[:-1] + [(l[0], l[1], l[2] + ONE)])
                    good = v == 'differs'
                if good:
                    done += 1
                else:
                    fail += 1
                break
        except Exception:      # noqa
            pass
    return done, fail
