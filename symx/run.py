"""Drives the scenarios of one property: exploration, final queries, replay, evidence, verdict."""
import contextlib
import importlib
import io
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction
import numpy as np
from symx import core, arr, ctx as ctxmod, load
from symx.core import z3

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Scenario:
    def __init__(self, fn, params, quick=True, name=None, max_paths=None, time_s=None, thorough=True, sym_kw=None,
                 validate=3):
        self.fn = fn
        self.params = params
        self.quick = quick
        self.thorough = thorough
        self.name = name or fn.__name__ + '(' + ','.join('%s=%s' % kv for kv in sorted(params.items())) + ')'
        self.max_paths = max_paths
        self.time_s = time_s
        self.sym_kw = sym_kw or {}
        self.validate = validate


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


_UNIS = {}


def universe(symbolic, mod):
    """(re)usable universes, per process; a property module may supply its own environment stubs"""
    key = (symbolic, mod.__name__)
    if key not in _UNIS:
        if symbolic:
            kw = mod.sym_environment() if hasattr(mod, 'sym_environment') else {}
            u = load.Universe(True, **kw)
        else:
            u = load.Universe(False)
        _UNIS[key] = u
    return _UNIS[key]


def model_values(e, model):
    out = {}
    for name, (kind, x) in e.inputs.items():
        if kind == 'str':
            out[name] = x.model_str(model)
        else:
            v = model.eval(x, model_completion=True)
            v = core.val(v)
            if kind == 'real':
                out[name] = [v.numerator, v.denominator] if isinstance(v, Fraction) else [int(v), 1]
            elif kind == 'int':
                out[name] = int(v)
            else:
                out[name] = bool(v)
    return out


def decode_values(vals):
    out = {}
    for k, v in vals.items():
        if isinstance(v, list):
            out[k] = float(Fraction(v[0], v[1]))
        else:
            out[k] = v
    return out


def through_repo(ex):
    tb, last = ex.__traceback__, None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(load.REPO + '/'):
            last = 'repo'
        elif fn.startswith(VERIF + '/'):
            last = 'harness'
        tb = tb.tb_next
    return last == 'repo'


class ReplayTimeout(Exception):
    pass


def concrete_run(mod, fn, params, values, timeout=60):
    """run the scenario against the unmodified code of /repo; returns (status, detail, observed)"""
    import signal

    def onalarm(*a):
        raise ReplayTimeout('replay exceeded %ss' % timeout)

    c = ctxmod.ConCtx(decode_values(values))
    u = universe(False, mod)
    old = core.ENGINE
    core.set_engine(None)
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='vx')
    prev = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(timeout)
    try:
        with u, quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            c.scratch = tmp
            fn(c, u, **params)
        if c.failed:
            return 'fail', '; '.join('%s %s' % f for f in c.failed[:3]), c.observed
        return 'ok', '', c.observed
    except ctxmod.Skip:
        return 'skip', '', c.observed
    except Exception as ex:
        if c.failed:
            return 'fail', '; '.join('%s %s' % f for f in c.failed[:3]), c.observed
        if isinstance(ex, (OverflowError, ZeroDivisionError, FloatingPointError)) and not through_repo(ex):
            return 'harness', '%s: %s' % (type(ex).__name__, ex), c.observed
        return 'raise', '%s: %s' % (type(ex).__name__, ex) + '\n' + traceback.format_exc()[-1500:], c.observed
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, prev)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
        core.set_engine(old)


def nice_models(e, base_constraints, goal_neg, timeout, first=None):
    """counterexample models (lazily): the one at hand, then float-friendly ones, then others"""
    if first is not None:
        yield first
    reals = [x for (k, x) in e.inputs.values() if k == 'real']
    for mode in ('nice', 'any'):
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*base_constraints)
        s.add(goal_neg)
        if mode == 'nice':
            for i, x in enumerate(reals):
                k = z3.Int('nice!%d' % i)
                s.add(x * 8 == z3.ToReal(k), k >= -8000, k <= 8000)
        for _ in range(3):
            t = time.time()
            e.stats.queries += 1
            r = s.check()
            e.stats.solver_s += time.time() - t
            if r != z3.sat:
                break
            m = s.model()
            yield m
            diff = []
            for n, (k, x) in e.inputs.items():
                if k == 'str':
                    continue
                diff.append(x != m.eval(x, model_completion=True))
            if not diff:
                break
            s.add(z3.Or(*diff))


def final_query(e, goal_neg):
    """sat / unsat / unknown for pc & goal_neg"""
    g = z3.simplify(goal_neg)
    if z3.is_false(g):
        e.stats.queries += 1
        return z3.unsat, None
    g2 = z3.simplify(goal_neg, som=True)
    if z3.is_false(g2):
        e.stats.queries += 1
        return z3.unsat, None
    # the obligation may not need the path condition at all (algebraic identities)
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(g2)
    t = time.time()
    e.stats.queries += 1
    r = s.check()
    e.stats.solver_s += time.time() - t
    if r == z3.unsat:
        return r, None
    tries = [lambda: z3.Solver(),
             lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-uncnstr', 'smt').solver(),
             lambda: z3.Tactic('qfnra-nlsat').solver()]
    for i, mk in enumerate(tries):
        s = mk()
        try:
            s.set('timeout', e.ft // (1 if i else 2))
        except z3.Z3Exception:
            pass
        s.add(*e.pc)
        s.add(g2 if i != 2 else goal_neg)
        t = time.time()
        e.stats.queries += 1
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        e.stats.solver_s += time.time() - t
        if r != z3.unknown:
            return r, (s.model() if r == z3.sat else None)
    e.stats.unknown += 1
    return z3.unknown, None


def obs_value(v, model):
    if isinstance(v, (list, tuple)):
        return [obs_value(x, model) for x in v]
    if isinstance(v, np.ndarray):
        return [obs_value(x, model) for x in arr.plain(v).tolist()] if v.ndim else obs_value(v.item(), model)
    if isinstance(v, core.SymNum):
        n = core.val(model.eval(v.n, model_completion=True))
        d = 1 if v.d is None else core.val(model.eval(v.d, model_completion=True))
        return float(Fraction(n) / Fraction(d)) if d else float('nan')
    if isinstance(v, core.SymBool):
        return bool(core.val(model.eval(v.e, model_completion=True)))
    if hasattr(v, 'model_str'):
        return v.model_str(model)
    return v


def obs_match(a, b):
    if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
        a = list(a) if isinstance(a, (list, tuple, np.ndarray)) else [a]
        b = list(b) if isinstance(b, (list, tuple, np.ndarray)) else [b]
        return len(a) == len(b) and all(obs_match(x, y) for x, y in zip(a, b))
    if core.isnum(a) and core.isnum(b):
        a, b = float(a), float(b)
        return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) or (a != a and b != b)
    return a == b


def explore(mod, sc, seed, budget_s):
    """explore one scenario; returns a result dict"""
    stats = core.Stats()
    e = core.Engine(stats, seed=seed, **{k: v for k, v in sc.sym_kw.items() if k in (
        'branch_timeout_ms', 'final_timeout_ms', 'max_branches')})
    u = universe(True, mod)
    t0 = time.time()
    res = dict(scenario=sc.name, violations=[], inconclusive=[], complete=True, reached=0, samples=[],
               validated=0, mismatches=[], functions=[])
    funcs = set()
    max_paths = sc.max_paths or 10 ** 9
    seen_viol = set()
    e.paths_total = 0
    first = True
    while e.work:
        if time.time() - t0 > budget_s or stats.paths >= max_paths:
            res['complete'] = False
            res['unexplored_prefixes'] = len(e.work)
            break
        prefix, model = e.work.pop()
        e.start(list(prefix), model)
        core.set_engine(e)
        c = ctxmod.SymCtx(e)
        exc = None
        prof = first
        cwd = os.getcwd()
        tmp = tempfile.mkdtemp(prefix='vx')
        c.scratch = tmp
        try:
            with u, quiet(), warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                if prof:
                    sys.setprofile(_mkprof(funcs))
                try:
                    sc.fn(c, u, **sc.params)
                finally:
                    if prof:
                        sys.setprofile(None)
            first = False
        except core.Infeasible:
            stats.infeasible += 1
            continue
        except core.Cut as ct:
            stats.cuts += 1
            stats.cut_reasons[ct.reason] = stats.cut_reasons.get(ct.reason, 0) + 1
            continue
        except core.Budget:
            res['complete'] = False
            res['inconclusive'].append('branch budget')
            continue
        except ctxmod.Skip:
            continue
        except Exception as ex:
            exc = ex
            exc_tb = traceback.format_exc()[-1800:]
        finally:
            os.chdir(cwd)
            shutil.rmtree(tmp, ignore_errors=True)
        stats.paths += 1
        if e.concretised_here:
            res['complete'] = False
        if exc is not None:
            # does the real code raise on this path's input?
            try:
                m = e.model_or_check()
            except core.Infeasible:
                continue
            if m is None:
                res['inconclusive'].append('exception on path without model: %r' % exc)
                continue
            done = False
            for mm in nice_models(e, e.pc, z3.BoolVal(True), 4000, m):
                vals = model_values(e, mm)
                st, det, _ = concrete_run(mod, sc.fn, sc.params, vals)
                if st in ('fail', 'raise'):
                    _viol(res, seen_viol, sc, vals, st, det)
                    done = True
                    break
            if not done:
                res['complete'] = False
                res['inconclusive'].append('engine: %s: %s | %s' % (type(exc).__name__, exc, exc_tb[-700:]))
            continue
        res['reached'] += 1 if e.checks else 0
        goal_neg = z3.Or(*[z3.Not(x) for _, x in e.checks]) if e.checks else z3.BoolVal(False)
        r, m = final_query(e, goal_neg)
        if r == z3.unknown:
            # one obligation at a time
            r = z3.unsat
            for lab, x in e.checks:
                r1, m1 = final_query(e, z3.Not(x))
                if r1 == z3.sat:
                    r, m = r1, m1
                    break
                if r1 == z3.unknown:
                    r = z3.unknown
        if r == z3.unknown:
            res['complete'] = False
            res['inconclusive'].append('unknown on final query: %s' % [l for l, _ in e.checks][:4])
        if r == z3.sat:
            done = False
            last = ''
            for mm in nice_models(e, e.pc, goal_neg, 5000, m):
                vals = model_values(e, mm)
                st, det, _ = concrete_run(mod, sc.fn, sc.params, vals)
                if st in ('fail', 'raise'):
                    _viol(res, seen_viol, sc, vals, st, det)
                    done = True
                    break
                last = json.dumps(vals)[:600]
            if not done:
                res['complete'] = False
                labs = [l for l, x in e.checks if not z3.is_true(m.eval(x, model_completion=True))]
                res['inconclusive'].append('counterexample does not reproduce: %s %s' % (labs[:3], last))
        elif r == z3.unsat:
            # encoding validation: replay the path witness on the real code, compare the outputs
            if res['validated'] + len(res['mismatches']) < sc.validate and not e.concretised_here:
                mm = e.model_or_check()
                if mm is not None:
                    vals = model_values(e, mm)
                    st, det, obs = concrete_run(mod, sc.fn, sc.params, vals)
                    if st in ('fail', 'raise'):
                        # the real code disagrees on a concrete input: that is a replayed violation
                        _viol(res, seen_viol, sc, vals, st, det)
                    elif st == 'ok':
                        ok = True
                        for (n1, v1), (n2, v2) in zip(e.observed, obs):
                            ov = obs_value(v1, mm)
                            if n1 != n2 or not obs_match(ov, v2):
                                ok = False
                                res['mismatches'].append('%s: symbolic %s, real %s (inputs %s)' % (
                                    n1, str(ov)[:200], str(v2)[:200], json.dumps(vals)[:300]))
                                break
                        if ok:
                            res['validated'] += 1
                            if len(res['samples']) < 2:
                                res['samples'].append(dict(scenario=sc.name, witness={
                                    k: (float(Fraction(*v)) if isinstance(v, list) else v) for k, v in vals.items()}))
        if len(res['violations']) >= 1:
            break
    core.set_engine(None)
    res['stats'] = stats.asdict()
    res['functions'] = sorted(funcs)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def _mkprof(funcs):
    root = load.REPO + '/'

    def prof(frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(root):
                funcs.add('%s:%s' % (fn[len(root):], frame.f_code.co_qualname))

    return prof


def _viol(res, seen, sc, vals, st, det):
    key = det.split('\n')[0][:160]
    if key in seen:
        return
    seen.add(key)
    res['violations'].append(dict(scenario=sc.name, fn=sc.fn.__name__, module=sc.fn.__module__, params=sc.params, inputs=vals, status=st,
                                  detail=det))


def _task(args):
    modname, idx, tier, seed, budget = args
    mod = importlib.import_module(modname)
    sc = list(mod.scenarios(tier))[idx]
    try:
        return explore(mod, sc, seed, min(budget, sc.time_s or budget))
    except BaseException as ex:
        return dict(scenario=sc.name, error='%s: %s' % (type(ex).__name__, ex), tb=traceback.format_exc()[-2000:])


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = 'props.' + prop.lower()
    mod = importlib.import_module(modname)
    scs = list(mod.scenarios(tier))
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '5400'))
    only = os.environ.get('VERIF_ONLY')
    idxs = [i for i, s in enumerate(scs) if not only or only in s.name]
    n = int(os.environ.get('VERIF_PROCS', '8'))
    tasks = [(modname, i, tier, seed, budget) for i in idxs]
    if n == 1:
        results = [_task(t) for t in tasks]
    else:
        for sym in (True, False):  # load the sources once, before forking
            u = universe(sym, mod)
            with u, quiet(), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for m in getattr(mod, 'PRELOAD', ['getdist.chains']):
                    try:
                        importlib.import_module(m)
                    except Exception:
                        pass
        deadline = t0 + (780 if tier == 'quick' else 6 * budget)
        with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
            pend = [pool.apply_async(_task, (t,)) for t in tasks]
            results = []
            for i, r in zip(idxs, pend):
                try:
                    results.append(r.get(max(0.1, deadline - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(scenario=scs[i].name, violations=[], inconclusive=['time budget of the check exhausted'],
                                        complete=False, reached=1, samples=[], validated=0, mismatches=[],
                                        functions=[], stats=core.Stats().asdict(), wall_s=0))
            pool.terminate()
    # ---- aggregate
    known = known_findings(prop)
    viol, errors, incon, incomplete, knownhit = [], [], [], [], set()
    tot = {f: 0 for f in core.Stats.FIELDS}
    funcs = set()
    samples, validated, mism, reached, conc, cuts = [], 0, [], 0, {}, {}
    per = []
    for r in results:
        if 'error' in r:
            errors.append(r)
            continue
        for f in core.Stats.FIELDS:
            tot[f] += r['stats'][f]
        funcs.update(r['functions'])
        samples += r['samples']
        validated += r['validated']
        mism += r['mismatches']
        reached += r['reached']
        for k, v in r['stats']['concretised_sites'].items():
            conc[k] = conc.get(k, 0) + v
        for k, v in r['stats']['cut_reasons'].items():
            cuts[k] = cuts.get(k, 0) + v
        if not r['complete']:
            incomplete.append(r['scenario'])
        incon += ['%s: %s' % (r['scenario'], x) for x in r['inconclusive']]
        for v in r['violations']:
            k = match_known(known, v)
            if k:
                knownhit.add(k)
            else:
                viol.append(v)
        per.append(dict(scenario=r['scenario'], paths=r['stats']['paths'], queries=r['stats']['queries'],
                        complete=r['complete'], wall_s=r['wall_s'], reached=r['reached']))
    vac = [p['scenario'] for p in per if p['reached'] == 0]
    cov = dict(
        states=tot['paths'], transitions=tot['branches'], traces_validated_against_impl=validated,
        samples=samples[:6] or [dict(note='no witness replayed')],
        technique='symbolic execution of the real sources of /repo + z3 %s' % z3.get_version_string(),
        functions_encoded=sorted(funcs), scenarios=len(scs), bounds=getattr(mod, 'BOUNDS', ''),
        outside=getattr(mod, 'OUTSIDE', ''),
        queries=tot['queries'], solver_s=round(tot['solver_s'], 2), obligations=tot['checks'],
        paths_reaching_an_assertion=reached, unknown_queries=tot['unknown'], infeasible_paths=tot['infeasible'],
        cut_paths=cuts, concretised=conc, incomplete_scenarios=incomplete, inconclusive=incon[:20],
        encoding_mismatches=mism[:10], vacuous_scenarios=vac, per_scenario=per,
        exhaustive=not (incomplete or incon or errors or conc or vac))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(knownhit):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    print('%s tier=%s scenarios=%d paths=%d queries=%d solver=%.1fs obligations=%d validated=%d wall=%.1fs' % (
        prop, tier, len(scs), tot['paths'], tot['queries'], tot['solver_s'], tot['checks'], validated,
        time.time() - t0))
    for m in mism[:5]:
        print('NOTE encoding mismatch: ' + m)
    shown = set()
    for m in incon:
        m = m if os.environ.get('VERIF_DEBUG') else m.replace('\n', ' ')[:300]
        if m not in shown and len(shown) < 8:
            print('NOTE inconclusive: ' + m)
        shown.add(m)
    if incomplete:
        print('NOTE incomplete: ' + ', '.join(incomplete[:8]))
    if vac:
        print('NOTE vacuous: ' + ', '.join(vac[:8]))
    if conc:
        print('NOTE concretised: ' + str(conc)[:600])
    if viol:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(viol[:3]):
            p = os.path.join(d, '%s_%d.json' % (prop, i))
            v['property'] = prop
            with open(p, 'w') as f:
                json.dump(v, f, indent=1, default=str)
            print('counterexample %s: %s\n  inputs %s' % (v['scenario'], v['detail'][:1500], json.dumps(v['inputs'])[:800]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors:
        for r in errors[:5]:
            print('ERROR %s: %s\n%s' % (r['scenario'], r['error'], r.get('tb', '')))
        return 3
    return 0


COMMON_ASSUMPTIONS = [
    'floating point numbers are modelled as exact reals (no rounding, overflow, nan or inf inputs); counterexamples are '
    'replayed in real double precision before they are reported',
    'exp/log/sqrt: fresh reals constrained by sign, congruence and strict monotonicity (sqrt exactly: r>=0, r*r=x)',
    'numpy structural operations (indexing, broadcasting, dot, sort) run natively on symbolic objects; ufuncs, '
    'searchsorted, bincount, inv/det/cholesky, interp, where are re-stated in symx/arr.py',
]


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == prop]


def match_known(known, v):
    for k in known:
        if k['fn'] == v['fn'] and all(v['params'].get(a) == b for a, b in k.get('params', {}).items()) \
                and k['match'] in v['detail']:
            return k['what']
    return None


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module('props.' + v['property'].lower())
    fn = getattr(importlib.import_module(v.get('module', mod.__name__)), v['fn'])
    st, det, _ = concrete_run(mod, fn, v['params'], v['inputs'])
    print(st, det)
    return 1 if st in ('fail', 'raise') else 0
