"""Runs the harnesses of one property, decides every check with the solver, replays counterexamples, writes evidence."""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback
import warnings
from fractions import Fraction
import z3
from . import core, loader
from .core import Engine, Unsupported, PathAbort, Budget, R
from .env import SymEnv, ConcEnv, CheckFailed, Skip, Stop, NumEval, NoValue, generic_value

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, 'out')


class Found(BaseException):
    pass


def strengthen(e, m):
    """the same condition away from its boundary by m"""
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_AND: return z3.And(*[strengthen(c, m) for c in ch])
    if k == z3.Z3_OP_OR: return z3.Or(*[strengthen(c, m) for c in ch])
    if k == z3.Z3_OP_NOT:
        c = ch[0]
        ck = c.decl().kind()
        cc = c.children()
        if ck == z3.Z3_OP_AND: return z3.Or(*[strengthen(z3.Not(x), m) for x in cc])
        if ck == z3.Z3_OP_OR: return z3.And(*[strengthen(z3.Not(x), m) for x in cc])
        if ck == z3.Z3_OP_NOT: return strengthen(cc[0], m)
        if ck in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and cc[0].is_real():
            return cc[0] >= cc[1] + m if ck in (z3.Z3_OP_LE, z3.Z3_OP_LT) else cc[0] <= cc[1] - m
        if ck == z3.Z3_OP_EQ and cc[0].sort().kind() == z3.Z3_REAL_SORT:
            return z3.Or(cc[0] >= cc[1] + m, cc[0] <= cc[1] - m)
        return e
    if ch and z3.is_arith(ch[0]) and ch[0].is_real():
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT): return ch[0] <= ch[1] - m
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): return ch[0] >= ch[1] + m
        if k == z3.Z3_OP_EQ: return z3.BoolVal(False)
    return e


class H:
    """One harness instance."""

    def __init__(self, name, fn, time=20, bounds='', max_paths=400, tier='quick', fronts=None, witness=True, query_s=6,
                 conc_only_reason=None, **params):
        self.name, self.fn, self.time, self.bounds = name, fn, time, bounds
        self.max_paths, self.tier, self.fronts, self.witness, self.query_s = max_paths, tier, fronts, witness, query_s
        self.params = params


def jnum(v):
    if isinstance(v, Fraction):
        return str(v)
    return v


class Job:
    def __init__(self, prop, h, known, L, seed=1):
        self.prop, self.h, self.known, self.L, self.seed = prop, h, known, L, seed
        self.res = dict(name=h.name, bounds=h.bounds, violations=[], known=[], unreproduced=[], unknowns=[], unsupported={},
                        functions=[], validated=0, validation_mismatch=[], witnesses=0, witness_fail=0, checks=0, samples=[],
                        values_compared=0, skipped=0, error=None)
        self.known_hit = set()

    # ------------------------------------------------------------------ solving
    def _assertions(self, env, extra, cone):
        E = env.E
        if cone:
            ids = set()
            for x in extra:
                ids |= E.atoms_of(x)
            ids = E.closure(ids)
            use = []
            rest = list(E.pc)
            # one-step cone, then fixpoint over pc conjuncts sharing atoms
            for c in rest:
                if E.atoms_of(c) & ids:
                    use.append(c)
            allc = list(extra) + use
        else:
            allc = list(extra) + list(E.pc)
        ids = set()
        for x in allc:
            ids |= E.atoms_of(x)
        ids = E.closure(ids)
        if not cone:
            ids |= {a.id for a, *_ in env.inputs.values()}
        defs = [d for i in sorted(ids) for d in E.atoms[i].defs]
        return allc + defs, ids

    def _mk(self, kind, ass, ms):
        s = z3.Solver() if kind == 'smt' else z3.SolverFor('QF_NRA')
        s.set('timeout', max(1, int(ms)))
        for a in ass:
            s.add(a)
        return s

    def solve(self, env, neg):
        """is pc and neg satisfiable?  (result, solver)"""
        E = env.E
        budget = min(self.h.query_s, max(0.2, E.deadline - time.time()))
        ids0 = E.closure(E.atoms_of(neg))
        s = self._mk('smt', [neg] + [d for i in sorted(ids0) for d in E.atoms[i].defs], budget * 250)
        r = E.timed_check(s)
        if r == z3.unsat:
            return r, s
        ass, ids = self._assertions(env, [neg], True)
        hasint = any(E.atoms[i].sort == 'int' for i in ids)
        s = self._mk('smt', ass, budget * 400)
        r = E.timed_check(s)
        if r == z3.unsat:
            return r, s
        if r == z3.unknown and not hasint:
            s2 = self._mk('nra', ass, budget * 600)
            r2 = E.timed_check(s2)
            if r2 == z3.unsat:
                return r2, s2
        full, ids = self._assertions(env, [neg], False)
        s = self._mk('smt', full, budget * 500)
        r = E.timed_check(s)
        if r == z3.unknown and not any(E.atoms[i].sort == 'int' for i in ids):
            s = self._mk('nra', full, budget * 500)
            r = E.timed_check(s)
        return r, s

    def _fix(self, env, s, seed, deadline, E):
        """core-guided: keep as many inputs as possible at generic values; returns model or None"""
        lits = {}
        for k, (name, (a, lo, hi, sort)) in enumerate(env.inputs.items()):
            g = generic_value(name, lo, hi, seed)
            if sort == 'int':
                g = Fraction(round(g))
                if lo is not None: g = max(g, Fraction(lo))
                if hi is not None: g = min(g, Fraction(hi))
            b = z3.Bool(f'fix_{k}_{seed}')
            s.add(z3.Implies(b, a.z == z3.RealVal(g)))
            lits[b.get_id()] = b
        act = dict(lits)
        it = 0
        while time.time() < deadline:
            it += 1
            r = E.timed_check(s, *act.values())
            if r == z3.sat:
                return s.model()
            if r == z3.unknown:
                # drop half
                if not act:
                    return None
                for b in list(act)[len(act) // 2:]:
                    act.pop(b)
                continue
            core_ = [c.get_id() for c in s.unsat_core()]
            core_ = [c for c in core_ if c in act]
            if not core_:
                return None
            n = 1 if it < 25 else len(core_)
            for c in core_[-n:]:
                act.pop(c)
        return None

    def extract(self, env, m):
        out = {}
        for name, (a, lo, hi, sort) in env.inputs.items():
            v = m.eval(a.iz if sort == 'int' else a.z, model_completion=True)
            if z3.is_int_value(v):
                out[name] = Fraction(v.as_long())
            elif z3.is_rational_value(v):
                out[name] = v.as_fraction()
            elif z3.is_algebraic_value(v):
                out[name] = v.approx(25).as_fraction()
            else:
                out[name] = Fraction(0)
        return out

    def candidates(self, env, neg, strong, limit=10):
        E = env.E
        end = time.time() + limit
        goal = [neg] if neg is not None else []
        rng = [z3.And(a.z <= 1000, a.z >= -1000) for a, *_ in env.inputs.values()]
        variants = []
        if strong is not None:
            variants.append((goal + [strong] + rng, True))
            variants.append((goal + [strong] + rng, False))
        variants.append((goal + rng, True))
        variants.append((goal + rng, False))
        variants.append((goal, False))
        for k, (extra, fix) in enumerate(variants):
            if time.time() > end:
                return
            ass, ids = self._assertions(env, extra or [z3.BoolVal(True)], False)
            s = self._mk('smt', ass, 2500)
            if fix:
                m = self._fix(env, s, self.seed + k, min(end, time.time() + 4), E)
                if m is None:
                    continue
            else:
                r = E.timed_check(s)
                if r != z3.sat:
                    if any(E.atoms[i].sort == 'int' for i in ids):
                        continue
                    s = self._mk('nra', ass, 2500)
                    r = E.timed_check(s)
                    if r != z3.sat:
                        continue
                m = s.model()
            yield self.extract(env, m)

    # ------------------------------------------------------------------ concrete replay
    def concrete(self, inputs, seed=1):
        """run the harness on the real package. returns ('ok'|'fail'|'skip', detail, env)"""
        env = ConcEnv(inputs, seed)
        env.known_labels = [k['label'] for k in self.known if k['property'] == self.prop and k['harness'] == self.h.name]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                import numpy as np
                with np.errstate(all='ignore'):
                    self.h.fn(env, **self.h.params)
            for l, d in env.known_failed:
                self.mark_known(self._is_known(l))
            return ('known' if env.known_failed else 'ok'), None, env
        except CheckFailed as e:
            return 'fail', (e.label, e.detail), env
        except (Skip, Stop):
            return 'skip', None, env
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(loader.REPO + '/')]
            if not where:
                return 'error', (f'{type(e).__name__}: {e}', ''.join(traceback.format_exception(e)[-4:])), env
            f = where[-1]
            return 'fail', ('unexpected exception', f'{type(e).__name__}: {e} at {os.path.relpath(f.filename, loader.REPO)}:{f.lineno}'), env
        finally:
            for c in env.cleanup:
                c()

    def _is_known(self, label):
        for k in self.known:
            if k['property'] == self.prop and k['harness'] == self.h.name and label.startswith(k['label']):
                return k
        return None

    def mark_known(self, k):
        if k['id'] not in self.known_hit:
            self.known_hit.add(k['id'])
            self.res['known'].append(k['id'])

    def report(self, inputs, detail, label, origin):
        k = self._is_known(detail[0])
        if k:
            self.mark_known(k)
            return
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        p = os.path.join(OUT, 'replay', f'{self.prop}-{self.h.name}.json'.replace(' ', '_').replace('/', '_'))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, harness=self.h.name, label=detail[0], detail=detail[1], origin=origin,
                           solver_label=label, inputs={k: jnum(v) for k, v in inputs.items()}), f, indent=1)
        self.res['violations'].append(dict(label=detail[0], detail=detail[1], replay=p, origin=origin))
        raise Found()

    def violation(self, env, label, neg, detail='', strong=None):
        if self._is_known(label):
            k = self._is_known(label)
            if k['id'] in self.known_hit:
                return
        n = 0
        for inputs in self.candidates(env, neg, strong):
            n += 1
            st, d, cenv = self.concrete(inputs)
            if st == 'fail':
                self.report(inputs, d, label, 'solver counterexample')
                return
            if st == 'known' and self._is_known(label):
                return
            if st == 'error':
                self.res['error'] = self.res['error'] or f'{d}'
        if len(self.res['unreproduced']) < 8:
            self.res['unreproduced'].append(dict(label=label, detail=str(detail)[:300], candidates=n))
        self.nunrep = getattr(self, 'nunrep', 0) + 1

    def unknown(self, env, label, neg, strong):
        # look for a counterexample under partial concretisation of the inputs (still a solver query)
        for inputs in self.candidates(env, neg, strong, limit=4):
            st, d, _ = self.concrete(inputs)
            if st == 'fail':
                self.report(inputs, d, label, 'solver counterexample')
                return
            if st == 'known' and self._is_known(label):
                return
        if len(self.res['unknowns']) < 8:
            self.res['unknowns'].append(label)

    # ------------------------------------------------------------------ one path
    def run_path(self):
        E = Engine.cur
        env = SymEnv(E, self, self.L)
        unsup = None
        try:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.h.fn(env, **self.h.params)
            except Stop:
                pass
            except Unsupported as e:
                unsup = f'{e}'
                tb = traceback.extract_tb(e.__traceback__)
                w = [f for f in tb if f.filename.startswith(loader.REPO + '/')]
                if w:
                    unsup += f' [at {os.path.relpath(w[-1].filename, loader.REPO)}:{w[-1].lineno}]'
            except RecursionError as e:
                unsup = 'recursion limit'
            except (z3.Z3Exception, AssertionError) as e:
                unsup = f'{type(e).__name__}: {e} ' + ' '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-4:])
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = ' '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-5:])
                self.violation(env, f'unexpected exception {type(e).__name__}: {e}', None, where)
        except Found:
            return 'STOP'
        finally:
            for c in env.cleanup:
                c()
        self.res['checks'] += env.nchecks
        if unsup:
            E.stats['unsupported'] += 1
            self.res['unsupported'][unsup[:400]] = self.res['unsupported'].get(unsup[:400], 0) + 1
        try:
            self.witness(env, unsup)
        except Found:
            return 'STOP'
        return None

    def witness(self, env, unsup):
        if not self.h.witness:
            return
        E = env.E
        if self.res['witnesses'] >= 60 and E.stats['paths'] % 10:
            return
        ass, ids = self._assertions(env, [z3.BoolVal(True)], False)
        interior = True
        pcids = {c.get_id() for c in E.pc}
        mg = z3.RealVal('1/2000')
        s = self._mk('smt', [strengthen(x, mg) if x.get_id() in pcids else x for x in ass], 1500)
        m = self._fix(env, s, self.seed, time.time() + 4, E)
        if m is None:
            interior = False
            s = self._mk('smt', ass, 2500)
            m = self._fix(env, s, self.seed, time.time() + 6, E)
        if m is None:
            self.res['witness_fail'] += 1
            return
        inputs = self.extract(env, m)
        self.res['witnesses'] += 1
        st, d, cenv = self.concrete(inputs)
        if st == 'fail':
            if not interior:
                # the path only has inputs on the boundary of a branch condition, where rounding decides the branch
                self.res['boundary'] = self.res.get('boundary', 0) + 1
                return
            self.report(inputs, d, d[0], 'path witness replayed on the implementation')
            return
        if st == 'skip':
            self.res['skipped'] += 1
            return
        if st == 'error':
            self.res['error'] = self.res['error'] or f'{d}'
            return
        self.res['validated'] += 1
        if len(self.res['samples']) < 2:
            self.res['samples'].append(dict(harness=self.h.name, inputs={k: jnum(v) for k, v in list(inputs.items())[:12]}, checks=env.nchecks))
        # compare observed values
        byid = {env.inputs[k][0].id: v for k, v in inputs.items() if k in env.inputs}
        ne = NumEval(E, byid)
        cl, occ = {}, {}
        for l, v in cenv.log:
            k = occ[l] = occ.get(l, -1) + 1
            cl[l, k] = v
        occ = {}
        for l0, v in env.log[:200]:
            k = occ[l0] = occ.get(l0, -1) + 1
            l = (l0, k)
            if l not in cl or isinstance(cl[l], complex):
                continue
            try:
                x = ne.R(v)
            except (NoValue, OverflowError, RecursionError, ZeroDivisionError):
                continue
            y = cl[l]
            l = l0
            self.res['values_compared'] += 1
            if x != x and y != y or x == y:
                continue
            if not abs(x - y) <= 1e-5 * max(1, abs(x), abs(y)):
                if not interior:
                    self.res['boundary'] = self.res.get('boundary', 0) + 1
                    return
                if len(self.res['validation_mismatch']) < 5:
                    self.res['validation_mismatch'].append(dict(label=l, model=x, impl=y))

    def run(self):
        h = self.h
        E = Engine(max_paths=h.max_paths, time_limit=h.time)
        t0 = time.time()
        fns = set()
        mon = sys.monitoring
        repo = loader.REPO + '/'

        def on_start(code, off):
            if code.co_filename.startswith(repo):
                fns.add(f'{os.path.relpath(code.co_filename, loader.REPO)}:{code.co_qualname}')
            return mon.DISABLE
        try:
            mon.use_tool_id(3, 'symx')
            mon.register_callback(3, mon.events.PY_START, on_start)
            mon.set_events(3, mon.events.PY_START)
        except ValueError:
            pass
        try:
            E.explore(self.run_path)
        except Found:
            pass
        except Unsupported as e:
            self.res['unsupported'][f'engine: {e}'[:300]] = 1
        r = self.res
        r['functions'] = sorted(f for f in fns if not f.endswith('<module>'))
        r['stats'] = E.stats
        r['exhausted'] = E.exhausted
        r['stop_reason'] = E.stop_reason
        r['wall'] = time.time() - t0
        r['conclusive'] = bool(E.exhausted and not r['violations'] and not r['unsupported'] and not r['unknowns'] and not r['unreproduced']
                               and not r['validation_mismatch'] and r['checks'] > 0 and not r['error'])
        return r


def _child(conn, prop, h, known, L, seed, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except Exception:
        pass
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        if not os.environ.get('SYMX_DEBUG'):
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        res = Job(prop, h, known, L, seed).run()
    except BaseException as e:
        res = dict(name=h.name, bounds=h.bounds, error=''.join(traceback.format_exception(e)[-6:])[-1500:], violations=[], known=[], conclusive=False)
    try:
        conn.send(res)
    except Exception as e:
        conn.send(dict(name=h.name, bounds=h.bounds, error=f'send: {e}', violations=[], known=[], conclusive=False))
    conn.close()
    os._exit(0)


def run_property(prop, hs, tier, seed, known, technique_note='', procs=None, budget=700):
    t0 = time.time()
    procs = procs or int(os.environ.get('SYMX_PROCS', '8'))
    import surfalize  # noqa: the real package, for replays
    from . import sio_fronts
    base = loader.Loader(fronts=sio_fronts())
    loader.CURRENT[0] = base
    load_error = None
    try:
        base.load('surfalize')
        base.load('surfalize.file')
        base.load('surfalize.batch')
        base.load('surfalize.mathutils')
    except Unsupported as e:
        load_error = f'Unsupported: {e}'
    queue = sorted([h for h in hs if tier == 'thorough' or h.tier == 'quick'], key=lambda h: -h.time)
    running, results = [], []
    stop = False
    ctx = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < procs and not stop and time.time() - t0 < budget:
            h = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, prop, h, known, base, seed, 8 << 30))
            p.start()
            b.close()
            running.append((p, a, h, time.time()))
        if not running:
            break
        time.sleep(0.01)
        for it in list(running):
            p, a, h, ts = it
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(name=h.name, bounds=h.bounds, error=f'worker died (exit {p.exitcode})', violations=[], known=[], conclusive=False)
            elif not p.is_alive():
                got = dict(name=h.name, bounds=h.bounds, error=f'worker died (exit {p.exitcode})', violations=[], known=[], conclusive=False)
            elif time.time() - ts > h.time * 1.5 + 40:
                got = dict(name=h.name, bounds=h.bounds, error='time limit', violations=[], known=[], conclusive=False)
            if got is not None:
                p.kill()
                p.join()
                a.close()
                running.remove(it)
                results.append(got)
                if got['violations']:
                    stop = True
        if stop:
            queue = []
    for h in queue:
        results.append(dict(name=h.name, bounds=h.bounds, error='not started: budget', violations=[], known=[], conclusive=False))
    return finish(prop, tier, seed, results, known, time.time() - t0, technique_note, load_error)


def finish(prop, tier, seed, results, known, wall, note, load_error):
    tot = {}
    for r in results:
        for k, v in (r.get('stats') or {}).items():
            tot[k] = tot.get(k, 0) + v
    S = lambda k: sum(r.get(k, 0) for r in results)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(wall, 3),
              coverage=dict(
                  states=tot.get('paths', 0), transitions=tot.get('branches', 0),
                  traces_validated_against_impl=S('validated'),
                  samples=[s for r in results for s in r.get('samples', [])][:6] or [dict(note='no sample')],
                  technique='symbolic execution of the current source of /repo on exact real arithmetic, z3 decides every assertion on every path',
                  functions_encoded=sorted({f for r in results for f in r.get('functions', [])}),
                  bounds={r['name']: r.get('bounds') for r in results},
                  paths=tot.get('paths', 0), infeasible_paths=tot.get('infeasible', 0),
                  branch_queries=tot.get('branch_queries', 0), assertion_queries=tot.get('check_queries', 0),
                  discharged_by_solver=tot.get('discharged', 0), discharged_by_normal_form=tot.get('trivially', 0),
                  solver_unknown=tot.get('unknown', 0), solver_seconds=round(tot.get('solver_s', 0), 3),
                  reachability_witnesses=S('witnesses'), values_compared_with_implementation=S('values_compared'),
                  exhaustive_within_bounds=all(r.get('conclusive') for r in results),
                  harnesses=[dict(name=r['name'], conclusive=r.get('conclusive'), exhausted=r.get('exhausted'), stop_reason=r.get('stop_reason'),
                                  paths=(r.get('stats') or {}).get('paths'), checks=r.get('checks'), wall_s=round(r.get('wall') or 0, 2),
                                  unknown=r.get('unknowns'), unsupported=r.get('unsupported'), not_reproduced=r.get('unreproduced'),
                                  mismatch=r.get('validation_mismatch'), error=r.get('error'), skipped=r.get('skipped'), boundary_paths=r.get('boundary', 0))
                             for r in results],
                  note=note),
              )
    if load_error:
        ev['coverage']['load_error'] = load_error
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    kn = sorted({k for r in results for k in r.get('known', [])})
    for k in known:
        if k['id'] in kn:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    bad = [(r['name'], v) for r in results for v in r['violations']]
    for r in sorted(results, key=lambda r: r['name']):
        st = r.get('stats') or {}
        flag = 'ok' if r.get('conclusive') else ('VIOLATED' if r['violations'] else 'INCONCLUSIVE')
        print(f"  {r['name']:<34} {flag:<13} paths={st.get('paths', 0)} queries={st.get('check_queries', 0)}"
              f" (solver {st.get('discharged', 0)}, normal form {st.get('trivially', 0)}, unknown {st.get('unknown', 0)})"
              f" witnesses={r.get('validated', 0)}/{r.get('witnesses', 0)} {round(r.get('wall') or 0, 1)}s", end='')
        if flag == 'INCONCLUSIVE':
            print('  <-', r.get('error') or r.get('unsupported') or r.get('unreproduced') or r.get('unknowns') or r.get('validation_mismatch') or r.get('stop_reason') or 'no checks', end='')
        print()
    for n, v in bad[:5]:
        print(f"  {n}: {v['label']}: {v['detail']} ({v['origin']})")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    print(f"{prop}: {len(results)} harnesses, {tot.get('paths', 0)} paths, {tot.get('check_queries', 0)} assertions, "
          f"{sum(1 for r in results if r.get('conclusive'))} conclusive, {wall:.1f}s, solver {tot.get('solver_s', 0):.1f}s")
    return 1 if bad else 0


def replay(prop, hs, path):
    with open(path) as f:
        d = json.load(f)
    h = next(h for h in hs if h.name == d['harness'])
    inputs = {k: Fraction(v) for k, v in d['inputs'].items()}
    st, det, env = Job(prop, h, [], None).concrete(inputs)
    print(st, det)
    if st == 'fail':
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    return 0
