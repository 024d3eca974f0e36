"""Driver: run the cases of one property in parallel, replay counterexamples, write evidence."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(4000)

from checks import lib                                         # noqa: E402
from checks.lib import Violation, PathEnd, SymH, RealH         # noqa: E402
from eng import core, csym                                     # noqa: E402
from eng.core import Unsupported, Inconclusive                 # noqa: E402

PY = sys.executable


class Case(object):
    def __init__(self, name, fn, params=None, timeout=120, max_paths=3000, flags=None, qt=20000):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.timeout = timeout
        self.max_paths = max_paths
        self.flags = flags or {}
        self.qt = qt


class TimeUp(BaseException):
    pass


def _alarm(sig, frame):
    raise TimeUp()


# ------------------------------------------------------------------ which functions were executed symbolically

class Funcs(object):
    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None or self.on:
            return
        try:
            mon.use_tool_id(4, 'verif')
        except ValueError:
            return
        pkg = os.path.join(csym.REPO, 'spherepy') + os.sep

        def cb(code, off):
            if code.co_filename.startswith(pkg):
                self.seen.add('%s:%s' % (os.path.basename(code.co_filename), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(4, mon.events.PY_START, cb)
        mon.set_events(4, mon.events.PY_START)
        self.on = True


FUNCS = Funcs()


def run_case(case, known):
    """symbolic execution of one case -> result dict"""
    core.STATS.__init__()
    FUNCS.seen = set()
    FUNCS.start()
    t0 = time.time()
    res = {'name': case.name, 'params': _jsonable(case.params), 'status': 'ok', 'claims': 0, 'detail': '',
           'known': [], 'reach': 0, 'dead': 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(case.timeout))
    cands = []
    falls = []
    try:
        if getattr(case.fn, 'custom', False):
            case.fn(res, case, known)
        else:
            def body(c):
                for k, v in case.flags.items():
                    c.flags[k] = v
                h = SymH(c, known)
                try:
                    case.fn(h, **case.params)
                except PathEnd:
                    return h, None
                except Violation as v:
                    return h, v
                except (Unsupported, Inconclusive) as e:
                    # cannot be encoded or decided; an input of this path may still show a violation by itself
                    try:
                        if len(falls) < 2 and h._pin(h.z3.BoolVal(True)):
                            # generic values of the inputs
                            falls.append({'label': 'undecided path', 'detail': str(e)[:200], 'inputs': h.model_inputs(h._model_),
                                          'crash': False})
                        elif len(falls) < 2 and str(c.check()) == 'sat':
                            falls.append({'label': 'undecided path', 'detail': str(e)[:200], 'inputs': h.model_inputs(c.full_model()),
                                          'crash': False})
                    except Exception:
                        pass
                    raise
                except RecursionError:
                    raise Inconclusive('recursion')
                except Exception as e:
                    # the code under test raised: a violation unless the replay says otherwise
                    r = c.check()
                    if str(r) == 'unsat':
                        return h, None
                    tb = traceback.extract_tb(e.__traceback__)
                    where = ' <- '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[::-1][:4])
                    v = Violation('no exception', '%s: %s (%s)' % (type(e).__name__, str(e)[:200], where),
                                  h.model_inputs(c.full_model()) if str(r) == 'sat' else {})
                    v.crash = True
                    return h, v
                return h, None
            for c, (h, v) in core.explore(body, case.max_paths, case.qt):
                res['claims'] += h.claims
                for k in h.known_hits:
                    if k not in res['known']:
                        res['known'].append(k)
                if v is not None:
                    cands.append({'label': v.label, 'detail': v.detail, 'inputs': v.inputs,
                                  'crash': bool(getattr(v, 'crash', False))})
                    if len(cands) >= 6:
                        break
                elif h.claims:
                    # reachability twin: the path's assumptions are satisfiable
                    if c.forked or len(c.conds) > 2 * c.nvar:
                        r = str(c.check())
                    else:
                        r = 'sat'
                    res['reach' if r != 'unsat' else 'dead'] += 1
            if cands:
                res['status'] = 'violation'
                res['cands'] = cands
            elif res['reach'] == 0:
                res['status'] = 'undecided'
                res['detail'] = 'no claim was reached'
    except TimeUp:
        res['status'] = 'violation' if cands else 'undecided'
        res['cands'] = cands
        res['detail'] = 'time limit %ds' % case.timeout
    except (Unsupported, Inconclusive) as e:
        res['status'] = 'violation' if cands else 'undecided'
        res['cands'] = cands
        res['detail'] = '%s: %s' % (type(e).__name__, str(e)[:600])
    except MemoryError:
        res['status'] = 'undecided'
        res['detail'] = 'memory'
    except Exception as e:
        res['status'] = 'violation' if cands else 'undecided'
        res['cands'] = cands
        res['detail'] = 'engine: %s' % ''.join(traceback.format_exception(e)[-3:])[-800:]
    finally:
        signal.alarm(0)
    if res['status'] == 'undecided' and falls:
        res['cands'] = falls
    S = core.STATS
    res.update(queries=S.queries, solver_s=S.solver_s, paths=S.paths, forks=S.forks, verdicts=dict(S.verdicts),
               assumptions=sorted(S.assumptions), terms=S.max_terms, funcs=sorted(FUNCS.seen), wall=time.time() - t0)
    mon = getattr(sys, 'monitoring', None)
    if mon is not None:
        mon.restart_events()
    return res


def _jsonable(p):
    try:
        json.dumps(p)
        return p
    except TypeError:
        return {k: repr(v) for k, v in p.items()}


_G = {}


def _worker(i):
    case = _G['cases'][i]
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    return i, run_case(case, _G['known'])


# ------------------------------------------------------------------ replay

def replay_main(path):
    """run one counterexample against the real package; exit 1 if it shows the violation"""
    with open(path) as f:
        d = json.load(f)
    from eng import real
    root = real.build()
    sys.path.insert(0, root)
    for k in [k for k in sys.modules if k == 'spherepy' or k.startswith('spherepy.')]:
        del sys.modules[k]
    os.environ.setdefault('MPLBACKEND', 'Agg')
    mod = importlib.import_module('checks.' + d['module'])
    case = [c for c in mod.cases('thorough') + mod.cases('quick') if c.name == d['case']][0]
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    import io
    import numpy as np
    out = sys.stdout
    try:
        os.chdir(tmp)
        if getattr(case.fn, 'custom', False):
            r = case.fn.replay(case, d, root)
        else:
            sys.stdout = io.StringIO()
            np.seterr(all='ignore')
            h = RealH(d['inputs'], tmp)
            h.real_root = root
            try:
                case.fn(h, **case.params)
                r = None
            except PathEnd:
                r = None
            except Violation as v:
                r = '%s: %s' % (v.label, v.detail)
            except Exception as e:
                r = 'no exception: %s: %s' % (type(e).__name__, e)
    finally:
        sys.stdout = out
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)
    if r:
        print('REPRODUCED %s' % r)
        return 1
    print('not reproduced')
    return 0


def try_replay(prop, module, case_name, cand):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    safe = ''.join(ch if ch.isalnum() or ch in '-_.' else '_' for ch in case_name)[:80]
    path = os.path.join(d, '%s-%s-%d.json' % (prop, safe, abs(hash(json.dumps(cand, default=str))) % 10 ** 8))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'module': module, 'case': case_name, 'label': cand['label'],
                   'detail': cand['detail'], 'inputs': cand['inputs'], 'extra': cand.get('extra')}, f, indent=1,
                  default=str)
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'bin', 'replay'), path], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return path, None, 'replay timed out'
    ok = p.returncode == 1 and 'REPRODUCED' in p.stdout
    if not ok and not (p.returncode == 0 and 'not reproduced' in p.stdout):
        # the process died: for memory errors that is the violation itself
        if p.returncode < 0:
            return path, True, 'the real code crashed with signal %d' % -p.returncode
        return path, None, p.stdout[-600:]
    return path, ok, p.stdout.strip()[-400:]


# ------------------------------------------------------------------ main

def main(prop, tier, only=None, verbose=False, jobs=None):
    t0 = time.time()
    mod = importlib.import_module('checks.' + prop.lower())
    known = [k for k in lib.load_known() if k.get('property') == prop]
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    total = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 6 * 3600))
    try:
        csym.build_sym()
        build_err = None
    except Exception as e:
        build_err = e
        print('note: %s' % str(e)[:1500])
    results = []
    viol = None
    notes = []
    _G['cases'] = cases
    _G['known'] = known
    jobs = jobs or int(os.environ.get('VERIF_JOBS', 8))
    # a third of the cases, the lightest, before the heavy ones: most counterexamples are small
    order = sorted(range(len(cases)), key=lambda i: getattr(cases[i], 'weight', 0))
    order = order[:len(order) // 3] + order[len(order) // 3:][::-1]
    pool = mp.get_context('fork').Pool(min(jobs, max(1, len(cases))))
    replays = 0
    try:
        it = pool.imap_unordered(_worker, order)
        for _ in range(len(order)):
            try:
                i, r = it.next(timeout=max(1.0, total - (time.time() - t0)))
            except mp.TimeoutError:
                notes.append('time budget of %ds used up with %d of %d cases done' % (total, len(results), len(cases)))
                break
            results.append(r)
            if verbose:
                print('%-12s %-40s %6.1fs claims=%d paths=%d q=%d (%.1fs) %s' % (
                    r['status'], r['name'], r['wall'], r['claims'], r['paths'], r['queries'], r['solver_s'],
                    r['detail'][:700]), flush=True)
            if r['status'] == 'violation' and viol is None:
                bad = []
                for cand in r['cands']:
                    if replays >= 25:
                        break
                    replays += 1
                    path, ok, txt = try_replay(prop, prop.lower(), r['name'], cand)
                    if ok:
                        viol = (path, r['name'], cand, txt)
                        break
                    os.unlink(path)
                    bad.append('%s: %s [%s]' % (cand['label'], cand['detail'], txt))
                if viol is not None:
                    if not verbose:
                        break
                else:
                    r['status'] = 'undecided'
                    r['tried'] = True
                    r['detail'] += ' counterexample not reproduced: ' + '; '.join(bad)[:1500]
                    if verbose:
                        print('   ' + r['detail'])
    finally:
        pool.terminate()
        pool.join()
    # an input of a path that could not be decided is no verdict, but when the real code violates the property on it, it is reported
    for r in [r for r in results if r['status'] == 'undecided' and r.get('cands') and not r.get('tried')][:8]:
        if viol is not None or replays >= 25 or time.time() - t0 > total - 60:
            break
        for cand in r['cands']:
            replays += 1
            path, ok, txt = try_replay(prop, prop.lower(), r['name'], cand)
            if ok:
                viol = (path, r['name'], cand, txt)
                break
            os.unlink(path)
    wall = time.time() - t0
    opt = set(c.name for c in cases if getattr(c, 'optional', False))
    for r in results:
        if r['status'] == 'undecided' and r['name'] in opt:
            notes.append('not decided (optional): %s: %s' % (r['name'], r['detail'][:300]))
    und = [r for r in results if r['status'] == 'undecided' and r['name'] not in opt]
    missing = len([c for c in cases if c.name not in opt and c.name not in set(r['name'] for r in results)])
    write_evidence(prop, tier, mod, cases, results, viol, wall, notes, und, build_err)
    shown = set()
    for r in results:
        for k in r['known']:
            if k['text'] not in shown:
                shown.add(k['text'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    q = sum(r['queries'] for r in results)
    print('%s %s: %d cases, %d paths, %d claims, %d queries (%s), solver %.1fs, wall %.1fs' % (
        prop, tier, len(results), sum(r['paths'] for r in results), sum(r['claims'] for r in results), q,
        ', '.join('%s %d' % (k, sum(r['verdicts'][k] for r in results)) for k in ('unsat', 'sat', 'unknown')),
        sum(r['solver_s'] for r in results), wall))
    if viol is not None:
        path, name, cand, txt = viol
        print('counterexample in case %s: %s: %s' % (name, cand['label'], cand['detail']))
        print('replay: %s' % txt)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if und or missing:
        for r in und:
            print('UNDECIDED %s: %s' % (r['name'], r['detail'][:1500]))
        if missing:
            print('UNDECIDED %d cases not finished' % missing)
        # what was decided holds; the rest is named above and in the evidence.  Too much of it undecided is no answer
        return 2 if 4 * (len(und) + missing) > len(cases) - len(opt) else 0
    return 0


def write_evidence(prop, tier, mod, cases, results, viol, wall, notes, und, build_err):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    funcs = sorted(set(f for r in results for f in r['funcs']))
    ass = sorted(set(a for r in results for a in r['assumptions']))
    ver = {k: sum(r['verdicts'][k] for r in results) for k in ('unsat', 'sat', 'unknown')}
    cov = {
        'explanation': 'Symbolic execution of the code in /repo (regenerated from source on this run) with the inputs of '
                       'each case as solver variables; every claim is an SMT query over all input values within the '
                       'bounds. ' + getattr(mod, 'WHAT', ''),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'outside_bounds': getattr(mod, 'OUTSIDE', ''),
        'cases_total': len(cases),
        'cases_decided': len([r for r in results if r['status'] == 'ok']),
        'cases_undecided': [r['name'] + ': ' + r['detail'][:300] for r in und],
        'paths': sum(r['paths'] for r in results),
        'forks': sum(r['forks'] for r in results),
        'paths_reachable': sum(r['reach'] for r in results),
        'paths_unreachable': sum(r['dead'] for r in results),
        'claims': sum(r['claims'] for r in results),
        'queries': sum(r['queries'] for r in results),
        'verdicts': ver,
        'solver_s': round(sum(r['solver_s'] for r in results), 3),
        'functions_encoded': funcs + sorted(set(f for r in results for f in r.get('cfuncs', []))),
        'samples': [{'case': r['name'], 'params': r['params'], 'claims': r['claims'], 'paths': r['paths'],
                     'queries': r['queries'], 'solver_s': round(r['solver_s'], 3)} for r in
                    sorted(results, key=lambda r: r['name'])[:12]],
        'notes': notes,
    }
    if viol:
        cov['violation'] = {'case': viol[1], 'label': viol[2]['label'], 'detail': viol[2]['detail'], 'replay': viol[0]}
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': ass + list(getattr(mod, 'ASSUMES', [])), 'wall_s': round(wall, 2),
          'violations': 1 if viol else 0}
    t = os.path.join(d, prop + '.json.tmp%d' % os.getpid())
    with open(t, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(t, os.path.join(d, prop + '.json'))
