"""Runner: python -m pyver.run check C04 [quick|thorough] | dev C04 [filter] | replay FILE"""
import builtins
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYVER_REPO', '/repo')
for k, v in dict(PYTHONHASHSEED='0', MPLBACKEND='Agg', RUBIN_SIM_DATA_DIR='/opt/vp/rubin_sim_data', LC_ALL='C.UTF-8',
                 ASTROPY_CONFIG_DIR='/opt/vp/astropy_config', USER='root', TZ='UTC', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1').items():
    os.environ[k] = v
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)
import numpy as np  # noqa
from pyver import terms as T  # noqa
import z3  # noqa
from pyver import prover, api, npmodel, ctx
from pyver.sym import Unsupported, PathEnd, CUR
from pyver.engine import Engine, Patched
from pyver.ctx import SymCtx, ConCtx, Skip, Violation, model_valuation

EVID = os.environ.get('PYVER_EVID', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


class TimeUp(BaseException):
    pass


def _alarm(sig, frm):
    raise TimeUp()


@contextlib.contextmanager
def limit(seconds):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield
    finally:
        sys.stdout, sys.stderr = so, se


# ---------------------------------------------------------------- symbolic side
def run_symbolic(c, tier, verbose=False):
    """-> dict(status, obls=[...], paths, reason)"""
    timeout = c.timeout_ms * (3 if tier == 'thorough' else 1)
    e = Engine(timeout_ms=timeout, budget_s=c.budget * (3 if tier == 'thorough' else 1), collect_safety=c.safety)
    e.MAXPATHS = c.max_paths
    e.loop_specs = c.loops.get('specs', {}) if c.loops else {}
    reach = {'n': 0, 'ens': 0}

    def one(eng):
        S = SymCtx(eng)
        try:
            c.body(S)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            where = next((f for f in reversed(tb) if REPO in f.filename), tb[-1])
            nm = 'no %s raised at %s' % (type(ex).__name__, where.name)
            if verbose:
                traceback.print_exc()
            eng.obligation(nm, z3.BoolVal(False), kind='exception')
            reach['n'] += 1
            return
        reach['ens'] += S.reached
        if S.reached and eng.reachable():
            reach['n'] += 1

    t0 = time.time()
    q0 = prover.STATS.solver_time
    out = dict(status='ok', reason=None, obls=[], paths=0)
    try:
        with limit(e.budget + 20):
            with quiet() if not verbose else contextlib.nullcontext():
                lp = {m: {q: v for q, v in d.items()} for m, d in c.loops.get('sites', {}).items()} if c.loops else {}
                with Patched(c.modules(), extra=c.extra, loops=lp, stubs=c.stubs):
                    e.explore(one)
    except Unsupported as u:
        out['status'], out['reason'] = 'unsupported', str(u)
        if verbose:
            traceback.print_exc()
    except TimeUp:
        out['status'], out['reason'] = 'unsupported', 'time budget exhausted'
    except z3.Z3Exception as u:
        out['status'], out['reason'] = 'unsupported', 'z3: ' + str(u)[:200]
        if verbose:
            traceback.print_exc()
    except RecursionError:
        out['status'], out['reason'] = 'unsupported', 'recursion'
    finally:
        CUR.eng = None
    out['paths'] = e.paths
    for o in e.obls:
        r = o.result
        d = dict(name=o.name, kind=o.kind, status=r['status'], backend=r['backend'], abstract=r['abstract'],
                 t=round(o.time, 3))
        if r['status'] == 'refuted' and r['model'] is not None:
            try:
                d['valuation'] = model_valuation(o.inputs, r['model'])
                d['model'] = str(r['model'])[:3000]
            except Exception as ex:
                d['valuation'] = None
        out['obls'].append(d)
    if out['status'] == 'ok' and (reach['n'] == 0 or not any(o.kind == 'post' for o in e.obls)):
        out['status'], out['reason'] = 'vacuous', 'no reachable postcondition'
    out['wall'] = round(time.time() - t0, 2)
    out['solver_time'] = round(prover.STATS.solver_time - q0, 2)
    return out


# ---------------------------------------------------------------- concrete side
def standin_short(ex):
    """code asks a stand-in for an attribute it was not given: an object of the contract's own, or one made without
    its constructor although the constructor sets that attribute"""
    if not isinstance(ex, AttributeError) or getattr(ex, 'obj', None) is None or not getattr(ex, 'name', None):
        return False
    cls = type(ex.obj)
    if (cls.__module__ or '').startswith('contracts'):
        return True
    if not any(o is ex.obj for o in ctx.STANDINS):
        return False
    for k in cls.__mro__:
        f = k.__dict__.get('__init__')
        if f is not None and hasattr(f, '__code__') and ex.name in f.__code__.co_names:
            return True
    return False


def private_gone(ex, last):
    """a contract on a private helper that no longer exists (renamed, inlined, other signature) decides nothing"""
    if standin_short(ex):
        return True
    if not last.filename.startswith(os.path.join(VERIF, 'contracts')):
        return False
    if isinstance(ex, AttributeError):
        n = getattr(ex, 'name', None) or ''
        return n.startswith('_') and not n.startswith('__')
    if isinstance(ex, TypeError):
        return bool(re.search(r'\b_[a-z]\w*\(\) (missing|takes|got)', str(ex)))
    return False


def run_once(c, S):
    """-> None if the contract held, 'skip', or (obligation, detail)"""
    del ctx.STANDINS[:]
    try:
        with quiet():
            c.body(S)
    except Skip:
        return 'skip'
    except Violation as v:
        return (v.name, v.detail)
    except (TimeUp, KeyboardInterrupt):
        raise
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = next((f for f in reversed(tb) if f.filename.startswith(REPO)), None)
        if private_gone(ex, tb[-1]):
            S.inapplicable = str(ex)
            return 'skip'
        if where is None or not any(f.filename.startswith(REPO) for f in tb[1:]):
            # raised by the specification itself: code returned something the specification cannot read
            return ('result has the documented form', '%s: %s' % (type(ex).__name__, ex))
        return ('no %s raised at %s' % (type(ex).__name__, where.name), str(ex)[:300])
    return None


def run_concrete(c, seed, tier, known, extra_secs=0, stop_first=True):
    n = c.trials or (1500 if c.bounded else 400)
    secs = 12.0
    if tier == 'thorough':
        n, secs = n * 15, 150.0
    if extra_secs:
        n, secs = n * 10, extra_secs
    base = int(hashlib.sha256(('%s/%s/%s' % (seed, c.prop, c.name)).encode()).hexdigest()[:12], 16)
    t0 = time.time()
    acc = skip = triv = 0
    sample = None
    fails = []
    knownhits = []
    try:
        with limit(secs + 60):
            for t in range(n):
                if time.time() - t0 > secs and acc >= 5:
                    break
                rnd = random.Random(base + t)
                size = c.size if t % 3 else max(1, c.size // 3)
                if t % 11 == 10:
                    size = c.size * 3
                S = ConCtx(rnd, size_hint=size)
                np.random.seed((base + t) % (2 ** 32))
                r = run_once(c, S)
                if r == 'skip':
                    skip += 1
                    continue
                acc += 1
                if S.checked == 0 and r is None:
                    triv += 1
                elif sample is None and t > 2:
                    sample = jsonable(S.draws)
                if r is not None:
                    k = match_known(known, c, r[0])
                    if k:
                        knownhits.append(k)
                        continue
                    fails.append(dict(obligation=r[0], detail=r[1], draws=jsonable(S.draws), trial=t))
                    if stop_first:
                        break
    except TimeUp:
        pass
    return dict(trials=acc, skipped=skip, trivial=triv, sample=sample, fails=fails, known=sorted(set(knownhits)), wall=round(time.time() - t0, 2))


def replay_valuation(c, val):
    if val is None:
        return None
    try:
        with limit(30):
            S = ConCtx(random.Random(1), given=val)
            np.random.seed(1)
            r = run_once(c, S)
    except TimeUp:
        return None
    if r is None or r == 'skip':
        return None
    return dict(obligation=r[0], detail=r[1], draws=jsonable(S.draws), trial='counter-model')


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'known: property=(\S+) contract="([^"]*)" obligation="([^"]*)" (.*)', line)
            if m:
                out.append(m.groups())
    return out


def match_known(known, c, obl):
    for p, cn, on, what in known:
        if p == c.prop and cn == c.name and on == obl:
            return '%s %s' % (p, what)
    return None


def work(args):
    key, seed, tier, verbose = args
    c = api.REG[key]
    known = load_known()
    res = dict(key=key, name=c.name, functions=c.fns, bounded_reason=c.bounded)
    t0 = time.time()
    res['concrete'] = run_concrete(c, seed, tier, known)
    if res['concrete']['fails']:
        res['verdict'] = 'violated'
        res['failure'] = res['concrete']['fails'][0]
        # name the failed obligation as well, when the verifier reaches it
        if not c.bounded:
            res['sym'] = run_symbolic(c, tier, verbose)
        res['wall'] = round(time.time() - t0, 2)
        return res
    if res['concrete']['trials'] == 0:
        res['note'] = 'no concrete input satisfied the preconditions'
    if c.bounded:
        res['verdict'] = 'bounded'
        res['wall'] = round(time.time() - t0, 2)
        return res
    sym = run_symbolic(c, tier, verbose)
    res['sym'] = sym
    bad = [o for o in sym['obls'] if o['status'] != 'proved']
    post_bad = [o for o in bad if o['kind'] != 'safety']
    fail = None
    for o in bad:
        if o.get('valuation') is not None:
            f = replay_valuation(c, o['valuation'])
            if f is not None and not match_known(known, c, f['obligation']):
                f['verifier_obligation'] = o['name']
                fail = f
                break
    if fail is None and post_bad:
        r2 = run_concrete(c, str(seed) + 'x', 'quick', known, extra_secs=40)
        res['search'] = dict(trials=r2['trials'], wall=r2['wall'])
        if r2['fails']:
            fail = r2['fails'][0]
    if fail is not None:
        res['verdict'], res['failure'] = 'violated', fail
    elif sym['status'] != 'ok':
        res['verdict'] = 'bounded'
        res['bounded_reason'] = 'verifier: ' + sym['reason']
    elif not bad:
        res['verdict'] = 'proved'
    else:
        ref = [o for o in post_bad if o['status'] == 'refuted' and o['kind'] == 'post']
        if ref and os.path.exists(os.path.join(VERIF, 'BASELINE_PROVED.txt')) and key in open(os.path.join(VERIF, 'BASELINE_PROVED.txt')).read().split('\n'):
            res['verdict'] = 'refuted'
            res['failure'] = dict(obligation=ref[0]['name'], detail='obligation refuted by the verifier; no failing input found',
                                  verifier_obligation=ref[0]['name'], model=ref[0].get('model'), valuation=ref[0].get('valuation'))
        elif not post_bad:
            res['verdict'] = 'proved-partial'
            res['bounded_reason'] = 'definedness obligations not discharged: ' + ', '.join(sorted({o['name'] for o in bad}))
        else:
            res['verdict'] = 'bounded'
            res['bounded_reason'] = 'obligations not discharged: ' + ', '.join(sorted({o['name'] for o in post_bad}))
    res['wall'] = round(time.time() - t0, 2)
    return res


def _child(q, a):
    try:
        q.put(work(a))
    except BaseException as ex:
        q.put(dict(key=a[0], name=api.REG[a[0]].name, functions=api.REG[a[0]].fns, verdict='error',
                   error=traceback.format_exc()[-2000:], bounded_reason=None))


def run_all(keys, seed, tier, jobs=8, hard=420):
    """one process per contract, at most `jobs` at a time"""
    if tier == 'thorough':
        hard = 2400
    ctx = mp.get_context('fork')
    pend = list(keys)
    live = {}
    out = {}
    while pend or live:
        while pend and len(live) < jobs:
            k = pend.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_child, args=(q, (k, seed, tier, False)))
            p.start()
            live[k] = (p, q, time.time())
        for k, (p, q, t) in list(live.items()):
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=1)
                    except Exception:
                        r = dict(key=k, name=api.REG[k].name, functions=api.REG[k].fns, verdict='error', error='process died', bounded_reason=None)
                elif time.time() - t > hard:
                    r = dict(key=k, name=api.REG[k].name, functions=api.REG[k].fns, verdict='error', error='hard timeout', bounded_reason=None)
            if r is not None:
                out[k] = r
                p.join(timeout=2)
                if p.is_alive():
                    p.kill()
                del live[k]
        time.sleep(0.02)
    return [out[k] for k in keys]


def load(prop):
    for f in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
        if f.startswith(prop.lower()) and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])


def fallback(keys, res, seed):
    """contracts whose process died or timed out get their concrete part again, in isolation"""
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    load(prop)
    keys = sorted(k for k in api.REG if k.startswith(prop + '/'))
    if not keys:
        print('no contracts for %s' % prop)
        return 2
    # long ones first
    keys.sort(key=lambda k: (-api.REG[k].budget, k))
    res = run_all(keys, seed, tier)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    viol = []
    for r in res:
        if r['verdict'] in ('violated', 'refuted'):
            path = os.path.join(EVID, 'replay', '%s_%s.json' % (prop, re.sub(r'\W+', '_', r['name'])))
            json.dump(dict(property=prop, contract=r['key'], functions=r['functions'], failure=r['failure'],
                           verifier=r.get('sym')), open(path, 'w'), indent=1, default=str)
            viol.append((r, path))
    known = sorted({k for r in res for k in r.get('concrete', {}).get('known', [])})
    ob = [o for r in res for o in r.get('sym', {}).get('obls', [])]
    proved = [r for r in res if r['verdict'] == 'proved']
    partial = [r for r in res if r['verdict'] == 'proved-partial']
    bounded = [r for r in res if r['verdict'] in ('bounded', 'error')]
    backs = {}
    for o in ob:
        if o['status'] == 'proved':
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
    ndis = sum(o['status'] == 'proved' for o in ob)
    fns_p = sorted({f for r in proved + partial for f in r['functions']})
    fns_b = sorted({f for r in bounded for f in r['functions']} - set(fns_p))
    assumptions = list(GENERAL_ASSUMPTIONS) + sorted({a for k in keys for a in api.REG[k].assumes})
    ntr = sum(r.get('concrete', {}).get('trials', 0) for r in res)
    level = 'proof' if proved and not bounded and not partial else ('mixed' if proved else 'bounded')
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVELS.get(level, level),
              coverage=dict(
                  obligations=len(ob), discharged=ndis, undischarged=len(ob) - ndis,
                  checker_cmd='cd /verif && ./check %s %s' % (prop, tier),
                  trusted_base=['pyver symbolic executor and numpy model (/verif/pyver)', 'z3 %s' % z3.get_version_string(), 'cvc5', 'CPython 3.12'],
                  functions_under_contract=fns_p, functions_bounded_only=fns_b,
                  contracts=len(res), contracts_proved=len(proved), contracts_proved_partial=len(partial), contracts_bounded=len(bounded),
                  backends=backs, solver_seconds=round(sum(r.get('sym', {}).get('solver_time', 0) for r in res), 1),
                  paths=sum(r.get('sym', {}).get('paths', 0) for r in res),
                  evaluations=ntr, distinct_nontrivial=ntr - sum(r.get('concrete', {}).get('trivial', 0) for r in res),
                  rule='contracts run on the unmodified code under CPython with drawn inputs (dyadic values, ties, boundary values, empty and single-element tables); non-trivial: the preconditions hold and at least one postcondition was evaluated',
                  samples=[dict(contract=r['name'], input=r['concrete']['sample']) for r in res if r.get('concrete', {}).get('sample')][:4],
                  bounded_contracts=[dict(contract=r['name'], bound='%d drawn inputs' % r.get('concrete', {}).get('trials', 0), reason=r.get('bounded_reason') or r.get('error')) for r in bounded],
                  detail=[dict(contract=r['name'], functions=r['functions'], verdict=r['verdict'],
                               reason=r.get('bounded_reason') or r.get('error'),
                               obligations=len(r.get('sym', {}).get('obls', [])),
                               discharged=sum(o['status'] == 'proved' for o in r.get('sym', {}).get('obls', [])),
                               paths=r.get('sym', {}).get('paths', 0), trials=r.get('concrete', {}).get('trials', 0),
                               solver_s=r.get('sym', {}).get('solver_time', 0), wall_s=r.get('wall')) for r in res]),
              wall_s=round(time.time() - t0, 1), assumptions=assumptions,
              violations=[dict(contract=r['name'], obligation=r['failure']['obligation'], detail=str(r['failure'].get('detail')),
                               replay=p) for r, p in viol])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)
    for k in known:
        print('KNOWN-FINDING: property=%s' % k)
    for r in res:
        print('%-14s %-60s obl %d/%d trials %d %ss %s' % (
            r['verdict'], r['name'], sum(o['status'] == 'proved' for o in r.get('sym', {}).get('obls', [])),
            len(r.get('sym', {}).get('obls', [])), r.get('concrete', {}).get('trials', 0), r.get('wall'),
            (r.get('bounded_reason') or r.get('error') or '')[:200]))
    print('%s: %d contracts (%d proved, %d partly, %d bounded), %d/%d obligations discharged, %.0fs' % (
        prop, len(res), len(proved), len(partial), len(bounded), ndis, len(ob), time.time() - t0))
    for r, p in viol:
        f = r['failure']
        print('  %s: %s %s' % (r['name'], f['obligation'], f.get('detail', '')))
        print('VIOLATION property=%s replay=%s%s' % (prop, p, ' no-failing-input-found' if r['verdict'] == 'refuted' else ''))
    return 1 if viol else 0


LEVELS = {'mixed': 'proof', 'bounded': 'exploration'}
GENERAL_ASSUMPTIONS = [
    'floating-point numbers are treated as real numbers; rounding, overflow, nan and infinity are outside the proofs',
    'the functions of numpy used by the code behave as axiomatised in pyver/npmodel.py and pyver/prover.py',
    'array lengths are unbounded non-negative integers; machine integers are mathematical integers',
]


def dev(prop, filt, tier='quick'):
    load(prop)
    for k in sorted(api.REG):
        if not k.startswith(prop + '/') or (filt and filt not in k):
            continue
        r = work((k, int(os.environ.get('VERIF_SEED', '1')), tier, bool(filt)))
        s = r.get('sym', {})
        print('== %s: %s  trials %s(%s skipped) paths %s wall %s %s' % (
            r['name'], r['verdict'], r['concrete']['trials'], r['concrete']['skipped'], s.get('paths'), r['wall'],
            r.get('bounded_reason') or ''))
        if r['verdict'] in ('violated', 'refuted'):
            print('   FAIL', json.dumps(r['failure'], default=str)[:1500])
        if r['concrete']['known']:
            print('   known', r['concrete']['known'])
        agg = {}
        for o in s.get('obls', []):
            agg.setdefault((o['name'], o['kind'], o['status'], o['backend']), []).append(o)
        for (n, kd, st, b), os_ in agg.items():
            print('   %-8s %-8s %-22s x%d %.2fs  %s' % (st, kd, b, len(os_), sum(o['t'] for o in os_), n))
            if st == 'refuted' and filt:
                print('        ', str(os_[0].get('valuation'))[:400], 'abstract' if os_[0]['abstract'] else 'concrete')
    return 0


def replay(path):
    d = json.load(open(path))
    c_prop = d['property']
    load(c_prop)
    c = api.REG[d['contract']]
    f = d['failure']
    val = f.get('draws') or f.get('valuation')
    S = ConCtx(random.Random(1), given=val)
    r = run_once(c, S)
    print('replay of %s on %s: %s' % (d['contract'], REPO, r))
    return 1 if r not in (None, 'skip') else 0


def main():
    a = sys.argv[1:]
    if a[0] == 'check':
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[0] == 'dev':
        return dev(a[1], a[2] if len(a) > 2 else '', a[3] if len(a) > 3 else 'quick')
    if a[0] == 'replay':
        return replay(a[1])
    return 2


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
