"""Driver: shards, budgets, shrinking, replay files, evidence."""
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
NSHARDS = int(os.environ.get('PBT_SHARDS', '8'))
BUDGET = {'quick': 65.0, 'thorough': 1200.0}  # seconds
QUICK = {'C02': 80.0, 'C17': 35.0, 'C18': 40.0, 'C19': 45.0, 'C20': 30.0, 'C22': 25.0}
SHRINK = {'quick': 30.0, 'thorough': 120.0}
RSS_LIMIT = 3.0e9


def load(cid):
    return importlib.import_module(f'pbt.checks.{cid.lower()}').CHECK


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


class StopRun(BaseException):
    pass


class Stats:
    def __init__(self):
        self.evals = 0
        self.discards = {}
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self.excluded = 0

    def add(self, case, info):
        self.evals += 1
        for l in info.get('labels', ()):
            self.labels[l] = self.labels.get(l, 0) + 1
        if info.get('nontrivial', True):
            h = hashlib.sha1(dumps(case).encode()).hexdigest()[:16]
            if h not in self.nontrivial and len(self.samples) < 3:
                self.samples.append(case)
            self.nontrivial.add(h)

    def discard(self, why):
        why = why[:90]
        self.discards[why] = self.discards.get(why, 0) + 1

    def json(self):
        return dict(evals=self.evals, discards=self.discards, labels=self.labels, nontrivial=sorted(self.nontrivial), samples=self.samples)


# ------------------------------------------------------------------ one shard
def run_case(chk, case):
    """Runs one case; returns its info or raises Violation / Discard."""
    from . import oracle, progcheck
    from .oracle import Discard, Violation

    try:
        return run_once(chk, case)
    except Violation as v:
        if 'ad_util.Zero' in str(v) and any('sol' in n[0] or 'inv' in n[0] for n in case.get('nodes', [])):
            # jax.grad of jax.vmap of a linear solve fails for unused results, without folx too
            raise Discard('JAX cannot transpose this linear solve')
        # once more with a reference that is not compiled
        progcheck._LAST[:] = [None, None]
        oracle.PLAIN[0] = True
        try:
            run_once(chk, case)
        except Violation:
            if not progcheck.compiler_sensitive(case):
                raise
            import jax

            with jax.disable_jit():
                run_once(chk, case)
            raise Discard('wrong only where XLA fuses a comparison')
        finally:
            oracle.PLAIN[0] = False
            progcheck._LAST[:] = [None, None]
        raise Discard('the compiled reference deviates')


def run_once(chk, case):
    from .oracle import Discard, Violation

    try:
        return chk.run(case)
    except (Violation, Discard, MemoryError, StopRun):
        raise
    except Exception as e:
        raise Violation('unexpected ' + type(e).__name__ + ': ' + ' '.join(str(e).split())[:300] + ' | ' + ' < '.join(
            f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[::-1][:6]))


def shrink(chk, case, viol, seconds):
    """Structural shrinking: repeatedly takes the first simplification which still fails."""
    from .oracle import Discard, Violation

    t0, tried = time.time(), 0
    cur, cv = case, viol
    seen = {dumps(case)}
    while time.time() - t0 < seconds:
        for cand in chk.shrinks(cur, cv):
            if time.time() - t0 > seconds:
                break
            k = dumps(cand)
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            try:
                run_case(chk, cand)
            except Violation as v:
                cur, cv = cand, v
                break
            except (Discard, MemoryError):
                pass
            except Exception:
                pass
        else:
            break
    return cur, cv, tried


def shard_main(cid, seed, shard, start, budget, tier, out):
    from . import boot  # noqa: F401
    from .oracle import Discard, Violation

    t_end = time.time() + budget
    chk = load(cid)
    st = Stats()
    res = {'shard': shard, 'failure': None, 'harness': [], 'next': start, 'done': True}
    history = []

    def save():
        res.update(st.json())
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, out)

    save()
    last_save = time.time()

    def fail(case, v, tried):
        res['failure'] = {'case': case, 'message': str(v), 'shrink_steps': tried, 'history': history[-40:]}
        save()

    if hasattr(chk, 'strategy'):
        import jax
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import seed as hseed

        state = {'best': None, 't': None, 'n': 0}

        def body(case):
            if time.time() > (state['t'] + SHRINK[tier] if state['t'] else t_end):
                raise StopRun()
            state['n'] += 1
            if state['n'] % 200 == 0 and rss() > RSS_LIMIT / 2:
                jax.clear_caches()
            if time.time() > body.last + 5:
                body.last = time.time()
                save()
            try:
                info = run_case(chk, case)
                if state['t'] is None:
                    st.add(case, info)
            except Discard as e:
                st.discard(str(e))
            except MemoryError:
                st.discard('memory')
            except Violation as v:
                if state['t'] is None:
                    state['t'] = time.time()
                if state['best'] is None or len(dumps(case)) < len(dumps(state['best'][0])):
                    state['best'] = (case, v)
                raise

        body.last = time.time()
        rnd = start
        while time.time() < t_end and state['best'] is None:
            test = hseed(int(hashlib.sha1(f'{seed}:{cid}:{shard}:{rnd}'.encode()).hexdigest()[:12], 16))(
                settings(max_examples=getattr(chk, 'round', 400), database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], print_blob=False)(
                    given(chk.strategy())(body)))
            try:
                test()
            except StopRun:
                pass
            except Violation:
                pass
            except Exception:
                if state['best'] is None:
                    res['harness'].append(traceback.format_exc(limit=-6))
                    break
            rnd += 1
        if state['best'] is not None:
            fail(state['best'][0], state['best'][1], state['n'])
        res['next'] = rnd
        save()
        return

    from .rnd import Draw

    i = start
    rd = chk.reader(seed, shard, NSHARDS) if hasattr(chk, 'reader') else None
    while time.time() < t_end:
        d = Draw(f'{seed}:{cid}:{shard}:{i}')
        try:
            case = chk.decorate(d, rd.get(i)) if rd else chk.gen(d)
        except Discard as e:
            st.discard(str(e))
            i += 1
            continue
        except Exception:
            res['harness'].append(traceback.format_exc(limit=-8))
            if len(res['harness']) > 5:
                break
            i += 1
            continue
        i += 1
        case = json.loads(json.dumps(case))
        try:
            info = run_case(chk, case)
            st.add(case, info or {})
        except Discard as e:
            st.discard(str(e))
        except MemoryError:
            st.discard('memory')
        except Violation as v:
            fail(case, v, 0)  # in case the shrinking dies
            small, sv, tried = shrink(chk, case, v, SHRINK[tier])
            fail(small, sv, tried)
            return
        if getattr(chk, 'keep_history', False):
            history.append(case)
        if time.time() > last_save + 5:
            last_save = time.time()
            res['next'] = i
            save()
            if rss() > RSS_LIMIT / 2:
                import jax

                jax.clear_caches()
            if rss() > RSS_LIMIT:
                res['done'] = False
                break
    res['next'] = i
    save()


# ------------------------------------------------------------------ replay
def replay_main(cid, path):
    from . import boot  # noqa: F401
    from .oracle import Discard, Violation

    chk = load(cid)
    with open(path) as f:
        data = json.load(f)
    try:
        for c in data.get('history', []):
            try:
                run_case(chk, c)
            except Exception:
                pass
        run_case(chk, data['case'])
    except Violation as v:
        print('  ' + str(v))
        print(f'VIOLATION property={cid} replay={path}')
        return 1
    except Discard as e:
        print('not in the domain:', e)
        return 0
    print('the case passes')
    return 0


# ------------------------------------------------------------------ parent
def known_findings(cid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == cid]


def main(argv):
    cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    if '--replay' in argv:
        return replay_main(cid, argv[argv.index('--replay') + 1])
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    work = os.path.join('/tmp', f'pbt.{cid}.{os.getpid()}')
    os.makedirs(work)
    try:
        return run_parent(cid, tier, seed, t0, work)
    finally:
        subprocess.run(['rm', '-rf', work])


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def run_parent(cid, tier, seed, t0, work):
    budget = float(os.environ.get('PBT_BUDGET') or (QUICK.get(cid) if tier == 'quick' else None) or BUDGET[tier])
    t_end = t0 + budget
    env = dict(os.environ, PYTHONHASHSEED='0')
    outs, procs = [], {}

    def spawn(shard, start, gen):
        out = os.path.join(work, f'{shard}.{gen}.json')
        outs.append(out)
        procs[shard] = (subprocess.Popen(
            [PY, '-m', 'pbt.worker', cid, seed, str(shard), str(start), str(max(t_end - time.time(), 1)), tier, out],
            cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, f'{shard}.err'), 'a'), start_new_session=True), out, gen)

    for s in range(NSHARDS):
        spawn(s, 0, 0)

    def read(o):
        try:
            with open(o) as f:
                return json.load(f)
        except Exception:
            return None

    failure = None
    crashed = 0
    while procs:
        time.sleep(0.2)
        for s, (p, o, g) in list(procs.items()):
            if p.poll() is None:
                continue
            r = read(o)
            del procs[s]
            if r and r['failure'] and failure is None:
                failure = r['failure']
            elif p.returncode != 0:
                crashed += 1
                if time.time() < t_end - 10 and g < 50:
                    spawn(s, (r['next'] if r else 0) + 1, g + 1)
            elif r and not r['done'] and time.time() < t_end - 10:
                spawn(s, r['next'], g + 1)
        now = time.time()
        if failure is not None:
            break
        if now > t_end + SHRINK[tier] + 45:  # stuck
            break
        if now > t_end + 25:
            # only shards which are shrinking a failure may go on
            for s, (p, o, g) in list(procs.items()):
                r = read(o)
                if not (r and r['failure']):
                    kill(p)
    for s, (p, o, g) in procs.items():
        kill(p)
    parts = [r for r in (read(o) for o in outs) if r]
    if failure is None:
        for r in parts:
            if r['failure']:
                failure = r['failure']
    agg = Stats()
    nontrivial, harness, samples = set(), [], []
    for r in parts:
        agg.evals += r.get('evals', 0)
        for k, v in r.get('discards', {}).items():
            agg.discards[k] = agg.discards.get(k, 0) + v
        for k, v in r.get('labels', {}).items():
            agg.labels[k] = agg.labels.get(k, 0) + v
        nontrivial |= set(r.get('nontrivial', ()))
        harness += r['harness']
        samples += r.get('samples', [])[:1]
    from .meta import META

    meta = META[cid]
    samples = [s for s in samples if len(dumps(s)) < 6000][:5]
    ev = {
        'property': cid, 'tier': tier, 'seed': int(seed), 'level': 'exploration',
        'coverage': {
            'evaluations': agg.evals, 'distinct_nontrivial': len(nontrivial), 'rule': meta['rule'], 'samples': samples,
            'labels': dict(sorted(agg.labels.items(), key=lambda kv: -kv[1])[:150]),
            'discarded': dict(sorted(agg.discards.items(), key=lambda kv: -kv[1])[:30]), 'shards': NSHARDS, 'crashed_shards': crashed,
        },
        'assumptions': meta.get('assumptions', ['JAX forward-mode differentiation in float64 is the reference', 'inputs away from kinks, poles and ties']),
        'wall_s': round(time.time() - t0, 1), 'violations': 1 if failure else 0,
    }
    for k in known_findings(cid):
        print(f"KNOWN-FINDING: property={cid} {k['what']}")
    code = 0
    if failure:
        path = os.path.join(VERIF, 'replays', f'{cid}-{hashlib.sha1(dumps(failure["case"]).encode()).hexdigest()[:10]}.json')
        os.makedirs(os.path.dirname(path), exist_ok=True)
        rec = {'property': cid, 'case': failure['case'], 'message': failure['message']}

        def write():
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1)

        def confirm():
            try:
                return subprocess.run([PY, os.path.join(VERIF, 'check.py'), cid, '--replay', path], cwd=VERIF, env=env, capture_output=True, timeout=240).returncode == 1
            except subprocess.TimeoutExpired:
                return False

        write()
        ok = confirm()
        if not ok and failure.get('history'):
            rec['history'] = failure['history']
            write()
            ok = confirm()
        rec['confirmed'] = ok
        write()
        print('  ' + failure['message'])
        print(f'  case: {dumps(failure["case"])[:1500]}')
        print(f'  reproduced in a fresh process: {ok}')
        print(f'VIOLATION property={cid} replay={path}')
        code = 1
    elif harness or not parts or agg.evals == 0:
        for h in harness[:3]:
            print(h)
        for s in range(NSHARDS):
            try:
                print(open(os.path.join(work, f'{s}.err')).read()[-1500:])
            except OSError:
                pass
        code = 3
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev['wall_s'] = round(time.time() - t0, 1)
    with open(os.path.join(VERIF, 'evidence', f'{cid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{cid} {tier}: {agg.evals} cases, {len(nontrivial)} distinct non-trivial, {sum(agg.discards.values())} discarded, {ev["wall_s"]} s, exit {code}')
    return code
