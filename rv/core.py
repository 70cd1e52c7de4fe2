"""Engine: cases, event recording, monitors, sharding, verdicts, evidence.

A *scenario* drives the real library with generated inputs.  Everything it
does to the library goes through a Ctx, which records call and return events;
the *monitors* (ctx.check, ctx.close, ctx.refused, ...) are oracles evaluated
online over the observed values.  A case is a pure function of (property,
scenario, index, VERIF_SEED), so every case replays.

Verdicts are three valued: a violation (exit 1), held on what was observed
(exit 0), or inconclusive (exit 2: watchdog, dead worker, or a deciding
monitor that never evaluated).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import collections

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 300  # seconds of wall time: the machine is too slow to tell
CASE_CPU = 100  # seconds of processor time for a case that takes about one
JOBS = 8


class Violation(Exception):
    def __init__(self, monitor, msg):
        Exception.__init__(self, monitor + ': ' + msg)
        self.monitor = monitor
        self.msg = msg


class Skip(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class CaseHang(BaseException):
    pass


class Property(object):
    def __init__(self, pid):
        self.pid = pid
        self.rule = ''
        self.assumptions = []
        self.scenarios = []
        self.required = []


PROPERTIES = {}


def prop(pid, rule=None, required=(), assumptions=()):
    p = PROPERTIES.setdefault(pid, Property(pid))
    if rule:
        p.rule = rule
    p.required.extend(required)
    p.assumptions.extend(assumptions)
    return p


def scenario(pid, quick, thorough=None, name=None):
    """Register a scenario with its number of cases per tier."""
    def deco(fn):
        prop(pid).scenarios.append(
            (name or fn.__name__, fn, quick,
             thorough if thorough is not None else 20 * quick))
        return fn
    return deco


def _short(x, lim=160):
    try:
        if isinstance(x, np.ndarray):
            s = np.array2string(x, precision=6, threshold=12)
        else:
            s = repr(x)
    except Exception:
        s = '<unprintable ' + type(x).__name__ + '>'
    s = ' '.join(s.split())
    return s if len(s) <= lim else s[:lim] + '...'


def is_box(x):
    return type(x).__name__.endswith('Box') or hasattr(x, '_node')


def is_plain(x):
    """A plain number or numeric array: no autograd tracer anywhere."""
    if is_box(x):
        return False
    if isinstance(x, (bool, int, float, np.generic)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype != object
    return False


class Ctx(object):
    def __init__(self, pid, scen, index, seed, tier='quick'):
        h = hashlib.sha256(
            '{}/{}/{}/{}'.format(pid, scen, index, seed).encode()).digest()
        self.rng = np.random.RandomState(
            np.frombuffer(h[:16], dtype=np.uint32))
        self.index = index
        self.tier = tier
        self.events = 0
        self.trace = collections.deque(maxlen=60)
        self.digest = hashlib.sha1()
        self.monitors = collections.Counter()
        self.features = collections.Counter()
        self.structure = ''
        self.worst = {}
        self.abandoned = collections.Counter()

    # ---- recording -------------------------------------------------------
    def ev(self, label, *data):
        self.events += 1
        self.digest.update(label.encode())
        for d in data:
            try:
                a = np.asarray(d)
                if a.dtype != object:
                    self.digest.update(np.ascontiguousarray(a).tobytes())
            except Exception:
                pass
        self.trace.append(label + (': ' + ', '.join(_short(d) for d in data)
                                   if data else ''))

    def struct(self, s):
        self.structure += s + ';'
        self.trace.append('structure ' + s)

    def feat(self, *names):
        for n in names:
            self.features[n] += 1

    def call(self, label, fn, *a, **k):
        self.ev('call ' + label, *a)
        r = fn(*a, **k)
        self.ev('return ' + label, r)
        return r

    # ---- monitors ----------------------------------------------------------
    def fail(self, monitor, msg):
        raise Violation(monitor, msg)

    def check(self, monitor, cond, msg=''):
        self.monitors[monitor] += 1
        if not cond:
            raise Violation(monitor, msg if isinstance(msg, str) else msg())

    def same(self, monitor, got, want, msg=''):
        """Exact equality of shape and numbers (NaN equals NaN)."""
        self.monitors[monitor] += 1
        if is_box(got):
            raise Violation(monitor, 'not a plain number: ' + _short(got) + ' ' + msg)
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object:
            raise Violation(monitor, 'not numeric: ' + _short(got) + ' ' + msg)
        if g.shape != w.shape:
            raise Violation(monitor, 'shape {} instead of {} {}'.format(
                g.shape, w.shape, msg))
        if not np.array_equal(g, w):
            ok = (g == w) | ((g != g) & (w != w))
            if not np.all(ok):
                raise Violation(monitor, 'got {} want {} {}'.format(
                    _short(g), _short(w), msg))

    def close(self, monitor, got, want, tol, msg=''):
        """|got - want| <= tol elementwise; shapes equal; got is plain."""
        self.monitors[monitor] += 1
        if is_box(got):
            raise Violation(monitor, 'not a plain number: ' + _short(got) + ' ' + msg)
        g, w = np.asarray(got), np.asarray(want)
        if g.dtype == object:
            raise Violation(monitor, 'not numeric: ' + _short(got) + ' ' + msg)
        if g.shape != w.shape:
            raise Violation(monitor, 'shape {} instead of {} {}'.format(
                g.shape, w.shape, msg))
        if g.size == 0:
            return
        g = g.astype(float)
        w = w.astype(float)
        if not np.all(np.isfinite(g)):
            raise Violation(monitor, 'not finite: {} want {} {}'.format(
                _short(g), _short(w), msg))
        err = np.abs(g - w)
        bad = ~(err <= tol)
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, err, -1)), g.shape)
            raise Violation(
                monitor, 'at {} got {!r} want {!r} (tolerance {:.3g}) {} | got {} | want {}'.format(
                    tuple(int(t) for t in i), float(g[i]), float(w[i]),
                    float(np.broadcast_to(tol, g.shape)[i]), msg,
                    _short(g), _short(w)))
        t = np.broadcast_to(np.asarray(tol, float), g.shape)
        with np.errstate(all='ignore'):
            ratio = float(np.max(np.where(t > 0, err / t, 0.)))
        if ratio > self.worst.get(monitor, 0.):
            self.worst[monitor] = ratio

    def refused(self, monitor, fn, msg=''):
        """The call must raise an ordinary exception."""
        self.monitors[monitor] += 1
        self.ev('call expected-to-be-refused ' + msg)
        try:
            r = fn()
        except Exception as e:
            self.ev('refused with ' + type(e).__name__)
            return e
        raise Violation(monitor, 'was not refused: ' + msg +
                        ' (returned ' + _short(r) + ')')

    def abandon(self, why):
        """The oracle could not be evaluated precisely enough here."""
        self.abandoned[why] += 1


class Watchdog(object):
    def __enter__(self):
        def handler(signum, frame):
            raise CaseTimeout()
        def spinning(signum, frame):
            raise CaseHang()
        signal.signal(signal.SIGALRM, handler)
        signal.alarm(CASE_TIMEOUT)
        signal.signal(signal.SIGPROF, spinning)
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def run_case(pid, scen, fn, index, seed, tier):
    """Returns (status, ctx, info)."""
    ctx = Ctx(pid, scen, index, seed, tier)
    try:
        with Watchdog():
            fn(ctx)
        return 'ok', ctx, None
    except Skip as e:
        return 'skip', ctx, str(e)
    except Violation as e:
        return 'violation', ctx, {'monitor': e.monitor, 'message': e.msg}
    except CaseHang:
        return 'violation', ctx, {
            'monitor': 'termination',
            'message': 'a call had not returned after {} seconds of processor time'.format(CASE_CPU)}
    except CaseTimeout:
        return 'timeout', ctx, 'case watchdog'
    except MemoryError:
        return 'timeout', ctx, 'out of memory'
    except Exception as e:
        return 'violation', ctx, {
            'monitor': 'no-exception',
            'message': 'legal use raised {}: {}'.format(
                type(e).__name__, str(e)[:500]),
            'traceback': traceback.format_exc()[-4000:]}


def load_known():
    """Known findings: 'known: property=<id> monitor=<m> scenario=<s> <what>'."""
    out = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                parts = line.split()
                d = dict(x.split('=', 1) for x in parts[1:4])
                d['what'] = ' '.join(parts[4:])
                out.append(d)
    return out


def match_known(known, pid, v):
    for k in known:
        if k.get('property') == pid and k.get('monitor') == v['monitor'] \
                and k.get('scenario') == v['scenario']:
            return k
    return None


def worker(p, cases, seed, tier, deadline, out_path):
    st = {
        'evaluations': 0, 'events': 0, 'skipped': collections.Counter(),
        'monitors': collections.Counter(), 'features': collections.Counter(),
        'abandoned': collections.Counter(), 'worst': {}, 'digests': [],
        'structures': set(), 'violations': [], 'timeouts': [], 'samples': [],
        'per_scenario': collections.Counter(), 'truncated': 0}
    fns = dict((s[0], s[1]) for s in p.scenarios)
    for n, (scen, index) in enumerate(cases):
        if time.time() > deadline:
            st['truncated'] += len(cases) - n
            break
        status, ctx, info = run_case(p.pid, scen, fns[scen], index, seed, tier)
        st['evaluations'] += 1
        st['events'] += ctx.events
        st['per_scenario'][scen] += 1
        st['monitors'].update(ctx.monitors)
        st['features'].update(ctx.features)
        st['abandoned'].update(ctx.abandoned)
        for k, v in ctx.worst.items():
            st['worst'][k] = max(v, st['worst'].get(k, 0.))
        if status == 'skip':
            st['skipped'][info] += 1
            continue
        if ctx.structure:
            st['structures'].add(scen + ' ' + ctx.structure)
        if sum(ctx.monitors.values()) > 0 and ctx.events > 0:
            st['digests'].append(
                hashlib.sha1((scen + ctx.structure).encode() +
                             ctx.digest.digest()).hexdigest()[:16])
        if status == 'timeout':
            st['timeouts'].append([scen, index, info])
        elif status == 'violation':
            v = dict(info)
            v.update({'scenario': scen, 'index': index,
                      'trace': list(ctx.trace), 'structure': ctx.structure})
            st['violations'].append(v)
            if len(st['violations']) >= 5 or info['monitor'] == 'termination':
                break
        elif len(st['samples']) < 1 and ctx.events > 2:
            st['samples'].append({
                'scenario': scen, 'index': index,
                'structure': ctx.structure[:400],
                'events': ctx.events,
                'trace_head': list(ctx.trace)[:12],
                'monitors': dict(ctx.monitors)})
    st['structures'] = sorted(st['structures'])[:20000]
    for k in ('skipped', 'monitors', 'features', 'abandoned', 'per_scenario'):
        st[k] = dict(st[k])
    with open(out_path, 'w') as f:
        json.dump(st, f)


def merge(parts):
    tot = {
        'evaluations': 0, 'events': 0, 'skipped': collections.Counter(),
        'monitors': collections.Counter(), 'features': collections.Counter(),
        'abandoned': collections.Counter(), 'worst': {}, 'digests': set(),
        'structures': set(), 'violations': [], 'timeouts': [], 'samples': [],
        'per_scenario': collections.Counter(), 'truncated': 0}
    for s in parts:
        for k in ('evaluations', 'events', 'truncated'):
            tot[k] += s[k]
        for k in ('skipped', 'monitors', 'features', 'abandoned', 'per_scenario'):
            tot[k].update(s[k])
        for k, v in s['worst'].items():
            tot['worst'][k] = max(v, tot['worst'].get(k, 0.))
        tot['digests'].update(s['digests'])
        tot['structures'].update(s['structures'])
        for k in ('violations', 'timeouts', 'samples'):
            tot[k].extend(s[k])
    return tot


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int, default=JOBS)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--index', type=int, default=None)
    ap.add_argument('--out', default=os.path.join(ROOT, 'evidence'))
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.pid not in PROPERTIES:
        print('unknown property', a.pid)
        return 2
    p = PROPERTIES[a.pid]
    fns = dict((s[0], s[1]) for s in p.scenarios)

    if a.replay or a.index is not None:
        if a.replay:
            r = json.load(open(a.replay))
        else:
            r = {'scenario': a.only, 'index': a.index, 'seed': a.seed,
                 'tier': a.tier}
        status, ctx, info = run_case(
            p.pid, r['scenario'], fns[r['scenario']], r['index'], r['seed'],
            r.get('tier', 'quick'))
        for t in ctx.trace:
            print('  ', t)
        print(status, json.dumps(info, indent=1) if isinstance(info, dict) else info)
        if isinstance(info, dict) and 'traceback' in info:
            print(info['traceback'])
        print(dict(ctx.monitors), ctx.worst)
        if status == 'violation':
            print('VIOLATION property={} replay={}'.format(p.pid, a.replay))
            return 1
        return 0 if status in ('ok', 'skip') else 2

    cases = []
    for name, fn, nq, nt in p.scenarios:
        if a.only and name not in a.only.split(','):
            continue
        n = nt if a.tier == 'thorough' else nq
        n = max(1, int(round(n * a.scale)))
        cases.extend((name, i) for i in range(n))
    # Deal the cases out so that every worker sees every scenario.
    budget = 780 if a.tier == 'thorough' else 600
    deadline = t0 + budget
    out_dir = a.out
    os.makedirs(out_dir, exist_ok=True)
    replay_dir = os.path.join(out_dir, 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    import shutil
    import tempfile
    tmp = tempfile.mkdtemp(prefix='rv-')
    pids = []
    try:
        sys.stdout.flush()
        for j in range(a.jobs):
            mine = cases[j::a.jobs]
            path = os.path.join(tmp, '{}.json'.format(j))
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    sys.stdout = open(os.devnull, 'w')
                    worker(p, mine, a.seed, a.tier, deadline, path)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            pids.append((pid, path))
        dead = 0
        parts = []
        for pid, path in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0 or not os.path.exists(path):
                dead += 1
            else:
                parts.append(json.load(open(path)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    tot = merge(parts)
    wall = time.time() - t0
    missing = [m for m in p.required
               if tot['monitors'].get(m, 0) == 0] if not a.only else []
    known = load_known()
    new, old = [], {}
    for v in tot['violations']:
        k = match_known(known, p.pid, v)
        if k is None:
            new.append(v)
        else:
            old[k['what']] = k

    replay_paths = []
    seen = set()
    for v in new:
        key = (v['scenario'], v['monitor'])
        if key in seen and len(replay_paths) >= 3:
            continue
        seen.add(key)
        path = os.path.join(replay_dir, '{}-{}-{}.json'.format(
            p.pid, v['scenario'], v['index']))
        with open(path, 'w') as f:
            json.dump(dict(v, property=p.pid, seed=a.seed, tier=a.tier), f, indent=1)
        replay_paths.append((path, v))

    evidence = {
        'property': p.pid, 'tier': a.tier, 'seed': a.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': tot['evaluations'],
            'distinct_nontrivial': len(tot['digests']),
            'rule': p.rule or 'cases are generated from the seed; a case counts when it recorded events and at least one monitor evaluated, and is distinct by the hash of its event trace',
            'samples': tot['samples'][:6],
            'events_observed': tot['events'],
            'monitor_evaluations': dict(sorted(tot['monitors'].items())),
            'distinct_structures': len(tot['structures']),
            'structure_examples': sorted(tot['structures'])[:5],
            'features': dict(sorted(tot['features'].items())),
            'cases_per_scenario': dict(sorted(tot['per_scenario'].items())),
            'skipped': dict(tot['skipped']),
            'oracle_abandoned': dict(tot['abandoned']),
            'largest_error_over_tolerance': {
                k: round(v, 6) for k, v in sorted(tot['worst'].items())},
            'cases_not_run_for_time': tot['truncated'],
            'workers_died': dead,
            'timeouts': tot['timeouts'][:10],
        },
        'assumptions': p.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(new),
    }
    with open(os.path.join(out_dir, p.pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    print('{} {}: {} cases, {} events, {} monitor evaluations, {} structures, {:.1f} s'.format(
        p.pid, a.tier, tot['evaluations'], tot['events'],
        sum(tot['monitors'].values()), len(tot['structures']), wall))
    for what, k in old.items():
        print('KNOWN-FINDING: property={} {}'.format(p.pid, what))
    if new:
        for path, v in replay_paths[:5]:
            print('VIOLATION property={} replay={}'.format(p.pid, path))
            print('  scenario {} case {} monitor {}: {}'.format(
                v['scenario'], v['index'], v['monitor'], v['message'][:600]))
        return 1
    if dead:
        print('INCONCLUSIVE: {} workers died'.format(dead))
        return 2
    if tot['timeouts']:
        print('INCONCLUSIVE: case watchdog fired', tot['timeouts'][:3])
        return 2
    if missing:
        print('INCONCLUSIVE: monitors never evaluated:', missing)
        return 2
    return 0
