"""Entry point: python -m mc.main C01 --tier quick [--replay file]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RECYCLE = 1.5e9       # a worker that grew over this is replaced
HANG = 300.0        # a case takes seconds; no answer within this time is a hang


def worker(conn, pid, tier, wdir, slot):
    os.makedirs(wdir, exist_ok=True)
    os.chdir(wdir)
    out = os.open(os.path.join(wdir, 'stdout.txt'), os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    os.dup2(out, 1)
    os.dup2(out, 2)
    import warnings
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    from mc import core
    try:
        module = importlib.import_module('mc.checks.' + pid.lower())
        import openturns as ot
        ot.Log.Show(ot.Log.NONE)
    except BaseException as e:
        conn.send(('error', 'cannot load the code under test: %s: %s\n%s' %
                   (type(e).__name__, e, traceback.format_exc()[-1500:])))
        return
    conn.send(('ready', None))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        kind, arg = msg
        if kind == 'list':
            try:
                conn.send(('list', [list(module.cases(tier)), getattr(module, 'META', {})]))
            except BaseException as e:
                conn.send(('error', 'case enumeration failed: %s: %s\n%s' %
                           (type(e).__name__, e, traceback.format_exc()[-1500:])))
                return
        else:
            t0 = time.time()
            res = core.run_case(module, arg)
            res['wall'] = time.time() - t0
            with open('/proc/self/statm') as fd:
                res['rss'] = int(fd.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')
            os.ftruncate(1, 0)
            conn.send(('done', res))


class Slot(object):
    def __init__(self, ctx, pid, tier, k):
        self.args = (ctx, pid, tier, k)
        self.start()

    def start(self):
        ctx, pid, tier, k = self.args
        self.conn, child = ctx.Pipe()
        wdir = os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp'), 'w%d' % k)
        self.proc = ctx.Process(target=worker, args=(child, pid, tier, wdir, k), daemon=True)
        self.proc.start()
        child.close()
        self.busy = None
        self.since = time.time()
        self.ready = False

    def kill(self):
        try:
            self.proc.kill()
            self.proc.join(10)
        except Exception:
            pass


def explore(pid, tier, only=None, jobs=None, listed=()):
    ctx = mp.get_context('fork')     # the parent never imports openturns
    jobs = jobs or int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    limit = int(os.environ.get('VERIF_MAX_PROBLEMS', '40'))
    first = Slot(ctx, pid, tier, 0)
    agg = {'transitions': 0, 'monitors': 0, 'states': set(), 'problems': [],
           'done': 0, 'samples': [], 'slow': [], 'meta': {}}

    def get(slot):
        try:
            return slot.conn.recv()
        except (EOFError, OSError):
            return ('error', 'worker died (exit code %s)' % slot.proc.exitcode)
    if only is not None:
        cases = [only]
        r = get(first)
    else:
        r = get(first)
        if r[0] == 'ready':
            first.conn.send(('list', None))
            r = get(first)
            if r[0] == 'list':
                cases, agg['meta'] = r[1]
    if r[0] == 'error':
        agg['problems'].append({'message': r[1], 'signature': 'load', 'trace': [], 'case': None})
        agg['total'] = 0
        first.kill()
        return agg
    first.ready = True
    agg['total'] = len(cases)
    slots = [first] + [Slot(ctx, pid, tier, k) for k in range(1, min(jobs, len(cases)))]
    # longest cases first when the module gives a weight
    todo = sorted(range(len(cases)), key=lambda i: -cases[i].get('_w', 0))
    todo.reverse()

    def give(slot):
        if todo and slot.busy is None and slot.ready:
            i = todo.pop()
            slot.busy = i
            slot.since = time.time()
            slot.conn.send(('run', cases[i]))
    start = time.time()
    for s in slots:
        give(s)
    while agg['done'] < len(cases):
        bad = [p for p in agg['problems'] if p['signature'] not in listed]
        if len(bad) >= limit or any(p['signature'] == 'hang' for p in bad) or (
                bad and tier == 'quick' and time.time() - start > 300):
            agg['stopped'] = True
            break
        ready = mpc.wait([s.conn for s in slots], timeout=5.0)
        for s in slots:
            if s.conn in ready:
                r = get(s)
                if r[0] == 'ready':
                    s.ready = True
                elif r[0] == 'done':
                    i, s.busy = s.busy, None
                    res = r[1]
                    agg['done'] += 1
                    agg['transitions'] += res['transitions']
                    agg['monitors'] += res['monitors']
                    agg['states'].update(res['states'])
                    agg['slow'].append((round(res['wall'], 2), i))
                    if len(agg['samples']) < 3 and not res['problems']:
                        agg['samples'].append({'case': cases[i], 'trace': res['trace']})
                    for p in res['problems']:
                        p['case'] = cases[i]
                        agg['problems'].append(p)
                    if res['rss'] > RECYCLE:
                        s.kill()
                        s.start()
                else:
                    i = s.busy
                    s.kill()
                    if i is not None:
                        agg['done'] += 1
                        agg['problems'].append({'message': 'process ended while exploring the case: ' + str(r[1]),
                                                'signature': 'crash', 'trace': [], 'case': cases[i]})
                        s.start()
                    else:
                        agg['problems'].append({'message': r[1], 'signature': 'load', 'trace': [], 'case': None})
                        s.start()
            elif s.busy is not None and time.time() - s.since > HANG:
                i = s.busy
                s.kill()
                agg['done'] += 1
                agg['problems'].append({'message': 'no answer after %d s (the operation never ends)' % HANG,
                                        'signature': 'hang', 'trace': [], 'case': cases[i]})
                s.start()
            give(s)
    for s in slots:
        s.kill()
    return agg


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    try:
        with open(path) as fd:
            return json.load(fd).get('findings', [])
    except FileNotFoundError:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid = a.property.upper()
    t0 = time.time()
    only = None
    if a.replay:
        with open(a.replay) as fd:
            only = json.load(fd)['case']
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'open']
    listed = set(s for k in known for s in k.get('signatures', []))
    agg = explore(pid, a.tier, only, a.jobs, listed)
    known_hit, violations = {}, []
    for p in agg['problems']:
        hit = None
        for k in known:
            if p['signature'] is not None and p['signature'] in k.get('signatures', []):
                hit = k
        if hit is not None:
            known_hit.setdefault(hit['id'], [hit, 0])[1] += 1
        else:
            violations.append(p)
    if os.environ.get('VERIF_SIGNATURES'):      # development aid: list the signatures seen
        print('SIGNATURES', json.dumps(sorted(set(str(p['signature']) for p in agg['problems']))))
    wall = time.time() - t0
    level = agg['meta'].get('level', 'model_checking')
    evidence = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'states': len(agg['states']),
            'transitions': agg['transitions'],
            'traces_validated_against_impl': agg['done'],
            'cases_enumerated': agg['total'],
            'monitor_evaluations': agg['monitors'],
            'exhaustive': agg['done'] == agg['total'] and not agg.get('stopped', False),
            'bounds': agg['meta'].get('bounds', ''),
            'known_findings_seen': {k: v[1] for k, v in known_hit.items()},
            'slowest_cases_s': sorted(agg['slow'], reverse=True)[:3],
            'samples': agg['samples'] or [{'case': p.get('case')} for p in agg['problems'][:1]],
        },
        'assumptions': agg['meta'].get('assumptions', []) + [
            'openturns, numpy, scipy, statsmodels and scikit-learn compute what they document',
            'exhaustive over the enumerated space described in bounds, nothing is claimed outside it'],
        'wall_s': round(wall, 2), 'violations': len(violations)}
    if not a.replay:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fd:
            json.dump(evidence, fd, indent=1, default=str)
    for hit, n in known_hit.values():
        print('KNOWN-FINDING: property=%s %s (seen %d times)' % (pid, hit['what'], n))
    if violations:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = violations[:5] if not a.verbose else violations
        for k, p in enumerate(shown):
            path = a.replay or os.path.join(rdir, '%s-%d.json' % (pid, k))
            if not a.replay:
                with open(path, 'w') as fd:
                    json.dump(p, fd, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('   %s' % p['message'].replace('\n', '\n   '))
            print('   case: %s' % json.dumps(p['case'], default=str)[:400])
        print('%d violations in %d of %d cases explored (%.1f s)' %
              (len(violations), agg['done'], agg['total'], wall))
        sys.stdout.flush()
        os._exit(1)
    print('OK property=%s tier=%s: %d cases, %d states, %d transitions, %d monitors, %.1f s' %
          (pid, a.tier, agg['total'], len(agg['states']), agg['transitions'], agg['monitors'], wall))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
