"""Runs every harness of one property: symbolic exploration in forked workers,
replay of counterexamples on the real code, evidence."""
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import findings
from .registry import HARNESSES, load_harnesses

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = '/opt/venv/bin/python'
WORKERS = int(os.environ.get('SX_WORKERS', '8'))
BUDGET = {'quick': float(os.environ.get('SX_BUDGET', '540')),
          'thorough': float(os.environ.get('SX_BUDGET', '700'))}


def trace_functions(seen):
    """Collect the repo functions this process executes symbolically."""
    from .instr import REPO
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    mon.use_tool_id(tid, 'sx')

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + '/'):
            seen.add('%s:%s' % (fn[len(REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def worker(conn, pid, hname, params, deadline, known):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        from . import core
        from .api_sym import SymAPI
        sys.setrecursionlimit(5000)
        h = [x for x in HARNESSES[pid] if x.name == hname][0]
        seen = set()
        trace_functions(seen)
        e = core.Engine(deadline=deadline)
        api = SymAPI(known)
        t = time.time()
        err = None
        try:
            e.explore(lambda: h.fn(api, **params))
        except core.EngineError as x:
            err = 'engine: %s' % x
        except core.Signal as x:
            err = 'engine signal: %r' % x
        seen = {s for s in seen if not s.endswith('<module>')}
        conn.send(dict(
            harness=hname, params=params, exhausted=e.exhausted, error=err,
            stats=e.stats.as_dict(), wall=time.time() - t,
            violations=[(v.msg, v.inputs, v.kind) for v in e.violations],
            repeated=e.repeated, samples=e.samples,
            incomplete=e.incomplete_samples, findings=e.findings,
            reach=e.paths_reaching_check, functions=sorted(seen)))
    except BaseException:
        conn.send(dict(harness=hname, params=params, crash=traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def run_tasks(pid, tasks, deadline, known):
    ctx = mp.get_context('fork')
    todo, live, out = list(tasks), {}, []
    while todo or live:
        while todo and len(live) < WORKERS:
            h, params = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(w, pid, h.name, params, deadline, known))
            p.start()
            w.close()
            live[r] = (p, h, params)
        for r in multiprocessing.connection.wait(list(live), timeout=5):
            p, h, params = live.pop(r)
            try:
                out.append(r.recv())
            except EOFError:
                out.append(dict(harness=h.name, params=params, crash='worker died'))
            p.join()
            r.close()
        if time.time() > deadline + 60:
            for r, (p, h, params) in live.items():
                p.kill()
                p.join()
                out.append(dict(harness=h.name, params=params, hung=True))
            live = {}
            for h, params in todo:
                out.append(dict(harness=h.name, params=params, hung=True))
            todo = []
    return out


def replay(cases, timeout=300):
    """run cases on the real code in the repository's own interpreter"""
    results = []
    i = 0
    while i < len(cases):
        with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as fh:
            json.dump(cases[i:], fh)
        try:
            p = subprocess.run([VENV_PY, os.path.join(ROOT, 'replay.py'), '--batch', fh.name],
                               capture_output=True, text=True, timeout=timeout,
                               env={**os.environ, 'PYTHONHASHSEED': '0'})
            got = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith('RESULT ')]
            err = p.stderr[-1500:]
        except subprocess.TimeoutExpired as x:
            so = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or '')
            got = [json.loads(l[7:]) for l in so.splitlines() if l.startswith('RESULT ')]
            err = 'timeout'
        finally:
            os.unlink(fh.name)
        results += got
        i += len(got)
        if i < len(cases):
            results.append({'status': 'error', 'message': 'replayer died: ' + err, 'known': [],
                            'checks': 0})
            i += 1
            if len(results) > 2 and all(r['status'] == 'error' for r in results[-3:]):
                while i < len(cases):
                    results.append({'status': 'error', 'message': 'not run', 'known': [],
                                    'checks': 0})
                    i += 1
    return results


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in BUDGET:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    from . import instr
    instr.install()
    from . import stubs
    stubs.install()
    load_harnesses(ROOT)
    hs = HARNESSES.get(pid)
    if not hs:
        print('no harness for %s' % pid)
        return 2
    only = os.environ.get('SX_ONLY')
    if only:
        hs = [h for h in hs if h.name in only.split(',')]
    for h in hs:
        for m in h.modules:
            try:
                importlib.import_module(m)
            except Exception as e:
                if os.environ.get('SX_DEBUG'):
                    traceback.print_exc()
    known = findings.active_ids(pid)
    deadline = t0 + BUDGET[tier]
    tasks = [(h, p) for h in hs for p in h.shards(tier)]
    results = run_tasks(pid, tasks, deadline, known)

    # ---- collect
    problems, notes = [], []
    cands, samples, incompl = [], [], []
    slow = []
    total = {}
    labels, funcs, seen_findings = {}, set(), {}
    exhausted = True
    per_h = {}
    for r in results:
        ident = '%s%s' % (r['harness'], r['params'] or '')
        if 'crash' in r:
            problems.append('%s: worker failed: %s' % (ident, r['crash']))
            continue
        if r.get('hung'):
            exhausted = False
            notes.append('%s: stopped by the time limit' % ident)
            continue
        slow.append((round(r['wall'], 1), r['stats']['paths'], ident))
        if r['error']:
            problems.append('%s: %s' % (ident, r['error']))
        if not r['exhausted']:
            exhausted = False
            notes.append('%s: not exhausted (%s)' % (ident, r['stats']['notes']))
        for k, v in r['stats'].items():
            if isinstance(v, (int, float)):
                total[k] = total.get(k, 0) + v
        for k, v in r['stats']['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['stats']['notes'].items():
            if k.startswith('unsupported'):
                notes.append('%s: %s on %s path(s)' % (ident, k, v))
        for k, v in r['findings'].items():
            seen_findings[k] = seen_findings.get(k, 0) + v
        funcs.update(r['functions'])
        p = per_h.setdefault(r['harness'], {'paths': 0, 'checks': 0, 'reach': 0, 'shards': 0})
        p['paths'] += r['stats']['paths']
        p['checks'] += r['stats']['checks']
        p['reach'] += r['reach']
        p['shards'] += 1
        p['cut'] = p.get('cut', False) or not r['exhausted']
        for msg, inp, kind in r['violations']:
            cands.append(dict(property=pid, harness=r['harness'], params=r['params'],
                              inputs=inp, message=msg, kind=kind))
        for inp in r['samples']:
            samples.append(dict(property=pid, harness=r['harness'], params=r['params'], inputs=inp))
        for inp in r['incomplete']:
            incompl.append(dict(property=pid, harness=r['harness'], params=r['params'], inputs=inp,
                                incomplete=True))

    # vacuity: every harness must have reached an assertion (unless the time ran out first)
    for h in hs:
        p = per_h.get(h.name)
        if p and not p['checks'] and not p['cut'] and not any(c['harness'] == h.name for c in cands) \
                and not any(c['harness'] == h.name for c in incompl):
            problems.append('%s: vacuous, no assertion reached' % h.name)

    # ---- replay on the real code
    # one per distinct (harness, message) first
    cands.sort(key=lambda c: (c['kind'] == 'exception',))
    uniq, extra = {}, []
    for c in cands:
        k = (c['harness'], c['message'])
        uniq.setdefault(k, []).append(c)
    confirmed, unconf, ok_keys = [], [], set()
    for rnd in range(4):
        todo = [cs[rnd] for k, cs in uniq.items() if len(cs) > rnd and k not in ok_keys][:30]
        for c, r in zip(todo, replay(todo) if todo else []):
            if r['status'] == 'failed':
                confirmed.append((c, r))
                ok_keys.add((c['harness'], c['message']))
            else:
                unconf.append((c, r))
    for c, r in unconf:
        if (c['harness'], c['message']) in ok_keys:
            continue
        text = '%s: %s does not reproduce on the real code (%s %s) inputs=%s params=%s' % (
            c['harness'], c['message'], r['status'], r['message'],
            json.dumps(c['inputs'])[:400], c['params'])
        # the real code satisfies the property on these inputs: the path was
        # explored with an inexact model and counts as not explored
        total['incomplete_paths'] = total.get('incomplete_paths', 0) + 1
        notes.append(text)
    # ---- validate explored paths against the real code
    per = 30 if tier == 'quick' else 60
    byh = {}
    for s in samples:
        byh.setdefault(s['harness'], []).append(s)
    val = []
    for hname, ss in byh.items():
        step = max(1, len(ss) // per)
        val += ss[::step][:per]
    # unexplored paths: run the real code on one input of each (evenly chosen)
    cap = 400 if tier == 'quick' else 1500
    val += incompl[::-(-len(incompl) // cap)] if incompl else []
    vres = replay(val) if val else []
    validated = 0
    for c, r in zip(val, vres):
        if r['status'] == 'failed':
            c = dict(c, message=r['message'], kind='replay')
            confirmed.append((c, r))
        elif r['status'] == 'error':
            problems.append('replay of %s: %s' % (c['harness'], r['message']))
        elif r['status'] == 'ok':
            validated += 1
    # ---- findings
    for p, fid, text in findings.entries():
        if p == pid and seen_findings.get(fid):
            print('KNOWN-FINDING: property=%s %s' % (pid, text))

    ev_dir = os.path.join(ROOT, 'evidence')
    rdir = os.path.join(ev_dir, 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(rdir, f))
    lines = []
    seen = set()
    for n, (c, r) in enumerate(confirmed):
        key = (c['harness'], r['message'])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(seen)))
        with open(path, 'w') as fh:
            json.dump(dict(c, observed=r['message']), fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        lines.append('  %s: %s  inputs=%s params=%s' % (
            c['harness'], r['message'], json.dumps(c['inputs'])[:300], json.dumps(c['params'])))

    from .instr import REPO
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=int(total.get('paths', 0)),
            transitions=int(total.get('forks', 0) + total.get('forced', 0)),
            traces_validated_against_impl=validated,
            samples=[dict(harness=s['harness'], params=s['params'], inputs=s['inputs'])
                     for s in val[:6]],
            exhaustive=bool(exhausted and not total.get('incomplete_paths')),
            meaning='states = symbolic paths completed (each stands for every input satisfying '
                    'its path condition); transitions = branch decisions taken by the solver '
                    '(two-sided or proved one-sided)',
            harnesses={k: {x: y for x, y in v.items() if x != 'cut'} for k, v in per_h.items()},
            bounds={h.name: h.bounds for h in hs},
            functions_encoded=sorted(funcs),
            functions_encoded_count=len(funcs),
            queries=int(total.get('queries', 0)),
            solver_s=round(total.get('solver_s', 0.0), 2),
            assertions=int(total.get('checks', 0)),
            assertions_by_label=labels,
            assertions_decided_by_solver=int(total.get('checks', 0) - total.get('trivial', 0)),
            infeasible_paths=int(total.get('infeasible', 0)),
            incomplete_paths=int(total.get('incomplete_paths', 0)),
            concretised=int(total.get('concretised', 0)),
            counterexamples=len(cands), counterexamples_reproduced=len(confirmed),
            notes=notes[:50], problems=problems[:20],
            known_findings_observed=seen_findings,
        ),
        assumptions=['inputs restricted to the bounds listed per harness',
                     'stubs and models listed in DESIGN.md (section Trusted parts)'],
        wall_s=round(time.time() - t0, 2),
        violations=len(seen))
    with open(os.path.join(ev_dir, pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s tier=%s paths=%d forks=%d queries=%d solver=%.1fs assertions=%d validated=%d '
          'exhausted=%s incomplete=%d wall=%.1fs' % (
              pid, tier, total.get('paths', 0), total.get('forks', 0), total.get('queries', 0),
              total.get('solver_s', 0), total.get('checks', 0), validated, exhausted,
              total.get('incomplete_paths', 0), time.time() - t0))
    if os.environ.get('SX_DEBUG'):
        for x in sorted(slow, reverse=True)[:10]:
            print('  %s s, %s paths: %s' % x)
    for n in sorted(notes, key=lambda n: "not exhausted" in n)[:20]:
        print('note: ' + n)
    if lines:
        print('\n'.join(lines))
        return 1
    if problems:
        for p in problems[:20]:
            print('PROBLEM: ' + p)
        return 2
    return 0
