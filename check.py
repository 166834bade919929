#!/usr/bin/env python3
"""Decide one property:  python3-vt check.py C13 [--thorough] [--jobs N] [--verbose]
Re-run a reported counterexample on the real code:  python3-vt check.py --replay FILE
"""
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)
from props import plan      # noqa: E402  (plain data)

OPAQUE = '\0opaque'


def same(a, b):
    if isinstance(a, str) and (a == OPAQUE or '\ue0ff' in a):
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


# ---------------------------------------------------------------------------
_servers = {}


def server(seed):
    from sx import replay
    if seed not in _servers:
        _servers[seed] = replay.Server(seed)
    return _servers[seed]


def native(mod, func, params, inputs, order='ino', seed='0', timeout=60):
    for attempt in (0, 1):
        try:
            return server(seed).run(mod, func, params, inputs, order=order, timeout=timeout)
        except Exception:
            s = _servers.pop(seed, None)
            if s is not None:
                s.close()
    return dict(failures=[], observed=[], reached=[], stop='no answer', error='replay process died', missing=[])


SETTINGS = [('ino', '0'), ('rev', '0'), ('name', '1'), ('ino', '1'), ('rev', '2'), ('ino', '3')]


def reproduce(mod, func, params, cand, settings=SETTINGS):
    """(setting, failures) of the first native run of the counterexample that fails, or None"""
    for order, seed in settings:
        r = native(mod, func, params, cand['inputs'], order, seed)
        if r.get('mismatch'):
            continue
        if r['failures']:
            return dict(order=order, seed=seed, failures=r['failures'], error=r['error'])
        if cand['label'] == 'terminates' and r['stop'] == 'timeout':
            return dict(order=order, seed=seed, failures=['terminates'], error='no answer within 60 s')
    # the real libraries may change the file system a few times more or less than the encoding before that point
    for k in ('crash', 'fault', 'at'):
        if isinstance(cand['inputs'].get(k), int):
            for d in (1, -1, 2, -2, 3, -3, 4):
                inputs = dict(cand['inputs'], **{k: cand['inputs'][k] + d})
                r = native(mod, func, params, inputs)
                if r['failures'] and not r.get('mismatch'):
                    cand['inputs'] = inputs
                    return dict(order='ino', seed='0', failures=r['failures'], error=r['error'])
    return None


def task(job):
    i, mod, func, params, opts = job
    from sx import world
    t0 = time.time()
    out = dict(i=i, mod=mod, func=func, params=params, violations=[], unconfirmed=[], validated=0, divergences=[], native_failures=[], mismatch=0)
    try:
        r = world.run_instance(mod, func, params, opts)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        r = dict(candidates=[], stats={}, solver_time=0, wall=time.time() - t0, reached={}, witnesses=[], incomplete='engine error',
                 inconclusive=[(f'engine: {type(e).__name__}: {e}', {})], funcs=[], error=traceback.format_exc())
    out['explored'] = time.time() - t0
    seen = {}
    for c in r['candidates']:
        if seen.get(c['label'], 0) >= 6 or any(v['label'] == c['label'] for v in out['violations']) or len(out['violations']) >= 4:
            continue
        seen[c['label']] = seen.get(c['label'], 0) + 1
        hit = reproduce(mod, func, params, c)
        if hit:
            out['violations'].append(dict(label=c['label'], inputs=c['inputs'], detail=str(c['detail'])[:500], **hit))
        else:
            out['unconfirmed'].append(dict(label=c['label'], inputs=c['inputs'], detail=str(c['detail'])[:500]))
    # every path is a claim about the real code: run some of them on it and compare what they observe
    n = opts['validate']
    ws = r['witnesses']
    if len(ws) > n:
        rnd = random.Random(opts['seed'] * 1000 + i)
        ws = ws[:1] + rnd.sample(ws[1:], n - 1)
    for inputs, log in ws:
        c = native(mod, func, params, inputs)
        if c.get('mismatch'):
            out['mismatch'] += 1
            continue
        log = json.loads(json.dumps(log))
        if c['failures']:
            out['native_failures'].append(dict(label=c['failures'][0], inputs=inputs, detail='witness of a path on which the encoding satisfies the property', order='ino', seed='0', failures=c['failures'], error=c['error']))
        elif c['error'] or c['stop'] or len(log) != len(c['observed']) or not all(same(list(a), b) for a, b in zip(log, c['observed'])):
            diff = [(a, b) for a, b in zip(log, c['observed']) if not same(list(a), b)][:2]
            out['divergences'].append(dict(inputs=inputs, error=c['error'], stop=c['stop'], diff=diff))
        else:
            out['validated'] += 1
    # paths the encoding could not follow: the solver's values for them are at least run
    for why, inputs in r['inconclusive'][:opts['validate'] * 2]:
        if inputs is None:
            continue
        c = native(mod, func, params, inputs)
        if c['failures'] and not c.get('mismatch'):
            out['native_failures'].append(dict(label=c['failures'][0], inputs=inputs, detail='path outside the encoding: ' + why, order='ino', seed='0', failures=c['failures'], error=c['error']))
    out.update({k: r[k] for k in ('stats', 'solver_time', 'reached', 'inconclusive', 'incomplete', 'funcs')})
    out['engine_error'] = r.get('error')
    out['sample'] = [dict(inputs=i_, observed=l_) for i_, l_ in r['witnesses'][:2]]
    out['wall'] = time.time() - t0
    return out


def close_servers():
    for s in list(_servers.values()):
        s.close()
    _servers.clear()


def worker(conn, boot):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        signal.signal(signal.SIGTERM, lambda *a: (close_servers(), os._exit(1)))
        while True:
            job = conn.recv()
            if job is None:
                break
            conn.send(task(job))
    finally:
        close_servers()
        os._exit(0)


def run_jobs(jobs, nproc, hard):
    """run all jobs in worker processes; results in order of arrival; stops at the hard deadline"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo = list(jobs)
    live = {}
    results, lost = [], []
    for _ in range(min(nproc, len(todo))):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, None))
        p.start()
        b.close()
        j = todo.pop(0)
        a.send(j)
        live[a] = (p, j)
    while live:
        left = hard - time.time()
        if left <= 0:
            break
        for c in wait(list(live), timeout=left):
            p, j = live[c]
            try:
                results.append(c.recv())
            except (EOFError, OSError):
                lost.append((j, 'worker died'))
                del live[c]
                p.join(5)
                if todo:
                    a, b = ctx.Pipe()
                    p = ctx.Process(target=worker, args=(b, None))
                    p.start()
                    b.close()
                    j = todo.pop(0)
                    a.send(j)
                    live[a] = (p, j)
                continue
            if todo:
                j = todo.pop(0)
                c.send(j)
                live[c] = (p, j)
            else:
                try:
                    c.send(None)
                except OSError:
                    pass
                p.join(10)
                del live[c]
    for c, (p, j) in live.items():
        lost.append((j, 'time limit'))
        p.terminate()
    for c, (p, j) in live.items():
        p.join(5)
        if p.is_alive():
            p.kill()
    lost += [(j, 'time limit') for j in todo]
    return results, lost


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt'), encoding='utf-8') as f:
            for line in f:
                if line.startswith('known: '):
                    d = json.loads(line[7:])
                    if d['property'] == prop:
                        out.append(d)
    except OSError:
        pass
    return out


def expand(instances):
    out = []
    for inst in instances:
        func, params = inst[0], dict(inst[1])
        bits = params.pop('shard', 0)
        for k in range(2 ** bits):
            p = dict(params)
            if bits:
                p['_shard'] = [(k >> b) & 1 for b in range(bits)]
            out.append((func, p))
    return out


def main():
    args = sys.argv[1:]
    if '--replay' in args:
        return replay_file(args[args.index('--replay') + 1])
    prop = args[0]
    tier = 'thorough' if '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '--verbose' in args
    nproc = int(args[args.index('--jobs') + 1]) if '--jobs' in args else min(8, os.cpu_count() or 8)
    spec = plan.PLAN[prop]
    t0 = time.time()
    budget = float(spec.get('budget', {}).get(tier, 300 if tier == 'quick' else 700))
    instances = expand(spec['quick'] if tier == 'quick' else spec['quick'] + spec.get('thorough', []))
    if '--only' in args:
        w = args[args.index('--only') + 1]
        instances = [i for i in instances if i[0] == w]
    boot_error = None
    try:
        from sx import world
        world.boot()
        world.load_harness(spec['mod'])
    except BaseException as e:
        boot_error = f'{type(e).__name__}: {e}'
        if verbose:
            traceback.print_exc()
    opts = dict(deadline=t0 + budget, keep_witness=12, validate=spec.get('validate', 3 if tier == 'quick' else 8), seed=seed, trace=False,
                path_seconds=60, query_timeout_ms=20000)
    jobs = [(i, spec['mod'], f, p, opts) for i, (f, p) in enumerate(instances)]
    rnd = random.Random(seed)
    if boot_error is None:
        results, lost = run_jobs(jobs, nproc, t0 + budget + 90)
    else:
        # the code can not be encoded at all: no verdict, but the default inputs are still run
        results, lost = [], []
        for i, mod, f, p, o in jobs:
            if time.time() - t0 > budget:
                break
            r = native(mod, f, p, {})
            if r['failures'] and not r.get('mismatch'):
                results.append(dict(i=i, func=f, params=p, violations=[], unconfirmed=[], validated=0, divergences=[], mismatch=0, stats={}, solver_time=0, reached={}, funcs=[],
                                    inconclusive=[], incomplete='not encoded', sample=[], wall=0,
                                    native_failures=[dict(label=r['failures'][0], inputs={}, detail='default inputs', order='ino', seed='0', failures=r['failures'], error=r['error'])]))
        lost = [(j, 'not encoded: ' + boot_error) for j in jobs]
        close_servers()
    del rnd
    results.sort(key=lambda r: r['i'])
    wall = time.time() - t0

    # -- verdict --------------------------------------------------------------
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    reached = {}
    for r in results:
        for k, v in r['reached'].items():
            reached[k] = reached.get(k, 0) + v
    known = known_findings(prop)
    violations, knowns = [], []
    for r in results:
        for v in r['violations'] + r['native_failures']:
            v = dict(v, mod=spec['mod'], func=r['func'], params=r['params'], property=prop)
            k = [d for d in known if d['func'] == r['func'] and d['check'] in v['failures'] and all(v['inputs'].get(a) == b for a, b in d.get('inputs', {}).items())]
            (knowns if k else violations).append(v)
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, n))
    for v in knowns[:5]:
        print(f"KNOWN-FINDING: property={prop} {v['failures'][0]} in {v['func']} inputs {v['inputs']}")
    shown = set()
    for n, v in enumerate(violations):
        path = os.path.join(rdir, f'{prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        if v['failures'][0] not in shown and len(shown) < 10:
            shown.add(v['failures'][0])
            print(f'VIOLATION property={prop} replay={path}')
            print(f"  {v['func']} {v['params']}: {v['failures'][0]}; inputs {json.dumps(v['inputs'])[:600]}; {v.get('error') or ''}")
    missing_reach = [x for x in spec.get('reach', []) if not reached.get(x)] if not violations else []
    inconclusive = {}
    for r in results:
        for why, _ in r['inconclusive']:
            inconclusive[why] = inconclusive.get(why, 0) + 1
    incomplete = [f"{r['func']} {r['params']}: {r['incomplete']}" for r in results if r['incomplete']] + [f'{j[2]} {j[3]}: {w}' for j, w in lost]
    unconfirmed = [dict(func=r['func'], params=r['params'], **u) for r in results for u in r['unconfirmed']]
    divergences = [dict(func=r['func'], params=r['params'], **u) for r in results for u in r['divergences']]
    funcs = sorted({f for r in results for f in r['funcs']})
    complete = not (inconclusive or incomplete or unconfirmed or missing_reach)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), wall_s=round(wall, 2), violations=len(violations),
        assumptions=plan.ASSUMPTIONS + spec.get('assume', []),
        coverage=dict(
            states=stats.get('paths', 0) + stats.get('paths_cut', 0) + stats.get('forks', 0),
            transitions=stats.get('branches', 0),
            traces_validated_against_impl=sum(r['validated'] for r in results),
            samples=[dict(func=r['func'], params=r['params'], **s) for r in results for s in r['sample'][:1]][:6],
            bounds=spec['bounds'], instances=len(instances), paths=stats.get('paths', 0), paths_cut_by_assumptions=stats.get('paths_cut', 0),
            queries=stats.get('queries', 0), sat=stats.get('sat', 0), unsat=stats.get('unsat', 0), unknown=stats.get('unknown', 0),
            assertions_decided_by_solver=stats.get('checks_discharged', 0), assertions_decided_on_path=stats.get('checks_on_path', 0), counterexamples=stats.get('candidates', 0),
            solver_time_s=round(sum(r['solver_time'] for r in results), 2), functions_encoded=funcs,
            reached=reached, unreached=missing_reach, all_paths_within_bounds_decided=complete and not violations,
            inconclusive=inconclusive, incomplete=incomplete[:40], unconfirmed_counterexamples=unconfirmed[:10], stub_divergences=divergences[:10],
            harness_mismatch=sum(r['mismatch'] for r in results), known_findings=len(knowns), boot_error=boot_error))
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print(f"{prop} {tier}: {len(instances)} instances, {stats.get('paths', 0)} paths, {stats.get('queries', 0)} queries, "
          f"{evidence['coverage']['solver_time_s']} s solver, {round(wall, 1)} s wall, {evidence['coverage']['traces_validated_against_impl']} traces validated, "
          f"{len(violations)} violations" + ('' if complete else ' [NOT COMPLETE]'))
    for label, what in (('inconclusive', inconclusive), ('incomplete', incomplete), ('unconfirmed', unconfirmed), ('divergences', divergences), ('unreached', missing_reach)):
        if what:
            print(f'  {label}: {json.dumps(what, default=str)[:3000 if verbose else 600]}')
    if boot_error:
        print('  not encoded:', boot_error)
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print(f"   {r['wall']:.1f}s (explore {r.get('explored', 0):.1f}s) {r['func']} {r['params']} paths {r['stats'].get('paths', 0)} cut {r['stats'].get('paths_cut', 0)} queries {r['stats'].get('queries', 0)}")
            if r.get('engine_error'):
                print(r['engine_error'])
        print('  reached', reached)
    return 1 if violations else 0


def replay_file(path):
    with open(path) as f:
        v = json.load(f)
    r = native(v['mod'], v['func'], v['params'], v['inputs'], v['order'], v['seed'])
    close_servers()
    print(json.dumps({k: x for k, x in r.items() if k != 'trace'}, indent=1))
    if r.get('trace'):
        print(r['trace'])
    return 1 if r['failures'] else 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    close_servers()
    os._exit(code)
