"""check.py PROPERTY [quick|thorough] [--seconds S] [--jobs J] [--runs N]

Seeded search over schedules, inputs and faults for one property.
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no answer.
"""
import argparse
import collections
import json
import mmap
import os
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import registry                                  # noqa: E402
from sim import harness, known                   # noqa: E402
from sim.core import Choices                     # noqa: E402


def worker(idx, jobs, prop, world, tier, base, end, floor_end, floor, max_runs, stop, fd):
    from sim import reference
    reference.start()
    i = idx
    out = os.fdopen(fd, 'w', buffering=1)
    n = 0
    while True:
        now = time.monotonic()
        if stop[0] or now > floor_end or (now > end and i >= floor) or (max_runs and i >= max_runs):
            break
        t = time.monotonic()
        try:
            case, res = harness.run_seed(world, prop, tier, base, i)
            if res.get('hang'):
                reference.start()
                case, res = harness.run_seed(world, prop, tier, base, i)
                if res.get('hang'):
                    reference.start()
        except Exception as e:
            res = {'error': ''.join(traceback.format_exception(e))[-3000:]}
            case = None
        res['i'] = i
        res['wall'] = time.monotonic() - t
        v = harness.mine(res, prop)
        again = None
        if n % 50 == 7 and v is None and 'error' not in res:
            _, r2 = harness.run_seed(world, prop, tier, base, i)
            again = r2.get('hash') == res.get('hash')
        n += 1
        keep = {k: res[k] for k in ('i', 'wall', 'viol', 'probes', 'fired', 'sim_us', 'steps', 'switches', 'sig', 'hash', 'capped', 'nontrivial', 'error', 'hang') if k in res}
        keep['again'] = again
        if v is not None:
            keep['case'] = case
            keep['trace'] = res.get('trace', [])
        elif i < jobs and case is not None:
            keep['sample'] = case
        out.write(json.dumps(keep) + '\n')
        i += jobs
    out.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=None)
    ap.add_argument('--seconds', type=float)
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--runs', type=int, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    base = int(os.environ.get('VERIF_SEED', '1'))
    prop = a.prop
    jobs = a.jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    t0 = time.monotonic()
    seconds = a.seconds or {'quick': registry.QUICK, 'thorough': registry.THOROUGH}[tier]
    scratch = tempfile.mkdtemp(prefix='dpsim.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['DPSIM_BASE'] = scratch
    try:
        return search(prop, tier, base, jobs, t0, seconds, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def search(prop, tier, base, jobs, t0, seconds, a):
    print(f'{prop} {tier} VERIF_SEED={base}', flush=True)
    world = harness.load_world(registry.PROPS[prop])
    try:
        world.prepare()
    except Exception as e:
        traceback.print_exc()
        print(f'NO ANSWER: the code under test does not load: {e!r}')
        return 2
    stop = mmap.mmap(-1, 1)
    end = time.monotonic() + seconds
    fds, pids = {}, []
    for w in range(jobs):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for f in fds:
                    os.close(f)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                worker(w, jobs, prop, world, tier, base, end, t0 + registry.HARD[tier], registry.FLOOR[tier] if not a.seconds else 0, a.runs, stop, wfd)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        fds[r] = b''
        pids.append(pid)
    tot = collections.Counter()
    fired, probes, errors, samples = collections.Counter(), collections.Counter(), [], []
    sigs, other = set(), collections.Counter()
    best = None
    simus = steps = switches = again = again_bad = 0
    listed = collections.Counter()
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            buf = fds[r] + b
            *lines, fds[r] = buf.split(b'\n')
            for line in lines:
                m = json.loads(line)
                tot['runs'] += 1
                if 'error' in m:
                    errors.append((m['i'], m['error']))
                    if len(errors) > 40:
                        stop[0] = 1
                    continue
                v = harness.mine(m, prop)
                if v is not None:
                    k = known.match(prop, v, m)
                    if k is not None:
                        listed[k] += 1
                    else:
                        stop[0] = 1
                        if best is None or m['i'] < best['i']:
                            best = m
                for o in m.get('viol', ()):
                    if o[0] != prop:
                        other[o[0] + '/' + o[1]] += 1
                fired.update(m.get('fired', {}))
                probes.update(m.get('probes', {}))
                simus += m.get('sim_us', 0)
                steps += m.get('steps', 0)
                switches += m.get('switches', 0)
                tot['capped'] += bool(m.get('capped'))
                if m.get('nontrivial'):
                    tot['nontrivial'] += 1
                    sigs.add(m['hash' if getattr(world, 'BY_EVENTS', False) else 'sig'])
                if m.get('again') is not None:
                    again += 1
                    again_bad += not m['again']
                if 'sample' in m:
                    samples.append(m['sample'])
    for p in pids:
        os.waitpid(p, 0)
    wall = time.monotonic() - t0
    print(f'{tot["runs"]} runs, {tot["nontrivial"]} non-trivial, {len(sigs)} distinct {"histories" if getattr(world, "BY_EVENTS", False) else "interleavings"}, {simus / 1e6:.0f} s simulated, {wall:.1f} s real, faults {dict(fired)}')
    if other:
        print('seen in passing, judged by their own checks:', dict(other))
    if again_bad:
        print(f'{again_bad} of {again} repeated runs gave another event log')
    for what in known.listed(prop):
        print(f'KNOWN-FINDING: property={prop} {what}')
    replay = None
    if best is not None:
        replay = confirm(prop, world, tier, base, best)
    if not a.no_evidence:
        evidence(prop, world, tier, base, tot, sigs, fired, probes, simus, steps, switches, again, again_bad, samples, wall, best, errors, jobs)
    if best is not None:
        v = harness.mine(best, prop)
        print(f'run {best["i"]}: [{v[1]}] {v[2]}')
        print(f'VIOLATION property={prop} replay={replay}')
        return 1
    if errors:
        print(f'{len(errors)} runs gave no answer; first (run {errors[0][0]}):\n{errors[0][1]}')
        return 2
    if tot['runs'] == 0:
        print('no run completed')
        return 2
    return 0


def confirm(prop, world, tier, base, best):
    """minimise, replay, write the replay file"""
    from sim import reference
    reference.start()
    v = harness.mine(best, prop)
    case, trace = best['case'], best['trace']
    tries = 0
    if v[1] != 'hang':
        case, trace, tries = harness.minimise(world, prop, case, trace, v[1], budget=20.0 if tier == 'quick' else 60.0)
        res = harness.run_case(world, case, prop, Choices(replay=trace), want_history=True)
        w = harness.mine(res, prop)
        if w is None:
            case, trace = best['case'], best['trace']
            res = harness.run_case(world, case, prop, Choices(replay=trace), want_history=True)
            w = harness.mine(res, prop)
        repro = w is not None
    else:
        res, repro, w = {}, True, v
    reference.stop()
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', f'{prop}-{base}-{best["i"]}.json')
    with open(path, 'w', encoding='utf-8') as fh:
        json.dump({'property': prop, 'world': world.__name__.split('.')[-1], 'tier': tier, 'seed': base, 'run': best['i'], 'class': (w or v)[1], 'message': (w or v)[2],
                   'minimised_in': tries, 'reproduced': repro, 'hash': res.get('hash'), 'faults': case.get('faults', []), 'case': case, 'choices': trace,
                   'history': res.get('history', []), 'log': res.get('logs', [])}, fh, indent=1)
    print(f'minimised in {tries} runs: {len(trace)} choices, {len(case.get("faults", []))} faults; reproduced={repro}')
    return path


def evidence(prop, world, tier, base, tot, sigs, fired, probes, simus, steps, switches, again, again_bad, samples, wall, best, errors, jobs):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    rate = tot['runs'] / max(wall, 0.001) * 3600
    with open(os.path.join(d, prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump({
            'property': prop, 'tier': tier, 'seed': base, 'level': 'exploration',
            'coverage': {
                'evaluations': tot['runs'], 'distinct_nontrivial': len(sigs),
                'rule': (world.RULE.get(prop) or world.RULE['*']) + (' Distinct: by the hash of the whole event log (steps, faults and outcomes; the processes here run one after another).' if getattr(world, 'BY_EVENTS', False) else ' Distinct: by the hash of the sequence of task switches the scheduler made.'),
                'samples': samples[:2],
                'seeds_per_hour': round(rate), 'simulated_seconds': round(simus / 1e6, 3), 'scheduling_points': steps, 'task_switches': switches,
                'nontrivial_runs': tot['nontrivial'], 'runs_stopped_at_step_limit': tot['capped'],
                'faults_injected': dict(fired), 'probes': dict(probes), 'repeated_for_determinism': again, 'repeats_with_other_event_log': again_bad,
                'real_code': world.REAL, 'stubs': world.STUBS, 'worker_processes': jobs, 'runs_without_answer': len(errors),
            },
            'assumptions': world.ASSUMPTIONS,
            'wall_s': round(wall, 2), 'violations': 0 if best is None else 1,
        }, fh, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
