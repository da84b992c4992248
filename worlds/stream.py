"""Several audits in one process: dp.run.run streams, their consumers, and a clock nobody can trust.

Serves C22 (streams do not influence one another) and C25 (the message protocol).
A consumer is a simulated thread; the scheduler decides who takes the next message, and may switch inside an audit
wherever the audited code reports progress to its log. Expectations come from pristine processes.
"""
import hashlib
import json
import os

from sim import corpus, specgen
from sim.core import US
from sim.harness import drop_each

S = US
BY_EVENTS = True
RULE = {
    'C22': 'Random specifications, transcripts, options, consumers (straight, pausing, abandoning, throwing), repeated and failing audits and switch points from one seed; non-trivial: at least two streams were alive at once or followed an abandoned or failed one.',
    'C25': 'Random specifications, transcripts, all option settings, clock behaviour (frozen, slow, jumping both ways) and cancellation points from one seed; non-trivial: more than one solution was generated.',
}
REAL = ['dp.run, dp.audit, dp.area and the whole auditor', 'dp.__main__ (command line) in a share of the C25 runs']
STUBS = ['performance counter', 'thread scheduling (one consumer runs at a time; switches at messages and at log calls)', 'expected solutions come from the same code in a fresh process']
ASSUMPTIONS = ['the order in which solutions are generated is the code\'s own (taken from a fresh process, not re-derived)']
CAP = 180
LONG = 1300


# ------------------------------------------------------------------ generation
def options(rng, prop):
    a = {}
    if rng.random() < 0.85:
        a['progress_every'] = rng.choice([1, 1, 2, 3, 7, 50])
    if rng.random() < 0.35:
        a['stop_after'] = rng.choice([1, 2, 3, 5, 10, 40])
    if rng.random() < (0.3 if prop == 'C25' else 0.15):
        a['audit_each'] = rng.choice([2, 3, 5, 300])
    if rng.random() < (0.2 if prop == 'C25' else 0.1):
        a['print_all'] = True
    elif rng.random() < (0.15 if prop == 'C25' else 0.05):
        a['print_only'] = sorted(rng.sample(range(1, 14), rng.choice([1, 2, 4]))) + ([9999] if rng.random() < 0.2 else [])
    if rng.random() < 0.05:
        a['estimate_only'] = True
    return a


def clock(rng):
    k = rng.random()
    if k < 0.25:
        return {'dt': 5000, 'jumps': []}
    return {'dt': rng.choice([0, 0, 1, 5000, 3000000, -2000]), 'jumps': [[rng.randint(1, 60), rng.choice([-7200, -1.5, 0.25, 86400, 1e9, -1e6])] for _ in range(rng.choice([0, 1, 2, 4]))]}


def long_case(rng):
    """an audit that goes through more than a thousand solutions, at the defaults or near them"""
    n = rng.choice([10, 11, 12])
    cs = [corpus.gen_course(rng, 0, i) for i in range(n)]
    for i, c in enumerate(cs):
        c.update(clbid=str(8000 + i), subject='ART', number=str(100 + i), credits='1.00', grade_code=rng.choice('ABC'), flag_in_progress=rng.random() < 0.1)
    doc = corpus.gen_student(rng, '100001', n=0)
    doc['courses'], doc['exceptions'] = cs, []
    items = [{'course': f'ART {100 + i}'} for i in range(n)]
    parts = [{'any': rng.sample(items, n)} for _ in range(3)]
    if rng.random() < 0.5:
        parts[rng.randrange(3)] = {'count': 2, 'of': rng.sample(items, 6)}
    k = rng.random()
    if k < 0.8:
        parts.append({'course': 'NOT 999'})
    spec = {'name': 'Long', 'type': 'concentration', 'code': '950', 'result': {'all': parts}}
    args = {}
    if rng.random() < 0.4:
        args['progress_every'] = rng.choice([250, 500, 999, 1000, 1001])
    if rng.random() < 0.4:
        args['stop_after'] = rng.choice([999, 1000, 1001, 1200])
    st = {'doc': 0, 'spec': 0, 'args': args, 'copy': False, 'gaps': [0], 'end': None, 'after': None, 'cuts': []}
    return {'pairs': [{'doc': doc, 'spec': spec, 'how': 'ok'}], 'streams': [st], 'clock': clock(rng), 'faults': [], 'long': True, 'knobs': {'stick': 0.2, 'max_steps': 60000}}


def generate(rng, prop, tier):
    if prop == 'C25' and rng.random() < 0.02:
        return long_case(rng)
    nd = rng.choice([1, 1, 2, 3]) if prop == 'C22' else 1
    pairs = []
    for i in range(nd):
        doc, spec = specgen.pair(rng, str(100001 + i), f'95{i}')
        how = 'ok'
        if prop == 'C22' and rng.random() < 0.12:
            d2, how = corpus.corrupt(rng, doc)
            if how in ('not_object', 'no_stnum', 'no_name', 'no_class'):
                how = 'ok'
            else:
                doc = d2
        pairs.append({'doc': doc, 'spec': spec, 'how': how})
    streams = []
    ns = rng.choice([2, 2, 3, 4, 5] + ([7] if tier == 'thorough' else [])) if prop == 'C22' else rng.choice([1, 1, 2])
    for i in range(ns):
        j = rng.randrange(nd)
        st = {'doc': j, 'spec': j if rng.random() < 0.9 else rng.randrange(nd), 'args': options(rng, prop), 'copy': rng.random() < 0.3,
              'gaps': [rng.choice([0, 0, 0, 1, 500]) for _ in range(8)], 'end': None, 'after': None}
        if rng.random() < 0.3:
            st['end'] = [rng.choice(['close', 'drop', 'hold', 'throw']), rng.choice([1, 1, 2, 3, 6])]
        if i and rng.random() < 0.3:
            st['after'] = rng.randrange(i)
        st['cuts'] = sorted(rng.sample(range(1, 4000), rng.choice([0, 0, 3, 12])) + [rng.randint(1, 200) for _ in range(rng.choice([0, 4]))]) if prop == 'C22' else []
        if prop == 'C25' and rng.random() < 0.25:
            st['cli'] = rng.choice(['json', 'json', 'json', 'quiet', 'transcript'])
            st['end'] = None
        streams.append(st)
    return {'pairs': pairs, 'streams': streams, 'clock': clock(rng), 'faults': [], 'knobs': {'stick': rng.choice([0.0, 0.2, 0.6]), 'max_steps': 60000}}


def reductions(case):
    n = len(case['streams'])
    for i in range(n):
        if n > 1:
            keep = [k for k in range(n) if k != i]
            out = []
            for k in keep:
                s = dict(case['streams'][k])
                a = s['after']
                s['after'] = None if a is None or a == i else keep.index(a)
                out.append(s)
            yield {**case, 'streams': out}
    if case['clock']['jumps'] or case['clock']['dt'] != 5000:
        yield {**case, 'clock': {'dt': 5000, 'jumps': []}}
    for i, s in enumerate(case['streams']):
        def put(x):
            return {**case, 'streams': case['streams'][:i] + [x] + case['streams'][i + 1:]}
        for k in list(s['args']):
            yield put({**s, 'args': {a: b for a, b in s['args'].items() if a != k}})
        if s['cuts']:
            yield put({**s, 'cuts': []})
            for c in drop_each(s, 'cuts'):
                yield put(c)
        if s['end']:
            yield put({**s, 'end': None})
        if s['after'] is not None:
            yield put({**s, 'after': None})
        if any(s['gaps']):
            yield put({**s, 'gaps': [0] * 8})
        if s['copy']:
            yield put({**s, 'copy': False})
    for i, p in enumerate(case['pairs']):
        if isinstance(p['doc'].get('courses'), list):
            for k in range(len(p['doc']['courses'])):
                d = {**p['doc'], 'courses': p['doc']['courses'][:k] + p['doc']['courses'][k + 1:]}
                yield {**case, 'pairs': case['pairs'][:i] + [{**p, 'doc': d}] + case['pairs'][i + 1:]}


# ------------------------------------------------------------------ what a fresh process says
def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:20]


def plain(result):
    return {'result': result.to_dict(), 'claims': result.keyed_claims(), 'gpa': str(result.gpa()), 'status': result.status().value, 'rank': [str(x) for x in result.rank()]}


def view(msg):
    """a message without its times"""
    n = type(msg).__name__
    if n == 'EstimateMsg':
        return ['estimate', msg.estimate]
    if n == 'NoAuditsCompletedMsg':
        return ['none']
    if n == 'ProgressMsg':
        return ['progress', str(msg.best_rank), msg.best_i, msg.iters, msg.total_iters]
    if n == 'ResultMsg':
        return ['result', digest(plain(msg.result)), msg.best_i, msg.iters, msg.total_iters, msg.version, [c.clbid for c in msg.transcript]]
    return [n]


class TooSlow(BaseException):
    pass


def budgeted(fn, calls=60000, long=False):
    """fn(), or {'bad': 'slow'} once it has made that many log calls (a measure of work that no clock disturbs)"""
    left = [calls * 60 if long else calls]

    def debug(*a, **k):
        left[0] -= 1
        if left[0] < 0:
            raise TooSlow()
    for lg in dp_loggers():
        lg.debug = debug
    try:
        return fn()
    except TooSlow:
        return {'bad': 'slow'}
    finally:
        for lg in dp_loggers():
            lg.__dict__.pop('debug', None)


def dp_loggers():
    import logging
    import sys
    return [lg for lg in (getattr(m, 'logger', None) for n, m in list(sys.modules.items()) if n == 'dp' or n.startswith('dp.')) if isinstance(lg, logging.Logger)]


def svc_stream(doc, spec, args, limit):
    """the messages of an undisturbed audit, at most `limit` of them"""
    from dp.audit import Arguments
    from dp.run import run
    out = []
    try:
        for m in run(Arguments(**args), student=doc, area_spec=spec):
            out.append(view(m))
            if len(out) >= limit:
                return out
    except Exception as e:
        out.append(['raised', type(e).__name__])
        return out
    out.append(['end'])
    return out


def svc_solutions(doc, spec, cap, light=False):
    """every solution of an area, audited in the order they are generated; light: in full only those that beat all before"""
    import dp.run
    from dp.audit import Arguments
    from dp.status import WAIVED_AND_DONE
    out = {'sols': [], 'bad': None, 'complete': False}
    got = {}

    def capture(**kw):
        got.update(kw)
        return iter(())
    try:
        # everything up to the message loop is the code's own; only the loop is replaced
        dp.run.audit = capture
        for _ in dp.run.run(Arguments(), student=doc, area_spec=spec):
            pass
        area, st, ex = got['area'], got['student'], got.get('exceptions') or []
        out['estimate'] = area.estimate(student=st, exceptions=ex)
        out['transcript'] = [c.clbid for c in st.courses_with_failed]
        for sol in area.solutions(student=st, exceptions=ex):
            if len(out['sols']) >= cap:
                return out
            try:
                r = sol.audit()
                if light and out['sols'] and r.rank()[0] <= best and r.status() not in WAIVED_AND_DONE:
                    out['sols'].append({'rank': str(r.rank()[0]), 'done': False, 'digest': None, 'version': r.version})
                    continue
                best = r.rank()[0]
                p = plain(r)
            except Exception as e:      # counts only if this solution is checked
                out['sols'].append({'bad': type(e).__name__})
                continue
            out['sols'].append({'rank': str(r.rank()[0]), 'done': r.status() in WAIVED_AND_DONE, 'digest': digest(p), 'version': r.version,
                                'out': digest(json.loads(json.dumps(p['result']))), 'gpa': p['gpa']})
        out['complete'] = True
    except Exception as e:
        out['bad'] = type(e).__name__
    return out


def model(ref, args):
    """the messages the protocol prescribes for these solutions and options"""
    from decimal import Decimal
    every, stop, each = args.get('progress_every', 1000), args.get('stop_after'), args.get('audit_each', 1)
    only, all_ = args.get('print_only', []), args.get('print_all', False)
    out = []
    if 'estimate' not in ref:
        return [['raised', ref['bad']]]
    out.append(['estimate', ref['estimate']])
    if args.get('estimate_only'):
        return out + [['end']]

    def result(s, best_i):
        return ['result', s['digest'], best_i, checked, total, s['version'], ref['transcript']]
    best = best_i = None
    total = checked = 0
    printed = complete = stopped = False
    for s in ref['sols']:
        total += 1
        if (only and total not in only) or total % each:
            continue
        checked += 1
        if 'bad' in s:
            return out + [['raised', s['bad']]]
        if best is None or s['done'] or Decimal(s['rank']) > Decimal(best['rank']):
            best, best_i = s, total
        if s['done']:
            complete = True
            break
        if checked % every == 0:
            out.append(['progress', best['rank'], best_i, checked, total])
        if all_ or total in only:
            printed = True
            out.append(result(s, best_i))
        if stop is not None and checked >= stop:
            stopped = True
            break
    if not complete and not stopped:
        if ref['bad']:
            return out + [['raised', ref['bad']]]
        if not ref['complete']:
            return out + [['...']]
    if best is None:
        return out + [['none'], ['end']]
    if not (all_ or printed) or complete:
        out.append(result(best, best_i))
    return out + [['end']]


# ------------------------------------------------------------------ the run
class Clock:
    def __init__(self, spec):
        self.spec = spec
        self.n = 0

    def __call__(self, t):
        self.n += 1
        return 5000 + self.n * self.spec['dt'] / US + sum(j for k, j in self.spec['jumps'] if k <= self.n)


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.prop = ctx.focus
        self.live = 0
        self.done = {}
        self.sim.env['perf_hook'] = Clock(self.case['clock'])
        self.inputs = [[json.loads(json.dumps(p['doc'])), json.loads(json.dumps(p['spec']))] for p in self.case['pairs']]
        self.frozen = [json.dumps(x) for x in self.inputs]
        self.kept = []
        self.ended = 0
        self.cap = LONG if self.case.get('long') else CAP

    def report(self, cls, msg):
        self.ctx.report(self.prop, cls, msg)

    def ask(self, name, *a):
        from sim import reference
        return reference.ask(name, *a)

    def start(self):
        hook_logs()
        if any(s.get('cli') for s in self.case['streams']):
            self.dir = self.ctx.mkscratch()
            self.sim.env['fs_root'] = self.dir
        self.p = self.sim.process('app', self.app)

    def app(self):
        sim = self.sim
        tasks = []
        for i, st in enumerate(self.case['streams']):
            fn = self.cli if st.get('cli') else self.consume
            if st.get('cli'):
                p = self.sim.process(f'cli{i}', lambda i=i, st=st: self.cli(i, st), argv=['dp'])
                p.data['i'] = i
                tasks.append(p.main_task)
            else:
                tasks.append(sim.spawn(f'stream{i}', lambda i=i, st=st, fn=fn: fn(i, st), self.p))
        sim.wait(lambda: all(t.done for t in tasks))
        for t in tasks:
            if t.exc is not None:
                raise t.exc
        for i, k, res, before in self.kept:
            now = digest(plain(res))
            if now != before and self.prop == 'C22':
                self.report('changed', f'stream {i}: the result delivered as message {k} was different once the other audits had run')
        for x, was in zip(self.inputs, self.frozen):
            if json.dumps(x) != was and self.prop == 'C22':
                self.report('input', 'an audit altered the document or specification it was given')

    def pair(self, st):
        d, s = self.inputs[st['doc']][0], self.inputs[st['spec']][1]
        if st['copy']:
            d, s = json.loads(json.dumps(d)), json.loads(json.dumps(s))
        return d, s

    def wanted(self, st):
        """(options, expected messages)"""
        doc, spec = self.case['pairs'][st['doc']]['doc'], self.case['pairs'][st['spec']]['spec']
        args = dict(st['args'])
        ref = self.ask('solutions', doc, spec, self.cap, bool(self.case.get('long')))
        if 'sols' not in ref:
            return args, None
        if not ref['complete'] and not ref['bad']:
            args.pop('print_only', None)
            lim = max(1, self.cap // args.get('audit_each', 1))
            if args.get('audit_each', 1) > self.cap:
                args.pop('audit_each')
            args['stop_after'] = min(args.get('stop_after', 10 ** 9), lim)
        if self.prop == 'C22':
            return args, self.ask('stream', doc, spec, args, CAP)
        if len(ref['sols']) > 1:
            self.ctx.nontrivial = True
        self.sim.probe('solutions', len(ref['sols']))
        return args, model(ref, args)

    def consume(self, i, st):
        from dp.audit import Arguments
        from dp.run import run
        sim = self.sim
        args, want = self.wanted(st)
        if not isinstance(want, list):
            self.sim.probe('too_slow')
            self.done[i] = True
            return
        if st['after'] is not None:
            sim.wait(lambda: st['after'] in self.done)
        doc, spec = self.pair(st)
        t = __import__('sim.core', fromlist=['current_task']).current_task()
        t.cuts = list(st['cuts'])
        t.calls = 0
        if self.live or self.ended:
            self.ctx.nontrivial = self.ctx.nontrivial or self.prop == 'C22'
        self.live += 1
        got = []
        gen = None
        ended = None
        try:
            gen = run(Arguments(**args), student=doc, area_spec=spec)
            while True:
                sim.point('message')
                gap = st['gaps'][len(got) % len(st['gaps'])]
                if gap:
                    sim.sleep(gap)
                if st['end'] and len(got) >= st['end'][1]:
                    ended = st['end'][0]
                    break
                if len(got) >= self.cap:
                    ended = 'close'
                    break
                try:
                    m = next(gen)
                except StopIteration:
                    got.append(['end'])
                    break
                v = view(m)
                got.append(v)
                sim.event('msg', i=i, v=v)
                self.times(i, m)
                if v[0] == 'result':
                    self.kept.append((i, len(got), m.result, v[1]))
        except Exception as e:
            import traceback
            got.append(['raised', type(e).__name__])
            sim.event('raised', i=i, error=repr(e)[:200])
        if ended == 'close':
            gen.close()
        elif ended == 'throw':
            try:
                gen.throw(KeyboardInterrupt())
                self.report('swallowed', f'stream {i} went on after being interrupted')
            except KeyboardInterrupt:
                pass
            except StopIteration:
                self.report('swallowed', f'stream {i} swallowed an interrupt')
        elif ended == 'hold':
            self.held = getattr(self, 'held', []) + [gen]
        gen = None
        self.live -= 1
        self.ended += 1
        self.done[i] = True
        self.compare(i, args, got, want, ended)

    def compare(self, i, args, got, want, ended):
        if want and want[-1] == ['...']:
            want = want[:-1]
        if ended or (self.prop == 'C22' and len(want) >= CAP):
            n = min(len(got), len(want))
            if len(got) > len(want):
                self.report('more', f'stream {i} ({args}) delivered {len(got)} messages, expected {len(want)}')
            got, want = got[:n], want[:n]
        if got != want:
            k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
            g = got[k] if k < len(got) else 'nothing'
            w = want[k] if k < len(want) else 'nothing'
            self.report('stream' if self.prop == 'C22' else 'protocol', f'stream {i} ({args}): message {k} was {short(g)}, expected {short(w)}')

    def times(self, i, m):
        for f in ('avg_iter_ms', 'elapsed_ms'):
            x = getattr(m, f, None)
            if x is not None and (not isinstance(x, (int, float)) or x != x):
                self.report('times', f'stream {i}: {f} is {x!r}')

    # ---- the command line ------------------------------------------------
    def cli(self, i, st):
        import dp.__main__ as cli
        from sim.core import current_task
        args, want = self.wanted(st)
        if not isinstance(want, list):
            self.sim.probe('too_slow')
            self.done[i] = True
            return
        ref = self.ask('solutions', self.case['pairs'][st['doc']]['doc'], self.case['pairs'][st['spec']]['spec'], CAP)
        if want[-1] == ['...']:
            return
        t = current_task()
        t.cuts, t.calls = [], 0
        import yaml
        sf, af = os.path.join(self.dir, f's{i}.json'), os.path.join(self.dir, f'a{i}.yaml')
        with open(sf, 'w', encoding='utf-8') as fh:
            json.dump(self.inputs[st['doc']][0], fh)
        with open(af, 'w', encoding='utf-8') as fh:
            yaml.safe_dump(self.inputs[st['spec']][1], fh, sort_keys=False)
        argv = ['--student', sf, '--area', af, '--loglevel', 'critical']
        for k, flag in (('progress_every', '--progress-every'), ('stop_after', '--stop-after'), ('audit_each', '--audit-each')):
            if k in args:
                argv += [flag, str(args[k])]
        if args.get('print_only'):
            argv += ['--print-only', ','.join(map(str, args['print_only']))]
        if args.get('print_all'):
            argv.append('--print-all')
        if args.get('estimate_only'):
            argv.append('--estimate')
        mode = st['cli']
        if mode in ('json', 'transcript'):
            argv.append('--json' if mode == 'json' else '--json-with-transcript')
        elif mode == 'quiet':
            argv.append('--quiet')
        p = t.proc
        n_out, n_err = len(p.out()), len(p.err())
        try:
            rc = cli.main(argv)
        except Exception as e:
            rc = ['raised', type(e).__name__]
        finally:
            os.environ.pop('DP_ESTIMATE', None)
        out, err = p.out()[n_out:], p.err()[n_err:]
        self.sim.event('cli', i=i, rc=rc, out=digest(out), err=len(err))
        self.ended += 1
        self.done[i] = True
        kinds = [w[0] for w in want]
        if kinds[-1] == 'raised':
            if rc != want[-1]:
                self.report('cli_rc', f'the command ended with {rc}, expected the error {want[-1][1]}')
            return
        wrc = 2 if 'none' in kinds else 0
        if rc != wrc:
            self.report('cli_rc', f'the command ({argv[4:]}) ended with {rc}, expected {wrc}')
            return
        if mode == 'quiet':
            if out.strip() or err.strip():
                self.report('cli_quiet', 'the quiet command printed something')
            return
        n_est = sum('estimated solution' in ln for ln in err.split('\n'))
        if n_est != kinds.count('estimate'):
            self.report('cli_estimate', f'{n_est} estimates were printed')
        prog = [ln for ln in err.split('\n') if ' checked' in ln and 'per check' in ln]
        wprog = [f'(best: #{w[2]} at {w[1]})' for w in want if w[0] == 'progress']
        if len(prog) != len(wprog) or any(not g.endswith(w) for g, w in zip(prog, wprog)):
            self.report('cli_progress', f'{len(prog)} progress lines {prog[:2]}, expected {len(wprog)} {wprog[:2]}')
        if mode in ('json', 'transcript'):
            rows = [json.loads(ln) for ln in out.split('\n') if ln.strip()]
            if mode == 'transcript':
                for r in rows:
                    if [c['clbid'] for c in r['transcript']] != ref['transcript']:
                        self.report('cli_transcript', 'the printed transcript is not the student\'s')
                rows = [r['output'] for r in rows]
            by = {s['digest']: s['out'] for s in ref['sols'] if 'out' in s}
            if [digest(r) for r in rows] != [by[w[1]] for w in want if w[0] == 'result']:
                self.report('cli_result', f'{len(rows)} results were printed, expected {kinds.count("result")}; or they differ')

    def finish(self):
        sim = self.sim
        if sim.failure is None and (sim.capped or self.p.exit is None or self.p.exit[0] != 'ok'):
            if self.p.exit and self.p.exit[0] == 'exc':
                raise self.p.exit[1]
            if sim.capped:
                sim.probe('capped')
                return
            self.report('stuck', f'the streams did not end ({sim.steps} steps)')


def short(m):
    return str(m)[:160]


HOOKED = []


def hook_logs():
    """let the scheduler switch threads inside an audit, at its log calls"""
    if HOOKED:
        return
    from sim.core import current_task

    def debug(*a, **k):
        t = current_task()
        cuts = getattr(t, 'cuts', None)
        if cuts:
            t.calls += 1
            if t.calls >= cuts[0]:
                cuts.pop(0)
                t.sim.preempt()
    for lg in dp_loggers():
        lg.debug = debug
    HOOKED.append(1)


def prepare():
    from sim import reference, seams
    seams.import_dp()
    import dp.__main__  # noqa: F401
    reference.SERVICES['stream'] = lambda *a: budgeted(lambda: svc_stream(*a))
    reference.SERVICES['solutions'] = lambda *a: budgeted(lambda: svc_solutions(*a), long=len(a) > 3 and a[3])


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
