"""The operator's view of recent server runs: real `dp.testbed summarize` (and the list `fetch` asks to choose from) over the
simulated database, while workers finish audits, batches queue and operators delete.

Serves C29.
"""
import datetime as dt
import decimal
import io
import re

from sim import corpus
from sim.core import US
from sim.harness import drop_each
from sim.schema import make_db
from worlds.testbed import CATS, Base, knobs

S = US
BY_EVENTS = True
RULE = {'C29': 'Random stored results and queued requests, audits finished, queued, deleted or rolled back meanwhile, one to three summaries and faults from one seed; non-trivial: a summary that listed a run succeeded.'}
REAL = ['dp.testbed (main, fetch.summarize, fetch.fetch__print_summary, fetch.fetch__select_run)', 'dp.ms']
STUBS = ['PostgreSQL (sim.pgengine) and psycopg2 (sim.pgclient)', 'workers, batches and operators (simulated processes issuing their transactions)', 'clocks, process death, connection and pipe errors']
ASSUMPTIONS = ['PostgreSQL gives each statement one committed state', 'a week is judged only for results at least ten minutes away from its edge']

EPOCHS = ['2021-03-01T12:00', '2021-03-01T12:00', '2021-03-16T02:30', '2021-11-08T05:10', '2021-01-01T05:59', '2020-03-01T00:05', '2021-07-04T23:59']
WEEK = 7 * 86400


def generate(rng, prop, tier):
    runs = rng.sample([1, 2, 3, 9, 10, 11, 219, 1000], rng.choice([1, 2, 2, 3, 4]))
    if rng.random() < 0.25:
        runs.append(rng.choice([0, -1, None]))

    def age():
        r = rng.random()
        if r < 0.5:
            return rng.randint(1, 6 * 3600)
        if r < 0.8:
            return rng.randint(1, WEEK - 3600)
        if r < 0.9:
            return rng.choice([WEEK - 900, WEEK - 3600, WEEK + 900, WEEK + 3600])
        return rng.randint(WEEK + 900, 4 * WEEK)

    def row():
        return {'run': rng.choice(runs), 'age': age(), 'ms': rng.choice([0, 1, 250, 1234, 59960, 95000, 3599999, 7200123]), 'ok': rng.random() < 0.4, 'active': rng.random() < 0.6, 'link': rng.random() < 0.1,
                'stnum': str(100000 + rng.randint(0, 5)), 'code': rng.choice(corpus.CODES), 'catalog': rng.choice(CATS)}
    n = rng.choice([0, 1, 2, 4, 8, 14] + ([rng.randint(1000, 1040)] if rng.random() < 0.03 else []))
    rows = [row() for _ in range(n)]
    queue = [row() for _ in range(rng.choice([0, 0, 1, 2, 5] + ([rng.randint(1000, 1040)] if rng.random() < 0.03 else [])))]
    acts, at = [], 0
    for _ in range(rng.choice([0, 1, 2, 4, 6, 10])):
        at += rng.choice([0, 0, 100, 1000, rng.randint(0, S)])
        op = rng.choice(['finish', 'finish', 'finish', 'queue', 'delete', 'unqueue', 'abort', 'requeue'])
        acts.append({'at': at, 'op': op, 'n': rng.choice([1, 1, 2, 3]), 'i': rng.randint(0, 9), 'row': {**row(), 'age': 0}, 'hold': rng.choice([0, 0, 1000, S])})
    cmds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        cmds.append({'how': rng.choice(['summarize', 'summarize', 'summarize', 'ask']), 'answer': rng.choice(['x', '']), 'gap': rng.choice([0, 500, S])})
    faults = []
    for i in range(len(cmds)):
        if rng.random() < 0.45:
            k = rng.choice(['crash', 'conn_drop', 'stmt_error', 'stall', 'stall', 'pipe', 'pipe'])
            f = {'proc': f'sum{i}', 'kind': k, 'phase': rng.choice(['before', 'after'])}
            if k == 'pipe':
                f.update(kind='io_error', label='print', errno=rng.choice([32, 28]), nth=rng.choice([1, 1, 2, 3]), phase='before')
            elif k == 'stall':
                f.update(label=rng.choice(['any', 'sql select', 'print']), nth=rng.randint(1, 6), us=rng.choice([1000, S, 30 * S]))
            elif k == 'stmt_error':
                f.update(label=rng.choice(['sql select', 'any']), nth=1, code='57014')
            else:
                f.update(label=rng.choice(['any', 'sql select']), nth=rng.choice([1, 1, 2, 3]))
            faults.append(f)
    return {'rows': rows, 'queue': queue, 'acts': acts, 'cmds': cmds, 'faults': faults, 'epoch': rng.choice(EPOCHS), 'knobs': knobs(rng)}


def reductions(case):
    yield from drop_each(case, 'faults')
    for k in ('acts', 'rows', 'queue'):
        yield from drop_each(case, k)
    if len(case['cmds']) > 1:
        yield from drop_each(case, 'cmds')


LINE = re.compile(r'^\s*(-?\d+): (\d{4}-\d\d-\d\d \d\d:\d\d) / (\d{4}-\d\d-\d\d \d\d:\d\d) \[\s*(.*?)\s*\]; ([\d,]+) total, ([\d,]+) ok, ([\d,]+) not-ok(?:, ([\d,]+) queued)?\s*$')
UNIT = {'y': 365 * 86400.0, 'd': 86400.0, 'h': 3600.0, 'm': 60.0, 's': 1.0, 'ms': 0.001}


def span(text):
    """(seconds, the precision it is shown with); None if it is no duration"""
    t = text.lstrip('~').strip()
    if not t:
        return None
    total, last = 0.0, None
    for part in t.split():
        m = re.fullmatch(r'(\d+(?:\.\d+)?)(y|d|h|ms|m|s)', part)
        if not m or (last is not None and UNIT[m[2]] >= UNIT[last]):
            return None
        last = m[2]
        total += float(m[1]) * UNIT[last]
    return total, {'s': 0.11 if '.' in part or len(t.split()) == 1 else 1.0}.get(last, UNIT[last])


class World(Base):
    prop = 'C29'

    def setup(self):
        e = dt.datetime.fromisoformat(self.case['epoch']).replace(tzinfo=dt.timezone.utc)
        self.pg = make_db(self.ctx, epoch=e)
        self.sim.env['out_points'] = True
        for r in self.case['rows']:
            self.pg.seed('result', self.result(r))
        for r in self.case['queue']:
            self.pg.seed('queue', {'student_id': r['stnum'], 'area_catalog': r['catalog'], 'area_code': r['code'], 'run': r['run'], 'input_data': '{}', 'link_only': False, 'priority': 1})
        self.states = []
        self.pg.on_commit.append(self.commit)
        self.snap()

    def result(self, r):
        return {'student_id': r['stnum'], 'catalog': r['catalog'], 'area_code': r['code'], 'run': r['run'], 'is_active': r['active'], 'link_only': r['link'], 'gpa': decimal.Decimal('3.21'), 'rank': decimal.Decimal('1'),
                'max_rank': decimal.Decimal('9'), 'ok': r['ok'], 'iterations': 1, 'duration': dt.timedelta(milliseconds=r['ms']), 'per_iteration': dt.timedelta(0), 'result_version': 3, 'status': 'done', 'revision': 1,
                'result': '{}', 'claimed_courses': '{}', 'input_data': '{}', 'ts': self.pg.clock() - dt.timedelta(seconds=r['age'])}

    def snap(self):
        get = lambda t: [r.committed for r in self.pg.tables[t].rows if r.committed is not None]     # noqa: E731
        self.states.append(([(v['run'], v['ts'], v['duration'], bool(v['ok'])) for v in get('result')], [v['run'] for v in get('queue')]))

    def commit(self, txn, changes):
        if any(c[0] in ('result', 'queue') for c in changes):
            self.snap()
            t = self.sim.current
            name = t.proc.name if t is not None and t.proc is not None else ''
            if name.startswith('sum'):
                self.report('changed', f'{name} changed the database')

    def report(self, cls, msg):
        self.ctx.report('C29', cls, msg)

    # -------------------------------------------------------------- other people
    INS = """INSERT INTO result (student_id, area_code, catalog, run, input_data, iterations, duration, per_iteration, rank, max_rank, result, ok, gpa, status, is_active, revision, result_version, claimed_courses)
             VALUES (%(s)s, %(c)s, %(f)s, %(run)s, '{}', 1, %(d)s, interval '1s', 1, 2, '{}'::jsonb, %(ok)s, 2.5, 'done', true, 1, 3, '{}'::jsonb)"""

    def actor(self, a):
        def main():
            import psycopg2
            conn = psycopg2.connect('', application_name='actor')
            r = a['row']
            arg = {'s': r['stnum'], 'c': r['code'], 'f': r['catalog'], 'run': r['run'], 'd': dt.timedelta(milliseconds=r['ms']), 'ok': r['ok']}
            for _ in range(a['n']):
                with conn.cursor() as curs:
                    if a['op'] in ('finish', 'abort', 'unqueue'):
                        curs.execute('SELECT id, run FROM queue ORDER BY id LIMIT 1 FOR UPDATE SKIP LOCKED')
                        q = curs.fetchone()
                        if q:
                            curs.execute('DELETE FROM queue WHERE id = %(i)s', {'i': q[0]})
                            arg['run'] = q[1]
                        if a['op'] != 'unqueue' and q:
                            self.sim.sleep(a['hold']) if a['hold'] else None
                            curs.execute(self.INS, arg)
                    elif a['op'] in ('queue', 'requeue'):
                        for _ in range(a['n']):
                            curs.execute("INSERT INTO queue (student_id, area_catalog, area_code, run, input_data) VALUES (%(s)s, %(f)s, %(c)s, %(run)s, '{}')", arg)
                        if a['op'] == 'requeue':
                            curs.execute('DELETE FROM result WHERE id = %(i)s', {'i': a['i']})
                    else:
                        curs.execute('DELETE FROM result WHERE id = %(i)s', {'i': a['i']})
                    self.sim.sleep(a['hold']) if a['hold'] else None
                (conn.rollback if a['op'] == 'abort' else conn.commit)()
            conn.close()
        return main

    # -------------------------------------------------------------- driver
    def driver(self):
        sim = self.sim
        for i, a in enumerate(self.case['acts']):
            sim.process(f'actor{i}', self.actor(a), at=a['at']).data['role'] = 'actor'
        for i, c in enumerate(self.case['cmds']):
            if c['gap']:
                sim.sleep(c['gap'])
            n0 = len(self.states) - 1
            p = self.run_main(f'sum{i}', ['fetch'] if c['how'] == 'ask' else ['summarize'])
            p.data['stdin'] = io.StringIO(c['answer'] + '\n')
            self.wait(p)
            self.judge(i, c, p, self.states[n0:])

    def zone(self, t):
        import zoneinfo
        return t.astimezone(zoneinfo.ZoneInfo('America/Chicago'))

    def expect(self, state):
        rows, queue = state
        edge = self.pg.clock() - dt.timedelta(days=7)
        out = {}
        for run, ts, dur, ok in rows:
            if run is not None and run > 0 and ts > edge:
                out.setdefault(run, []).append((ts, ts + dur, ok))
        lines = []
        for run in sorted(out, reverse=True):
            v = out[run]
            first, last = [x[0] for x in v], [x[1] for x in v]
            fmt = lambda t: t.strftime('%Y-%m-%d %H:%M')     # noqa: E731
            lines.append({'run': run, 'first': {fmt(self.zone(min(first))), fmt(min(self.zone(t).replace(tzinfo=None) for t in first))},
                          'last': {fmt(self.zone(max(last))), fmt(max(self.zone(t).replace(tzinfo=None) for t in last))},
                          'secs': (max(last) - min(first)).total_seconds(), 'total': len(v), 'ok': sum(x[2] for x in v), 'not': sum(not x[2] for x in v), 'queued': sum(q == run for q in queue)})
        return lines

    def differs(self, got, want):
        if [g[0] for g in got] != [str(w['run']) for w in want]:
            return f"it lists the runs {[g[0] for g in got]} instead of {[w['run'] for w in want]}"
        for g, w in zip(got, want):
            num = lambda x: int(x.replace(',', '')) if x else 0      # noqa: E731
            for k, x in (('total', g[4]), ('ok', g[5]), ('not', g[6]), ('queued', g[7])):
                if num(x) != w[k]:
                    return f"run {w['run']}: {k} is {x} instead of {w[k]}"
            for k, x in (('first', g[1]), ('last', g[2])):
                if x not in w[k]:
                    return f"run {w['run']}: {k} is {x} instead of {sorted(w[k])}"
            s = span(g[3])
            if s is None or not abs(s[0] - w['secs']) <= s[1] + 1e-6:
                return f"run {w['run']}: the time taken is shown as {g[3]!r}, it is {w['secs']} s"
        return None

    def judge(self, i, c, p, states):
        ok = p.exit is not None and p.exit[0] == 'ok'
        fired = [f for f in self.fired(f'sum{i}') if f['kind'] != 'stall']
        self.sim.event('summary', exit=p.exit and p.exit[0], out=len(p.out()))
        text = p.out()
        done = ok
        if c['how'] == 'ask':        # shown in full before the question, which gets no usable answer here
            if ok:
                self.report('answer', f'sum{i}: fetch went on without a run having been chosen')
            done = 'Download which run?' in text
            if not done and not (p.killed or fired):
                self.report('failed', f'sum{i} ended before it asked: {p.exit}')
            text = text.split('Download which run?')[0]
        elif not ok and not (p.killed or fired):
            self.report('failed', f'sum{i} failed although nothing went wrong with it: {p.exit}')
        if not done:
            return
        if ok and [f for f in fired if f['kind'] == 'io_error']:
            self.report('swallowed', f'sum{i} reported success although writing failed')
        lines = [ln for ln in text.split('\n') if ln.strip()]
        got = [LINE.match(ln) for ln in lines]
        if not all(got):
            self.report('format', f'sum{i} printed {[ln for ln, g in zip(lines, got) if not g][0]!r}')
            return
        got = [g.groups() for g in got]
        why = None
        for st in states:
            bad = self.differs(got, self.expect(st))
            if bad is None:
                break
            why = why or bad
        else:
            self.report('counts', f'sum{i}: no state of the database in its {len(states)} gives what it printed; compared with the first, {why}')
            return
        if lines:
            self.ctx.nontrivial = True
        if len(states) > 1:
            self.sim.probe('summary_during_change')
        if self.sim.now > 20 * S:
            self.sim.probe('slow_summary')


def prepare():
    from worlds import testbed
    testbed.prepare()


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
