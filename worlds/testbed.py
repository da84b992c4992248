"""The regression testbed: real dp.testbed over real SQLite files, with the process pool, the server database, the area
files and the clock simulated.

Serves C17 (baseline and branch batches), C18 (area cache) and C19 (fetching server results).
"""
import argparse
import datetime as dt
import decimal
import json
import os
import sqlite3

import yaml

from sim import corpus
from sim.core import HarnessError, US
from sim.harness import drop_each
from sim.schema import make_db

S = US
BY_EVENTS = True      # distinct runs are counted by their event-log hash
RULE = {
    'C17': 'Random cached audits, area files, earlier results, one to three batch commands, pool sizes and faults from one seed; non-trivial: a batch command stored at least one result.',
    'C18': 'Random histories of area file edits, reverts, deletions and loads (some at the same time) with faults from one seed; non-trivial: a load returned an area after an earlier load had cached another content of it.',
    'C19': 'Random server results, concurrent server changes, local cache contents, fetch options and faults from one seed; non-trivial: a fetch copied rows or failed after it had begun to copy.',
}
REAL = ['dp.testbed (main, db, sqlite, fetch, batch, audit, areas)', 'dp.run and the whole auditor inside the pool', 'SQLite itself (real database files in a scratch folder)', 'PyYAML']
STUBS = ['ProcessPoolExecutor (simulated processes, arguments and results pickled)', 'PostgreSQL (sim.pgengine) and psycopg2 (sim.pgclient)', 'clocks, process death, disk and file errors', 'tqdm']
ASSUMPTIONS = ['SQLite recovers a killed writer\'s journal as documented', 'one batch or fetch command at a time per local database (they are started by hand)', 'area content is compared as JSON, the form the cache stores']


def generate(rng, prop, tier):
    return {'C17': gen_batch, 'C18': gen_areas, 'C19': gen_fetch}[prop](rng, tier)


def knobs(rng):
    return {'stick': rng.choice([0.0, 0.3, 0.7]), 'latency': rng.choice([[0, 0], [0, 2000], [100, 50000]]), 'max_steps': 120000, 'notice_us': rng.choice([0, S]), 'reverse_scan': rng.random() < 0.3}


# ------------------------------------------------------------------ C17
CATS = ['2017-18', '2018-19', '2019-20']
# names that are prefixes of one another, that differ in case, that hold pattern characters
NAMES = ['feature', 'feature', 'fix_1', 'Feature', 'feature-2', 'fix%', 'fix-1', 'fix_1 ', 'main', 'None']


def near(rng, code):
    """a code filter: usually an existing code, sometimes only like one"""
    return code if rng.random() < 0.75 else rng.choice([code[:-1], code[:1], code + '0', '%', '_' * len(code)])


def gen_batch(rng, tier):
    nd = rng.choice([1, 1, 2, 3])
    codes = rng.sample(corpus.CODES, rng.choice([1, 2, 3]))
    docs = []
    for i in range(nd):
        d = corpus.gen_student(rng, str(100000 + i), areas=codes, n=rng.randint(2, 6))
        bad = rng.random() < 0.1
        if bad:
            d2, how = corpus.corrupt(rng, d)
            if how in ('no_stnum', 'no_name', 'no_class', 'not_object'):
                bad = False
            else:
                d = d2
        docs.append({'doc': d, 'stnum': str(100000 + i), 'bad': bad})
    areas = [[f, c] for f in CATS for c in codes if rng.random() < 0.75]
    rows = []
    for i in range(nd):
        for f in CATS:
            for c in codes:
                if rng.random() < (0.5 if tier == 'quick' else 0.7):
                    rows.append({'doc': i, 'catalog': f, 'code': c, 'duration': rng.choice([0.5, 0.5, 2, 5, 29.999, 30, 30.5, 100, 0.001, 0.001]), 'class': rng.choice([None, '2021'])})
    if rng.random() < 0.04:
        rows = []
    base = [j for j in range(len(rows)) if rng.random() < 0.5]
    gone = [[str(100000 + nd), rng.choice(CATS), rng.choice(codes)]] if rng.random() < 0.15 else []
    branches = [[rng.choice(NAMES), j] for j in range(len(rows)) if rng.random() < 0.4]
    cmds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['baseline', 'baseline', 'branch', 'branch', 'copy'])
        cmds.append({'cmd': k, 'branch': rng.choice(NAMES[:4]), 'min': rng.choice(['30s', '30s', '1s', '5s', '1m', '200ms', '2h']),
                     'code': near(rng, rng.choice(codes)) if rng.random() < 0.3 else None, 'workers': rng.choice([1, 1, 2, 3, 8])})
    faults = []
    for i in range(len(cmds)):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.choice(['crash', 'crash', 'pool_crash', 'task_error', 'disk_error', 'stall', 'stall', 'pool_disk'])
            f = {'proc': f'cmd{i}', 'kind': k, 'phase': rng.choice(['before', 'after'])}
            if k in ('pool_crash', 'task_error', 'stall', 'pool_disk'):
                f['proc'] = f'cmd{i}.p{rng.choice([1, 1, 2, 3])}'
            if k == 'pool_crash':
                f.update(kind='crash', label=rng.choice(['task', 'any']), nth=rng.randint(1, 6))
            elif k == 'task_error':
                f.update(label='task', nth=rng.randint(1, 4))
            elif k == 'pool_disk':
                f.update(kind='disk_error', label='sqlite select', nth=rng.randint(1, 3))
            elif k == 'stall':
                f.update(label='any', nth=rng.randint(1, 12), us=rng.choice([100000, S, 3 * S, 80 * S, 100 * S]))
                if rng.random() < 0.3:
                    f['proc'] = f'cmd{i}'
            elif k == 'disk_error':
                f.update(label=rng.choice(['sqlite insert', 'sqlite commit', 'sqlite delete', 'sqlite begin', 'sqlite select']), nth=rng.choice([1, 1, 2, 3]))
            else:
                f.update(label=rng.choice(['any', 'sqlite insert', 'sqlite commit', 'sqlite delete', 'future']), nth=rng.choice([1, 2, 3]))
                if f['label'] == 'any':
                    f['nth'] = rng.randint(20, 90)
            faults.append(f)
    return {'mode': 'batch', 'docs': docs, 'areas': areas, 'rows': rows, 'base': base, 'gone': gone, 'branches': branches, 'cmds': cmds, 'faults': faults,
            'watch': rng.choice([0, 3, 8]), 'slow': rng.choice([0, 0, 0, 0, 20000, 200000, 2 * S]), 'knobs': knobs(rng)}


# ------------------------------------------------------------------ C18
def gen_areas(rng, tier):
    keys = [[f, c] for f in rng.sample(CATS, rng.choice([1, 2])) for c in rng.sample(['140', '902', '170'], rng.choice([1, 2]))]
    pool = [texts(rng) for _ in range(rng.choice([2, 3, 4]))]
    ops, at = [], 0
    for k in keys:
        if rng.random() < 0.8:
            ops.append({'op': 'write', 'at': 0, 'key': k, 'text': rng.choice(pool), 'mtime': rng.choice([None, 0])})
    for _ in range(rng.choice([3, 4, 6, 8] + ([14] if tier == 'thorough' else []))):
        at += rng.choice([0, 0, 500, S, rng.randint(1, 3 * S)])
        r = rng.random()
        if r < 0.4:
            ops.append({'op': 'write', 'at': at, 'key': rng.choice(keys), 'text': rng.choice(pool), 'mtime': rng.choice([None, 0, 0])})
        elif r < 0.5:
            ops.append({'op': 'rm', 'at': at, 'key': rng.choice(keys)})
        elif r < 0.57:
            ops.append({'op': 'copy', 'at': at, 'key': rng.choice(keys), 'to': rng.choice(keys)})
        else:
            ops.append({'op': 'load', 'at': at, 'keys': [k for k in keys if rng.random() < 0.8] + ([['2001-02', '999']] if rng.random() < 0.2 else [])})
            if rng.random() < 0.3:
                ops.append({'op': 'load', 'at': at, 'keys': [k for k in keys if rng.random() < 0.8]})
    ops.append({'op': 'load', 'at': at + 20 * S, 'keys': keys})
    faults = []
    loads = [i for i, o in enumerate(ops) if o['op'] == 'load']
    for i in loads[:-1]:
        if rng.random() < 0.35:
            k = rng.choice(['crash', 'crash', 'disk_error', 'io_error', 'stall'])
            f = {'proc': f'load{i}', 'kind': k, 'phase': rng.choice(['before', 'after'])}
            if k == 'io_error':
                f.update(label='open', nth=rng.randint(1, 3), phase='before')
            elif k == 'stall':
                f.update(label='any', nth=rng.randint(1, 15), us=rng.choice([1000, S, 4 * S]))
            else:
                f.update(label=rng.choice(['sqlite insert', 'sqlite commit', 'sqlite select', 'sqlite begin', 'any']) if k == 'crash' else rng.choice(['sqlite insert', 'sqlite commit', 'sqlite select']), nth=rng.choice([1, 1, 2, 3]))
                if f['label'] == 'any':
                    f['nth'] = rng.randint(1, 15)
            faults.append(f)
    return {'mode': 'areas', 'ops': ops, 'faults': faults, 'knobs': knobs(rng)}


def texts(rng):
    n = rng.randint(10, 99)
    k = rng.choice(['plain', 'plain', 'plain', 'unicode', 'intkey', 'long', 'empty', 'crlf', 'comment', 'list', 'tail', 'tail', 'tail', 'middle', 'middle', 'space', 'case', 'big', 'big'])
    if k in ('tail', 'middle', 'space', 'case'):
        # revisions of one file that agree in size and in most of their text
        head = "name: Area\ntype: major\ncode: '140'\nresult:\n  all:\n" + ''.join(f'    - course: CSCI {i}21\n' for i in range(40))
        at = {'tail': 39, 'middle': 20, 'space': 30, 'case': 10}[k]
        return head.replace(f'CSCI {at}21', {'space': 'CSCI ' + ' ' * (n % 4) + '21' + ' # ' + '.' * (4 - n % 4), 'case': ['csci', 'Csci', 'CSCI', 'csCI'][n % 4] + ' 121'}.get(k, f'CSCI {n}21'))
    if k == 'big':
        head = "name: Area\ntype: major\ncode: '140'\nresult:\n  all:\n" + ''.join(f'    - course: MATH {i:05}\n' for i in range(500))
        return head + f'    - course: CSCI {n}1\n' + ('' if n % 2 else '# ' + '-' * 70000 + '\n')
    t = f"name: Area {n}\ntype: major\ncode: '140'\nresult:\n  all:\n    - course: CSCI {n}1\n"
    if k == 'unicode':
        t = t.replace('Area', 'Área’s')
    elif k == 'intkey':
        t += f"emphases:\n  {n}:\n    name: E\n    result: {{all: [{{course: ART {n}0}}]}}\n"
    elif k == 'long':
        t += '    - any:\n' + ''.join(f'        - course: X {i}{n}\n' for i in range(300))
    elif k == 'empty':
        t = ''
    elif k == 'crlf':
        t = t.replace('\n', '\r\n')
    elif k == 'comment':
        t = f'# revision {n}\n' + t
    elif k == 'list':
        t = f'- {n}\n- [1, 2.5, null, true]\n'
    return t


# ------------------------------------------------------------------ C19
def gen_fetch(rng, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8] + [rng.randint(70, 80), 150, rng.randint(151, 230)] * (1 if rng.random() < 0.35 else 0))
    rows = []
    for i in range(n):
        rows.append({'stnum': str(100000 + (i if rng.random() < 0.97 else rng.randrange(n))), 'catalog': rng.choice(CATS), 'code': rng.choice(corpus.CODES), 'run': rng.choice([1, 2, 2, 3, 3, 3]) if rng.random() < 0.995 else None,
                     'active': rng.random() < 0.7, 'link': rng.random() < 0.1, 'gpa': rng.choice(['3.21', '0.00', '4.00', '2.999']), 'rank': rng.choice(['3.5', '7', '0']), 'ok': rng.random() < 0.4,
                     'ms': rng.choice([0, 5, 1234, 95000, 7200123]), 'version': 3 if rng.random() < 0.99 else None, 'klass': rng.choice([None, '2021']), 'v': rng.randint(1, 9), 'age': rng.randint(1, 900000),
                     'name': rng.choice(['A', "O'Neil", 'Zoë', None, '李'])})
    local = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        k = rng.random()
        if k < 0.25 and rows:
            r = rng.choice(rows)
            local.append([r['stnum'], r['catalog'], r['code']])
        else:
            local.append([str(200000 + rng.randint(0, 5)), rng.choice(CATS), rng.choice(corpus.CODES)])
    local = [list(x) for x in dict.fromkeys(tuple(x) for x in local)]
    cmds = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        cmds.append({'how': rng.choice(['latest', 'latest', 'run', 'run', 'ask']), 'run': rng.choice([1, 2, 3, 9]), 'clear': rng.random() < 0.5, 'answer': rng.choice(['1', '2', '3', ' 3 ', 'x', None])})
    changes = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        changes.append({'at': rng.choice([0, 1000, rng.randint(0, S), rng.randint(0, 3 * S)]), 'op': rng.choice(['deactivate', 'delete', 'insert', 'edit']), 'n': rng.randint(1, 3), 'i': rng.randrange(max(n, 1))})
    faults = []
    for i in range(len(cmds)):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.choice(['crash', 'crash', 'conn_drop', 'stmt_error', 'disk_error', 'disk_error', 'stall'])
            f = {'proc': f'fetch{i}', 'kind': k, 'phase': rng.choice(['before', 'after'])}
            if k == 'stmt_error':
                f.update(label=rng.choice(['any', 'sql select', 'sql fetch', 'sql declare']), nth=rng.randint(1, 4), code='57014')
            elif k == 'disk_error':
                f.update(label=rng.choice(['sqlite insert', 'sqlite insert', 'sqlite commit', 'sqlite delete']), nth=rng.choice([1, 2, 3, rng.randint(1, 200)]))
            elif k == 'stall':
                f.update(label='any', nth=rng.randint(1, 60), us=rng.choice([1000, S]))
            else:
                f.update(label=rng.choice(['any', 'any', 'sql fetch', 'sqlite insert', 'sqlite commit']) if k == 'crash' else rng.choice(['any', 'sql fetch', 'sql select']), nth=rng.choice([1, 1, 2, 3, rng.randint(1, 80)]))
            faults.append(f)
    return {'mode': 'fetch', 'rows': rows, 'local': local, 'cmds': cmds, 'changes': changes, 'faults': faults, 'gap': rng.choice([0, S]), 'knobs': knobs(rng)}


def reductions(case):
    yield from drop_each(case, 'faults')
    for k in ('cmds', 'changes', 'branches', 'gone', 'local'):
        if k in case and not (k == 'cmds' and len(case['cmds']) < 2):
            yield from drop_each(case, k)
    if case['mode'] == 'fetch':
        yield from drop_each(case, 'rows')
    if case['mode'] == 'areas':
        for i in range(len(case['ops']) - 1):
            if case['ops'][i]['op'] != 'load':
                yield {**case, 'ops': case['ops'][:i] + case['ops'][i + 1:]} if not any(f['proc'].startswith('load') for f in case['faults']) else {**case, 'ops': case['ops'][:i] + [{'op': 'nop', 'at': 0}] + case['ops'][i + 1:]}
            else:
                yield {**case, 'ops': case['ops'][:i] + [{'op': 'nop', 'at': 0}] + case['ops'][i + 1:]}
    if case['mode'] == 'batch':
        n = len(case['rows'])
        for i in range(n):
            m = {j: j - (j > i) for j in range(n) if j != i}
            yield {**case, 'rows': case['rows'][:i] + case['rows'][i + 1:], 'base': [m[j] for j in case['base'] if j in m], 'branches': [[b, m[j]] for b, j in case['branches'] if j in m]}
        yield from drop_each(case, 'areas')
        if case['slow']:
            yield {**case, 'slow': 0}
        if case['watch']:
            yield {**case, 'watch': 0}
        for i, d in enumerate(case['docs']):
            for j in range(len(d['doc'].get('courses', ()) if isinstance(d['doc'], dict) else ())):
                doc = {**d['doc'], 'courses': d['doc']['courses'][:j] + d['doc']['courses'][j + 1:]}
                yield {**case, 'docs': case['docs'][:i] + [{**d, 'doc': doc}] + case['docs'][i + 1:]}


# ------------------------------------------------------------------ shared
class Base:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.root = ctx.mkscratch()
        self.db = os.path.join(self.root, 'testbed.db')
        self.areas = os.path.join(self.root, 'areas')
        os.makedirs(self.areas)
        self.sim.env['fs_root'] = self.areas

    def read(self, sql, *a):
        """committed contents, read outside the simulation"""
        from sim.seams import real
        if not os.path.exists(self.db):
            return []
        c = real['sqlite_connect'](f'file:{self.db}', uri=True)
        c.row_factory = sqlite3.Row
        try:
            return [dict(r) for r in c.execute(sql, a)]
        except sqlite3.OperationalError as e:
            if 'no such table' in str(e):
                return []
            raise
        finally:
            c.close()

    def write(self, fn):
        from sim.seams import real
        c = real['sqlite_connect'](self.db)
        try:
            fn(c)
            c.commit()
        finally:
            c.close()

    def run_main(self, name, args):
        from dp.testbed.__main__ import main
        sim = self.sim
        p = sim.process(name, main, argv=['testbed', '--db', self.db, *args])
        p.data['role'] = 'testbed'
        p.data['server_notice_us'] = self.case['knobs'].get('notice_us', 0)
        return p

    def wait(self, p):
        self.sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done))

    def init_db(self):
        from dp.testbed.db import init_local_db
        init_local_db(argparse.Namespace(db=self.db))

    def fired(self, prefix):
        return [f for f in self.sim.faults if f['fired'] and f['proc'].split('.')[0] == prefix]

    def finish(self):
        d = [p for p in self.sim.procs if p.name == 'driver'][0]
        if self.sim.failure is None and (self.sim.capped or d.exit is None or d.exit[0] != 'ok'):
            if d.exit and d.exit[0] == 'exc':
                raise d.exit[1]
            self.ctx.report(self.prop, 'stuck', f'the command did not end ({self.sim.steps} steps, {self.sim.now / 1e6:.0f} s)')

    def start(self):
        from sim import seams
        seams.set_environ(AREA_ROOT=self.areas)
        self.setup()
        p = self.sim.process('driver', self.driver)
        p.data['role'] = 'driver'


# ------------------------------------------------------------------ C17
COLS = ['stnum', 'catalog', 'code', 'iterations', 'gpa', 'ok', 'rank', 'max_rank', 'status', 'result', 'version']


def limit_s(text):
    return {'30s': 30.0, '1s': 1.0, '5s': 5.0, '1m': 60.0, '200ms': 0.2, '2h': 7200.0}[text]


class Batch(Base):
    prop = 'C17'

    def setup(self):
        case = self.case
        for f, c in case['areas']:
            corpus.write_area(self.areas, f, c, corpus.variant(c, int(f[:4])))
        self.init_db()

        def fill(c):
            for r in case['rows']:
                d = case['docs'][r['doc']]
                c.execute('insert into server_data (run, stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, result, status, input_data, classification, class, name, version) values (1,?,?,?,7,?,1.5,0,1.25,9,?,?,?,?,?,?,3)',
                          (d['stnum'], r['catalog'], r['code'], r['duration'], '{"server": 1}', 'done', json.dumps(d['doc']), 'SR', r['class'], 'N'))
            for j in case['base']:
                r = case['rows'][j]
                c.execute('insert into baseline (stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result, version) values (?,?,?,5,?,1.0,0,1,9,?,?,3)', (case['docs'][r['doc']]['stnum'], r['catalog'], r['code'], r['duration'] / 2, 'pending', '{"old": 1}'))
            for s, f, k in case['gone']:
                c.execute('insert into baseline (stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result, version) values (?,?,?,5,0.1,1.0,0,1,9,?,?,3)', (s, f, k, 'pending', '{"old": 1}'))
            for b, j in case['branches']:
                r = case['rows'][j]
                c.execute('insert or ignore into branch (branch, stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, status, result, version) values (?,?,?,?,5,?,1.0,0,1,9,?,?,3)', (b, case['docs'][r['doc']]['stnum'], r['catalog'], r['code'], 1, 'pending', '{"old": 1}'))
        self.write(fill)
        self.snaps = []
        self.took = {}
        self.sim.env['task_watch'] = self.task
        if case['slow']:
            self.sim.env['perf_hook'] = self.perf

    def perf(self, t):
        n = t.proc.data['ticks'] = t.proc.data.get('ticks', 0) + 1
        return 5000 + (t.sim.now + n * self.case['slow']) / US

    def task(self, t, what, a, kw):
        """how long each task of the pool can have taken by any clock: (process name, its strings, seconds)"""
        now = t.sim.now + t.proc.data.get('ticks', 0) * self.case['slow']
        if what == 'begin':
            t.proc.data['began'] = now
        else:
            words = set()
            for x in [*a, *kw.values()]:
                if isinstance(x, str):
                    words.add(x)
                elif isinstance(x, (tuple, list)):
                    words |= {y for y in x if isinstance(y, str)}
            self.took.setdefault(t.proc.parent.name, []).append((words, (now + self.case['slow'] - t.proc.data['began']) / US))

    def longest(self, cmd, k):
        """an upper bound on the time the audit k can have taken"""
        tasks = self.took.get(cmd, [])
        own = [s for w, s in tasks if set(k) <= w]
        return max(own or [s for _, s in tasks], default=None)

    def state(self):
        return {
            'server': self.read('select * from server_data order by stnum, catalog, code'),
            'baseline': self.read('select * from baseline order by stnum, catalog, code'),
            'branch': self.read('select * from branch order by branch, stnum, catalog, code'),
        }

    def target(self, st, cmd):
        return st['baseline'] if cmd['cmd'] != 'branch' else [r for r in st['branch'] if r['branch'] == cmd['branch']]

    def rest(self, st, cmd):
        return (st['server'], st['branch'] if cmd['cmd'] != 'branch' else (st['baseline'], [r for r in st['branch'] if r['branch'] != cmd['branch']]))

    def driver(self):
        sim = self.sim
        for i, cmd in enumerate(self.case['cmds']):
            before = self.state()
            args = ['-w', str(cmd['workers']), 'branch' if cmd['cmd'] == 'branch' else 'baseline', '--min', cmd['min']]
            if cmd['code']:
                args += ['--code', cmd['code']]
            if cmd['cmd'] == 'copy':
                args += ['--copy']
            if cmd['cmd'] == 'branch':
                args += [cmd['branch']]
            p = self.run_main(f'cmd{i}', args)
            seen = []
            gap = 1
            for _ in range(self.case['watch']):
                ended = sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done), gap)
                gap = min(gap * 7, 20 * S)
                seen.append(self.target(self.state(), cmd))
                if ended:
                    break
            self.wait(p)
            after = self.state()
            sim.event('batch', cmd=cmd['cmd'], exit=p.exit and p.exit[0], rows=len(self.target(after, cmd)))
            for rows in seen:
                if rows and rows != self.target(before, cmd) and rows != self.target(after, cmd):
                    self.report('partial', f'cmd{i}: while it ran, {len(rows)} of its results were already visible')
            if self.rest(before, cmd) != self.rest(after, cmd):
                self.report('disturbed', f'cmd{i} ({cmd["cmd"]}) changed the fetched data or another run\'s results')
            self.judge(i, cmd, p, before, after)

    def report(self, cls, msg):
        self.ctx.report('C17', cls, msg)

    def judge(self, i, cmd, p, before, after):
        sim, case = self.sim, self.case
        ok = p.exit is not None and p.exit[0] == 'ok'
        fired = self.fired(f'cmd{i}')
        rows = self.target(after, cmd)
        committed_late = p.killed and any(f['kind'] == 'crash' and f['label'] in ('sqlite commit', 'any') for f in fired)
        if not ok and not committed_late:
            if rows and rows != self.target(before, cmd):
                self.report('partial', f'cmd{i} failed ({p.exit and p.exit[0]}) but left {len(rows)} results')
            if not p.killed and not [f for f in fired if (f['proc'] == f'cmd{i}' and f['kind'] != 'stall') or f['kind'] == 'crash'] and before['server']:
                self.report('failed', f'cmd{i} failed although nothing went wrong with it: {p.exit}')
            return
        if not before['server']:
            if ok:
                self.report('no_data', f'cmd{i} succeeded without any fetched data')
            return
        lim = limit_s(cmd['min'])
        src = before['server'] if cmd['cmd'] != 'branch' else before['baseline']
        picked = [r for r in src if r['duration'] < lim and (cmd['code'] is None or r['code'] == cmd['code'])]
        if cmd['cmd'] == 'copy':
            want = [{k: r[k] for k in COLS} | {'duration': r['duration']} for r in picked]
            got = [{k: r[k] for k in COLS} | {'duration': r['duration']} for r in rows]
            if got != want and not (committed_late and rows in ([], self.target(before, cmd))):
                self.report('copy', f'cmd{i} copied {len(got)} results, expected {len(want)} identical ones')
            return
        if committed_late and (rows == [] or rows == self.target(before, cmd)):
            return
        out = p.out() + p.err()
        got = {(r['stnum'], r['catalog'], r['code']): r for r in rows}
        if len(got) != len(rows):
            self.report('twice', f'cmd{i} stored an audit twice')
        want, missing = set(), []
        pool_died = any(f['kind'] == 'crash' and f['proc'] != f'cmd{i}' for f in fired)
        excuses = sum(1 for f in fired if f['kind'] in ('task_error', 'disk_error') and f['proc'] != f'cmd{i}')
        stalled = sum(f['us'] for f in fired if f['kind'] == 'stall' and f['proc'] != f'cmd{i}') / 1e6
        late = cmd['cmd'] == 'baseline' and (stalled + 1 >= 2.5 * lim or case['slow'])
        bound = 2.5 * lim if cmd['cmd'] == 'baseline' else None
        server = {(r['stnum'], r['catalog'], r['code']): r for r in before['server']}
        for r in picked:
            k = (r['stnum'], r['catalog'], r['code'])
            want.add(k)
            if [r['catalog'], r['code']] not in case['areas']:
                if k in got:
                    self.report('no_area', f'cmd{i} stored a result for {k} although that area file does not exist')
                continue
            ref = self.ref(server[k]['input_data'], k) if k in server else {'bad': 'no input'}
            g = got.get(k)
            if g is None:
                named = [ln for ln in out.split('\n') if k[0] in ln and k[2] in ln and k[1] in ln]
                if not named and not committed_late:
                    self.report('vanished', f'cmd{i}: the audit {k} was selected but neither stored nor reported')
                if 'bad' not in ref:
                    most = self.longest(f'cmd{i}', k)
                    if any('cancel' in ln.lower() or 'timed out' in ln.lower() or 'timeout' in ln.lower() for ln in named) and (not late or most is not None and (bound is None or most < bound)):
                        self.report('early_timeout', f'cmd{i}: the audit {k} was reported as timed out; its limit is {2.5 * lim if cmd["cmd"] == "baseline" else "none"} s and it cannot have taken that long')
                    missing.append(k)
                continue
            self.ctx.nontrivial = True
            if 'bad' in ref:
                self.report('bad_stored', f'cmd{i} stored a result for {k}, which cannot be audited ({ref["bad"]})')
                continue
            diff = self.differs(g, ref)
            if diff:
                self.report('outcome', f'cmd{i}: the stored result of {k} differs from auditing its document: {diff}')
            if late and cmd['cmd'] == 'baseline':
                sim.probe('late_but_stored')
        if set(got) - want:
            self.report('extra', f'cmd{i} stored results for {sorted(set(got) - want)[:3]}, which were not selected')
        if missing and not pool_died and not late and len(missing) > excuses:
            self.report('missing', f'cmd{i}: {missing[:3]} were not stored although nothing was wrong with them ({excuses} injected failures)')
        if ok:
            if missing and late:
                sim.probe('timed_out', len(missing))
            if missing and pool_died:
                sim.probe('pool_broken')
            sim.probe('batch_ok')

    def ref(self, text, k):
        from sim.reference import fresh
        doc = json.loads(text)
        # what matters is the audit; the server-only fields are not used by the testbed
        return fresh(doc, corpus.variant(k[2], int(k[1][:4])))

    def differs(self, g, ref):
        if json.loads(g['result']) != ref['result']:
            return 'result document'
        for col in ('iterations', 'status', 'version'):
            if g[col] != ref[col]:
                return f'{col} {g[col]!r} instead of {ref[col]!r}'
        if bool(g['ok']) != ref['ok']:
            return 'ok'
        for col in ('gpa', 'rank', 'max_rank'):
            if abs(float(g[col]) - float(ref[col])) > 1e-9:
                return f'{col} {g[col]} instead of {ref[col]}'
        return None


# ------------------------------------------------------------------ C18
class Areas(Base):
    prop = 'C18'

    def setup(self):
        self.init_db()
        self.hist = {}      # key -> [(time, text or None)]
        self.cached = {}

    def path(self, key):
        return os.path.join(self.areas, key[0], key[1] + '.yaml')

    def put(self, key, text, mtime):
        f = self.path(key)
        if text is None:
            if os.path.exists(f):
                os.unlink(f)
        else:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f + '.new', 'w', encoding='utf-8', newline='') as fh:
                fh.write(text)
            if mtime is not None:
                os.utime(f + '.new', (1600000000 + mtime, 1600000000 + mtime))
            os.replace(f + '.new', f)
        self.hist.setdefault(tuple(key), []).append((self.stamp(), text))

    def stamp(self):
        self.seq = getattr(self, 'seq', 0) + 1
        return self.seq

    def current(self, key):
        h = self.hist.get(tuple(key))
        return h[-1][1] if h else None

    def driver(self):
        from dp.testbed.areas import load_areas
        sim = self.sim
        loads = []
        for i, o in enumerate(self.case['ops']):
            if o['op'] == 'nop':
                continue
            if o['at'] > sim.now:
                sim.sleep(o['at'] - sim.now)
            else:
                sim.point('edit')
            if o['op'] == 'write':
                self.put(o['key'], o['text'], o['mtime'])
            elif o['op'] == 'rm':
                self.put(o['key'], None, None)
            elif o['op'] == 'copy':
                t = self.current(o['key'])
                if t is not None:
                    self.put(o['to'], t, None)
            else:
                keys = [{'catalog': k[0], 'code': k[1]} for k in o['keys']]
                rec = {'i': i, 'o': o, 'from': self.stamp(), 'overlap': any(x['p'].exit is None and not x['p'].killed for x in loads)}
                if rec['overlap']:
                    for x in loads:
                        x['overlap'] = x['overlap'] or x['p'].exit is None
                rec['p'] = sim.process(f'load{i}', lambda keys=keys, rec=rec: self.load(load_areas, keys, rec))
                loads.append(rec)
        for r in loads:
            self.wait(r['p'])
            self.judge(r)

    def load(self, load_areas, keys, rec):
        try:
            return load_areas(argparse.Namespace(db=self.db), keys)
        finally:
            rec['to'] = self.stamp()

    def report(self, cls, msg):
        self.ctx.report('C18', cls, msg)

    def judge(self, rec):
        p, o = rec['p'], rec['o']
        name = p.name
        fired = self.fired(name)
        if p.exit is None or p.exit[0] != 'ok':
            if not p.killed and not [f for f in fired if f['kind'] != 'stall'] and not rec['overlap']:
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit}')
            return
        got = p.exit[1]
        asked = {f'{k[0]}/{k[1]}' for k in o['keys']}
        for key in got:
            if key not in asked:
                self.report('wrong_key', f'{name} returned {key}, asked for {sorted(asked)}')
        for k in o['keys']:
            key = f'{k[0]}/{k[1]}'
            h = self.hist.get(tuple(k), [])
            possible = []
            last = None
            for t, text in h:
                if t < rec['from']:
                    last = text
            possible.append(last)
            possible += [text for t, text in h if rec['from'] < t < rec['to']]
            if key not in got:
                if None not in possible:
                    self.report('lost', f'{name}: {key} exists but no specification was returned')
                continue
            spec = norm(got[key])
            oks = [norm(yaml.safe_load(t)) for t in possible if t is not None]
            if spec not in oks:
                self.report('stale', f'{name}: the specification returned for {key} is {spec[:160]}, the file held {[x[:160] for x in oks][:2]}')
            if len({t for _, t in h if _ < rec['from']}) > 1:
                self.ctx.nontrivial = True
        self.sim.event('load', n=len(got))


def norm(x):
    return json.dumps(x, sort_keys=True)


# ------------------------------------------------------------------ C19
class Fetch(Base):
    prop = 'C19'
    SEL = ['run', 'stnum', 'catalog', 'code', 'name', 'class', 'classification', 'iterations', 'duration', 'ok', 'gpa', 'rank', 'max_rank', 'status', 'result', 'input_data', 'version']

    def setup(self):
        self.pg = make_db(self.ctx)
        for r in self.case['rows']:
            self.pg.seed('result', self.row(r))
        self.init_db()

        def fill(c):
            for s, f, k in self.case['local']:
                c.execute('insert into server_data (run, stnum, catalog, code, iterations, duration, gpa, ok, rank, max_rank, result, status, input_data, version) values (8,?,?,?,7,3.5,1.5,0,1.25,9,?,?,?,2)', (s, f, k, '{"old": 1}', 'done', '{}'))
        self.write(fill)
        self.states = []
        self.pg.on_commit.append(lambda txn, ch: self.snap() if any(c[0] == 'result' for c in ch) else None)
        self.snap()

    def row(self, r):
        d = {'student_id': r['stnum'], 'catalog': r['catalog'], 'area_code': r['code'], 'run': r['run'], 'is_active': r['active'], 'link_only': r['link'], 'gpa': decimal.Decimal(r['gpa']), 'rank': decimal.Decimal(r['rank']),
             'max_rank': decimal.Decimal('9'), 'ok': r['ok'], 'iterations': r['v'], 'duration': dt.timedelta(milliseconds=r['ms']), 'per_iteration': dt.timedelta(0), 'result_version': r['version'],
             'student_class': r['klass'], 'student_classification': 'SR', 'student_name': r['name'], 'status': 'done' if r['ok'] else 'needs-more-items', 'revision': 1,
             'result': json.dumps({'name': 'é' if r['v'] % 2 else 'x', 'v': r['v'], 'rank': '1.50', 'z': [1, None, True]}), 'claimed_courses': '{}', 'input_data': json.dumps({'stnum': r['stnum'], 'n': r['v'], 'q': "it's"}),
             'ts': self.pg.clock() - dt.timedelta(seconds=r['age'])}
        return d

    def snap(self):
        self.states.append((self.sim.now, self.sim.steps, [r.committed for r in self.pg.tables['result'].rows if r.committed is not None]))

    def local(self):
        return sorted((self.plain(r) for r in self.read('select * from server_data')), key=repr)

    @staticmethod
    def plain(r):
        out = []
        for k in Fetch.SEL:
            v = r[k]
            if k in ('result', 'input_data'):
                v = json.dumps(json.loads(v), sort_keys=True)
            elif k in ('duration', 'gpa', 'rank', 'max_rank'):
                v = round(float(v), 6)
            elif k == 'ok':
                v = bool(v)
            out.append((k, v))
        return tuple(out)

    def view(self, v):
        return self.plain({'run': v['run'], 'stnum': v['student_id'], 'catalog': v['catalog'], 'code': v['area_code'], 'name': v['student_name'], 'class': v['student_class'], 'classification': v['student_classification'],
                           'iterations': v['iterations'], 'duration': self.secs(v['duration']), 'ok': v['ok'], 'gpa': v['gpa'], 'rank': v['rank'], 'max_rank': v['max_rank'], 'status': v['status'],
                           'result': v['result'].text if hasattr(v['result'], 'text') else v['result'], 'input_data': v['input_data'].text if hasattr(v['input_data'], 'text') else v['input_data'], 'version': v['result_version']})

    @staticmethod
    def secs(d):
        return d.total_seconds() if hasattr(d, 'total_seconds') else float(d)

    def admin(self, c):
        def main():
            import psycopg2
            conn = psycopg2.connect('', application_name='admin')
            with conn, conn.cursor() as curs:
                for j in range(c['n']):
                    i = c['i'] + j + 1
                    if c['op'] == 'deactivate':
                        curs.execute('UPDATE result SET is_active = false WHERE id = %(i)s', {'i': i})
                    elif c['op'] == 'delete':
                        curs.execute('DELETE FROM result WHERE id = %(i)s', {'i': i})
                    elif c['op'] == 'edit':
                        curs.execute('UPDATE result SET gpa = 1.25, is_active = true WHERE id = %(i)s', {'i': i})
                    else:
                        curs.execute("""INSERT INTO result (student_id, area_code, catalog, run, input_data, iterations, duration, per_iteration, rank, max_rank, result, ok, gpa, status, is_active, revision, result_version, claimed_courses)
                            VALUES (%(s)s, '902', '2019-20', 3, '{}', 1, interval '1s', interval '1s', 1, 2, '{"new": true}'::jsonb, false, 2.5, 'done', true, 1, 3, '{}'::jsonb)""", {'s': str(300000 + self.sim.steps)})
            conn.close()
        return main

    def driver(self):
        import io
        sim = self.sim
        for i, c in enumerate(self.case['changes']):
            sim.process(f'admin{i}', self.admin(c), at=c['at']).data['role'] = 'admin'
        for i, c in enumerate(self.case['cmds']):
            before = self.local()
            args = ['fetch'] + {'latest': ['--latest'], 'run': ['--run', str(c['run'])], 'ask': []}[c['how']] + (['--clear'] if c['clear'] else [])
            n0 = len(self.states) - 1
            p = self.run_main(f'fetch{i}', args)
            p.data['stdin'] = io.StringIO('' if c['answer'] is None else c['answer'] + '\n')
            self.wait(p)
            after = self.local()
            sim.event('fetch', exit=p.exit and p.exit[0], rows=len(after))
            self.judge(i, c, p, before, after, self.states[n0:])
            if self.case['gap']:
                sim.sleep(self.case['gap'])

    def report(self, cls, msg):
        self.ctx.report('C19', cls, msg)

    def judge(self, i, c, p, before, after, states):
        ok = p.exit is not None and p.exit[0] == 'ok'
        fired = self.fired(f'fetch{i}')
        run = None
        bad_answer = False
        if c['how'] == 'run':
            run = c['run']
        elif c['how'] == 'ask':
            try:
                run = int(c['answer'])
            except (TypeError, ValueError):
                bad_answer = True
        base = [] if c['clear'] else before
        keyof = lambda r: (dict(r)['stnum'], dict(r)['catalog'], dict(r)['code'])      # noqa: E731
        have = {keyof(r) for r in base}
        sets, clash = [], bad_answer
        for _, _, rows in states:
            sel = [self.view(v) for v in rows if (v['run'] == run if run is not None else v['is_active'])]
            ks = [keyof(r) for r in sel]
            if len(set(ks)) != len(ks) or have & set(ks) or any(dict(r)['run'] is None or dict(r)['version'] is None for r in sel):
                clash = True
            sets.append(sorted(base + sel, key=repr))
        if ok:
            if bad_answer:
                self.report('bad_answer', f'fetch{i} succeeded with the answer {c["answer"]!r}')
                return
            if after not in sets:
                want = sets[0]
                miss = [r for r in want if r not in after]
                more = [r for r in after if r not in want]
                self.report('mirror', f'fetch{i} left {len(after)} cached results; no state of the server gives that (first has {len(want)}; missing {str(miss[:1])[:200]}, unexpected {str(more[:1])[:200]})')
            self.ctx.nontrivial = self.ctx.nontrivial or bool(after)
            if len(after) > 75:
                self.sim.probe('several_pages')
            return
        late = p.killed and any(f['kind'] == 'crash' and f['label'] in ('sqlite commit', 'any') for f in fired)
        allowed = [before] + ([[]] if c['clear'] else [])
        if after not in allowed and not (late and after in sets):
            self.report('partial', f'fetch{i} failed ({p.exit and p.exit[0]}) but left {len(after)} cached results (before: {len(before)}, clear={c["clear"]})')
        if not p.killed and not [f for f in fired if f['kind'] != 'stall'] and not clash:
            self.report('failed', f'fetch{i} failed although nothing went wrong with it: {p.exit}')
        self.ctx.nontrivial = self.ctx.nontrivial or any(f['label'] in ('sqlite insert', 'sql fetch', 'sqlite commit') for f in fired)


def prepare():
    from sim import seams
    seams.import_dp()
    import dp.testbed.__main__ as m
    # what `python -m dp.testbed` does before main()
    sqlite3.register_adapter(decimal.Decimal, m.adapt_decimal)
    sqlite3.register_converter('decimal', m.convert_decimal)


def execute(ctx):
    w = {'batch': Batch, 'areas': Areas, 'fetch': Fetch}[ctx.case['mode']](ctx)
    w.start()
    ctx.run()
    w.finish()
