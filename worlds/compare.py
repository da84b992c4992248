"""Looking at regression results: real dp.testbed commands over a real SQLite file that other commands change meanwhile.

Serves C26 (compare) and C27 (query, print, extract, invoke, run). Commands and the batches that replace results run side
by side under the scheduler; crashes, disk errors, full disks and broken pipes are injected.
"""
import csv
import io
import json
import os
import random
import sqlite3

from sim import corpus, specgen
from sim.core import US
from sim.harness import drop_each
from worlds import testbed
from worlds.testbed import CATS, NAMES, Base, knobs

S = US
BY_EVENTS = True
RULE = {
    'C26': 'Random baseline and branch results, result changes committed meanwhile, comparisons (some side by side) and faults from one seed; non-trivial: a comparison succeeded where some audits differ and some do not.',
    'C27': 'Random stored documents and results, changes committed meanwhile, read commands and faults from one seed; non-trivial: a command succeeded in showing something.',
}
REAL = ['dp.testbed (main, db, sqlite, compare, query, render, extract, invoke, run, areas, audit)', 'dp.stringify_v3', 'SQLite itself (real database files in a scratch folder)', 'the auditor (run command)']
STUBS = ['other writers of the database (simulated processes doing what the batch and fetch commands do)', 'clocks, process death, disk, file and pipe errors', 'tqdm']
ASSUMPTIONS = ['SQLite gives each statement one committed state', 'a command that meets another one may fail with a lock error, never answer wrongly']

FIELDS = ['branch', 'stnum', 'catalog', 'code', 'gpa', 'gpa_r', 'it', 'it_r', 'dur', 'dur_r', 'stat', 'stat_r', 'rank', 'rank_r', 'max', 'max_r', 'ok', 'ok_r']


def generate(rng, prop, tier):
    return {'C26': gen_compare, 'C27': gen_read}[prop](rng, tier)


def vals(rng):
    return {'gpa': rng.choice([0.0, 3.21, 2.999, 4.0, 3.2]), 'ok': rng.random() < 0.5, 'rank': rng.choice([0, 1.5, 3.25, 7, 2.004]), 'max': rng.choice([5, 9, 9.5]), 'it': rng.choice([1, 7, 1200]),
            'dur': rng.choice([0.5, 1.23456, 29.9]), 'status': rng.choice(['done', 'pending', 'needs-more-items'])}


def perturb(rng, v):
    v = dict(v)
    for k in rng.sample(['ok', 'gpa', 'rank', 'max', 'it', 'dur', 'status', 'none', 'none', 'none', 'rank+', 'gpa+'], rng.choice([1, 1, 1, 2])):
        if k == 'ok':
            v['ok'] = not v['ok']
        elif k == 'gpa':
            v['gpa'] = rng.choice([1.0, 3.21, 0.0])
        elif k == 'gpa+':
            v['gpa'] = round(v['gpa'] + 0.01, 2)
        elif k == 'rank':
            v['rank'] = rng.choice([0, 4, 1.5])
        elif k == 'rank+':
            v['rank'] = v['rank'] + 0.001
        elif k == 'max':
            v['max'] = rng.choice([9, 10, 5])
        elif k == 'it':
            v['it'] += 3
        elif k == 'dur':
            v['dur'] += 1
        elif k == 'status':
            v['status'] = 'waived'
    return v


def gen_compare(rng, tier):
    n = rng.choice([1, 2, 3, 5, 8])
    keys = list({(rng.choice(['100000', '100001', '99', '0123', 'S1']), rng.choice(CATS), rng.choice(['140', '902', '0902'])): 1 for _ in range(n)})
    base = [vals(rng) for _ in keys]
    names = rng.sample(sorted(set(NAMES)), rng.choice([1, 2, 2, 3]))

    def rows(how):
        out = []
        for i, k in enumerate(keys):
            if rng.random() < 0.8:
                out.append([i, perturb(rng, base[i]) if how != 'base' or rng.random() < 0.3 else base[i]])
        return out
    sets = [{'table': 'baseline', 'rows': rows('base')}]
    for b in names:
        if rng.random() < 0.9:
            sets.append({'table': 'branch', 'branch': b, 'rows': rows('branch')})
    steps, at = [], 0
    for _ in range(rng.choice([1, 2, 3, 4] + ([7] if tier == 'thorough' else []))):
        if rng.random() < 0.6:
            at += rng.choice([0, 0, 200, 2000, S, 8 * S])
        r = rng.random()
        if r < 0.65:
            steps.append({'at': at, 'op': 'compare', 'run': rng.choice(names) if rng.random() < 0.9 else rng.choice(NAMES + ['nothing', 'server']), 'mode': rng.choice(['data', 'data', 'ok', 'gpa', None])})
        else:
            t = rng.choice(['baseline', 'branch', 'branch'])
            steps.append({'at': at, 'op': 'edit', 'two': rng.random() < 0.5, 'set': {'table': t, 'branch': rng.choice(names), 'rows': rows('branch') if rng.random() < 0.85 else []}})
    steps.append({'at': at + 30 * S, 'op': 'compare', 'run': rng.choice(names), 'mode': 'data'})
    return {'mode': 'compare', 'keys': keys, 'sets': sets, 'steps': steps, 'faults': gen_faults(rng, steps, ['sqlite drop', 'sqlite create', 'sqlite select', 'sqlite commit', 'sqlite pragma']), 'knobs': knobs(rng)}


def gen_faults(rng, steps, labels):
    faults = []
    for i, st in enumerate(steps[:-1]):
        if rng.random() < 0.4:
            kind = rng.choice(['crash', 'crash', 'disk_error', 'stall', 'pipe', 'full'])
            f = {'proc': f'step{i}', 'kind': kind, 'phase': rng.choice(['before', 'after'])}
            if kind == 'pipe':
                f.update(kind='io_error', label='print', errno=32, nth=rng.choice([1, 1, 2, 3, rng.randint(1, 12)]), phase='before')
            elif kind == 'full':
                f.update(kind='io_error', label=rng.choice(['write', 'fclose', 'open']), errno=28, nth=rng.choice([1, 1, 2, rng.randint(1, 40)]), phase='before')
                if f['label'] == 'fclose':
                    f['nth'] = 1
            elif kind == 'stall':
                f.update(label='any', nth=rng.randint(1, 45), us=rng.choice([1000, S, 6 * S]))
            elif kind == 'disk_error':
                f.update(label=rng.choice(labels), nth=rng.choice([1, 1, 2, 3]))
            else:
                f.update(label=rng.choice(labels + ['any', 'any', 'any']), nth=rng.choice([1, 1, 2, 3]))
                if f['label'] == 'any':
                    f['nth'] = rng.randint(1, 50)
            faults.append(f)
    return faults


def gen_read(rng, tier):
    codes = rng.sample(corpus.CODES, rng.choice([1, 2]))
    nums = rng.choice([rng.sample(['100000', '100001', '1000', '0123'], rng.choice([1, 2, 2])), rng.choice([['0123', '123'], ['1000', '1000.0'], ['S1', 's1'], ['100000', '1_0000']])])
    docs = []
    for s in nums:
        for _ in range(rng.choice([1, 2, 2])):
            docs.append([s, corpus.gen_student(rng, s, areas=codes, n=rng.randint(1, 5), salt=str(len(docs)))])
    specs = {}
    if rng.random() < 0.35:        # areas of unusual shapes, with a transcript that meets them
        s = rng.choice(nums)
        doc, spec = specgen.pair(rng, s, '950')
        specs[spec['code']] = spec
        codes = [c for c in codes if c != spec['code']] + [spec['code']] * 2
        doc['courses'] = doc['courses'][:5]
        docs.append([s, doc])
    keys = list({(rng.choice(nums), rng.choice(CATS[:2]), rng.choice(codes)): 1 for _ in range(rng.choice([1, 2, 3, 5]))})
    names = rng.sample(sorted(set(NAMES)), rng.choice([1, 2, 2]))

    def rows(p=0.8):
        return [[i, {**vals(rng), 'doc': rng.choice([j for j, d in enumerate(docs) if d[0] == k[0]]), 'res': rng.randrange(len(docs)), 'flip': rng.random() < 0.15}] for i, k in enumerate(keys) if rng.random() < p]
    sets = [{'table': 'server', 'rows': rows(0.9)}, {'table': 'baseline', 'rows': rows()}] + [{'table': 'branch', 'branch': b, 'rows': rows()} for b in names]
    areas = [[f, c] for f in CATS[:2] for c in sorted(set(codes)) if rng.random() < 0.85]
    steps, at = [], 0
    for _ in range(rng.choice([1, 2, 3, 4] + ([7] if tier == 'thorough' else []))):
        if rng.random() < 0.6:
            at += rng.choice([0, 0, 200, 2000, S, 8 * S])
        if rng.random() < 0.75:
            steps.append({'at': at, **read_cmd(rng, keys, names, codes, nums, specs)})
        else:
            t = rng.choice(['server', 'server', 'baseline', 'branch'])
            steps.append({'at': at, 'op': 'edit', 'two': rng.random() < 0.4, 'set': {'table': t, 'branch': rng.choice(names), 'rows': rows()}})
    steps.append({'at': at + 30 * S, **read_cmd(rng, keys, names, codes, nums, specs)})
    return {'mode': 'read', 'keys': keys, 'docs': docs, 'specs': specs, 'areas': areas, 'sets': sets, 'steps': steps, 'faults': gen_faults(rng, steps, ['sqlite select', 'sqlite create', 'sqlite pragma']), 'knobs': knobs(rng)}


def read_cmd(rng, keys, names, codes, nums, specs):
    k = list(rng.choice(keys)) if rng.random() < 0.9 else [rng.choice(nums + ['777']), rng.choice(CATS), rng.choice(codes)]
    op = rng.choice(['query', 'query', 'extract', 'extract', 'invoke', 'print', 'print', 'print', 'run'])
    if op == 'query':
        part = lambda x: x if rng.random() < 0.85 else rng.choice([x[:-1], '%', x + '%', '_' + x[1:], '0' + x, x.swapcase(), ''])     # noqa: E731
        return {'op': op, 'stnum': part(k[0]) if rng.random() < 0.5 else None, 'catalog': part(k[1]) if rng.random() < 0.4 else None, 'code': part(k[2]) if rng.random() < 0.4 else None}
    if op == 'print' or (op == 'run' and k[2] in specs):     # a generated area may have any number of solutions
        op = 'print'
        b = rng.choice(['server', 'baseline'] + names * 2 + ['nothing'])
        return {'op': op, 'key': k, 'branch': b, 'base': rng.choice([None, None, 'baseline', rng.choice(names)]) if b in names else None, 'diff': rng.random() < 0.4}
    return {'op': op, 'key': k, 'old': rng.choice([None, None, None, '{}', '{"old": [' + '1, ' * 20000 + '1]}']) if op in ('extract', 'invoke') else None}


def flipped(x):
    """a result with the same requirements in another order"""
    if isinstance(x, dict):
        return {k: flipped(v)[::-1] if k == 'items' and isinstance(v, list) else flipped(v) for k, v in x.items()}
    return [flipped(v) for v in x] if isinstance(x, list) else x


def reductions(case):
    yield from drop_each(case, 'faults')
    for i, st in enumerate(case['steps'][:-1]):
        if st['op'] != 'nop':
            yield {**case, 'steps': case['steps'][:i] + [{'op': 'nop', 'at': 0}] + case['steps'][i + 1:]}
    for i, s in enumerate(case['sets']):
        for j in range(len(s['rows'])):
            yield {**case, 'sets': case['sets'][:i] + [{**s, 'rows': s['rows'][:j] + s['rows'][j + 1:]}] + case['sets'][i + 1:]}
    for i, st in enumerate(case['steps']):
        if st['op'] == 'edit':
            for j in range(len(st['set']['rows'])):
                yield {**case, 'steps': case['steps'][:i] + [{**st, 'set': {**st['set'], 'rows': st['set']['rows'][:j] + st['set']['rows'][j + 1:]}}] + case['steps'][i + 1:]}
    if case.get('areas'):
        yield from drop_each(case, 'areas')


class World(Base):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.prop = 'C26' if self.case['mode'] == 'compare' else 'C27'
        self.cwd = os.path.join(self.root, 'cwd')
        os.makedirs(self.cwd)
        os.chdir(self.cwd)
        self.sim.env['fs_root'] = self.root
        self.sim.env['out_points'] = True
        self.sim.env['write_points'] = True
        self.results = []

    def report(self, cls, msg):
        self.ctx.report(self.prop, cls, msg)

    # -------------------------------------------------------------- data
    def setup(self):
        case = self.case
        for f, c in case.get('areas', ()):
            corpus.write_area(self.areas, f, c, self.spec(c, f))
        if case['mode'] == 'read':
            from sim.reference import ask, fresh
            for i, (s, d) in enumerate(case['docs']):
                code = case['keys'][i % len(case['keys'])][2]
                if i == len(case['docs']) - 1 and case['specs']:
                    code = list(case['specs'])[0]
                spec = self.spec(code, '2018-19')
                ref = ask('audit_some', d, spec, 40) if code in case['specs'] else fresh(d, spec)
                self.results.append(ref.get('result') or fresh(corpus.gen_student(random.Random(1), '100000', n=3), corpus.variant('901', 2018))['result'])
        self.init_db()

        def fill(c):
            for st in case['sets']:
                for i, v in st['rows']:
                    self.insert(c, st, i, v)
        self.write(fill)
        self.states = [self.snap()]
        self.sim.env['sqlite_hook'] = self.committed

    def spec(self, code, folder):
        return self.case['specs'][code] if code in self.case['specs'] else corpus.variant(code, int(folder[:4]))

    def insert(self, c, st, i, v):
        k = tuple(self.case['keys'][i])
        res = json.dumps(flipped(self.results[v['res']]) if v.get('flip') else self.results[v['res']]) if 'res' in v else '{}'
        cols = {'stnum': k[0], 'catalog': k[1], 'code': k[2], 'iterations': v['it'], 'duration': v['dur'], 'gpa': v['gpa'], 'ok': v['ok'], 'rank': v['rank'], 'max_rank': v['max'], 'status': v['status'], 'result': res, 'version': 3}
        t = {'server': 'server_data'}.get(st['table'], st['table'])
        if st['table'] == 'server':
            cols.update(run=1, input_data=json.dumps(self.case['docs'][v['doc']][1]))
        if st['table'] == 'branch':
            cols['branch'] = st['branch']
        c.execute(f'insert into {t} ({", ".join(cols)}) values ({", ".join("?" * len(cols))})', list(cols.values()))

    def snap(self):
        return {t: self.read(f'select * from {t} order by stnum, catalog, code' + (', branch' if t == 'branch' else '')) for t in ('server_data', 'baseline', 'branch')}

    def committed(self, proc):
        now = self.snap()
        if now != self.states[-1]:
            self.states.append(now)
            if proc.data.get('role') != 'writer':
                self.report('changed', f'{proc.name} ({proc.argv[3:] if proc.argv else ""}) changed the stored audits')

    def editor(self, st):
        def main():
            conn = sqlite3.connect(self.db, isolation_level=None)
            try:
                conn.execute('pragma journal_mode=wal')
                conn.execute('BEGIN')
                t = {'server': 'server_data'}.get(st['set']['table'], st['set']['table'])
                if t == 'branch':
                    conn.execute('DELETE FROM branch WHERE branch = ?', [st['set']['branch']])
                else:
                    conn.execute(f'DELETE FROM {t}')
                if st['two']:
                    conn.execute('COMMIT')
                    conn.execute('BEGIN')
                for i, v in st['set']['rows']:
                    self.insert(conn, st['set'], i, v)
                conn.execute('COMMIT')
            finally:
                conn.close()
        return main

    # -------------------------------------------------------------- running
    def argv(self, st):
        if st['op'] == 'compare':
            return ['compare', st['run']] + (['--mode', st['mode']] if st['mode'] else [])
        if st['op'] == 'query':
            return ['query'] + [x for o in ('stnum', 'catalog', 'code') if st[o] is not None for x in ('--' + o, st[o])]
        if st['op'] == 'print':
            return ['print', st['branch'], *st['key']] + ([st['base']] if st['base'] else []) + (['--diff'] if st['diff'] else [])
        return [st['op'], *st['key']]

    def driver(self):
        sim = self.sim
        recs = []
        for i, st in enumerate(self.case['steps']):
            if st['op'] == 'nop':
                continue
            if st['at'] > sim.now:
                sim.sleep(st['at'] - sim.now)
            else:
                sim.point('next')
            alive = [r for r in recs if not self.over(r['p'])]
            rec = {'i': i, 'st': st, 'from': len(self.states) - 1, 'met': bool(alive)}
            for r in alive:
                r['met'] = True
            if st['op'] == 'edit':
                p = sim.process(f'step{i}', self.editor(st))
                p.data['role'] = 'writer'
            else:
                p = self.run_main(f'step{i}', self.argv(st))
            rec['p'] = p
            if st['op'] in ('extract', 'invoke'):
                rec['same'] = any(r['st'].get('key', [None])[0] == st['key'][0] and r['st']['op'] in ('extract', 'invoke') for r in recs if r['met'] or not self.over(r['p']))
                if rec['same']:
                    for r in alive:
                        r['same'] = True
                path = os.path.join(self.cwd, st['key'][0] + '.json')
                rec['file'] = path
                rec['old'] = None
                if not alive:
                    if os.path.exists(path):
                        os.unlink(path)
                    if st.get('old'):      # an earlier extraction
                        from sim.seams import real
                        with real['open'](path, 'w') as fh:
                            fh.write(st['old'])
                        rec['old'] = st['old']
            recs.append(rec)
            sim.process(f'watch{i}', lambda rec=rec: self.watch(rec)).data['role'] = 'driver'
        for r in recs:
            sim.wait(lambda r=r: 'to' in r)
        for r in recs:
            if r['st']['op'] == 'edit':
                continue
            sim.event('step', op=r['st']['op'], exit=r['p'].exit and r['p'].exit[0], out=len(r['p'].out()))
            (self.judge_compare if r['st']['op'] == 'compare' else self.judge_read)(r)

    def over(self, p):
        return p.exit is not None or (p.killed and p.main_task.done)

    def watch(self, rec):
        self.wait(rec['p'])
        rec['to'] = len(self.states)
        f = rec.get('file')
        if f and os.path.exists(f):
            from sim.seams import real
            with real['open'](f, encoding='utf-8') as fh:
                rec['text'] = fh.read()

    def ended(self, rec):
        """None if the command succeeded; otherwise whether its failure needs an explanation"""
        p = rec['p']
        fired = [f for f in self.fired(p.name) if f['kind'] != 'stall']
        if p.exit is not None and p.exit[0] == 'ok':
            return None, fired
        return bool(p.killed or fired or rec['met']), fired

    # -------------------------------------------------------------- C26
    def expect(self, state, run, mode):
        br = {(r['stnum'], r['catalog'], r['code']): r for r in state['branch'] if r['branch'] == run}
        out = []
        for b in state['baseline']:
            r = br.get((b['stnum'], b['catalog'], b['code']))
            if r is None:
                continue
            d = {'ok': bool(b['ok']) != bool(r['ok']), 'gpa': b['gpa'] != r['gpa'], 'rank': b['rank'] != r['rank'], 'max': b['max_rank'] != r['max_rank']}
            if not any(d.values()) or (mode in ('ok', 'gpa') and not d[mode]):
                continue
            out.append((b, r))
        return out, len(br)

    def row_differs(self, got, b, r):
        want = {'branch': r['branch'], 'stnum': b['stnum'], 'catalog': b['catalog'], 'code': b['code'], 'gpa': b['gpa'], 'gpa_r': r['gpa'], 'it': b['iterations'], 'it_r': r['iterations'], 'dur': b['duration'], 'dur_r': r['duration'],
                'stat': b['status'], 'stat_r': r['status'], 'rank': b['rank'], 'rank_r': r['rank'], 'max': b['max_rank'], 'max_r': r['max_rank'], 'ok': int(b['ok']), 'ok_r': int(r['ok'])}
        for k, v in want.items():
            g = got.get(k)
            if isinstance(v, str):
                if g != v:
                    return f'{k} is {g!r} instead of {v!r}'
            else:
                tol = {'dur': 0.000051, 'dur_r': 0.000051, 'rank': 0.00501, 'rank_r': 0.00501}.get(k, 1e-9)
                try:
                    g = float({'True': '1', 'False': '0'}.get(g, g))
                except (TypeError, ValueError):
                    return f'{k} is {g!r} instead of {v!r}'
                if abs(g - v) > tol:
                    return f'{k} is {g} instead of {v}'
        return None

    def judge_compare(self, rec):
        st, p = rec['st'], rec['p']
        name = f"{p.name} (compare {st['run']!r}, {st['mode']})"
        excuse, fired = self.ended(rec)
        states = self.states[rec['from']:rec['to']]
        exp = [self.expect(s, st['run'], st['mode']) for s in states]
        if excuse is not None:
            if not excuse and all(n for _, n in exp):
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit}')
            return
        if fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        if not any(n for _, n in exp):
            self.report('unknown', f'{name} succeeded although that branch has no results')
            return
        try:
            got = list(csv.DictReader(io.StringIO(p.out())))
        except csv.Error as e:
            self.report('format', f'{name} printed no CSV: {e}')
            return
        rows = [g for g in got if g.get('stnum') not in ('sum', 'avg')]
        why = None
        for want, n in exp:
            if len(want) != len(rows):
                why = why or f'it lists {len(rows)} audits ({[(g.get("stnum"), g.get("catalog"), g.get("code")) for g in rows][:4]}), {len(want)} differ ({[(b["stnum"], b["catalog"], b["code"]) for b, _ in want][:4]})'
                continue
            bad = [x for x in (self.row_differs(g, b, r) for g, (b, r) in zip(rows, want)) if x]
            if not bad:
                break
            why = why or bad[0]
        else:
            self.report('listed', f'{name}: {why}')
            return
        total = [g for g in got if g.get('stnum') == 'sum']
        if len(total) != 1 or got.index(total[0]) != len(rows):
            self.report('sum', f'{name} printed {len(total)} totals')
        elif rows:
            for k in ('gpa', 'gpa_r', 'it', 'it_r', 'rank', 'rank_r', 'max', 'max_r', 'ok', 'ok_r'):
                want = sum(float(g[k]) for g in rows)
                if not total[0].get(k) or abs(float(total[0][k]) - want) > 0.001 * len(rows) + 1e-6:
                    self.report('sum', f'{name}: the total of {k} is {total[0].get(k)!r} instead of {want}')
        if len(states) > 1:
            self.sim.probe('compare_during_change')
        if rows and any(len(rows) < n for _, n in exp):
            self.ctx.nontrivial = True

    # -------------------------------------------------------------- C27
    def at(self, state, key):
        for r in state['server_data']:
            if [r['stnum'], r['catalog'], r['code']] == list(key):
                return r
        return None

    def other(self, state, table, key, branch=None):
        for r in state[table]:
            if [r['stnum'], r['catalog'], r['code']] == list(key) and (branch is None or r['branch'] == branch):
                return json.loads(r['result'])
        return None

    def shown(self, doc, result):
        from dp.data.student import Student
        from dp.stringify_v3 import print_result
        try:
            student = Student.load(json.loads(json.dumps(doc)))
            return '\n'.join(print_result(json.loads(json.dumps(result)), transcript={c.clbid: c for c in student.courses}))
        except Exception as e:
            self.report('unshowable', f'a stored result of area {result.get("name")!r} cannot be shown: {type(e).__name__}: {e}')
            return f'<cannot be shown: {e}>'

    def answers(self, st, state):
        """the right answer in one committed state, None where the command has to refuse"""
        op = st['op']
        if op == 'query':
            return sorted(f"{r['stnum']} {r['catalog']} {r['code']}" for r in state['server_data'] if all(st[o] is None or r[o] == st[o] for o in ('stnum', 'catalog', 'code')))
        row = self.at(state, st['key'])
        if row is None:
            return None
        doc = json.loads(row['input_data'])
        if op in ('extract', 'invoke'):
            return doc
        if op == 'run':
            from sim.reference import fresh
            if list(st['key'][1:]) not in [list(a) for a in self.case['areas']]:
                return None
            ref = fresh(doc, self.spec(st['key'][2], st['key'][1]))
            return None if 'bad' in ref else ('text', self.shown(doc, ref['result']))
        if st['branch'] == 'server':
            return 'text', self.shown(doc, json.loads(row['result']))
        base = self.other(state, 'baseline', st['key']) if st['base'] in (None, 'baseline') else self.other(state, 'branch', st['key'], st['base'])
        if st['branch'] == 'baseline':
            return None if base is None else ('text', self.shown(doc, base))
        br = self.other(state, 'branch', st['key'], st['branch'])
        if base is None or br is None:
            return None
        return ('diff' if st['diff'] else 'both'), self.shown(doc, base), self.shown(doc, br)

    def fits(self, rec, want, out):
        st = rec['st']
        if st['op'] == 'query':
            return sorted(ln for ln in out.split('\n') if ln.strip()) == want
        if want is None:
            return False
        if st['op'] in ('extract', 'invoke'):
            if not rec['same']:
                try:
                    if json.loads(rec.get('text') or '') != want:
                        return False
                except ValueError:
                    return False
            if st['op'] == 'invoke':
                return f'{st["key"][0]}.json' in out and os.path.join(self.areas, st['key'][1], st['key'][2] + '.yaml') in out
            return f'{st["key"][0]}.json' in out
        if want[0] == 'text':
            return want[1].strip() in out and (st['op'] == 'run' or out.strip() == want[1].strip())
        if want[0] == 'both':
            i = out.find(want[1])
            return i >= 0 and out.find(want[2], i + len(want[1])) >= 0 and f"Branch: {st['branch']}" in out
        a, b = want[1].split('\n'), want[2].split('\n')
        if a == b:
            return out.strip() == 'no changes'
        lines = out.split('\n')
        if lines and lines[-1] == '':
            lines.pop()
        return [x[2:] for x in lines if x[:2] in ('  ', '- ')] == a and [x[2:] for x in lines if x[:2] in ('  ', '+ ')] == b

    def judge_read(self, rec):
        st, p = rec['st'], rec['p']
        name = f'{p.name} ({" ".join(map(str, self.argv(st)))})'
        excuse, fired = self.ended(rec)
        wants = [self.answers(st, s) for s in self.states[rec['from']:rec['to']]]
        if excuse is not None:
            if not excuse and all(w is not None for w in wants):
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit}')
            if st['op'] in ('extract', 'invoke') and all(w is None for w in wants) and rec.get('text') != rec['old'] and not rec['met'] and not p.killed:
                self.report('invented', f'{name} wrote a file although there is no such record')
            return
        if fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        if not any(w is not None and self.fits(rec, w, p.out()) for w in wants):
            self.report(st['op'], f'{name} showed {p.out()[:300]!r} {("and wrote " + repr(rec.get("text", ""))[:200]) if "file" in rec else ""}; the data at that time give {str(wants)[:300]}')
            return
        if len(wants) > 1:
            self.sim.probe('read_during_change')
        if p.out().strip():
            self.ctx.nontrivial = True


def prepare():
    testbed.prepare()


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
