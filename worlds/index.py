"""The student index: real dp.bin.index over real SQLite and real files in a scratch folder.

Serves C20. Sequential histories of "files arrive, get damaged or repaired; the index is run", with crashes and disk
errors at every SQLite step and file access.
"""
import json
import os
import sqlite3

from sim.core import US
from sim.harness import drop_each

S = US
RULE = {'*': 'Random folders, file arrivals and damage, runs, queries and faults from one seed; non-trivial: a run completed after an earlier run had failed, crashed or indexed something.'}
REAL = ['dp.bin.index', 'SQLite itself (real database files in a scratch folder)', 'glob and file reading']
STUBS = ['directory listing order', 'process death, disk and file errors']
ASSUMPTIONS = ['index runs follow one another (they are started by hand)', 'each file is named after its student and is not changed once it could be read']
BY_EVENTS = True

QUERIES = [("1 = 1", lambda r: True), ("code = '140'", lambda r: r['code'] == '140'), ("catalog >= '2018'", lambda r: r['catalog'] >= '2018'),
           ("type = 'major' and dept = 'CSCI'", lambda r: r['type'] == 'major' and r['dept'] == 'CSCI'), ("status = 'none'", lambda r: False),
           ("stnum = '100001'", lambda r: r['stnum'] == '100001'), ("degree = 'B.A.'", lambda r: r['degree'] == 'B.A.')]


def student(rng, stnum):
    areas = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        a = {'name': rng.choice(['Biology', 'Études', "Women's Studies", 'Art']), 'kind': rng.choice(['major', 'concentration', 'degree']), 'code': rng.choice(['140', '902', '170', 'B.A.']),
             'status': rng.choice(['declared', 'whatif']), 'degree': rng.choice(['B.A.', 'B.M.'])}
        if rng.random() < 0.5:
            a['dept'] = rng.choice(['CSCI', 'ART'])
        if rng.random() < 0.4:
            a['catalog'] = rng.choice(['2017', '2019-20', '2018'])
        areas.append(a)
    if areas and rng.random() < 0.15:
        areas.append(dict(areas[0]))
    return {'stnum': stnum if rng.random() < 0.8 or stnum.startswith('0') else int(stnum), 'name': 'N', 'catalog': rng.choice(['2018', '2019-20', '1999']), 'areas': areas}


def generate(rng, prop, tier):
    n = rng.choice([1, 2, 3, 4, 6, 9] + ([120] if rng.random() < (0.02 if tier == 'quick' else 0.05) else []))
    # student numbers of different lengths; some only differ in leading zeros
    first = rng.choice([100000, 100000, 100000, 9998])
    ids = [str(first + i) for i in range(n)]
    if rng.random() < 0.3:
        ids += rng.sample(['000123', '0123', '123', '00', '0'], rng.choice([1, 2, 3]))
    docs = {i: student(rng, i) for i in ids}
    order = list(docs)
    rng.shuffle(order)
    steps, at = [], 0
    runs = rng.choice([1, 2, 2, 3, 3, 4] + ([6] if tier == 'thorough' else []))
    bad = {}
    k = 0
    for r in range(runs):
        take = rng.randint(0, len(order) - at) if r < runs - 1 else len(order) - at
        for s in order[at:at + take]:
            mode = 'ok'
            if rng.random() < 0.12 and r < runs - 1:
                mode = rng.choice(['trunc', 'empty', 'nokind', 'noareas', 'utf8', 'nocat', 'notlist'])
                bad[s] = r + 1 + rng.randint(0, runs - r - 2)
            steps.append({'put': s, 'mode': mode})
        at += take
        for s, when in list(bad.items()):
            if when == r:
                steps.append({'put': s, 'mode': 'ok'})
                del bad[s]
        q = rng.randrange(len(QUERIES))
        step = {'run': k, 'q': q, 'more': rng.random() < 0.3, 'clean': rng.random() < 0.08, 'badquery': rng.random() < 0.08 and r < runs - 1, 'file': rng.random() < 0.03}
        steps.append(step)
        k += 1
    steps.append({'run': k, 'q': 0, 'more': True, 'clean': False, 'badquery': False, 'file': False})
    faults = []
    for i in range(k):
        for _ in range(rng.choice([0, 0, 1, 1])):
            kind = rng.choice(['crash', 'crash', 'disk_error', 'io_error'])
            f = {'proc': f'index{i}', 'kind': kind, 'phase': rng.choice(['before', 'after'])}
            if kind == 'io_error':
                f.update(label='open', nth=rng.randint(1, 6), phase='before')
            else:
                f.update(label=rng.choice(['any', 'sqlite insert', 'sqlite insert', 'sqlite commit', 'sqlite create', 'sqlite select']), nth=rng.choice([1, 1, 2, 3, rng.randint(1, 12)]))
                if f['label'] == 'any':
                    f['nth'] = rng.randint(1, 25)
                if kind == 'disk_error' and f['label'] == 'any':
                    f['label'] = 'sqlite insert'
            faults.append(f)
    noise = rng.sample(['notes.txt', 'README', 'old.json.bak', '100999.jsonx'], rng.choice([0, 1, 2]))
    return {'docs': docs, 'steps': steps, 'faults': faults, 'noise': noise, 'how': rng.choice(['dir', 'dir', 'env', 'home']),
            'knobs': {'stick': 0.5, 'max_steps': 60000, 'dir_order': rng.choice([0, 1, rng.randint(2, 999)])}}


def reductions(case):
    yield from drop_each(case, 'faults')
    last = len(case['steps']) - 1
    for i, s in enumerate(case['steps']):
        if i < last:
            yield {**case, 'steps': case['steps'][:i] + case['steps'][i + 1:]}
    yield from drop_each(case, 'noise')


def rows_of(d):
    return [{'stnum': str(d['stnum']), 'name': a['name'], 'type': a['kind'], 'catalog': a.get('catalog', d['catalog']).split('-')[0], 'code': a['code'],
             'dept': a.get('dept', ''), 'status': a['status'], 'degree': a['degree']} for a in d['areas']]


def key(r):
    return tuple(sorted(r.items()))


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.home = ctx.mkscratch()
        self.dir = os.path.join(self.home, '2019-10-01')
        os.makedirs(self.dir)
        os.makedirs(os.path.join(self.home, '2019-01-01'))
        self.sim.env['fs_root'] = self.home
        self.sim.env['dir_order'] = self.case['knobs'].get('dir_order', 0)
        self.here = {}       # student -> document or None (damaged)
        self.events = 0

    def report(self, cls, msg):
        self.ctx.report('C20', cls, msg)

    def put(self, s, mode):
        d = self.case['docs'][s]
        text = json.dumps(d, ensure_ascii=False).encode()
        ok = mode == 'ok'
        if mode == 'trunc':
            text = text[:-9]
        elif mode == 'empty':
            text = b''
        elif mode == 'utf8':
            text = text[:-1] + b', "x": "\xff\xfe"}'
        elif mode == 'noareas':
            text = json.dumps({k: v for k, v in d.items() if k != 'areas'}).encode()
        elif mode == 'nokind':
            text = json.dumps({**d, 'areas': [*d['areas'], {'name': 'x', 'code': 'y'}]}).encode()
        elif mode == 'nocat':
            text = json.dumps({**{k: v for k, v in d.items() if k != 'catalog'}, 'areas': [*d['areas'], {'name': 'x', 'code': 'y', 'kind': 'major', 'status': 's', 'degree': 'd'}]}).encode()
        elif mode == 'notlist':
            text = json.dumps({**d, 'areas': [*d['areas'], 'Art']}).encode()
        with open(os.path.join(self.dir, s + '.json'), 'wb') as fh:
            fh.write(text)
        self.here[s] = d if ok else None
        self.sim.event('put', s=s, mode=mode, n=len(d['areas']))

    def index(self):
        """the committed contents, or None when there is no index yet"""
        p = os.path.join(self.dir, 'index.sqlite3')
        if not os.path.exists(p):
            return []
        c = sqlite3.connect(f'file:{p}', uri=True)
        try:
            if c.execute('pragma integrity_check').fetchone()[0] != 'ok':
                self.report('corrupt', 'the index file is corrupt')
            if not c.execute("select 1 from sqlite_master where name = 'area'").fetchone():
                return []
            cols = ['stnum', 'name', 'type', 'catalog', 'code', 'dept', 'status', 'degree']
            return sorted(key(dict(zip(cols, r))) for r in c.execute('select ' + ', '.join(cols) + ' from area'))
        finally:
            c.close()

    def driver(self):
        import dp.bin.index as ix
        sim = self.sim
        for n in self.case['noise']:
            with open(os.path.join(self.dir, n), 'w') as fh:
                fh.write('{"stnum": "7"}')
        failed = False
        for st in self.case['steps']:
            if 'put' in st:
                self.put(st['put'], st['mode'])
                continue
            before = self.index()
            q, sel = QUERIES[st['q']]
            argv = ['index', "nosuchcolumn = 1" if st['badquery'] else q]
            if self.case['how'] == 'dir':
                argv += ['--dir', self.dir]
            if st['more']:
                argv.append('--more')
            if st['file']:
                argv.append('--print-file')
            if st['clean']:
                argv.append('--clean')
            p = sim.process(f'index{st["run"]}', ix.main, argv=argv)
            sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done))
            after = self.index()
            sim.event('index', rows=len(after), exit=p.exit and p.exit[0])
            ok = p.exit is not None and p.exit[0] == 'ok'
            fired = [f for f in sim.faults if f['fired'] and f['proc'] == p.name]
            if st['file']:
                if after != before:
                    self.report('touched', 'asking for the index file name changed the index')
                continue
            if not ok:
                failed = True
                if after != before and not (st['clean'] and after == []):
                    if not (p.killed and any(f['label'] in ('sqlite commit', 'any') and f['phase'] == 'after' for f in fired) and after == self.full()):
                        self.report('partial', f'run {p.name} failed ({p.exit and p.exit[0]}) but changed the index from {len(before)} to {len(after)} rows')
                if not fired and None not in self.here.values() and not st['badquery'] and not (st['clean'] and not os.path.exists(os.path.join(self.dir, 'index.sqlite3'))):
                    self.report('failed', f'run {p.name} failed with nothing wrong: {p.exit}')
                continue
            want = self.full()
            if failed or before:
                self.ctx.nontrivial = True
            if None in self.here.values():
                self.report('accepted', f'run {p.name} succeeded although a student file is unreadable')
            if after != want:
                miss = [r for r in want if want.count(r) > after.count(r)]
                more = [r for r in after if after.count(r) > want.count(r)]
                self.report('wrong', f'after run {p.name} the index lacks {miss[:2]} and has too many of {more[:2]}')
            self.printed(p, st, sel)

    def full(self):
        return sorted(key(r) for d in self.here.values() if d for r in rows_of(d))

    def printed(self, p, st, sel):
        rows = [r for d in self.here.values() if d for r in rows_of(d) if sel(r)]
        want = []
        for r in rows:
            base = [r['stnum'], r['catalog'] + '-' + str(int(r['catalog']) + 1)[2:4], r['code']]
            want.append(' '.join(base + [r['name'], r['type']]) if st['more'] else ' '.join(base))
        got = [x for x in p.out().split('\n') if x and 'indexing ' not in x]
        if sorted(got) != sorted(want):
            self.report('printed', f'run {p.name} printed {got[:4]}, expected {sorted(want)[:4]}')
        if [x.split()[0] for x in got] != sorted(x.split()[0] for x in got):
            self.report('order', f'run {p.name} did not print the rows by student')

    def start(self):
        from sim import seams
        seams.set_environ(HOME=self.home, DP_STUDENT_DIR=self.dir if self.case['how'] == 'env' else None)
        p = self.sim.process('driver', self.driver)
        p.data['role'] = 'driver'

    def finish(self):
        sim = self.sim
        d = [p for p in sim.procs if p.name == 'driver'][0]
        if sim.failure is None and (sim.capped or d.exit is None or d.exit[0] != 'ok'):
            if d.exit and d.exit[0] == 'exc':
                raise d.exit[1]
            self.report('stuck', f'an index run did not end ({sim.steps} steps)')


def prepare():
    from sim import seams
    seams.import_dp()


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
