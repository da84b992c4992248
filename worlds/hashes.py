"""A fleet of audit processes with different hash randomisation, histories and directory orders (C23).

The simulated fleet works through a list of jobs, every job several times; the scheduler decides which process takes
which job after what, and faults end processes in the middle of an audit. Every process lifetime then runs for real in
an interpreter with the hash seed the case gave it, and all answers to one job must be the same.
"""
import json
import os

from sim import corpus, fleet, specgen

from sim.harness import drop_each

BY_EVENTS = True
RULE = {'C23': 'Random specifications and transcripts, jobs given to 2-4 processes each with its own interpreter hash seed, earlier audits, process deaths and directory order from one seed; non-trivial: at least two processes with different hash seeds answered one job, one of them after other work.'}
REAL = ['dp.run (run, find_area, load_area), dp.audit, dp.area and the whole auditor, in separately started interpreters']
STUBS = ['the fleet\'s scheduling (which process takes which job, and when it dies)', 'directory listing order']
ASSUMPTIONS = ['answers are compared as result document, claims, rank, GPA, status and progress messages without their times', 'six interpreter hash seeds (with three time zones and two locales) stand for all of them']


def folders(rng, n):
    """area files over several catalogs: {relative path: pair index}; how the request names its area"""
    years = sorted(rng.sample(range(2014, 2024), rng.choice([1, 2, 3, 4])))
    return [[f'{y}-{str(y + 1)[2:]}', rng.randrange(n)] for y in years], rng.choice(years) + rng.choice([0, 0, 0, 1, 2])


def generate(rng, prop, tier):
    n = rng.choice([1, 1, 2, 2, 3])
    pairs = []
    for i in range(n):
        doc, spec = specgen.pair(rng, str(100001 + i), f'95{i}')
        if rng.random() < 0.06:
            d2, how = corpus.corrupt(rng, doc)
            if how not in ('not_object', 'no_stnum', 'no_name', 'no_class'):
                doc = d2
        pairs.append({'doc': doc, 'spec': spec})
    jobs = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        j = {'pair': rng.randrange(n) if i else 0, 'args': {}}
        k = rng.random()
        if k < 0.4:
            j['args'] = {'progress_every': rng.choice([1, 2, 5, 50])}
        elif k < 0.5:
            j['args'] = {'stop_after': rng.choice([1, 3, 8])}
        elif k < 0.55:
            j['args'] = {rng.choice(['gpa_only', 'transcript_only']): True}
        elif k < 0.6:
            j['args'] = {'print_all': True, 'stop_after': 6}
        if 'stop_after' not in j['args'] and rng.random() < 0.85:
            j['args']['stop_after'] = 120       # most of what can differ does so early
        if rng.random() < 0.3:
            j['folder'], j['catalog'] = folders(rng, n)
        jobs.append(j)
    hs = list(fleet.HASHES)
    rng.shuffle(hs)
    workers = [{'hash': hs[i], 'next': rng.choice(hs), 'warm': [[rng.randrange(n), rng.choice([None, None, 1, 2])] for _ in range(rng.choice([0, 0, 1, 2]))], 'listing': rng.randrange(1000), 'pace': rng.choice([1, 10, 100])}
               for i in range(rng.choice([2, 2, 3, 4]))]
    todo = [i for i in range(len(jobs)) for _ in range(rng.choice([2, 2, 3]))]
    rng.shuffle(todo)
    faults = [{'kind': 'crash', 'w': rng.randrange(len(workers)), 'n': rng.randint(0, 5), 'limit': rng.choice([0, 1, 2])} for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    return {'pairs': pairs, 'jobs': jobs, 'workers': workers, 'todo': todo, 'deaths': faults, 'faults': [], 'knobs': {'stick': rng.choice([0.0, 0.3, 0.7]), 'max_steps': 20000}}


def reductions(case):
    yield from drop_each(case, 'deaths')
    yield from drop_each(case, 'todo')
    if len(case['workers']) > 2:
        yield from drop_each(case, 'workers')
    for i, w in enumerate(case['workers']):
        if w['warm']:
            yield {**case, 'workers': case['workers'][:i] + [{**w, 'warm': []}] + case['workers'][i + 1:]}
    for i, j in enumerate(case['jobs']):
        def put(x):
            return {**case, 'jobs': case['jobs'][:i] + [x] + case['jobs'][i + 1:]}
        if j['args']:
            yield put({**j, 'args': {}})
        if 'folder' in j:
            yield put({k: v for k, v in j.items() if k not in ('folder', 'catalog')})
            if len(j['folder']) > 1:
                for k in range(len(j['folder'])):
                    yield put({**j, 'folder': j['folder'][:k] + j['folder'][k + 1:]})
    for i, p in enumerate(case['pairs']):
        def putp(x):
            return {**case, 'pairs': case['pairs'][:i] + [x] + case['pairs'][i + 1:]}
        d, s = p['doc'], p['spec']
        for k in range(len(d['courses']) if isinstance(d, dict) and isinstance(d.get('courses'), list) else 0):
            yield putp({**p, 'doc': {**d, 'courses': d['courses'][:k] + d['courses'][k + 1:]}})
        if isinstance(d, dict) and d.get('exceptions'):
            yield putp({**p, 'doc': {**d, 'exceptions': []}})
        for k in ('limit', 'multicountable', 'credit', 'emphases'):
            if k in s:
                yield putp({**p, 'spec': {a: b for a, b in s.items() if a != k}})
        for kind in ('all', 'of', 'any'):
            items = s.get('result', {}).get(kind)
            if items and len(items) > 1:
                for k in range(len(items)):
                    r = {**s['result'], kind: items[:k] + items[k + 1:]}
                    if 'count' in r:
                        r['count'] = min(r['count'], len(items) - 1)
                    yield putp({**p, 'spec': {**s, 'result': r}})


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.todo = list(self.case['todo'])
        self.answers = {}
        self.sessions = []
        self.roots = {}

    def start(self):
        import yaml
        for j, job in enumerate(self.case['jobs']):
            if 'folder' not in job:
                continue
            root = os.path.join(self.ctx.mkscratch(), f'areas{j}')
            for cat, k in job['folder']:
                os.makedirs(os.path.join(root, cat), exist_ok=True)
                with open(os.path.join(root, cat, 'X.yaml'), 'w', encoding='utf-8') as fh:
                    yaml.safe_dump(self.case['pairs'][k % len(self.case['pairs'])]['spec'], fh, sort_keys=False)
            self.roots[j] = root
        for i in range(len(self.case['workers'])):
            self.spawn(i, 0)

    def spawn(self, i, life):
        w = self.case['workers'][i]
        h = w['hash'] if life == 0 else w['next']
        s = {'w': i, 'life': life, 'hash': h, 'ops': [], 'jobs': []}
        self.sessions.append(s)
        p = self.sim.process(f'w{i}.{life}', lambda: self.work(i, life, s))
        p.data['i'] = i

    def op(self, j, i):
        job = self.case['jobs'][j]
        pair = self.case['pairs'][job['pair'] % len(self.case['pairs'])]
        op = {'doc': pair['doc'], 'spec': pair['spec'], 'args': job['args'], 'full': True}
        if j in self.roots:
            op.update(root=self.roots[j], catalog=job['catalog'], code='X', listing=self.case['workers'][i]['listing'] + len(self.answers))
        return op

    def work(self, i, life, s):
        sim, w = self.sim, self.case['workers'][i]
        mine = [f for f in self.case['deaths'] if f['w'] == i]
        for k, limit in w['warm'] if life == 0 else []:
            pair = self.case['pairs'][k % len(self.case['pairs'])]
            s['ops'].append({'doc': pair['doc'], 'spec': pair['spec'], 'limit': limit, 'budget': 4000})
            s['jobs'].append(None)
        n = 0
        while True:
            sim.point('take')
            if not self.todo:
                return
            if life < len(mine) and n >= mine[life]['n']:
                # the process dies inside this audit; the job goes back to the list
                j = self.todo[0]
                sim.fired['crash'] = sim.fired.get('crash', 0) + 1
                if mine[life]['limit']:
                    s['ops'].append({**self.op(j, i), 'limit': mine[life]['limit']})
                    s['jobs'].append(None)
                sim.event('crash', w=i, job=j)
                self.spawn(i, life + 1)
                return
            j = self.todo.pop(0)
            sim.event('job', w=i, hash=s['hash'], job=j)
            s['ops'].append(self.op(j, i))
            s['jobs'].append(j)
            n += 1
            sim.sleep(w['pace'])

    def judge(self):
        for s in self.sessions:
            if not s['ops']:
                continue
            res = fleet.session(s['hash'], s['ops'])
            for k, (j, r) in enumerate(zip(s['jobs'], res)):
                self.sim.event('answer', w=s['w'], hash=s['hash'], job=j, d=str(r.get('rank') or r.get('path') or r.get('slow')), m=len(r.get('messages', ())))
                if j is not None:
                    self.answers.setdefault(j, []).append((s['hash'], k, s['w'], r))
        for j, got in sorted(self.answers.items()):
            if any(r.get('slow') for *_, r in got):
                self.sim.probe('too_slow')
                continue
            if len({h for h, *_ in got}) > 1 and any(k for _, k, *_ in got):
                self.ctx.nontrivial = True
            first = got[0]
            for other in got[1:]:
                if other[3] != first[3]:
                    keys = [k for k in sorted(set(first[3]) | set(other[3])) if first[3].get(k) != other[3].get(k)]
                    show = next((k for k in ('path', 'status', 'gpa', 'rank', 'claims', 'result', 'messages') if k in keys), keys[0])
                    self.ctx.report('C23', 'differs', f'job {j} ({self.case["jobs"][j]["args"]}): process w{first[2]} (hash seed {first[0]}, {first[1]} audits before) and process w{other[2]} (hash seed {other[0]}, {other[1]} audits before) disagree about {keys}: '
                                    f'{show} {where(first[3].get(show), other[3].get(show))}')


def where(a, b, path=''):
    """the first place two plain values differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return where(a.get(k), b.get(k), f'{path}.{k}')
    if isinstance(a, list) and isinstance(b, list):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f'{path}[{k}]')
        if len(a) != len(b):
            return f'{path} has {len(a)} / {len(b)} items'
    return f'{path}: {str(a)[:120]} / {str(b)[:120]}'


def prepare():
    from sim import seams
    seams.import_dp()
    fleet.want(fleet.HASHES)


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    for p in ctx.sim.procs:
        if p.exit and p.exit[0] == 'exc':
            raise p.exit[1]
    w.judge()
