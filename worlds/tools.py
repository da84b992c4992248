"""Tools over files: real `python -m dp.bin.validate` and `python -m dp.bin.print` while their files are being replaced.

Serves C30.
"""
import json
import os

import yaml

from sim import corpus
from sim.core import US
from sim.harness import drop_each

S = US
BY_EVENTS = True
RULE = {'*': 'Random area files (sound and broken in known ways), saved audits and students, replacements of them, tool runs and faults from one seed; non-trivial: a validation met a broken file after or before a sound one, or a report was shown.'}
REAL = ['dp.bin.validate', 'dp.bin.print', 'dp.area (loading)', 'dp.stringify_v3', 'PyYAML', 'files in a scratch folder']
STUBS = ['clocks', 'process death, interrupts, file and pipe errors']
ASSUMPTIONS = ['files are replaced by renaming, as git and editors do', 'whether an area file is sound is known from how it was made']
CATS = ['2017-18', '2018-19']


def _no(spec, key):
    return {k: v for k, v in spec.items() if k != key}


# ways to break an area file; each is refused when the area is loaded
BREAK = {
    'empty': lambda s: '',
    'syntax': lambda s: yaml.safe_dump(s) + 'x: [1\n',
    'list': lambda s: '- 1\n',
    'tab': lambda s: 'name:\tx\n\ty: 1\n',
    'nothing to check': lambda s: yaml.safe_dump(_no(s, 'result')),
    'unknown rule': lambda s: yaml.safe_dump({**s, 'result': {'bogus': 1}}),
    'text for rules': lambda s: yaml.safe_dump({**s, 'result': {'all': 'x'}}),
    'unknown key': lambda s: yaml.safe_dump({**s, 'zork': 1}),
    'unknown requirement': lambda s: yaml.safe_dump({**s, 'result': {'all': [{'requirement': 'Nope'}]}}),
    'unknown course key': lambda s: yaml.safe_dump({**s, 'result': {'all': [{'course': 'CSCI 121', 'zork': 2}]}}),
    'limit without clause': lambda s: yaml.safe_dump({**s, 'limit': [{'at_most': 1}]}),
    'limit without number': lambda s: yaml.safe_dump({**s, 'limit': [{'where': {'subject': {'$eq': 'CSCI'}}}]}),
    'limit of what': lambda s: yaml.safe_dump({**s, 'limit': [{'at_most': '2 bananas', 'where': {'subject': {'$eq': 'CSCI'}}}]}),
    'limit key': lambda s: yaml.safe_dump({**s, 'limit': [{'at_most': 2, 'where': {'sbject': {'$eq': 'CSCI'}}}]}),
    'broken emphasis': lambda s: yaml.safe_dump({**s, 'emphases': {'9999': {'name': 'E', 'type': 'emphasis', 'code': '9999', 'result': {'all': [{'bogus': 1}]}}}}),
    'operator': lambda s: yaml.safe_dump({**s, 'result': {'from': 'courses', 'where': {'subject': {'$is': 'CSCI'}}, 'assert': {'count(courses)': {'$gte': 1}}}}),
    'no assertion': lambda s: yaml.safe_dump({**s, 'result': {'from': 'courses'}}),
    'countable': lambda s: yaml.safe_dump({**s, 'result': {'from': 'courses', 'assert': {'count(apples)': {'$gte': 1}}}}),
    'condition': lambda s: yaml.safe_dump({**s, 'result': {'$if': {'has-corse': 'X 1'}, '$then': {'course': 'CSCI 121'}}}),
    'too many': lambda s: yaml.safe_dump({**s, 'result': {'count': 5, 'of': [{'course': 'CSCI 121'}]}}),
    'no number': lambda s: yaml.safe_dump({**s, 'result': {'count': 'many', 'of': [{'course': 'CSCI 121'}]}}),
    'unknown source': lambda s: yaml.safe_dump({**s, 'result': {'from': 'mars'}}),
    'misspelt': lambda s: yaml.safe_dump(s, sort_keys=False).replace('result:', 'resutl:', 1),
    'misspelt type': lambda s: yaml.safe_dump({**s, 'result': {'all': [{'corse': 'CSCI 121'}]}}, sort_keys=False),
    'tag': lambda s: 'name: !!python/object:x.y {}\n',
    'bytes': lambda s: yaml.safe_dump(s) + '# \udcff\n',
}


def generate(rng, prop, tier):
    codes = rng.sample(corpus.CODES, rng.choice([1, 2, 3]))
    areas = {}
    for f in CATS:
        for c in codes:
            if rng.random() < 0.8:
                areas[f'{f}/{c}' + rng.choice(['', '', '', ' draft', '-new é'])] = [rng.choice(['', '', '', rng.choice(sorted(BREAK)), 'misspelt']) for _ in range(rng.choice([1, 1, 2]))]
    saved = {}
    for i in range(rng.choice([0, 1, 2])):
        s = str(100000 + i)
        if rng.random() < 0.3:       # an area that shows failed courses too
            docs = [corpus.gen_student(rng, s, areas=['950'], n=rng.randint(2, 6), salt=str(v)) for v in range(rng.choice([1, 1, 2]))]
            for d in docs:
                for c in d['courses']:
                    if rng.random() < 0.4:
                        c.update(grade_code='F', grade_points='0.00', flag_in_progress=False)
            subs = sorted({c['subject'] for d in docs for c in d['courses']})
            q = [{'name': f'Part {j}', 'result': {'from': 'courses', **({'where': {'subject': {'$in': rng.sample(subs, rng.randint(1, len(subs)))}}} if subs and rng.random() < 0.5 else {}), 'include_failed': rng.random() < 0.8, 'claim': rng.random() < 0.7,
                  'allow_claimed': True, 'assert': {rng.choice(['count(courses)', 'count(terms)', 'average(grades)']): {'$gte': rng.choice([1, 2, 3])}}}} for j in range(rng.choice([1, 2]))]
            saved[s] = {'code': '950', 'docs': docs, 'spec': {'name': 'Shown', 'type': 'concentration', 'code': '950', 'result': {'all': q}}}
            continue
        saved[s] = {'code': rng.choice(codes), 'docs': [corpus.gen_student(rng, s, areas=codes, n=rng.randint(1, 5), salt=str(v)) for v in range(rng.choice([1, 1, 2]))]}
    edits, at = [], 0
    for _ in range(rng.choice([0, 0, 2, 4, 8])):
        at += rng.choice([0, 100, 200, 1000, rng.randint(0, S)])
        if saved and rng.random() < 0.4:
            s = rng.choice(sorted(saved))
            edits.append({'at': at, 'saved': s, 'v': rng.randrange(len(saved[s]['docs'])), 'what': rng.choice(['both', 'student', 'result'])})
        elif areas:
            a = rng.choice(sorted(areas))
            edits.append({'at': at, 'area': a, 'v': rng.randrange(len(areas[a])), 'rm': rng.random() < 0.1})
    cmds, at = [], 0
    for _ in range(rng.choice([1, 1, 2, 3] + ([5] if tier == 'thorough' else []))):
        at += rng.choice([0, 0, 200, S])
        if saved and rng.random() < 0.4:
            s = rng.choice(sorted(saved))
            cmds.append({'at': at, 'prog': 'print', 'result': s, 'student': s if rng.random() < 0.95 else '777'})
        else:
            names = sorted(areas)
            rng.shuffle(names)
            k = len(names) if rng.random() < 0.5 else 1
            cmds.append({'at': at, 'prog': 'validate', 'files': names[:rng.randint(min(k, max(len(names), 1)), max(len(names), 1))] + (['2001-02/999'] if rng.random() < 0.1 else []), 'break': rng.random() < 0.3, 'list': rng.random() < 0.4})
    cmds = [c for c in cmds if c.get('files', 1)] or [{'at': 0, 'prog': 'validate', 'files': ['2001-02/999'], 'break': False, 'list': False}]
    faults = []
    for i in range(len(cmds)):
        if rng.random() < 0.4:
            kind = rng.choice(['crash', 'interrupt', 'open', 'open', 'pipe', 'stall', 'stall'])
            f = {'proc': f'cmd{i}', 'kind': kind, 'phase': 'before', 'label': 'any', 'nth': rng.randint(1, 14)}
            if kind == 'open':
                f.update(kind='io_error', label='open', nth=rng.choice([1, 1, 2, 3]), errno=rng.choice([5, 13, 24]))
            elif kind == 'pipe':
                f.update(kind='io_error', label='print', nth=rng.choice([1, 1, 2]), errno=32)
            elif kind == 'stall':
                f.update(us=rng.choice([200, 1000, S]))
            elif kind == 'crash':
                f.update(phase=rng.choice(['before', 'after']))
            faults.append(f)
    return {'areas': areas, 'copies': rng.random() < 0.4, 'saved': saved, 'edits': edits, 'cmds': cmds, 'faults': faults, 'knobs': {'stick': rng.choice([0.0, 0.3, 0.7]), 'max_steps': 40000, 'latency': rng.choice([[0, 0], [0, 200], [10, 2000], [10, 2000]])}}


def reductions(case):
    yield from drop_each(case, 'faults')
    yield from drop_each(case, 'edits')
    for i, c in enumerate(case['cmds']):
        if c['prog'] != 'nop':
            yield {**case, 'cmds': case['cmds'][:i] + [{'prog': 'nop', 'at': 0}] + case['cmds'][i + 1:]}
        if c['prog'] == 'validate' and len(c['files']) > 1:
            for j in range(len(c['files'])):
                yield {**case, 'cmds': case['cmds'][:i] + [{**c, 'files': c['files'][:j] + c['files'][j + 1:]}] + case['cmds'][i + 1:]}


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.root = ctx.mkscratch()
        self.sim.env['fs_root'] = self.root
        self.sim.env['out_points'] = True
        self.files = {}         # path relative to the root -> what it is
        self.states = []

    def report(self, cls, msg):
        self.ctx.report('C30', cls, msg)

    def put(self, rel, text, content):
        from sim.seams import real
        path = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with real['open'](path + '.new~', 'wb') as f:
            f.write(text.encode('utf-8', 'surrogateescape'))
        os.replace(path + '.new~', path)
        self.files = {**self.files, rel: content}
        self.states.append(self.files)

    def put_area(self, name, v):
        how = self.case['areas'][name][v]
        spec = corpus.variant(name.split('/')[1][:3], 2018 if self.case.get('copies') else int(name[:4]))
        self.put(f'areas/{name}.yaml', BREAK[how](spec) if how else yaml.safe_dump(spec, sort_keys=False, allow_unicode=bool(v)), how or 'sound')

    def put_saved(self, s, v, what='both'):
        from sim.reference import ask
        d = self.case['saved'][s]['docs'][v]
        if what != 'result':
            self.put(f'students/{s}.json', json.dumps(d, ensure_ascii=bool(v)), d)
        if what != 'student':
            ref = ask('audit_text', d, self.spec(s))
            if 'bad' not in ref:
                self.put(f'results/{s}.json', json.dumps(ref['result']), ref['result'])

    def spec(self, s):
        x = self.case['saved'][s]
        return x.get('spec') or corpus.variant(x['code'], 2018)

    def start(self):
        for a in self.case['areas']:
            self.put_area(a, 0)
        for s in self.case['saved']:
            self.put_saved(s, 0)
        self.states.append(self.files)
        self.sim.process('editor', self.editor).data['role'] = 'driver'
        self.sim.process('driver', self.driver).data['role'] = 'driver'

    def editor(self):
        for e in self.case['edits']:
            if e['at'] > self.sim.now:
                self.sim.sleep(e['at'] - self.sim.now)
            else:
                self.sim.point('edit')
            if 'saved' in e:
                self.put_saved(e['saved'], e['v'], e['what'])
            elif e['rm']:
                rel = f'areas/{e["area"]}.yaml'
                if rel in self.files:
                    os.unlink(os.path.join(self.root, rel))
                    self.files = {k: v for k, v in self.files.items() if k != rel}
                    self.states.append(self.files)
            else:
                self.put_area(e['area'], e['v'])

    def driver(self):
        import dp.bin.print as show
        import dp.bin.validate as validate
        sim = self.sim
        recs = []
        path = lambda *a: os.path.join(self.root, *a)      # noqa: E731
        for i, c in enumerate(self.case['cmds']):
            if c['prog'] == 'nop':
                continue
            if c['at'] > sim.now:
                sim.sleep(c['at'] - sim.now)
            else:
                sim.point('next')
            if c['prog'] == 'validate':
                p = sim.process(f'cmd{i}', lambda: validate.main(), argv=['validate', *[path('areas', f + '.yaml') for f in c['files']]] + ['--break'] * c['break'] + ['--list'] * c['list'])
            else:
                p = sim.process(f'cmd{i}', lambda: show.main(), argv=['print', path('results', c['result'] + '.json'), path('students', c['student'] + '.json')])
            rec = {'c': c, 'p': p, 'from': len(self.states) - 1}
            recs.append(rec)
            sim.process(f'watch{i}', lambda rec=rec: self.watch(rec)).data['role'] = 'driver'
        for r in recs:
            sim.wait(lambda r=r: 'to' in r)
        for r in recs:
            sim.event('cmd', prog=r['c']['prog'], exit=str(r['p'].exit and r['p'].exit[0]), out=len(r['p'].out()))
            (self.judge_validate if r['c']['prog'] == 'validate' else self.judge_print)(r)

    def watch(self, rec):
        p = rec['p']
        self.sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done))
        rec['to'] = len(self.states)

    def ended(self, rec):
        p = rec['p']
        fired = [f for f in self.sim.faults if f['fired'] and f['proc'] == p.name and f['kind'] != 'stall']
        ok = p.exit is not None and p.exit[0] in ('ok', 'exit') and p.exit[1] in (0, None)
        return ok, fired

    def judge_validate(self, rec):
        c, p = rec['c'], rec['p']
        ok, fired = self.ended(rec)
        states = self.states[rec['from']:rec['to']]
        text = p.err()
        name = f'{p.name} (validate {c["files"]}{" --break" if c["break"] else ""})'
        full = [os.path.join(self.root, 'areas', f + '.yaml') for f in c['files']]
        whole = ok or (p.exit is not None and p.exit[0] == 'exit')
        opens = [f for f in fired if f['kind'] == 'io_error' and f['label'] in ('open', 'any')]
        # where the tool comes to each file
        starts, pos = [], 0
        for f in full:
            at = text.find(f, pos)
            if at < 0:
                break
            starts.append(at)
            pos = at + len(f)
        seen = len(starts)
        said = []
        for j in range(seen):
            seg = text[starts[j] + len(full[j]):starts[j + 1] if j + 1 < seen else len(text)]
            said.append(bool(seg.strip()))
        wrong_ok = set()
        for j in range(seen):
            v = {st.get(f'areas/{c["files"][j]}.yaml', 'absent') for st in states}
            sound, broken = 'sound' in v, bool(v - {'sound'})
            last = j == seen - 1 and not whole
            if said[j] and not broken and not last:
                if opens and len(wrong_ok) < len(opens):
                    wrong_ok.add(j)
                else:
                    self.report('accused', f'{name} complained about {c["files"][j]}, which is sound: {text[-300:]!r}')
            if not said[j] and not sound and not last:
                self.report('passed', f'{name} said nothing about {c["files"][j]} ({sorted(v)})')
        stop = next((j for j in range(seen) if said[j]), None)
        if ok and [f for f in fired if f['label'] == 'print' and f['kind'] == 'io_error']:
            self.report('swallowed', f'{name} reported success although writing failed')
        if ok or whole:
            need = stop + 1 if c['break'] and stop is not None else len(full)
            if seen != need:
                self.report('coverage', f'{name} came to {seen} files instead of {need}')
            if any(said) and not all(said):
                self.ctx.nontrivial = True
            if len(states) > 1:
                self.sim.probe('validated_during_change')
        elif not p.killed and not fired:
            self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {text[-300:]}')

    def judge_print(self, rec):
        from sim.reference import ask
        c, p = rec['c'], rec['p']
        ok, fired = self.ended(rec)
        states = self.states[rec['from']:rec['to']]
        name = f'{p.name} (print of {c["result"]} for {c["student"]})'
        pairs = []
        for i, a in enumerate(states):          # the result is read before the student or after it
            for b in states:
                pairs.append((a.get(f'results/{c["result"]}.json'), b.get(f'students/{c["student"]}.json')))
        pairs = dedupe(pairs)
        spec = self.spec(c['result'])
        want, may_fail = [], False
        for r, d in pairs:
            if r is None or d is None:
                may_fail = True
                continue
            ref = ask('audit_text', d, spec)
            if ref.get('result') == r and 'text' in ref and not spec.get('credit') and not any(e['type'].startswith('course-') for e in d.get('exceptions', ())):
                want.append(ref['text'])        # exactly what the audit showed
                continue
            x = ask('show', r, d)
            may_fail = may_fail or x is None
            want += [x] if x is not None else []
        if not ok:
            if not p.killed and not fired and not may_fail:
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')
            return
        if fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        out = p.out()
        if out not in [w + '\n' for w in want]:
            self.report('report', f'{name} printed {out[:300]!r}, expected {want[0][:300] if want else None!r}')
            return
        self.ctx.nontrivial = True

    def finish(self):
        for p in self.sim.procs:
            if p.data.get('role') == 'driver' and p.exit and p.exit[0] == 'exc':
                raise p.exit[1]
        d = [p for p in self.sim.procs if p.name == 'driver'][0]
        if self.sim.failure is None and (self.sim.capped or d.exit is None):
            self.report('stuck', f'a command did not end ({self.sim.steps} steps)')


def dedupe(items):
    seen, out = set(), []
    for x in items:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def prepare():
    from sim import seams
    seams.import_dp()
    import dp.bin.print     # noqa: F401
    import dp.bin.validate  # noqa: F401


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
