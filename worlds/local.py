"""Audits from the command line: real `python -m dp` and `python -m dp.bin.batch` over real files.

Serves C28. Several commands run side by side under the scheduler while student and area files are being replaced; crashes,
interrupts, unreadable files and broken pipes are injected.
"""
import csv
import io
import json
import os
import re
import shlex

import yaml

from sim import corpus
from sim.core import US
from sim.harness import drop_each

S = US
BY_EVENTS = True
RULE = {'*': 'Random students, area files, edits of both, request lists, output options and faults from one seed; non-trivial: a command reported at least one audit.'}
REAL = ['dp.__main__', 'dp.bin.batch', 'dp.run (find_area, load_area, load_student, run) and the whole auditor', 'dp.stringify_v3', 'PyYAML', 'files in a scratch folder']
STUBS = ['clocks', 'process death, interrupts, file and pipe errors', 'directory listing order']
ASSUMPTIONS = ['files are replaced by renaming, as git and editors do', 'results are compared with a fresh process auditing the same document']
TRANSCRIPT = ['course', 'name', 'clbid', 'type', 'credits', 'term', 'type', 'grade', 'in_gpa']
CATS = ['2016-17', '2017-18', '2018-19', '2019-20']


def generate(rng, prop, tier):
    codes = rng.sample(corpus.CODES, rng.choice([1, 2, 3]))
    docs = {}
    for i in range(rng.choice([1, 2, 2, 3])):
        s = rng.choice(['100000', '99', '0123', '100001', '1000'])
        docs[s] = [mkdoc(rng, s, codes) for _ in range(rng.choice([1, 1, 2]))]
    areas = [[f, c, k] for f in CATS for c in codes for k in [rng.choice([0, 0, 1])] if rng.random() < 0.55]
    edits, at = [], 0
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        at += rng.choice([0, 1000, S, rng.randint(0, 3 * S)])
        if rng.random() < 0.4:
            s = rng.choice(sorted(docs))
            edits.append({'at': at, 'doc': s, 'v': rng.randrange(len(docs[s]))})
        else:
            edits.append({'at': at, 'area': [rng.choice(CATS), rng.choice(codes), rng.choice([0, 1, 2])]})
    cmds, at = [], 0
    for _ in range(rng.choice([1, 1, 2, 3] + ([5] if tier == 'thorough' else []))):
        at += rng.choice([0, 0, 1000, S])
        if rng.random() < 0.6:
            lines = []
            for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
                y = rng.choice(CATS + ['2018', '2021-22', '2017-18'])
                lines.append([rng.choice(sorted(docs)) if rng.random() < 0.97 else '777', y if rng.random() < 0.98 else '2001-02', rng.choice(codes) if rng.random() < 0.98 else '999'])
            lines += [rng.choice(lines) for _ in range(rng.choice([0, 0, 1, 2])) if lines]
            cmds.append({'at': at, 'prog': 'bulk', 'lines': lines, 'sep': rng.choice([' ', '  ', '\t']), 'end': rng.random() < 0.8, 'table': rng.random() < 0.7, 'quiet': rng.random() < 0.3, 'n': rng.choice([1, 1, 1, 2, 3]), 'do': rng.choice(['audit'] * 6 + ['invocation', 'transcript'])})
        elif areas:
            a = rng.choice(areas)
            cmds.append({'at': at, 'prog': 'dp', 'doc': rng.choice(sorted(docs)) if rng.random() < 0.97 else '777', 'area': a[:2], 'fmt': rng.choice(['json', 'json', 'jsont', 'text', 'text']), 'quiet': rng.random() < 0.15})
            if rng.random() < 0.5:
                cmds[-1]['opts'] = mkopts(rng)
    faults = []
    for i in range(len(cmds)):
        if rng.random() < 0.4:
            kind = rng.choice(['crash', 'interrupt', 'open', 'pipe', 'stall', 'stall'])
            f = {'proc': f'cmd{i}', 'kind': kind, 'phase': 'before', 'label': 'any', 'nth': rng.randint(1, 25)}
            if kind == 'open':
                f.update(kind='io_error', label=rng.choice(['open', 'open', 'listdir']), nth=rng.choice([1, 2, 3, rng.randint(1, 10)]), errno=rng.choice([5, 13, 24]))
            elif kind == 'pipe':
                f.update(kind='io_error', label='print', nth=rng.choice([1, 1, 2, 3, rng.randint(1, 12)]), errno=32)
            elif kind == 'stall':
                f.update(us=rng.choice([1000, S, 4 * S]))
            elif kind == 'crash':
                f.update(phase=rng.choice(['before', 'after']))
            faults.append(f)
    return {'docs': docs, 'areas': areas, 'edits': edits, 'cmds': cmds, 'faults': faults, 'knobs': {'stick': rng.choice([0.0, 0.3, 0.7]), 'max_steps': 60000, 'dir_order': rng.choice([0, 1, rng.randint(2, 999)])}}


def mkdoc(rng, s, codes):
    d = corpus.gen_student(rng, s, areas=codes, n=rng.randint(1, 6))
    if rng.random() < 0.06:
        d, _ = corpus.corrupt(rng, d)
    return d


def mkopts(rng):
    o = {'mode': rng.choice(['json', 'json', 'jsont', 'text', 'text', 'claimed', 'claimed', 'gpa', 'transcript', 'estimate'])}
    if rng.random() < 0.4:
        o.update(rng.choice([{'all': True}, {'all': True, 'each': 2}, {'only': rng.sample(range(1, 9), rng.choice([1, 2, 3]))}, {'each': rng.choice([2, 3, 50])}]))
    if o.get('all') or rng.random() < 0.2:
        o['stop'] = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < 0.3:
        o['every'] = rng.choice([1, 2, 5])
    for k in ('paths', 'ranks'):
        if rng.random() < 0.3:
            o[k] = False
    return o


def flags(o):
    out = {'json': ['--json'], 'jsont': ['--json-with-transcript'], 'text': []}.get(o['mode']) or ['--' + o['mode']] * (o['mode'] != 'text')
    out += ['--print-all'] * bool(o.get('all')) + ['--no-paths'] * (not o.get('paths', True)) + ['--no-ranks'] * (not o.get('ranks', True))
    for k, f in (('stop', '--stop-after'), ('each', '--audit-each'), ('every', '--progress-every')):
        out += [f, str(o[k])] if k in o else []
    return out + (['--print-only', ','.join(map(str, o['only']))] if o.get('only') else [])


def reductions(case):
    yield from drop_each(case, 'faults')
    yield from drop_each(case, 'edits')
    for i, c in enumerate(case['cmds']):
        if c['prog'] != 'nop':
            yield {**case, 'cmds': case['cmds'][:i] + [{'prog': 'nop', 'at': 0}] + case['cmds'][i + 1:]}
        if c['prog'] == 'bulk':
            for j in range(len(c['lines'])):
                yield {**case, 'cmds': case['cmds'][:i] + [{**c, 'lines': c['lines'][:j] + c['lines'][j + 1:]}] + case['cmds'][i + 1:]}
    yield from drop_each(case, 'areas')


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.root = ctx.mkscratch()
        self.students = os.path.join(self.root, 'students')
        self.areas = os.path.join(self.root, 'areas')
        for d in (self.students, self.areas):
            os.makedirs(d)
        env = self.sim.env
        env['fs_root'] = self.root
        env['out_points'] = True
        env['dir_order'] = self.case['knobs'].get('dir_order', 0)
        self.files = {}         # path relative to the root -> content
        self.states = []

    def report(self, cls, msg):
        self.ctx.report('C28', cls, msg)

    def put(self, rel, text, content):
        from sim.seams import real
        path = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with real['open'](path + '.new~', 'w', encoding='utf-8') as f:
            f.write(text)
        os.replace(path + '.new~', path)
        self.files = {**self.files, rel: content}
        self.states.append(self.files)

    def put_doc(self, s, v):
        d = self.case['docs'][s][v]
        self.put(f'students/{s}.json', json.dumps(d, ensure_ascii=bool(v)), d)

    def put_area(self, f, c, k):
        spec = corpus.variant(c, int(f[:4]))
        if k:
            spec['name'] += f' (rev {k})'
            if k == 2 and isinstance(spec['result'].get('all'), list) and len(spec['result']['all']) > 1:
                spec['result']['all'] = spec['result']['all'][:-1]
        self.put(f'areas/{f}/{c}.yaml', yaml.safe_dump(spec, sort_keys=False), spec)

    def start(self):
        for s in self.case['docs']:
            self.put_doc(s, 0)
        for f, c, k in self.case['areas']:
            self.put_area(f, c, k)
        self.states.append(self.files)
        self.sim.process('editor', self.editor).data['role'] = 'driver'
        self.sim.process('driver', self.driver).data['role'] = 'driver'

    def editor(self):
        for e in self.case['edits']:
            if e['at'] > self.sim.now:
                self.sim.sleep(e['at'] - self.sim.now)
            else:
                self.sim.point('edit')
            if 'doc' in e:
                self.put_doc(e['doc'], e['v'])
            else:
                self.put_area(*e['area'])

    def driver(self):
        import dp.__main__ as one
        import dp.bin.batch as bulk
        sim = self.sim
        recs = []
        for i, c in enumerate(self.case['cmds']):
            if c['prog'] == 'nop':
                continue
            if c['at'] > sim.now:
                sim.sleep(c['at'] - sim.now)
            else:
                sim.point('next')
            if c['prog'] == 'bulk':
                more = [] if c.get('do', 'audit') == 'audit' else ['--' + c['do']]
                argv = ['batch', *more, '--dir', self.students, '--areas-dir', self.areas] + ['--table'] * c['table'] + ['-q'] * c['quiet'] + (['-n', str(c['n'])] if c['n'] > 1 else [])
                text = '\n'.join(c['sep'].join(x) for x in c['lines'])
                p = sim.process(f'cmd{i}', bulk.main, argv=argv)
                p.data['stdin'] = io.StringIO(text + ('\n' if c['end'] and text else ''))
            else:
                argv = ['dp', '--student', os.path.join(self.students, c['doc'] + '.json'), '--area', os.path.join(self.areas, c['area'][0], c['area'][1] + '.yaml')]
                argv += flags(c.get('opts') or {'mode': c['fmt']}) + ['--quiet'] * c['quiet']
                p = sim.process(f'cmd{i}', lambda: one.main(), argv=argv)
            rec = {'c': c, 'p': p, 'from': len(self.states) - 1}
            recs.append(rec)
            sim.process(f'watch{i}', lambda rec=rec: self.watch(rec)).data['role'] = 'driver'
        for r in recs:
            sim.wait(lambda r=r: 'to' in r)
        for r in recs:
            sim.event('cmd', prog=r['c']['prog'], exit=str(r['p'].exit and r['p'].exit[0]), out=len(r['p'].out()))
            (self.judge_bulk if r['c']['prog'] == 'bulk' else self.judge_one)(r)

    def watch(self, rec):
        p = rec['p']
        self.sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done))
        rec['to'] = len(self.states)

    # -------------------------------------------------------------- the right answers
    def find(self, files, catalog, code):
        top = int(catalog.split('-')[0])
        ok = [f for f in CATS if f'areas/{f}/{code}.yaml' in files and int(f[:4]) <= top]
        return f'areas/{max(ok)}/{code}.yaml' if ok else None

    def answers(self, states, stnum, area, opts=None):
        """all (document, outcome) that auditing at that time may give; outcome None where it must fail"""
        from sim.reference import ask
        out = []
        docs = dedupe(s.get(f'students/{stnum}.json') for s in states)
        specs = []
        for i, s in enumerate(states):
            rel = area(s)
            specs += [None] if rel is None else [t[rel] for t in states[i:]]
        for d in docs:
            for spec in dedupe(specs):
                if d is None or spec is None:
                    out.append((d, None))
                    continue
                ref = ask('listing', d, spec, opts) if opts else ask('audit_text', d, spec)
                if isinstance(d, dict) and 'stnum' not in d:
                    out.append((d, None))       # only its announcement needs the number
                out.append((d, None if 'bad' in ref else ref))
        return out

    def shown(self, ref):
        if 'unshowable' in ref:
            self.report('unshowable', f'the result of area {ref["result"].get("name")!r} cannot be shown: {ref["unshowable"]}')
            return '<cannot be shown>'
        return ref['text']

    def ended(self, rec):
        p = rec['p']
        fired = [f for f in self.sim.faults if f['fired'] and f['proc'] == p.name and f['kind'] != 'stall']
        ok = p.exit is not None and p.exit[0] in ('ok', 'exit') and p.exit[1] in (0, None)
        return ok, fired

    def judge_bulk(self, rec):
        c, p = rec['c'], rec['p']
        ok, fired = self.ended(rec)
        states = self.states[rec['from']:rec['to']]
        items = sorted({tuple(x) for x in c['lines']}) * c['n']
        name = f'{p.name} (bulk, {len(items)} audits)'
        if not items:
            if ok:
                self.report('empty', f'{name} succeeded without any request')
            return
        do = c.get('do', 'audit')
        if do == 'invocation':
            self.judge_invocation(name, c, p, ok, fired, states, items)
            return
        opts = {'mode': 'transcript'} if do == 'transcript' else None
        answers = [self.answers(states, s, lambda st, y=y, k=k: self.find(st, y, k), opts) for s, y, k in items]
        must = next((i for i, a in enumerate(answers) if all(r is None for _, r in a)), None)       # the first that cannot succeed
        may = any(r is None for a in answers for _, r in a)
        out = p.out()
        done = 0
        if do == 'transcript':
            head = (['stnum,catalog,area_code,gpa,rank,max'] if c['table'] else [])
            rows = list(csv.reader(io.StringIO(out)))
            if head and rows[:1] == [head[0].split(',')]:
                rows = rows[1:]
            for a in answers:
                fit = [r for _, r in a if r is not None and rows[:len(r['rows']) + 1] == [TRANSCRIPT] + r['rows']]
                if not fit:
                    break
                rows = rows[len(fit[0]['rows']) + 1:]
                done += 1
            if ok and rows and done == len(answers):
                self.report('extra', f'{name} printed {rows[:3]} more')
        elif c['table']:
            lines = out.split('\n')
            if out and not out.endswith('\n'):
                lines = lines[:-1]      # torn by the fault that stopped it
            lines = [x for x in lines if x]
            if lines and lines[0].split(',')[:3] != ['stnum', 'catalog', 'area_code']:
                self.report('header', f'{name} printed {lines[0]!r} first')
            body = lines[1:]
            if not ok and body and len(body[-1].split(',')) != 6:
                body.pop()          # the reason it gives
            if len(body) > len(items):
                self.report('extra', f'{name} printed {len(body)} lines')
                return
            for (s, y, k), a, ln in zip(items, answers, body):
                if not any(self.line_fits(ln, s, y, k, r) for _, r in a if r is not None):
                    self.report('line', f'{name} printed {ln!r} for {s} {y} {k}; auditing gives {[(r["gpa"], r["rank"], r["max_rank"]) for _, r in a if r][:3]}')
                    return
                done += 1
        else:
            pos = 0
            for a in answers:
                ends = []
                for d, r in a:
                    if r is not None:
                        t = self.shown(r)
                        at = out.find(t, pos)
                        if at >= 0:
                            ends.append((at, at + len(t)))
                if not ends:
                    break
                pos = min(ends)[1]
                done += 1
        if done:
            self.ctx.nontrivial = True
        if ok:
            if fired:
                self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
            if done < len(items):
                self.report('missing', f'{name} reported success after {done} of them; output {out[:300]!r}')
            return
        if p.killed or fired:
            return
        if not may:
            self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')
            return
        first = next(i for i, a in enumerate(answers) if any(r is None for _, r in a))
        if must is not None and not first <= done <= must:
            self.report('prefix', f'{name} stopped at {items[must]} but had reported {done} audits instead of the {must} before it')

    def judge_invocation(self, name, c, p, ok, fired, states, items):
        """only prints the commands that would do the same audits"""
        answers = [dedupe(self.find(st, y, k) for st in states) for s, y, k in items]
        lines = p.out().split('\n')
        if c['table'] and lines[0] == 'stnum,catalog,area_code,gpa,rank,max':
            lines = lines[1:]
        lines = [x for x in lines[:-1] if x]
        done = 0
        for (s, y, k), a, ln in zip(items, answers, lines):
            words = shlex.split(ln) if ln.count("'") % 2 == 0 else []
            want = [os.path.join(self.students, f'{s}.json')]
            if want[0] not in words or not any(os.path.join(self.root, x) in words for x in a if x):
                break
            done += 1
        if done:
            self.ctx.nontrivial = True
        if ok:
            if fired:
                self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
            if done < len(items) or len(lines) > len(items):
                self.report('missing', f'{name} reported success after {done} of them; printed {lines[:5]}')
        elif not p.killed and not fired:
            must = next((i for i, a in enumerate(answers) if not any(a)), None)
            if not any(None in a for a in answers):
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')
            elif must is not None and done > must:
                self.report('prefix', f'{name} reported {done} although {items[must]} has no area')

    def judge_opts(self, rec, name, ok, fired, answers):
        c, p, o = rec['c'], rec['p'], rec['c']['opts']
        out, good = p.out(), [r for _, r in answers if r is not None]
        none = [r for r in good if r.get('none')]
        if not ok:
            if not p.killed and not fired and good == [r for _, r in answers] and not none:
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')
            elif not p.killed and not fired and out.strip() and len(good) == len(answers):
                self.report('result', f'{name} printed {out[:200]!r} although no audit was completed')
            return
        if fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        if c['quiet'] and o['mode'] not in ('gpa', 'transcript'):
            if out.strip():
                self.report('quiet', f'{name} printed {out[:200]!r} although told to be quiet')
            if not good or len(none) == len(answers):
                self.report('bad', f'{name} reported success for an audit that cannot be made')
            return
        if not any(self.opts_fit(o, out, p.err(), r) for r in good if not r.get('none')):
            self.report('result', f'{name} printed {out[:300]!r}, which is not what auditing gives')
            return
        self.ctx.nontrivial = True

    @staticmethod
    def opts_fit(o, out, err, r):
        mode = o['mode']
        if mode in ('gpa', 'transcript'):
            return list(csv.reader(io.StringIO(out))) == [TRANSCRIPT if mode == 'transcript' else ['course', 'term', 'grade', 'points']] + r['rows']
        if mode == 'estimate':
            n = re.search(r'([\d,]+) estimated', err)
            return not out.strip() and n is not None and int(n[1].replace(',', '')) == r['estimate']
        items = r['items']
        if mode == 'text':
            want, pos = [], []
            for it in items:
                want += [x for x in it['text'].split('\n') if x.strip()] + ['Claimed courses:'] + [x for x in it['claims']]
            got = []
            for x in out.split('\n'):
                m = re.match(r'([\d,]+) checked(?: \(of ([\d,]+) generated\))? in .* \(audit #(\d+)\); avg ', x)
                if m:
                    pos.append([int(g.replace(',', '')) for g in (m[1], m[2] or m[1], m[3])])
                elif x.strip():
                    got.append(x)
            return pos == [[it['seen'], it['made'], it['best']] for it in items] and [x.rstrip() for x in got] == [x.rstrip() for w in want for x in w.split('\n') if x.strip()]
        lines = out.split('\n')[:-1]
        if len(lines) != len(items) or not out.endswith('\n'):
            return False
        if mode == 'claimed':
            return lines == [it['claimed'] for it in items]
        try:
            got = [json.loads(x) for x in lines]
        except ValueError:
            return False
        return got == [it['result'] if mode == 'json' else {'transcript': it['courses'], 'output': it['result']} for it in items]

    @staticmethod
    def line_fits(ln, s, y, k, r):
        f = ln.split(',')
        if len(f) != 6 or f[:3] != [s, y, k]:
            return False
        try:
            return abs(float(f[3]) - float(r['gpa'])) < 0.00501 and abs(float(f[4]) - float(r['rank'])) < 0.00501 and abs(float(f[5]) - float(r['max_rank'])) < 0.501
        except ValueError:
            return False

    def judge_one(self, rec):
        c, p = rec['c'], rec['p']
        ok, fired = self.ended(rec)
        states = self.states[rec['from']:rec['to']]
        rel = f'areas/{c["area"][0]}/{c["area"][1]}.yaml'
        if c.get('opts'):
            answers = self.answers(states, c['doc'], lambda st: rel, c['opts'])
            self.judge_opts(rec, f'{p.name} (dp {" ".join(flags(c["opts"]))} of {c["doc"]} against {rel})', ok, fired, answers)
            return
        answers = self.answers(states, c['doc'], lambda st: rel)
        name = f'{p.name} (dp {c["fmt"]} of {c["doc"]} against {rel})'
        if not ok:
            if not p.killed and not fired and all(r is not None for _, r in answers):
                self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')
            return
        if fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        out = p.out()
        if c['quiet']:
            if out.strip():
                self.report('quiet', f'{name} printed {out[:200]!r} although told to be quiet')
            if all(r is None for _, r in answers):
                self.report('bad', f'{name} reported success for an audit that cannot be made')
            return
        for d, r in answers:
            if r is None:
                continue
            if c['fmt'] in ('json', 'jsont'):
                try:
                    got = json.loads(out)
                except ValueError:
                    continue
                if c['fmt'] == 'jsont':
                    if not isinstance(got, dict) or sorted(x['clbid'] for x in got.get('transcript', ())) != r['courses']:
                        continue
                    got = got.get('output')
                if got == r['result']:
                    break
            elif self.shown(r) in out:
                break
        else:
            self.report('result', f'{name} printed {out[:300]!r}, which is not what auditing gives')
            return
        self.ctx.nontrivial = True

    def finish(self):
        for p in self.sim.procs:
            if p.data.get('role') == 'driver' and p.exit and p.exit[0] == 'exc':
                raise p.exit[1]
        d = [p for p in self.sim.procs if p.name == 'driver'][0]
        if self.sim.failure is None and (self.sim.capped or d.exit is None):
            self.report('stuck', f'a command did not end ({self.sim.steps} steps)')


def dedupe(items):
    seen, out = set(), []
    for x in items:
        k = json.dumps(x, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def prepare():
    from sim import seams
    seams.import_dp()
    import dp.__main__      # noqa: F401
    import dp.bin.batch     # noqa: F401


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
