"""Expanding student files into the audits that are due: real `dp.bin.expand` while its files are being replaced.

Serves C32.
"""
import io
import json
import os

from sim import corpus
from sim.core import US
from sim.harness import drop_each

S = US
BY_EVENTS = True
RULE = {'*': 'Random student records (sound and unusable), replacements of them, command lines, patterns and faults from one seed; non-trivial: a run listed the audits of at least one student.'}
REAL = ['dp.bin.expand', 'files in a scratch folder']
STUBS = ['clocks', 'process death, interrupts, file and pipe errors']
ASSUMPTIONS = ['files are replaced by renaming, as git and editors do', 'a pattern stands for the files that match it; one that matches nothing stands for none']


def record(rng, s):
    areas = []
    for c in rng.sample(corpus.CODES + ['B.A.', '9081'], rng.choice([0, 1, 2, 3, 5])):
        a = {'code': c, 'kind': rng.choice(['major', 'concentration', 'degree', 'emphasis']), 'name': 'n' + c, 'degree': 'B.A.', 'status': 'declared'}
        if rng.random() < 0.4:
            a['catalog'] = str(rng.choice([2016, 2019, 1999, 2009]))
        areas.append(a)
        if rng.random() < 0.15:
            areas.append({**a, 'degree': 'B.M.'})
    r = {'stnum': s, 'name': 'é' + s, 'catalog': rng.choice(['2018', '2019', '1999', '2018', 'None', '']), 'areas': areas, 'courses': []}
    bad = rng.random()
    if bad < 0.03:
        del r['areas']
    elif bad < 0.06 and areas:
        areas[-1]['catalog'] = rng.choice(['soon', None])
    elif bad < 0.09 and areas:
        areas[-1].pop('kind')
    elif bad < 0.12:
        return rng.choice(['', '{"stnum"', '[]', '\udcff'])
    return r


def generate(rng, prop, tier):
    studs = {}
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        s = str(100000 + i)
        studs[rng.choice([s, s, s, s + ' x', 'é' + s])] = [record(rng, s) for _ in range(rng.choice([1, 1, 2]))]
    names = sorted(studs)
    edits, at = [], 0
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        at += rng.choice([0, 100, 200, 1000, rng.randint(0, S)])
        n = rng.choice(names)
        edits.append({'at': at, 'name': n, 'v': rng.randrange(len(studs[n])), 'rm': rng.random() < 0.1})
    cmds, at = [], 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        at += rng.choice([0, 0, 200, S])
        code = rng.choice([None, None, None, rng.choice(corpus.CODES), '777'])
        if rng.random() < 0.35:
            pat = rng.choice([rng.choice(names) + '.json', rng.choice(names) + '.json', '*.json', '10000[0-2].json', 'nobody.json'])
            cmds.append({'at': at, 'args': pat, 'code': code})
        else:
            lines = [rng.choice(names) + '.json' for _ in range(rng.choice([0, 1, 2, 4]))] + (['*.json'] if rng.random() < 0.2 else [])
            rng.shuffle(lines)
            cmds.append({'at': at, 'lines': lines, 'code': code, 'end': rng.random() < 0.8, 'gap': rng.choice(['\n', '\n', '\n\n', ' \n'])})
    faults = []
    for i in range(len(cmds)):
        if rng.random() < 0.4:
            kind = rng.choice(['crash', 'interrupt', 'open', 'open', 'pipe', 'pipe', 'stall', 'stall'])
            f = {'proc': f'cmd{i}', 'kind': kind, 'phase': 'before', 'label': 'any', 'nth': rng.randint(1, 12)}
            if kind == 'open':
                f.update(kind='io_error', label='open', nth=rng.choice([1, 1, 2, 3]), errno=rng.choice([5, 13, 24]))
            elif kind == 'pipe':
                f.update(kind='io_error', label='print', nth=rng.choice([1, 1, 2, 4]), errno=rng.choice([32, 28]))
            elif kind == 'stall':
                f.update(us=rng.choice([200, 1000, S]))
            elif kind == 'crash':
                f.update(phase=rng.choice(['before', 'after']))
            faults.append(f)
    return {'studs': studs, 'edits': edits, 'cmds': cmds, 'faults': faults, 'knobs': {'stick': rng.choice([0.0, 0.3, 0.7]), 'max_steps': 40000, 'dir_order': rng.choice([0, 1, rng.randint(2, 999)]), 'latency': rng.choice([[0, 0], [0, 200], [10, 2000]])}}


def reductions(case):
    yield from drop_each(case, 'faults')
    yield from drop_each(case, 'edits')
    for i, c in enumerate(case['cmds']):
        if 'nop' not in c:
            yield {**case, 'cmds': case['cmds'][:i] + [{'nop': 1, 'at': 0}] + case['cmds'][i + 1:]}
        for j in range(len(c.get('lines', ()))):
            yield {**case, 'cmds': case['cmds'][:i] + [{**c, 'lines': c['lines'][:j] + c['lines'][j + 1:]}] + case['cmds'][i + 1:]}


def due(rec, code):
    """the (catalog choices, code) pairs of one record; None: unusable"""
    if not isinstance(rec, dict) or 'areas' not in rec:
        return None
    if any('kind' not in a for a in rec['areas']):
        return None
    if not rec['catalog'].isdigit():
        return {}
    codes = [code] if code is not None else [a['code'] for a in rec['areas'] if a['kind'] != 'emphasis']
    out = {}
    for c in codes:
        cats = {a.get('catalog', rec['catalog']) for a in rec['areas'] if a['code'] == c} or {rec['catalog']}
        if any(x is None or not x.isdigit() for x in cats):
            return None
        out[c] = {f'{x}-{str(int(x) + 1)[2:]}' for x in cats}
    return out


def lenient(rec):
    """what may have been printed of an unusable record before it was found out"""
    if not isinstance(rec, dict) or 'areas' not in rec or any('kind' not in a for a in rec['areas']) or not rec['catalog'].isdigit():
        return {}
    out = {}
    for a in rec['areas']:
        cat = a.get('catalog', rec['catalog'])
        if cat is not None and cat.isdigit():
            out.setdefault(a['code'], set()).add(f'{cat}-{str(int(cat) + 1)[2:]}')
    return out


def dedupe(items):
    out = []
    for x in items:
        if x not in out:
            out.append(x)
    return out


def matches(pattern, name):
    import fnmatch
    return fnmatch.fnmatchcase(name, pattern)


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.root = ctx.mkscratch()
        self.dir = os.path.join(self.root, 'students')
        self.areas = os.path.join(self.root, 'areas')
        os.makedirs(self.dir)
        os.makedirs(self.areas)
        env = self.sim.env
        env['fs_root'] = self.root
        env['out_points'] = True
        env['dir_order'] = self.case['knobs'].get('dir_order', 0)
        self.files = {}         # file name -> record (or text that is none)
        self.states = []

    def report(self, cls, msg):
        self.ctx.report('C32', cls, msg)

    def put(self, n, v):
        from sim.seams import real
        rec = self.case['studs'][n][v]
        path = os.path.join(self.dir, n + '.json')
        with real['open'](path + '.new~', 'wb') as f:
            f.write((json.dumps(rec, ensure_ascii=False) if isinstance(rec, dict) else rec).encode('utf-8', 'surrogateescape'))
        os.replace(path + '.new~', path)
        self.files = {**self.files, n + '.json': rec}
        self.states.append(self.files)

    def start(self):
        from sim import seams
        seams.set_environ(AREA_ROOT=self.areas)
        for n in self.case['studs']:
            self.put(n, 0)
        self.states.append(self.files)
        self.sim.process('editor', self.editor).data['role'] = 'driver'
        self.sim.process('driver', self.driver).data['role'] = 'driver'

    def editor(self):
        for e in self.case['edits']:
            if e['at'] > self.sim.now:
                self.sim.sleep(e['at'] - self.sim.now)
            else:
                self.sim.point('edit')
            if not e['rm']:
                self.put(e['name'], e['v'])
            elif e['name'] + '.json' in self.files:
                os.unlink(os.path.join(self.dir, e['name'] + '.json'))
                self.files = {k: v for k, v in self.files.items() if k != e['name'] + '.json'}
                self.states.append(self.files)

    def driver(self):
        import dp.bin.expand as m
        sim = self.sim
        recs = []
        for i, c in enumerate(self.case['cmds']):
            if 'nop' in c:
                continue
            if c['at'] > sim.now:
                sim.sleep(c['at'] - sim.now)
            else:
                sim.point('next')
            code = [c['code']] if c['code'] is not None else []
            if 'args' in c:
                p = sim.process(f'cmd{i}', m.cli, argv=['expand', os.path.join(self.dir, c['args'])] + code)
            else:
                p = sim.process(f'cmd{i}', m.cli, argv=['expand', '-'] + code)
                p.data['stdin'] = io.StringIO(c['gap'].join(os.path.join(self.dir, x) for x in c['lines']) + ('\n' if c['end'] and c['lines'] else ''))
            rec = {'c': c, 'p': p, 'from': len(self.states) - 1}
            recs.append(rec)
            sim.process(f'watch{i}', lambda rec=rec: self.watch(rec)).data['role'] = 'driver'
        for r in recs:
            sim.wait(lambda r=r: 'to' in r)
        for r in recs:
            sim.event('cmd', exit=str(r['p'].exit and r['p'].exit[0]), out=len(r['p'].out()))
            self.judge(r)

    def watch(self, rec):
        p = rec['p']
        self.sim.wait(lambda: p.exit is not None or (p.killed and p.main_task.done))
        rec['to'] = len(self.states)

    def judge(self, rec):
        c, p = rec['c'], rec['p']
        states = self.states[rec['from']:rec['to']]
        fired = [f for f in self.sim.faults if f['fired'] and f['proc'] == p.name and f['kind'] != 'stall']
        ok = p.exit is not None and p.exit[0] in ('ok', 'exit') and p.exit[1] in (0, None)
        pats = [c['args']] if 'args' in c else c['lines']
        name = f'{p.name} (expand {pats} {c["code"] or ""})'
        text = p.out()
        lines = text.split('\n')
        tail = lines.pop()
        if ok and tail:
            self.report('torn', f'{name} ended with an unfinished line {tail!r}')
        groups = []         # (student file, area file) of each line
        for ln in lines:
            for n in sorted({k for st in states for k in st}, key=len, reverse=True):
                path = os.path.join(self.dir, n)
                if ln.startswith(path + ' '):
                    groups.append((n, os.path.relpath(ln[len(path) + 1:], self.areas) if ln[len(path) + 1:].startswith(self.areas + '/') else ln))
                    break
            else:
                self.report('line', f'{name} printed {ln!r}, which names no student file')
                return
        named = [{n for st in states for n in st if matches(pat, n)} for pat in pats]
        versions = {n: dedupe([st.get(n, 'gone') for st in states]) for s in named for n in s}
        wanted = {n: [due(r, c['code']) if r != 'gone' else 'gone' for r in v] for n, v in versions.items()}
        if not self.parse(groups, named, wanted, versions, ok):
            self.report('lines', f'{name} printed {groups} ({"complete" if ok else "and ended early"}), expected {wanted}')
            return
        if ok and fired:
            self.report('swallowed', f'{name} reported success although {fired[0]["kind"]} at {fired[0]["label"]} happened to it')
        if ok:
            must_fail = [n for n, w in wanted.items() if all(x is None for x in w)]
            if must_fail:
                self.report('passed', f'{name} reported success although {must_fail} cannot be expanded')
            if groups:
                self.ctx.nontrivial = True
            if len(states) > 1:
                self.sim.probe('expanded_during_change')
        elif not fired and not p.killed and not any(x is None or x == 'gone' for w in wanted.values() for x in w):
            self.report('failed', f'{name} failed although nothing went wrong with it: {p.exit} {p.err()[-300:]}')

    def parse(self, groups, named, wanted, versions, ok):
        """are these lines what was asked for (its beginning, if not ok), each file's lines together and of one version?"""
        def one_each(lines, d, whole):
            used = set()
            for n, area in lines:
                hit = [code for code, cats in d.items() if any(area == os.path.join(cat, code + '.yaml') for cat in cats)]
                if not hit or hit[0] in used:
                    return False
                used.add(hit[0])
            return not whole or len(used) == len(d)

        def search(i, left, pos):
            if pos == len(groups) and (i == len(named) or not ok):
                return True
            if i == len(named):
                return False
            if all('gone' in wanted[n] or {} in wanted[n] for n in left) and search(i + 1, named[i + 1] if i + 1 < len(named) else None, pos):
                return True
            if pos == len(groups) or groups[pos][0] not in left:
                return False
            n = groups[pos][0]
            rest = groups[pos:]
            same = all(g[0] == n for g in rest)
            for r, d in zip(versions[n], wanted[n]):
                if d == 'gone':
                    continue
                if d is None:
                    if not ok and same and one_each(rest, lenient(r), False):
                        return True
                    continue
                k = len(d)
                if k and len(rest) >= k and all(g[0] == n for g in rest[:k]) and one_each(rest[:k], d, True) and search(i, left - {n}, pos + k):
                    return True
                if not ok and same and one_each(rest, d, False):
                    return True
            return False
        return search(0, named[0] if named else set(), 0)

    def finish(self):
        for p in self.sim.procs:
            if p.data.get('role') == 'driver' and p.exit and p.exit[0] == 'exc':
                raise p.exit[1]
        d = [p for p in self.sim.procs if p.name == 'driver'][0]
        if self.sim.failure is None and (self.sim.capped or d.exit is None):
            self.report('stuck', f'a command did not end ({self.sim.steps} steps)')


def prepare():
    from sim import seams
    seams.import_dp()
    import dp.bin.expand    # noqa: F401


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
