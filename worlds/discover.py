"""Reference discovery: real dp.bin.discover over generated area files and a simulated PostgreSQL.

Serves C21. The generator builds each area file from a small tree whose references it knows, so what the tables must
hold is known by construction.
"""
import os

import yaml

from sim.core import US
from sim.harness import drop_each
from sim.schema import make_db

S = US
RULE = {'*': 'Random area files, prior table contents, one to three discovery runs and faults from one seed; non-trivial: at least one reference was stored or removed by a commit.'}
REAL = ['dp.bin.discover', 'dp.area loading (all rules, clauses and limits)', 'PyYAML']
STUBS = ['PostgreSQL (sim.pgengine)', 'psycopg2 (sim.pgclient)', 'process death, file errors']
ASSUMPTIONS = ['both reference tables refuse exact duplicates (NULLs counted as equal)', 'numeric course ids are stored as text']
BY_EVENTS = True

COURSES = ['CSCI 121', 'CSCI 125', 'MATH 220', 'ART 102', 'MUSIC 111', 'ASIAN 220', 'REL 121']
CRSIDS = ['0000001', '0012345', '0000002']
ATTRS = ['csci_elective', 'math_upper', 'asian_region', 'art_a', 'art_b', 'it’s']


def cond(rng, d=0):
    k = rng.choice(['leaf', 'leaf', 'leaf', '$and', '$or', '$not'] if d < 2 else ['leaf'])
    if k == 'leaf':
        f = rng.choice(['has-ip-course', 'has-completed-course', 'has-course', 'has-declared-area-code', 'passed-proficiency-exam'])
        return {f: {'has-declared-area-code': '140', 'passed-proficiency-exam': 'Guitar'}.get(f) or rng.choice(COURSES)}
    if k == '$not':
        return {k: cond(rng, d + 1)}
    return {k: [cond(rng, d + 1) for _ in range(rng.choice([1, 2]))]}


def branches(rng, make):
    """a conditional of whatever make() makes"""
    a = make()
    r = {'$if': cond(rng), '$then': a[0]}
    sets = [set(x) for x in a[1:]]
    if rng.random() < 0.6:
        b = make()
        r['$else'] = b[0]
        sets = [x | set(y) for x, y in zip(sets, b[1:])]
    return (r, *sets)


def assertion(rng):
    """(assertion with a where clause, attributes it mentions)"""
    w, s = clause(rng, ATTRS)
    return {'where': w, 'assert': {'count(courses)': {'$gte': 1}}}, s


def clause(rng, attrs, d=0):
    """(clause, attributes it mentions)"""
    k = rng.choice(['eq', 'eq', 'in', 'course', 'or', 'and', 'not', 'subject', 'if'] if d < 2 else ['eq', 'in', 'course'])
    if k == 'if':
        return branches(rng, lambda: clause(rng, attrs, d + 1))
    if k == 'eq':
        a = rng.choice(attrs)
        return {'attributes': {rng.choice(['$eq', '$eq', '$neq']): a}}, {a}
    if k == 'in':
        s = rng.sample(attrs, rng.choice([1, 2, 3]))
        return {'attributes': {rng.choice(['$in', '$in', '$nin']): s}}, set(s)
    if k == 'course':
        return {'course': {'$eq': rng.choice(COURSES)}}, set()
    if k == 'subject':
        return {'subject': {'$in': ['CSCI', 'ART']}}, set()
    if k == 'not':
        c, s = clause(rng, attrs, d + 1)
        return {'$not': c}, s
    subs = [clause(rng, attrs, d + 1) for _ in range(rng.choice([1, 2, 3]))]
    return {'$' + k: [c for c, _ in subs]}, set().union(*[s for _, s in subs])


def rule(rng, d=0):
    """(rule, course references, attribute references)"""
    k = rng.choice(['course', 'course', 'crsid', 'count', 'count', 'query', 'query', 'req', 'other', 'prof', 'if'] if d < 3 else ['course', 'crsid', 'query', 'other'])
    if k == 'course':
        c = rng.choice(COURSES)
        r = {'course': c}
        x = rng.random()
        if x < 0.15:
            r['hidden'] = True
            return r, set(), set()
        if x < 0.3:
            r.update(institution='Elsewhere', name='Foo') if rng.random() < 0.5 else r.update(name='Bar')
            return r, set(), set()
        if x < 0.5:
            r['grade'] = 'C'
        return r, {(c, None)}, set()
    if k == 'crsid':
        c = rng.choice(CRSIDS)
        return {'crsid': c}, {('', c)}, set()
    if k == 'other':
        return ({'ap': 'AP Calculus'} if rng.random() < 0.5 else {'clbid': '0000123'}), set(), set()
    if k == 'prof':
        if rng.random() < 0.5:
            return {'proficiency': 'Keyboard Level III'}, set(), set()
        r, cs, _ = {'course': 'MUSIC 115'}, {('MUSIC 115', None)}, set()
        return {'proficiency': 'Keyboard Level III', 'course': r}, cs, set()
    if k == 'query':
        r = {'from': 'courses'}
        at = set()
        a = {rng.choice(['count(courses)', 'sum(credits)']): {'$gte': 2}}
        if rng.random() < 0.7:
            r['where'], s = clause(rng, ATTRS)
            at |= s
        if rng.random() < 0.4:
            w, s = clause(rng, ATTRS)
            r['limit'] = [{'at_most': 1, 'where': w}]
            at |= s
        if rng.random() < 0.6:
            r['assert'] = a
        else:
            x, s = assertion(rng)
            y = rng.random()
            if y < 0.3:
                x, s = branches(rng, lambda: assertion(rng))
            elif y < 0.5:
                x = {'$when': {'query-has-course-with-attribute': 'zz'}, '$then': x}
            r['all'] = [{'assert': a}, x]
            at |= s
        return r, set(), at
    if k == 'if':
        return branches(rng, lambda: rule(rng, d + 1))
    if k == 'req':
        s, cs, at = rule(rng, d + 1)
        return {'name': f'Req {rng.randint(1, 999)}', 'result': s}, cs, at
    n = rng.choice([1, 2, 2, 3, 4])
    subs = [rule(rng, d + 1) for _ in range(n)]
    items = [s[0] for s in subs]
    cs = set().union(*[s[1] for s in subs])
    at = set().union(*[s[2] for s in subs])
    word = rng.choice(['all', 'any', 'count'] + (['both', 'either'] if n == 2 else []))
    if word == 'count':
        return {'count': rng.choice(['any', 'all', n]), 'of': items}, cs, at
    return {word: items}, cs, at


def area(rng, code):
    top = rng.choice(['all', 'any'])
    subs = [rule(rng, 1) for _ in range(rng.choice([1, 2, 3]))]
    items = [s[0] for s in subs]
    cs = set().union(*[s[1] for s in subs])
    at = set().union(*[s[2] for s in subs])
    spec = {'name': 'Area ' + code, 'type': 'major', 'degree': 'B.A.', 'code': code}
    if rng.random() < 0.4:
        r, c, a = rule(rng, 1)
        spec['requirements'] = {'Extra': {'result': r}}
        items.append({'requirement': 'Extra'})
        cs |= c
        at |= a
    if rng.random() < 0.3:
        w, a = clause(rng, ATTRS)
        spec['limit'] = [{'at_most': 2, 'where': w}]
        at |= a
    if rng.random() < 0.3:
        r, c, a = rule(rng, 2)
        spec['emphases'] = {'77': {'name': 'Emph', 'result': {'all': [r if 'course' not in r else {'any': [r]}]}}}
        cs |= c
        at |= a
    spec['result'] = {top: items}
    return spec, sorted(([c, i] for c, i in cs), key=str), sorted(at)


def generate(rng, prop, tier):
    files = []
    used = set()
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        cat = rng.choice(['2017-18', '2018-19', '2019-20'])
        code = rng.choice(['105', '170', '902', '455'])
        odd = rng.random() < 0.15
        name = rng.choice([code + '-draft.yaml', code + '.old.yaml', code + '.yml', code + '.yaml.bak']) if odd else code + '.yaml'
        if (cat, name) in used:
            continue
        used.add((cat, name))
        spec, cs, at = area(rng, code)
        files.append({'catalog': cat, 'name': name, 'code': code, 'skip': odd, 'spec': spec, 'courses': cs, 'attrs': at,
                      'broken': rng.choice(['yaml', 'rule', 'missing']) if rng.random() < 0.04 else None})
    codes = ['105', '170', '902', '455', '999']
    prior_c, prior_a = [], []
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        code = rng.choice(codes)
        k = rng.random()
        if k < 0.35 and files:
            f = rng.choice(files)
            if f['courses']:
                prior_c.append([f['code'], *rng.choice(f['courses'])])
                continue
        if k < 0.6:
            prior_c.append([code, rng.choice(COURSES), None])
        elif k < 0.85:
            prior_c.append([code, '', rng.choice(CRSIDS)])
        elif k < 0.93:
            prior_c.append([code, None, rng.choice(CRSIDS)])
        else:
            prior_c.append([code, rng.choice(COURSES), rng.choice(CRSIDS)])
    for _ in range(rng.choice([0, 1, 2, 4])):
        if rng.random() < 0.4 and files:
            f = rng.choice(files)
            if f['attrs']:
                prior_a.append([rng.choice(f['attrs']), f['code'], f['catalog']])
                continue
        prior_a.append([rng.choice(ATTRS), rng.choice(codes), rng.choice(['2017-18', '2018-19', '2010-11'])])
    prior_c = [list(x) for x in dict.fromkeys(tuple(x) for x in prior_c)]
    prior_a = [list(x) for x in dict.fromkeys(tuple(x) for x in prior_a)]
    faults = []
    runs = rng.choice([1, 1, 2, 2, 3])
    for i in range(runs):
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = rng.choice(['stmt_error', 'crash', 'crash', 'conn_drop', 'stall', 'io_error'])
            f = {'proc': f'disc{i}', 'kind': k}
            if k == 'stmt_error':
                f.update(label=rng.choice(['any', 'sql insert map_constant_area', 'sql insert map_attribute_area', 'sql delete map_constant_area', 'sql delete map_attribute_area', 'sql commit', 'sql select']), nth=rng.randint(1, 4), code=rng.choice(['57014', '53100']))
            elif k == 'io_error':
                f.update(label='open', nth=rng.randint(1, 5), phase='before')
            elif k == 'stall':
                f.update(label='any', nth=rng.randint(1, 40), us=rng.choice([100000, 10 * S]))
            else:
                f.update(label=rng.choice(['any', 'any', 'sql commit', 'sql insert map_attribute_area', 'sql delete map_constant_area']), nth=rng.randint(1, 4), phase=rng.choice(['before', 'after']))
                if f['label'] == 'any':
                    f['nth'] = rng.randint(1, 20)
            faults.append(f)
    return {'files': files, 'prior_c': prior_c, 'prior_a': prior_a, 'runs': runs, 'apart': rng.choice([0, 0, 1000, 30 * S]), 'faults': faults, 'dry': rng.random() < 0.08,
            'knobs': {'stick': rng.choice([0.0, 0.5]), 'latency': rng.choice([[0, 0], [0, 2000]]), 'max_steps': 60000, 'reverse_scan': rng.random() < 0.3, 'notice_us': rng.choice([0, S])}}


def reductions(case):
    yield from drop_each(case, 'faults')
    for k in ('files', 'prior_c', 'prior_a'):
        yield from drop_each(case, k)
    if case['runs'] > 1:
        yield {**case, 'runs': 1}


class World:
    def __init__(self, ctx):
        self.ctx, self.sim, self.case = ctx, ctx.sim, ctx.case
        self.db = make_db(ctx)
        self.root = ctx.mkscratch()
        self.sim.env['fs_root'] = self.root

    def report(self, cls, msg):
        self.ctx.report('C21', cls, msg)

    def tables(self):
        c = sorted(((v['area_code'], v['course'], v['crsid']) for v in self.rows('map_constant_area')), key=str)
        a = sorted((v['attr'], v['area_code'], v['catalog_year']) for v in self.rows('map_attribute_area'))
        return c, a

    def rows(self, t):
        return [r.committed for r in self.db.tables[t].rows if r.committed is not None]

    def start(self):
        import dp.bin.discover as d
        case, sim = self.case, self.sim
        want_c, want_a = set(), set()
        argv = []
        self.broken = False
        for f in case['files']:
            p = os.path.join(self.root, 'areas', f['catalog'], f['name'])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            text = yaml.safe_dump(f['spec'], allow_unicode=True)
            if f['broken'] == 'yaml':
                text = 'result: [\n' + text
            elif f['broken'] == 'rule':
                text = yaml.safe_dump({**f['spec'], 'result': {'nonsense': 1}})
            if f['broken'] != 'missing':
                with open(p, 'w', encoding='utf-8') as fh:
                    fh.write(text)
            argv.append(p)
            if not f['skip']:
                self.broken = self.broken or bool(f['broken'])
                want_c |= {(f['code'], c, i) for c, i in f['courses']}
                want_a |= {(a, f['code'], f['catalog']) for a in f['attrs']}
        if not argv:
            argv.append(os.path.join(self.root, 'nothing.txt'))
        self.want = sorted(want_c, key=str), sorted(want_a)
        for x in case['prior_c']:
            self.db.seed('map_constant_area', dict(zip(('area_code', 'course', 'crsid'), x)))
        for x in case['prior_a']:
            self.db.seed('map_attribute_area', dict(zip(('attr', 'area_code', 'catalog_year'), x)))
        self.prior = self.tables()
        self.db.on_commit.append(self.on_commit)
        flags = [] if case['dry'] else ['--insert']
        self.procs = []
        tf = sum(f.get('us', 0) for f in case['faults'])
        for i in range(case['runs']):
            p = sim.process(f'disc{i}', d.main, argv=['discover', *flags, *argv], at=i * case['apart'])
            p.data['role'] = 'discover'
            p.data['server_notice_us'] = case['knobs'].get('notice_us', 0)
            self.procs.append(p)
        self.quiet = case['runs'] * case['apart'] + tf + 20 * S
        self.clean = sim.process('again', d.main, argv=['discover', *flags, *argv], at=self.quiet)
        sim.deadline = self.quiet + 60 * S

    def on_commit(self, txn, changes):
        if not changes:
            return
        self.ctx.nontrivial = True
        names = {c[0] for c in changes}
        c, a = self.tables()
        proc = txn.session.owner.name
        if 'map_constant_area' in names and c != self.want[0]:
            self.report('half_courses', f'{proc} committed course references {c}, found in the files: {self.want[0]}')
        if 'map_attribute_area' in names and a != self.want[1]:
            self.report('half_attrs', f'{proc} committed attribute references {a}, found in the files: {self.want[1]}')
        if self.case['dry']:
            self.report('dry', f'{proc} changed the database without being asked to insert')

    def finish(self):
        sim = self.sim
        if sim.failure is not None:
            return
        if sim.capped:
            self.report('stuck', f'discovery did not end within {sim.steps} steps')
            return
        p = self.clean
        if p.exit is None:
            self.report('stuck', 'a discovery run nothing bad happened to did not end')
            return
        now = self.tables()
        if self.broken:
            if p.exit[0] == 'ok':
                self.report('broken', 'discovery succeeded although an area file is broken')
            if now != self.prior:
                self.report('changed', 'discovery failed on a broken file but changed the tables')
            return
        if p.exit[0] != 'ok':
            self.report('failed', f'a discovery run nothing bad happened to failed: {p.exit}')
            return
        if self.case['dry']:
            return
        for k, what in ((0, 'course'), (1, 'attribute')):
            if now[k] != self.want[k]:
                self.report('not_synced', f'after discovery succeeded the stored {what} references are {now[k]}, found in the files: {self.want[k]}')


def prepare():
    from sim import seams
    seams.import_dp()


def execute(ctx):
    w = World(ctx)
    w.start()
    ctx.run()
    w.finish()
