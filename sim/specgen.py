"""Random but meaningful area specifications and transcripts, dense enough that audits have many solutions."""
from . import corpus

CHANGING = ['count(courses)', 'count(distinct_courses)', 'count(terms_from_most_common_course)', 'count(terms_from_most_common_course_by_name)', 'count(subjects)', 'count(terms)',
            'count(years)', 'sum(credits)', 'sum(credits_from_single_subject)', 'average(grades)', 'average(credits)', 'count(math_perspectives)', 'count(religion_traditions)', 'count(intlr_regions)']
FLAGS = ['waive-lab', 'language']
PROFS = ['Keyboard Level I', 'Guitar', 'Keyboard Level II']


class Gen:
    def __init__(self, rng, pool):
        self.rng = rng
        self.pool = pool                 # indexes into corpus.CATALOG
        self.reqs = {}
        self.n = 0

    # ---- pieces ---------------------------------------------------------
    def course_id(self):
        c = corpus.CATALOG[self.rng.choice(self.pool)]
        return f'{c[0]} {c[1]}'

    def pred(self, depth=0):
        r = self.rng
        c = corpus.CATALOG[r.choice(self.pool)]
        k = r.randrange(17 if depth < 2 else 12)
        if depth < 2 and r.random() < 0.05:
            d = {'$if': self.cond(), '$then': self.pred(depth + 1)}
            if r.random() < 0.6:
                d['$else'] = self.pred(depth + 1)
            return d
        if k >= 14:
            k = r.choice([10, 11, 12, 13])
        elif k in (10, 11) and depth >= 2 or k in (10, 12, 13) and r.random() < 0.4:
            return self.odd(c)
        if k in (0, 1):
            return {'subject': {'$eq': c[0]}}
        if k == 2:
            return {'subject': {'$in': sorted({c[0], corpus.CATALOG[r.choice(self.pool)][0]})}}
        if k == 3:
            return {'attributes': {'$eq': r.choice(c[3])}} if c[3] else {'subject': {'$neq': c[0]}}
        if k == 4:
            return {'gereqs': {'$eq': r.choice(c[4])}} if c[4] else {'credits': {'$gte': 1}}
        if k == 5:
            return {'level': {r.choice(['$gte', '$eq', '$lt']): r.choice([100, 200, 300])}}
        if k == 6:
            return {'course': {r.choice(['$in', '$nin']): sorted({self.course_id() for _ in range(3)})}}
        if k == 7:
            return {'grade': {'$gte': r.choice(['C', 'B', 'A-'])}}
        if k == 8:
            return {'credits': {r.choice(['$eq', '$gte']): 1}}
        if k == 9:
            return r.choice([{'is_in_progress': {'$eq': False}}, {'is_stolaf': {'$eq': True}}, {'semester': {'$eq': 1}}, {'grade_option': {'$eq': 'grade'}}, {'year': {'$gte': 2018}}])
        if k in (10, 11):
            return {'$and': [self.pred(depth + 1), self.pred(depth + 1)]}
        if k == 12:
            return {'$or': [self.pred(depth + 1), self.pred(depth + 1)]}
        return {'$not': self.pred(depth + 1)}

    def odd(self, c):
        """the less common keys and operators"""
        r = self.rng
        g = r.sample(['A', 'A-', 'B+', 'B', 'C', 'C-', 'D'], r.choice([1, 2, 3]))
        return r.choice([
            {'number': {r.choice(['$eq', '$neq']): c[1]}},
            {'number': {'$in': sorted({c[1], corpus.CATALOG[r.choice(self.pool)][1]})}},
            {'institution': {r.choice(['$eq', '$neq']): 'STOLAF'}},
            {'crsid': {'$in': sorted({f'{5000 + r.choice(self.pool):06d}' for _ in range(2)})}},
            {'clbid': {r.choice(['$in', '$nin']): sorted({f'{1000 + r.randrange(8):05d}', f'{7000 + r.choice(self.pool):05d}'})}},
            {'grade': {r.choice(['$in', '$nin']): g}},
            {'grade': {'$gte': 'B', '$during_covid': r.choice(['C', 'D'])}},
            {'grade_option': {'$neq': r.choice(['s/u', 'p/n', 'grade'])}},
            {'is_in_gpa': {'$eq': r.random() < 0.7}},
            {'credits': {r.choice(['$lt', '$lte', '$gt', '$neq']): r.choice(['0.50', '1.00', 1, '0.25'])}},
            {'level': {'$in': sorted(r.sample([100, 200, 300], 2))}},
            {'attributes': {'$in': sorted(set(c[3]) | {'csci_elective'})}},
            {'gereqs': {'$in': sorted(set(c[4]) | {'WRI'})}},
            {'name': {r.choice(['$eq', '$neq']): c[2]}},
            {'course_type': {r.choice(['$eq', '$neq']): 'TR'}},
            {'lab': {'$eq': r.random() < 0.5}},
            {'year': {r.choice(['$in']): r.sample([2017, 2018, 2019, 2020], 2)}},
            {'year': {r.choice(['$lt', '$lte', '$gt']): r.choice([2018, 2019, '$matriculation-year'])}},
            {'semester': {'$neq': 1}},
            {'subject': {'$nin': sorted({c[0], 'MATH'})}},
            {'subject': {'$eq': c[0]}, 'level': {'$gte': 200}},
            {'ap': {'$eq': 'Chemistry'}},
        ])

    def assertion(self, simple=False):
        r = self.rng
        key = 'count(courses)' if simple or r.random() < 0.4 else r.choice(CHANGING)
        if key.startswith('average'):
            return {key: {'$gte': r.choice(['1.0', '2.0', '3.0'])} if False else {'$gte': r.choice([1, 2, 3])}}
        n = r.choice([1, 1, 2, 2, 3, 4])
        op = '$gte' if r.random() < 0.85 else r.choice(['$eq', '$lte'])
        v = {op: n}
        if op == '$gte' and r.random() < 0.15 and key.startswith('count'):
            v['at_most'] = True
        if r.random() < 0.08:
            v['treat_in_progress_as_pass'] = r.random() < 0.8
        if r.random() < 0.06:
            v['$changes'] = [[self.cond(), {r.choice(['add', 'subtract', 'set']): r.choice([1, '1', '0.5'])}]]
        return {key: v}

    def limits(self, p):
        r = self.rng
        if r.random() > p:
            return None
        return [{'at_most': r.choice([1, 1, 2, '1 credit', '2 credits']), 'where': self.pred(1)} for _ in range(r.choice([1, 1, 2]))]

    def query(self):
        r = self.rng
        d = {'from': 'courses'}
        if r.random() < 0.9:
            d['where'] = self.pred()
        if r.random() < 0.55:
            d['assert'] = self.assertion(simple=r.random() < 0.6)
        else:
            d['all'] = [{'assert': self.assertion(simple=True)}]
            for _ in range(r.choice([1, 1, 2])):
                a = {'assert': self.assertion()}
                k = r.random()
                if k < 0.25:
                    a['where'] = self.pred(1)
                elif k < 0.35:
                    a = {'$when': {r.choice(['query-has-course-with-attribute', 'query-has-single-course-with-attribute']): 'csci_elective'}, '$then': a}
                elif k < 0.45:
                    a = {'$if': self.cond(), '$then': a}
                    if r.random() < 0.5:
                        a['$else'] = {'assert': self.assertion()}
                if 'assert' in a and r.random() < 0.1:
                    a['message'] = r.choice(['See the chair.', 'Two of these\n\nmust be *seminars*'])
                d['all'].append(a)
        lim = self.limits(0.2)
        if lim:
            d['limit'] = lim
        k = r.random()
        if k < 0.12:
            d['claim'] = False
            d['allow_claimed'] = r.random() < 0.7
        elif k < 0.2:
            d['allow_claimed'] = True
        elif k < 0.24:
            d['claim'] = 'record'
        if r.random() < 0.06:
            d['include_failed'] = True
        if r.random() < 0.04:
            d['load_potentials'] = False
        return d

    def cond(self, depth=0):
        r = self.rng
        k = r.randrange(7 if depth < 1 else 5)
        if k == 0:
            return {'has-declared-area-code': r.choice(corpus.CODES)}
        if r.random() < 0.08:
            return {'has-override-exception': r.choice(FLAGS)}
        if k in (1, 2):
            return {r.choice(['has-course', 'has-ip-course', 'has-completed-course']): self.course_id()}
        if k == 3:
            return {'student-has-course-with-attribute': 'csci_elective'}
        if k == 4:
            return {'passed-proficiency-exam': r.choice(PROFS)}
        if k == 5:
            return {r.choice(['$and', '$or']): [self.cond(1), self.cond(1)]}
        return {'$not': self.cond(1)}

    def course(self):
        r = self.rng
        d = {'course': self.course_id()}
        if r.random() < 0.2:
            d['grade'] = r.choice(['C', 'B'])
        if r.random() < 0.15:
            d['allow_claimed'] = True
        elif r.random() < 0.05:
            d['from_claimed'] = True
        if r.random() < 0.06:
            d['optional'] = True
        if r.random() < 0.12:
            k = r.randrange(6)
            if k == 0:
                d['institution'] = 'STOLAF'
            elif k == 1:
                d['section'] = r.choice(['A', 'B'])
            elif k == 2:
                d.update(year=r.choice([2018, 2019]), term=r.choice(['1', '3']))
            elif k == 3:
                d['grade_option'] = r.choice(['grade', 's/u'])
            elif k == 4:
                d = {'crsid': f'{5000 + r.choice(self.pool):06d}'}
            else:
                d = r.choice([{'ap': 'Chemistry'}, {'institution': 'STOLAF', 'name': corpus.CATALOG[r.choice(self.pool)][2], 'course': self.course_id()}, {'clbid': f'{7000 + r.choice(self.pool):05d}'}])
        if r.random() < 0.05:
            d['hidden'] = True
        return d

    def rule(self, depth):
        r = self.rng
        k = r.random()
        if depth <= 0:
            return self.course() if k < 0.5 else self.query()
        if k < 0.25:
            return self.course()
        if k < 0.5:
            return self.query()
        if k < 0.72:
            return self.count(depth - 1)
        if k < 0.8:
            d = {'$if': self.cond(), '$then': self.rule(depth - 1)}
            if r.random() < 0.6:
                d['$else'] = self.rule(depth - 1)
            return d
        if k < 0.84:
            d = {'proficiency': r.choice(PROFS)}
            if r.random() < 0.5:
                d['course'] = {'course': self.course_id()}
            return d
        return self.requirement(depth)

    def count(self, depth):
        r = self.rng
        kind = r.choice(['all', 'any', 'both', 'either', 'of', 'of'])
        n = 2 if kind in ('both', 'either') else r.choice([2, 3, 3, 4])
        items = [self.rule(depth) for _ in range(n)]
        if kind in ('all', 'any') and r.random() < 0.06:
            items.append({'$if': self.cond(), '$then': self.rule(0), '$hide-when-false': True})
        if r.random() < 0.15:
            items.insert(r.randint(0, len(items)), {'template': r.choice(['slot', 'slot', 'theory'])})
        d = {kind: items}
        if kind == 'of':
            d['count'] = r.randint(1, n)
            if r.random() < 0.3:
                d['at_most'] = True
        if r.random() < 0.12:
            d['audit'] = {'assert': self.assertion()} if r.random() < 0.5 else {'all': [{'assert': self.assertion()}, {'assert': self.assertion()}]}
        return d

    def requirement(self, depth):
        r = self.rng
        self.n += 1
        name = r.choice(['Core', 'Depth', 'Breadth', 'Élan', 'Seminar']) + f' {self.n}'
        if r.random() < 0.06:
            body = {'department_audited': True, 'message': 'ask'}
        else:
            body = {'result': self.rule(depth - 1)}
            if depth > 1 and r.random() < 0.12:
                body = {'requirements': {'Inner': {'result': body['result']}}, 'result': {'all': [{'requirement': 'Inner'}, self.rule(0)]}}
            if r.random() < 0.05:
                body['message'] = 'Ask the chair.\n\n- now'
            if r.random() < 0.1:
                body['in_gpa'] = False
            if r.random() < 0.1:
                body['disjoint'] = r.random() < 0.5
            if r.random() < 0.08:
                body['contract'] = True
        return {'name': name, **body}

    def spec(self, code, depth=2):
        r = self.rng
        kind = r.choice(['concentration', 'concentration', 'major', 'degree', 'emphasis'])
        n = r.choice([1, 2, 2, 3, 3, 4])
        reqs, items = {}, []
        for _ in range(n):
            if r.random() < 0.6:
                b = self.requirement(depth)
                name = b.pop('name')
                reqs[name] = b
                items.append({'requirement': name})
            elif r.random() < 0.7:
                items.append(self.requirement(depth))
            else:
                items.append(self.rule(depth))
        if r.random() < 0.2:
            items.append({'name': 'Claimed', 'result': {'from': 'claimed', **({'where': self.pred()} if r.random() < 0.5 else {}), **({'claim': False} if r.random() < 0.5 else {}), 'assert': self.assertion()}})
        if r.random() < 0.15:
            items.append({'name': 'Areas', 'result': {'from': 'areas', 'where': {'type': {'$eq': 'major'}}, 'assert': {'count(areas)': {'$gte': 1}}}})
        if r.random() < 0.1:
            items.append({'name': 'Recitals', 'result': {'from': 'music recitals', 'assert': {'count(recitals)': {'$gte': 1}}}})
        if r.random() < 0.1:
            items.append({'name': 'Performances', 'result': {'from': 'music performances', **({'where': {'name': {'$in': ['Band', 'Piano']}}} if r.random() < 0.6 else {}), 'assert': {'count(performances)': {'$gte': r.choice([1, 2])}}}})
        if r.random() < 0.7 or len(items) < 2:
            result = {'all': items}
        else:
            result = {'count': r.randint(1, len(items)), 'of': items}
        spec = {'name': f'Generated {code}', 'type': kind, 'code': code, 'result': result}
        if kind in ('major', 'degree'):
            spec['degree'] = r.choice(['B.A.', 'B.A.', 'B.M.'])
        if reqs:
            spec['requirements'] = reqs
        lim = self.limits(0.3)
        if lim:
            spec['limit'] = lim
        if r.random() < 0.25 and len(reqs) > 1:
            two = r.sample(sorted(reqs), 2)
            spec['multicountable'] = {self.course_id(): [[x] for x in two]}
        if r.random() < 0.1:
            spec['credit'] = {'name=' + corpus.CATALOG[r.choice(self.pool)][2]: '0.75'}
        if r.random() < 0.15:
            spec['exceptions-migrations'] = [{'from-path': ['$', '%Old'], 'to-path': list(p), 'date': '2020-01-01', 'comment': 'moved'} for p in r.sample([x for _, x in sites(spec)], 1)]
        if r.random() < 0.15 and 'all' in result:
            emph = {'name': 'Focus', 'type': 'emphasis', 'code': code + '1', 'result': {'all': [{'name': 'F1', 'result': self.rule(0)}, {'name': 'F2', 'result': self.rule(0)}]}}
            spec['emphases'] = {code + '1': emph}
        return spec


def sites(spec, templates=None):
    """[(kind, path)] of everything in the specification that an exception can name"""
    out = []
    children = spec.get('requirements', {})

    def asserts(a, path, kind='assert'):
        if '$if' in a or '$when' in a:
            asserts(a['$then'], path + ['/t'], kind)
            if a.get('$else'):
                asserts(a['$else'], path + ['/f'], kind)
        else:
            out.append((kind, path + ['.assert']))

    def walk(d, path, children):
        if 'proficiency' in d:
            path = path + ['.proficiency=' + d['proficiency']]
            out.append(('prof', path))
            if 'course' in d:
                walk(d['course'], path, children)
        elif any(k in d for k in ('course', 'clbid', 'crsid', 'ap')):
            n = '*' + (d.get('course') or d.get('ap') or d.get('name') or d.get('clbid') or 'crsid:' + d.get('crsid', ''))
            n += d.get('section') or ''
            if d.get('year') is not None:
                n += f" {d['year']}-{d['term']}"
            if d.get('institution'):
                n += f"(institution={d['institution']})"
            if d.get('grade'):
                n += f"(grade >= {d['grade']})"
            out.append(('course', path + [n]))
        elif 'from' in d:
            path = path + ['.query']
            out.append(('query', path))
            for i, a in enumerate(d.get('all') or [{'assert': d['assert']}]):
                asserts(a, path + ['.assertions', f'[{i}]'], 'assert' if d['from'] in ('courses', 'claimed') else 'tally')
        elif '$if' in d:
            path = path + ['.cond']
            out.append(('cond', path))
            walk(d['$then'], path + ['/t'], children)
            if d.get('$else'):
                walk(d['$else'], path + ['/f'], children)
        elif 'requirement' in d or 'name' in d:
            name = d.get('requirement') or d['name']
            body = children[name] if 'requirement' in d else d
            path = path + ['%' + name]
            out.append(('req', path))
            if body.get('result'):
                walk(body['result'], path, body.get('requirements', {}))
        else:
            items = next(d[k] for k in ('all', 'any', 'both', 'either', 'of') if k in d)
            path = path + ['.count']
            out.append(('pair' if 'both' in d or 'either' in d else 'count', path))
            au = d.get('audit')
            if au:
                for i, a in enumerate(au['all'] if 'all' in au else [au]):
                    asserts(a, path + ['.audit', f'[{i}]'])
            n = 0
            for it in items:
                if 'template' in it:
                    n += len((templates or {}).get(it['template'], []))
                    continue
                walk(it, path + [f'[{n}]'], children)
                n += 1

    walk(spec['result'], ['$'], children)
    return out


def exceptions(rng, spec, doc, code):
    """exceptions aimed at rules the specification has, often several at one rule"""
    where = sites(spec, doc.get('templates'))
    cs = doc['courses']
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind, path = rng.choice(where)
        q = [w for w in where if w[0] in ('query', 'count')]
        if q and rng.random() < 0.5:
            kind, path = rng.choice(q)
        types = {'query': ['insert', 'insert', 'force-insert', 'block', 'override'], 'count': ['insert', 'force-insert', 'override'], 'assert': ['value', 'value', 'insert', 'force-insert', 'block', 'override'],
                 'course': ['override', 'block', 'insert', 'force-insert'], 'req': ['override'], 'pair': ['override'], 'tally': ['value', 'override'], 'cond': ['override'], 'prof': ['override']}[kind]
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            e = {'type': rng.choice(types), 'path': list(path), 'area_code': code}
            if e['type'] == 'value':
                e['value'] = rng.choice(['1', '2', '0', '3'])
            elif e['type'] != 'override':
                if not cs:
                    continue
                e['clbid'] = rng.choice(cs)['clbid']
            out.append(e)
    for m in spec.get('exceptions-migrations', []):
        to = m['to-path']
        for e in out:
            if e['path'][:len(to)] == to and rng.random() < 0.7:
                e['path'] = m['from-path'] + e['path'][len(to):]
    for f in FLAGS:
        if rng.random() < 0.1:
            out.append({'type': 'override', 'path': [f], 'area_code': code})
    if cs and rng.random() < 0.15:
        out.append(rng.choice([{'type': 'course-credits', 'credits': rng.choice(['2.00', '0.25', '0.00'])}, {'type': 'course-subject', 'subject': rng.choice(['CSCI', 'HIST'])}]) | {'path': ['$'], 'area_code': code, 'clbid': rng.choice(cs)['clbid']})
    return out


def pool(rng):
    n = rng.choice([4, 6, 8, 10])
    base = rng.sample(range(len(corpus.CATALOG)), n)
    if rng.random() < 0.5:       # cluster on one or two subjects
        subj = rng.sample(['CSCI', 'MATH', 'ART', 'REL', 'HIST'], 2)
        base = [i for i, c in enumerate(corpus.CATALOG) if c[0] in subj]
    return base


def template(rng, pl):
    """how a student's own plan names a course"""
    c = corpus.CATALOG[rng.choice(pl)]
    base = f'{c[0]} {c[1]}'
    return rng.choice([base, base, base, base + 'A', base + ' 2019-1', base + '.L', base + ' [STOLAF]', 'name=' + c[2], 'an elective'])


def student(rng, stnum, codes, pl, n=None):
    """a transcript drawn from the pool, with repeats and ties"""
    n = n if n is not None else rng.choice([2, 4, 5, 6, 7, 8, 10, 12])
    d = corpus.gen_student(rng, stnum, areas=list(codes), n=1)
    cs = []
    for i in range(n):
        k = rng.choice(pl) if rng.random() < 0.9 else rng.randrange(len(corpus.CATALOG))
        c = corpus.gen_course(rng, i, k)
        if any(c['clbid'] == o['clbid'] for o in cs):
            c['clbid'] = f'{1000 + i:05d}'
        if rng.random() < 0.2:
            c['term'] = '1'
            c['year'] = 2019
        if rng.random() < 0.06:
            c['transcript_code'] = rng.choice(['R', '~', '#', '*'])
        if rng.random() < 0.08:
            c['flag_repeat'] = True
        cs.append(c)
    rng.shuffle(cs)
    d['courses'] = cs
    ex = []
    for code in codes:
        if rng.random() < 0.25 and cs:
            c = rng.choice(cs)
            ty = rng.choice(['insert', 'force-insert', 'block', 'course-credits', 'course-subject', 'override'])
            path = rng.choice([['$', '.count'], ['$', '.count', '[0]'], ['$', '.count', '[0]', '%Core 1', '.query'], ['$', '%Common Requirements', '.count', '[0]', '%Credits at a C or higher', '.query']])
            e = {'type': ty, 'path': path, 'area_code': code}
            if ty != 'override':
                e['clbid'] = c['clbid']
            if ty == 'course-credits':
                e['credits'] = '2.00'
            if ty == 'course-subject':
                e['subject'] = 'CSCI'
            ex.append(e)
    d['exceptions'] = ex
    if rng.random() < 0.5:
        d['templates'] = {'slot': [template(rng, pl) for _ in range(rng.choice([1, 2, 3, 5]))], **({'theory': ['MUSIC 212', template(rng, pl)]} if rng.random() < 0.5 else {})}
    if rng.random() < 0.3:
        d['areas'].append({'code': rng.choice(['902', '140', '135']), 'status': 'declared', 'kind': 'major', 'name': 'M', 'degree': 'B.A.', 'dept': 'MATH', 'catalog': '2019-20'})
    return d


def pair(rng, stnum='100001', code='950'):
    """(document, specification); a share comes from the fixed corpus"""
    if rng.random() < 0.2:
        code = rng.choice(corpus.CODES)
        return corpus.gen_student(rng, stnum, areas=[code], n=rng.randint(4, 10)), corpus.variant(code, 2019)
    pl = pool(rng)
    g = Gen(rng, pl)
    spec = g.spec(code)
    doc = student(rng, stnum, [code], pl)
    if rng.random() < 0.35:
        doc['exceptions'] = exceptions(rng, spec, doc, code) + (doc['exceptions'] if rng.random() < 0.3 else [])
    if 'emphases' in spec and rng.random() < 0.7:
        doc['areas'].append({'code': code + '1', 'status': 'declared', 'kind': 'emphasis', 'name': 'Focus', 'degree': 'B.A.', 'catalog': '2019-20'})
    return doc, spec
