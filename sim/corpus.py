"""Area specifications and seeded students the worlds run on."""
import json
import os

CATALOG = [  # subject, number, name, attributes, gereqs
    ('CSCI', '121', 'Principles of CS', ['csci_elective'], ['AQR']),
    ('CSCI', '125', 'CS for Math', ['csci_elective'], []),
    ('CSCI', '241', 'Hardware', ['csci_core'], []),
    ('CSCI', '251', 'Software', ['csci_core'], []),
    ('CSCI', '253', 'Algorithms', ['csci_core', 'csci_elective'], []),
    ('CSCI', '276', 'Languages', ['csci_elective'], []),
    ('CSCI', '390', 'Capstone', ['csci_elective', 'senior'], []),
    ('MATH', '120', 'Calculus', ['math_perspective_c'], ['AQR']),
    ('MATH', '220', 'Linear', ['math_perspective_a'], []),
    ('MATH', '230', 'Diff Eq', ['math_perspective_m'], []),
    ('MATH', '244', 'Analysis', ['math_perspective_c'], []),
    ('MATH', '252', 'Abstract', ['math_perspective_a'], []),
    ('ART', '102', 'Foundations', [], ['ALS-A']),
    ('ART', '161', 'History I', ['arthist'], ['HWC', 'ALS-A']),
    ('ART', '205', 'Photo', [], ['ALS-A']),
    ('ART', '253', 'History II', ['arthist'], ['HWC']),
    ('REL', '121', 'Bible', ['rel_christian'], ['BTS-B']),
    ('REL', '231', 'Hindu', ['rel_hindu'], ['BTS-T']),
    ('REL', '253', 'Buddhist', ['rel_buddhist'], ['BTS-T', 'MCG']),
    ('MUSIC', '162', 'Theory', [], ['ALS-A']),
    ('MUSIC', '212', 'Theory II', [], []),
    ('HIST', '165', 'Slavery', ['intlr_af'], ['HWC', 'MCD']),
    ('HIST', '210', 'Asia', ['intlr_as'], ['HWC', 'MCG']),
    ('PHYS', '124', 'Physics', [], ['SED']),
    ('STAT', '272', 'Modeling', ['csci_elective'], ['AQR']),
    ('ESTH', '182', 'Swim', [], ['SPM']),
    ('ESTH', '110', 'Run', [], ['SPM']),
    ('FYS', '120', 'First-Year Seminar', [], ['FYW']),
]

GRADES = ['A', 'A-', 'B+', 'B', 'B-', 'C+', 'C', 'C-', 'D', 'F']
POINTS = {'A': '4.00', 'A-': '3.70', 'B+': '3.30', 'B': '3.00', 'B-': '2.70', 'C+': '2.30', 'C': '2.00', 'C-': '1.70', 'D': '1.00', 'F': '0.00'}


def q(where, n, what='count(courses)', **kw):
    return dict({'from': 'courses', 'where': where, 'assert': {what: {'$gte': n}}}, **kw)


AREAS = {
    '901': {'name': 'Computing', 'type': 'concentration', 'code': '901', 'result': {
        'all': [{'requirement': 'Core'}, {'requirement': 'Electives'}]},
        'requirements': {
            'Core': {'result': {'all': [{'course': 'CSCI 241'}, {'course': 'CSCI 251', 'grade': 'C'}, {'any': [{'course': 'CSCI 121'}, {'course': 'CSCI 125'}]}]}},
            'Electives': {'message': 'two of them', 'result': q({'attributes': {'$eq': 'csci_elective'}}, 2)}}},
    '902': {'name': 'Mathematics', 'type': 'major', 'degree': 'B.A.', 'code': '902', 'result': {
        'all': [{'requirement': 'Foundation'}, {'requirement': 'Perspectives'}]},
        'requirements': {
            'Foundation': {'result': {'both': [{'course': 'MATH 120'}, {'course': 'MATH 220'}]}},
            'Perspectives': {'result': {'from': 'courses', 'where': {'subject': {'$eq': 'MATH'}},
                                        'limit': [{'at_most': 1, 'where': {'level': {'$eq': 100}}}],
                                        'all': [{'assert': {'count(courses)': {'$gte': 3}}},
                                                {'assert': {'count(math_perspectives)': {'$gte': 2}}},
                                                {'assert': {'average(grades)': {'$gte': '2.0'}}}]}}},
        'limit': [{'at_most': 1, 'where': {'subject': {'$eq': 'STAT'}}}]},
    '903': {'name': 'Religion', 'type': 'concentration', 'code': '903', 'result': {
        'count': 2, 'of': [
            {'name': 'Traditions', 'result': q({'subject': {'$eq': 'REL'}}, 2, 'count(religion_traditions)')},
            {'name': 'Bible', 'result': {'course': 'REL 121'}},
            {'name': 'World', 'result': q({'$or': [{'gereqs': {'$eq': 'MCG'}}, {'gereqs': {'$eq': 'MCD'}}]}, 1)}]}},
    '904': {'name': 'Music', 'type': 'concentration', 'code': '904', 'result': {
        'all': [{'requirement': 'Proficiency'}, {'requirement': 'Performance'}, {'requirement': 'Recitals'}, {'requirement': 'Theory'}]},
        'requirements': {
            'Proficiency': {'result': {'either': [{'proficiency': 'Keyboard Level I'}, {'proficiency': 'Guitar', 'course': {'course': 'MUSIC 212'}}]}},
            'Performance': {'result': {'from': 'music performances', 'assert': {'count(performances)': {'$gte': 2}}}},
            'Recitals': {'result': {'from': 'music recitals', 'all': [{'assert': {'count(recitals)': {'$gte': 2}}}]}},
            'Theory': {'result': {'all': [{'course': 'MUSIC 162'}, {'template': 'theory'}]}}}},
    '905': {'name': 'Conditional', 'type': 'concentration', 'code': '905', 'result': {
        'all': [
            {'name': 'Start', 'result': {'$if': {'has-completed-course': 'CSCI 121'}, '$then': {'course': 'CSCI 121'}, '$else': {'any': [{'course': 'CSCI 125'}, {'course': 'MATH 120'}]}}},
            {'name': 'More', 'result': {'$if': {'has-declared-area-code': '902'}, '$then': q({'subject': {'$in': ['CSCI', 'STAT']}}, 2), '$else': q({'subject': {'$in': ['CSCI', 'MATH', 'STAT']}}, 3)}},
            {'name': 'Approval', 'department_audited': True, 'message': 'see the **department**'}]}},
    '906': {'name': 'Multi', 'type': 'concentration', 'code': '906', 'result': {
        'all': [{'requirement': 'A'}, {'requirement': 'B'}, {'requirement': 'C'}]},
        'requirements': {
            'A': {'result': {'any': [{'course': 'CSCI 251'}, {'course': 'MATH 220'}]}},
            'B': {'result': q({'subject': {'$in': ['CSCI', 'MATH']}, 'level': {'$gte': 200}}, 2)},
            'C': {'result': {'from': 'courses', 'where': {'credits': {'$gte': 1}}, 'claim': False, 'allow_claimed': True, 'assert': {'sum(credits)': {'$gte': 4}}}}},
        'multicountable': {'CSCI 251': [['A'], ['B']], 'MATH 220': [['A'], ['B']]}},
    '907': {'name': 'General Education', 'type': 'degree', 'degree': 'B.A.', 'code': '907', 'result': {
        'all': [
            {'name': 'FYW', 'result': q({'gereqs': {'$eq': 'FYW'}}, 1)},
            {'name': 'BTS', 'result': {'both': [{'name': 'B', 'result': q({'gereqs': {'$eq': 'BTS-B'}}, 1)}, {'name': 'T', 'result': q({'gereqs': {'$eq': 'BTS-T'}}, 1)}]}},
            {'name': 'HWC', 'result': q({'gereqs': {'$eq': 'HWC'}}, 2, 'count(subjects)')},
            {'name': 'SPM', 'result': q({'gereqs': {'$eq': 'SPM'}}, 2, 'count(distinct_courses)', claim=False)},
            {'name': 'Major', 'in_gpa': False, 'result': {'from': 'areas', 'where': {'type': {'$eq': 'major'}}, 'assert': {'count(areas)': {'$gte': 1}}}},
            {'name': 'Credits', 'result': {'from': 'courses', 'claim': False, 'allow_claimed': True, 'all': [
                {'assert': {'sum(credits)': {'$gte': 6}}}, {'where': {'level': {'$gte': 200}}, 'assert': {'sum(credits)': {'$gte': 2}}}, {'assert': {'average(grades)': {'$gte': '2.0'}}}]}}]}},
    '140': {'name': 'Studio Art', 'type': 'major', 'degree': 'B.A.', 'code': '140', 'result': {
        'all': [{'name': 'Studio', 'result': {'both': [{'course': 'ART 102'}, {'course': 'ART 205'}]}},
                {'name': 'History', 'result': q({'attributes': {'$eq': 'arthist'}}, 1)}]}},
    '908': {'name': 'Emphatic', 'type': 'major', 'degree': 'B.A.', 'code': '908', 'result': {
        'all': [{'requirement': 'Base'}], 'audit': {'assert': {'count(courses)': {'$gte': 2}}}},
        'requirements': {'Base': {'result': {'count': 1, 'of': [{'course': 'HIST 165'}, {'course': 'HIST 210'}]}}},
        'emphases': {'9081': {'name': 'Asia', 'type': 'emphasis', 'result': {'all': [{'name': 'Asian', 'result': q({'attributes': {'$eq': 'intlr_as'}}, 1)}]}},
                     '9082': {'name': 'Numbers', 'type': 'emphasis', 'result': {'all': [{'course': 'STAT 272'}]}}},
        'exceptions-migrations': [{'from-path': ['$', '.count', '%Old'], 'to-path': ['$', '.count', '%Base'], 'date': '2020-01-01', 'comment': 'renamed'}]},
    '909': {'name': 'Limits', 'type': 'concentration', 'code': '909', 'credit': {'PHYS 124': '1.25'}, 'result': {
        'all': [{'name': 'Lots', 'result': {'from': 'courses', 'where': {'$and': [{'subject': {'$nin': ['ESTH', 'FYS']}}, {'$not': {'number': {'$eq': 390}}}]},
                                            'all': [{'assert': {'count(courses)': {'$gte': 4}}}, {'assert': {'count(terms)': {'$gte': 2}}}, {'assert': {'sum(credits_from_single_subject)': {'$gte': 2}}}]}}]},
        'limit': [{'at_most': '1 credit', 'where': {'subject': {'$eq': 'ART'}}}, {'at_most': 1, 'where': {'subject': {'$eq': 'REL'}}}]},
    '910': {'name': 'Claims', 'type': 'concentration', 'code': '910', 'result': {
        'all': [{'requirement': 'First'}, {'requirement': 'Second'}, {'requirement': 'Again'}]},
        'requirements': {
            'First': {'result': q({'subject': {'$eq': 'MATH'}}, 1)},
            'Second': {'result': q({'$or': [{'subject': {'$eq': 'MATH'}}, {'subject': {'$eq': 'PHYS'}}]}, 2)},
            'Again': {'result': {'from': 'claimed', 'where': {'grade': {'$gte': 'C'}}, 'claim': False, 'assert': {'count(courses)': {'$gte': 2}}}}}},
    '911': {'name': 'Choices', 'type': 'concentration', 'code': '911', 'result': {
        'all': [{'name': 'Pick', 'result': {'count': 2, 'of': [{'course': 'CSCI 253'}, {'course': 'CSCI 276'}, {'course': 'MATH 244'}, {'course': 'PHYS 124', 'allow_claimed': True}],
                                            'audit': {'all': [{'assert': {'average(grades)': {'$gte': '1.0'}}}]}}},
                {'name': 'One', 'result': {'any': [{'course': 'CSCI 253'}, {'course': 'HIST 165'}]}},
                {'name': 'Ap', 'result': {'any': [{'ap': 'Chemistry'}, {'course': 'STAT 272'}]}}]}},
    # overlapping limits can leave no transcript, and so no audit, at all
    '912': {'name': 'Narrow', 'type': 'concentration', 'code': '912', 'result': {'all': [{'name': 'Some', 'result': q({'level': {'$gte': 100}}, 1)}]},
            'limit': [{'at_most': '4 credits', 'where': {'subject': {'$in': ['CSCI', 'MATH', 'ART', 'REL']}}}, {'at_most': 1, 'where': {'level': {'$gte': 200}}}]},
}

# broken specifications: loading or auditing them raises
BAD_AREAS = {
    '991': {'name': 'Bad key', 'type': 'concentration', 'code': '991', 'surprise': 1, 'result': {'all': [{'course': 'CSCI 121'}]}},
    '992': {'name': 'Bad query', 'type': 'concentration', 'code': '992', 'result': {'from': 'courses', 'where': {'subject': {'$eq': 'X'}}}},
    '993': {'name': 'No result', 'type': 'concentration', 'code': '993'},
}

CODES = sorted(AREAS)
MEDIUM = ['Choir', 'Band', 'Orchestra']


def variant(code, year):
    """the specification of this area as published in a given catalog year"""
    spec = json.loads(json.dumps(AREAS[code]))
    spec['name'] = f"{spec['name']} {year}"
    return spec


def write_area(root, folder, code, spec, mtime=0):
    import yaml
    d = os.path.join(root, folder)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{code}.yaml')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(spec if isinstance(spec, str) else yaml.safe_dump(spec, sort_keys=False))
    # all files of one checkout carry one modification time
    os.utime(path, (1580000000 + mtime, 1580000000 + mtime))
    return path


def folder(year):
    return f'{year}-{str(year + 1)[2:]}'


def gen_course(rng, i, idx):
    subj, num, name, attrs, ge = CATALOG[idx]
    g = rng.choice(GRADES[:8] if rng.random() < 0.85 else GRADES)
    ip = rng.random() < 0.12
    su = rng.random() < 0.08
    year = rng.choice([2017, 2018, 2019, 2020])
    own = {}
    if rng.random() < 0.5:
        # a class that other students sat in too: what describes the class is theirs in common, the grade is not
        year = 2017 + idx % 4
        own = {'clbid': f'{7000 + idx:05d}', 'course_type': 'SE', 'credits': '1.00', 'flag_stolaf': True, 'section': [None, 'A', 'B'][idx % 3], 'term': '13'[idx % 2]}
    return {
        'clbid': f'{1000 + i:05d}', 'course_type': 'SE' if rng.random() < 0.9 else 'TR', 'credits': rng.choice(['1.00'] * 9 + ['0.50'] * 3 + ['0.00']),
        'crsid': f'{5000 + idx:06d}', 'flag_gpa': not su, 'flag_incomplete': False, 'flag_in_progress': ip,
        'flag_repeat': False, 'flag_stolaf': rng.random() < 0.9, 'gereqs': list(ge),
        'grade_code': 'IP' if ip else ('S' if su else g), 'grade_option': 's/u' if su else 'grade', 'grade_points': '0.00' if ip or su else POINTS[g],
        'institution_short': 'STOLAF', 'level': int(num) // 100 * 100, 'name': name, 'number': num, 'section': rng.choice(['A', 'B', None]),
        'sub_type': '', 'subject': subj, 'term': rng.choice(['1', '3']), 'transcript_code': '', 'year': year, 'attributes': list(attrs), **own,
    }


NAMES = ['Ole Student', "Conor O'Neil", 'Zoë Müller', 'Åsa 李', 'A "quoted" B', 'per%cent %s', 'back\\slash', '']


def gen_student(rng, stnum, *, areas=None, n=None, salt=None):
    n = n if n is not None else rng.randint(3, 8)
    idxs = sorted(rng.sample(range(len(CATALOG)), n))
    courses = [gen_course(rng, i, k) for i, k in enumerate(idxs)]
    rng.shuffle(courses)
    if rng.random() < 0.15 and courses:
        courses.append({**courses[0], 'clbid': '09999', 'course_type': 'AP', 'name': 'Chemistry', 'subject': 'CHEM', 'number': '111', 'grade_code': 'NG', 'grade_option': 'grade', 'flag_stolaf': False})
    areas = areas if areas is not None else rng.sample(CODES, rng.randint(1, 3))
    ptrs = []
    for a in areas:
        kind = AREAS.get(a, {}).get('type', 'concentration')
        p = {'code': a, 'status': rng.choice(['declared', 'declared', 'what-if', 'certified']), 'kind': kind, 'name': f'Area {a}', 'degree': 'B.A.', 'dept': rng.choice(['MATH', 'ART', 'CSCI']),
             'catalog': '2019-20'}
        if rng.random() < 0.3:
            p['gpa'] = '3.10'
        if a == '908' and rng.random() < 0.5:
            ptrs.append({'code': '9081', 'status': 'declared', 'kind': 'emphasis', 'name': 'Asia', 'degree': 'B.A.', 'catalog': '2019-20'})
        ptrs.append(p)
    ex = []
    if rng.random() < 0.35 and courses:
        a = rng.choice(areas)
        c = rng.choice(courses)['clbid']
        path = rng.choice([['$', '.count'], ['$', '.count', '%Core'], ['$', '.count', '%Electives', '.query'], ['$', '.count', '%Old'], ['$', '.count', '%B', '.query'], ['$', '.count', '%Perspectives', '.query']])
        ty = rng.choice(['override', 'insert', 'force-insert', 'block', 'course-credits', 'course-subject'])
        e = {'type': ty, 'path': path, 'area_code': a}
        if ty in ('insert', 'force-insert'):
            e['path'] = rng.choice([['$', '.count', '%Electives', '.query'], ['$', '.count', '%B', '.query'], ['$', '.count', '%Perspectives', '.query'], ['$', '.count', '%Pick', '.count']])
        if ty in ('insert', 'force-insert', 'block', 'course-credits', 'course-subject'):
            e['clbid'] = c
        if ty == 'course-credits':
            e['credits'] = '2.00'
        if ty == 'course-subject':
            e['subject'] = 'CSCI'
        ex.append(e)
    name = rng.choice(NAMES)
    doc = {
        'stnum': stnum, 'name': name, 'name_sort': ', '.join(reversed(name.split(' ', 1))) if name else '',
        'classification': rng.choice(['SR', 'JR', 'SO', 'FY']), 'class': rng.choice(['2021', '2022', 'None']),
        'catalog': '2019', 'curriculum': rng.choice(['2014', '2020', 'None']), 'matriculation': rng.choice(['2017', '2018', '']),
        'current_term': '20203', 'areas': ptrs, 'courses': courses, 'exceptions': ex,
        'performances': [{'name': rng.choice(['Band', 'Piano', f'P{i}']), 'id': f'p{i}', 'year': '2019', 'term': '1'} for i in range(rng.randint(0, 3))],
        'performance_attendances': [{'name': f'R{i}', 'id': f'r{i}', 'year': '2019', 'term': '1'} for i in range(rng.randint(0, 3))],
        'proficiencies': {'keyboard_1': rng.choice(['Y', 'N']), 'guitar': rng.choice(['Y', 'N'])},
        'mediums': {}, 'templates': {'theory': ['MUSIC 212']} if rng.random() < 0.5 else {},
    }
    if salt is not None:
        doc['salt'] = salt
    return doc


def corrupt(rng, doc):
    """a student document the auditor cannot use: (doc, how)"""
    d = json.loads(json.dumps(doc))
    k = rng.choice(['no_name', 'no_class', 'bad_course', 'no_stnum', 'bad_status', 'bad_exception', 'nan_credits', 'not_object'])
    if k == 'no_name':
        del d['name']
    elif k == 'no_class':
        del d['class']
    elif k == 'bad_course':
        if not d['courses']:
            return corrupt(rng, doc)
        del d['courses'][0]['credits']
    elif k == 'no_stnum':
        del d['stnum']
    elif k == 'bad_status':
        d['areas'].append({'code': '901', 'status': 'bogus', 'kind': 'major', 'name': 'x', 'degree': 'B.A.'})
    elif k == 'bad_exception':
        d['exceptions'] = [{'type': 'nonsense', 'path': ['$'], 'area_code': c} for c in CODES]
    elif k == 'nan_credits':
        if not d['courses']:
            return corrupt(rng, doc)
        d['courses'][0]['credits'] = 'lots'
    else:
        return [1, 2, 3], k
    return d, k
