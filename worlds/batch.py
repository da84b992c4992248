"""The batch queueing command: real dp.server.batch threads, simulated HTTP source and PostgreSQL.

Serves C10 and C11.
"""
import datetime as dt
import json
import re
import time

from sim import corpus
from sim.core import US
from sim.harness import drop_each
from sim.schema import make_db
from sim.seams import SimResponse

S = US
RULE = {'*': 'Random student lists, records, fetch failures, queue contents, blocks and thread timings from one seed; non-trivial: the batch committed at least one request.'}
REAL = ['dp.server.batch', 'dp.bin.expand', 'its thread pool use (threads are real, one runs at a time)']
STUBS = ['PostgreSQL (sim.pgengine)', 'psycopg2 (sim.pgclient)', 'urllib3 PoolManager (records, errors and delays from the case)', 'concurrent.futures pools and tqdm', 'clocks, process death']
ASSUMPTIONS = ['the table layout is the one the SQL in the repository implies', 'the record source answers each request independently']
ALWAYS = '122932'


def near(rng, code):
    """a code filter: usually an existing code, sometimes only like one"""
    return code if rng.random() < 0.8 else rng.choice([code[:-1], code[:1], code + '0', '900'])


def generate(rng, prop, tier):
    n = rng.choice([0, 1, 2, 3, 4, 6, 8] + ([12] if tier == 'thorough' else []))
    ids = [str(100000 + i) for i in range(n)] + [ALWAYS]
    if rng.random() < 0.3:      # ids are whatever the list says
        ids[:-1] = [rng.choice([i, i, '000' + i[3:], 'T' + i, i + 'x', i[:3] + '-' + i[3:]]) for i in ids[:-1]]
    students = {}
    for i in ids:
        codes = rng.sample(corpus.CODES, rng.choice([0, 1, 2, 2, 3, 4, 5]))
        if rng.random() < 0.05:
            codes += rng.sample([str(x) for x in range(600, 640)], rng.choice([5, 8, 25]))
        areas = []
        for c in codes:
            a = {'code': c, 'kind': rng.choice(['major', 'major', 'concentration', 'degree', 'emphasis']), 'name': 'n' + c, 'degree': 'B.A.', 'dept': 'X', 'status': 'declared'}
            if rng.random() < 0.4:
                a['catalog'] = str(rng.choice([2016, 2017, 2019, 1999]))
            areas.append(a)
        rec = {'stnum': i, 'areas': areas, 'catalog': rng.choice(['2018', '2019', '2020', '1999']), 'courses': [], 'name': 'é' + i if rng.random() < 0.3 else 'N' + i}
        r = rng.random()
        mode, delay = 'ok', rng.choice([0, 0, 1000, 50000, S])
        if r < (0.35 if prop == 'C10' else 0.12):
            mode = rng.choice(['exc', 'html', 'trunc', 'nostnum', 'noareas', 'badarea', 'badarea', 'badarea_mid', 'latecat', 'catalog', 'badutf', 'nojson', 'nul'])
        if mode == 'catalog':
            rec['catalog'] = rng.choice(['current', ''])
        if mode == 'badarea' and areas:
            rng.choice(areas)['catalog'] = '2018-19'
        elif mode == 'badarea_mid' and areas:
            rng.choice(areas).pop('kind')
        elif mode == 'latecat' and areas:
            rng.choice(areas)['catalog'] = None
        elif mode in ('badarea', 'badarea_mid', 'latecat'):
            mode = 'ok'
        if mode == 'nul' and not areas:
            mode = 'ok'
        if mode == 'ok' and areas and rng.random() < 0.12:     # the same code for a second degree, or as an emphasis as well
            a = {**rng.choice(areas), 'degree': 'B.M.', 'kind': rng.choice(['major', 'major', 'emphasis'])}
            if rng.random() < 0.4:
                a['catalog'] = rng.choice(['2016', '2018'])
            areas.insert(rng.randint(0, len(areas)), a)
        students[i] = {'rec': rec, 'mode': mode, 'delay': delay}
    pairs = [(i, a['code']) for i in ids for a in students[i]['rec']['areas']]
    queued = [list(x) for x in pairs if rng.random() < 0.2] + ([[ids[0], '900']] if rng.random() < 0.2 else [])
    # waiting requests come from batches, from people and from the registrar's system
    queued = [q + [{'run': rng.choice([1, 7, -1, -1, 0, None]), 'priority': rng.choice([1, 1, 100, 50]), 'link_only': rng.random() < 0.3, 'hours': rng.choice([2, 0, 300, -1]), 'catalog': rng.choice(['2018-19', '1999-00'])}] for q in queued]
    blocked = [list(x) for x in pairs if rng.random() < 0.2] + ([['999999', rng.choice(corpus.CODES)]] if rng.random() < 0.2 else [])
    # near misses: same code of another student, other code of the same student
    if pairs and rng.random() < 0.4:
        i, c = rng.choice(pairs)
        blocked.append([rng.choice(ids), c])
    runs = [rng.choice([None, 3, 7, 12, -1, -1]) for _ in range(rng.choice([0, 1, 3, 5]))]
    faults = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        k = rng.choice(['stmt_error', 'stmt_error', 'stmt_error', 'crash', 'conn_drop', 'stall'])
        f = {'proc': 'batch', 'kind': k}
        if k == 'stmt_error':
            f.update(label='sql insert queue', nth=rng.randint(1, 12), code=rng.choice(['57014', '53100', '23514']))
        elif k == 'stall':
            f.update(label='any', nth=rng.randint(1, 60), us=rng.choice([100000, 10 * S]))
        else:
            f.update(rng.choice([dict(label='any', nth=rng.randint(1, 80)), dict(label='sql insert queue', nth=rng.randint(1, 8)), dict(label='sql commit', nth=rng.randint(1, 6))]))
            f['phase'] = rng.choice(['before', 'after'])
        faults.append(f)
    others = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        k = rng.choice(['consume', 'produce', 'produce', 'result', 'hold', 'hold'])
        others.append({'op': k, 'at': rng.choice([0, 500, rng.randint(0, 3 * S)]), 'pair': list(rng.choice(pairs)) if pairs else [ALWAYS, '901'], 'n': rng.randint(1, 4), 'run': rng.randint(1, 30)})
    return {
        'ids': ids, 'students': students, 'queued': queued, 'blocked': blocked, 'result_runs': runs, 'faults': faults, 'others': others,
        'run': rng.choice([None, None, 5, 0, 42]), 'code': None if rng.random() < 0.8 or not pairs else near(rng, rng.choice(pairs)[1]), 'cpus': rng.choice([1, 2, 3, 4, 8]),
        'dup_ids': rng.random() < 0.2, 'sep': rng.choice(['\n', '\n', '\n', '\r\n', ' ', '\n\n', '\t']), 'pad': rng.choice(['', '', '\n', ' ']),
        'knobs': {'stick': rng.choice([0.0, 0.3, 0.7]), 'latency': rng.choice([[0, 0], [0, 2000], [100, 50000]]), 'max_steps': 60000, 'lines': rng.random() < 0.3,
                  'notice_us': rng.choice([0, 0, S])},
    }


def reductions(case):
    yield from drop_each(case, 'faults')
    yield from drop_each(case, 'others')
    for i in case['ids']:
        if i != ALWAYS:
            yield {**case, 'ids': [x for x in case['ids'] if x != i]}
    for key in ('queued', 'blocked', 'result_runs'):
        yield from drop_each(case, key)
    if case['cpus'] > 1:
        yield {**case, 'cpus': case['cpus'] - 1}
    if case['knobs'].get('lines'):
        yield {**case, 'knobs': {**case['knobs'], 'lines': False}}
    for i in case['ids']:
        s = case['students'][i]
        for j in range(len(s['rec']['areas'])):
            rec = {**s['rec'], 'areas': s['rec']['areas'][:j] + s['rec']['areas'][j + 1:]}
            yield {**case, 'students': {**case['students'], i: {**s, 'rec': rec}}}


def body(s):
    text = json.dumps(s['rec'])
    m = s['mode']
    if m == 'html':
        return 500, b'<html>Internal Server Error</html>'
    if m == 'trunc':
        return 200, text[:len(text) - 7].encode()
    if m == 'nostnum':
        return 200, json.dumps({k: v for k, v in s['rec'].items() if k != 'stnum'}).encode()
    if m == 'noareas':
        return 200, json.dumps({k: v for k, v in s['rec'].items() if k != 'areas'}).encode()
    if m == 'badutf':
        return 200, text.encode() + b'\xff\xfe'
    if m == 'nojson':
        return 404, b''
    if m == 'nul':
        return 200, json.dumps({**s['rec'], 'note': 'a\x00b'}).encode()
    return 200, text.encode('utf-8')


def expected(case, i):
    """the requests due for one student's record, before queue and block lists; None: the record is unusable"""
    s = case['students'][i]
    rec, m = s['rec'], s['mode']
    if m in ('exc', 'html', 'trunc', 'nostnum', 'noareas', 'badutf', 'nojson', 'badarea_mid'):
        return None
    out = {}
    if not str(rec['catalog']).isdigit():
        return {}
    for a in rec['areas']:
        if a['kind'] == 'emphasis':
            continue
        c = a.get('catalog', rec['catalog'])
        if c is None or not str(c).isdigit():
            return None
        # a code listed twice: in either of the catalogs
        out[a['code']] = {f'{y}-{str(y + 1)[2:]}' for y in (int(b.get('catalog', rec['catalog'])) for b in rec['areas'] if b['code'] == a['code'] and str(b.get('catalog', rec['catalog'])).isdigit())}
    if m == 'nul' and not out:
        return {}
    return out


class BatchWorld:
    def __init__(self, ctx):
        self.ctx = ctx
        self.case = ctx.case
        self.sim = ctx.sim
        self.db = make_db(ctx)
        self.committed = {}         # student -> list of commits, each a list of rows
        self.queue_changes = []     # (time, pair)
        self.list_at = None
        self.maxruns = []
        self.fetched = set()
        self.db.on_commit.append(self.on_commit)

    def report(self, *a):
        self.ctx.report(*a)

    def http(self, sim, t, method, url, fields, kw):
        case = self.case
        for f in sim.point('http'):
            if f['kind'] in ('conn_drop', 'stmt_error'):
                continue
        if url.endswith('/batch'):
            if self.list_at is None:
                self.list_at = sim.now
                self.list_seq = self.db.commit_seq
            ids = [i for i in case['ids'] if i != ALWAYS]
            if case['dup_ids']:
                ids = ids + ids[:2]
            sim.lag()
            return SimResponse(200, (case.get('pad', '') + case.get('sep', '\n').join(ids) + case.get('pad', '')).encode())
        i = (fields or {}).get('stnum')
        s = case['students'].get(i)
        if s is None:
            sim.probe('unlisted_fetch')
            return SimResponse(404, b'not found')
        if s['delay']:
            sim.sleep(s['delay'])
        else:
            sim.lag()
        if s['mode'] == 'exc':
            import urllib3
            raise urllib3.exceptions.ProtocolError('Connection aborted.')
        self.fetched.add(i)
        st, data = body(s)
        return SimResponse(st, data)

    def on_commit(self, txn, changes):
        proc = txn.session.owner
        role = proc.data.get('role') if proc else None
        if role != 'batch':
            for t, rid, o, n in changes:
                if t == 'queue':
                    v = n or o
                    self.queue_changes.append((self.sim.now, (v['student_id'], v['area_code'])))
                if t == 'result':
                    self.note_max()
            return
        by = {}
        for t, rid, o, n in changes:
            if t != 'queue' or o is not None:
                self.report('C10', 'touched', f'the batch changed existing rows of {t}')
                continue
            by.setdefault(n['student_id'], []).append(n)
        for stnum, rows in by.items():
            self.ctx.nontrivial = True
            self.committed.setdefault(stnum, []).append(rows)
            self.judge(stnum, rows)

    def note_max(self):
        runs = [r.committed['run'] for r in self.db.tables['result'].rows if r.committed is not None and r.committed['run'] is not None]
        self.maxruns.append(max(runs) if runs else None)

    def due(self, stnum):
        """(must, may): codes that must be queued, codes that may be"""
        case = self.case
        exp = expected(case, stnum)
        if exp is None:
            return None, None
        queued = {tuple(x[:2]) for x in case['queued']}
        blocked = {tuple(x) for x in case['blocked']}
        unsure = {p for at, p in self.queue_changes if self.list_at is None or at <= self.list_at}
        must, may = {}, {}
        for c, cat in exp.items():
            if (stnum, c) in blocked:
                continue
            if case['code'] is not None and case['code'] != c:
                continue
            if (stnum, c) in unsure:
                may[c] = cat
                continue
            if (stnum, c) in queued:
                continue
            must[c] = may[c] = cat
        return must, may

    def judge(self, stnum, rows):
        case = self.case
        if stnum not in case['students']:
            self.report('C11', 'unknown', f'a request for unknown student {stnum!r} was queued')
            return
        must, may = self.due(stnum)
        if must is None:
            self.report('C10', 'failed_student', f'student {stnum} has an unusable record ({case["students"][stnum]["mode"]}) but requests {[r["area_code"] for r in rows]} were queued')
            return
        codes = [r['area_code'] for r in rows]
        if len(self.committed[stnum]) > 1:
            self.report('C10', 'split', f'the requests of student {stnum} became visible in {len(self.committed[stnum])} steps: {[[r["area_code"] for r in c] for c in self.committed[stnum]]}')
            allc = [r['area_code'] for c in self.committed[stnum] for r in c]
            if len(set(allc)) != len(allc):
                self.report('C11', 'twice', f'student {stnum}: requests {sorted(allc)} queued more than once')
        if len(set(codes)) != len(codes):
            self.report('C11', 'twice', f'student {stnum}: requests {sorted(codes)} contain a pair more than once')
        extra = [c for c in codes if c not in may]
        if extra:
            self.report('C11', 'not_due', f'student {stnum}: {extra} queued although not due (queued {case["queued"]}, blocked {case["blocked"]}, code filter {case["code"]})')
        missing = [c for c in must if c not in codes]
        if missing:
            self.report('C10', 'partial', f'student {stnum}: only {sorted(codes)} of {sorted(must)} were queued')
        for r in rows:
            c = r['area_code']
            if c in may and r['area_catalog'] not in may[c]:
                self.report('C11', 'catalog', f'student {stnum} area {c}: queued for catalog {r["area_catalog"]!r}, expected {sorted(may[c])}')
            if r['priority'] != 1:
                self.report('C11', 'priority', f'batch request at priority {r["priority"]}')
            if r['link_only']:
                self.report('C11', 'link_only', 'batch request is link-only')
            st, data = body(case['students'][stnum])
            if json.loads(r['input_data'].text) != json.loads(data.decode('utf-8')):
                self.report('C11', 'document', f'student {stnum}: the queued document is not the fetched one')
            ok = [case['run']] if case['run'] is not None else [(m or 0) + 1 for m in self.maxruns]
            if r['run'] not in ok:
                self.report('C11', 'run', f'batch request has run number {r["run"]}, expected {ok}')

    def seed(self):
        case = self.case
        now = self.db.clock()
        for k, run in enumerate(case['result_runs']):
            self.db.seed('result', {
                'student_id': 'x', 'area_code': 'y', 'catalog': 'z', 'run': run, 'input_data': '{}', 'link_only': True, 'result_version': 3, 'iterations': 1, 'duration': '1ms',
                'per_iteration': '1ms', 'rank': 1, 'max_rank': 2, 'result': '{}', 'ok': False, 'gpa': '0', 'status': 'empty', 'is_active': False, 'revision': k + 1})
        self.note_max()
        for st, c, v in case['queued']:
            self.db.seed('queue', {'priority': v['priority'], 'student_id': st, 'area_catalog': v['catalog'], 'area_code': c, 'input_data': '{}', 'run': v['run'], 'link_only': v['link_only'], 'ts': now - dt.timedelta(hours=v['hours'])})
        for i, (st, c) in enumerate(case['blocked']):
            self.db.seed('queue_block', {'student_id': st, 'area_code': c, 'added_by': ['me', 'sis', None][(i + len(case['ids'])) % 3], 'added_at': now - dt.timedelta(days=400 * (i % 3))})

    def other(self, op):
        import psycopg2

        def main():
            conn = psycopg2.connect('', application_name='other')
            with conn.cursor() as curs:
                if op['op'] == 'produce':
                    curs.execute("INSERT INTO queue (priority, student_id, area_catalog, area_code, input_data, run) VALUES (100, %(s)s, '2018-19', %(c)s, '{}', -1)", {'s': op['pair'][0], 'c': op['pair'][1]})
                elif op['op'] == 'hold':
                    # a worker at work on some of the waiting requests: in the end it gives them back
                    curs.execute('SELECT id FROM queue ORDER BY id FOR UPDATE SKIP LOCKED LIMIT %(n)s', {'n': op['n']})
                    time.sleep(20)
                    conn.rollback()
                elif op['op'] == 'consume':
                    curs.execute('DELETE FROM queue WHERE id IN (SELECT id FROM queue ORDER BY id FOR UPDATE SKIP LOCKED LIMIT %(n)s)', {'n': op['n']})
                else:
                    curs.execute("""INSERT INTO result (student_id, area_code, catalog, run, input_data, iterations, duration, per_iteration, rank, max_rank, result, ok, gpa, status, revision)
                        VALUES ('q', 'q', 'q', %(run)s, '{}', 1, '1ms', '1ms', 1, 1, '{}', true, 0, 'done', 1)""", {'run': op['run']})
            conn.commit()
            conn.close()
        return main

    def start(self):
        import dp.server.batch as b
        case, sim = self.case, self.sim
        sim.env['http'] = self.http
        sim.env['cpus'] = case['cpus']
        if case['knobs'].get('lines'):
            sim.env['trace_files'] = ['dp/server/batch.py']
        argv = ['batch'] + (['--run', str(case['run'])] if case['run'] is not None else []) + (['--code', case['code']] if case['code'] is not None else [])
        self.p = sim.process('batch', b.main, argv=argv, at=100, trace_files=sim.env.get('trace_files'))
        self.p.data['role'] = 'batch'
        self.p.data['server_notice_us'] = case['knobs'].get('notice_us', 0)
        for i, op in enumerate(case['others']):
            p = sim.process(f'o{i}', self.other(op), at=op['at'])
            p.data['role'] = 'other'
        sim.deadline = 3600 * S

    def finish(self):
        sim, case, p = self.sim, self.case, self.p
        if sim.failure is not None:
            return
        if sim.capped:
            sim.probe('capped')
            self.report('C10', 'stuck', f'the batch did not end within {sim.steps} steps')
            return
        if p.exit is None and not p.killed:
            self.report('C10', 'stuck', f'the batch never ended ({sim.now / 1e6:.0f} s)')
            return
        out = p.out()
        stored = sum(len(rows) for cs in self.committed.values() for rows in cs)
        fired = [f for f in sim.faults if f['fired']]
        drops = [f for f in fired if f['kind'] == 'conn_drop']
        stmts = [f for f in fired if f['kind'] == 'stmt_error']
        if p.killed:
            return
        if p.exit[0] != 'ok':
            if not drops:
                self.report('C10', 'died', f'the batch failed as a whole: {p.exit}')
            return
        m = re.findall(r'queued ([\d,]+) audits', out)
        total = int(m[-1].replace(',', '')) if m else None
        ambiguous = any(f['label'] in ('sql commit', 'any') for f in drops)
        lo = total
        if total != stored:
            slack = {stored}
            if ambiguous:
                slack |= {stored - len(rows) for cs in self.committed.values() for rows in cs}
            if total not in slack:
                self.report('C10', 'total', f'the batch reported {total} queued requests, {stored} are durably queued because of it')
        unexplained = []
        for i in case['ids']:
            must, may = self.due(i)
            got = self.committed.get(i)
            nul = case['students'][i]['mode'] == 'nul'
            if got is None and (must is None or must):
                if i not in out + p.err():
                    self.report('C10', 'unreported', f'student {i} got no requests ({case["students"][i]["mode"]}) and was not reported')
            if got is None and must and not nul:
                unexplained.append(i)
        if not drops and len(unexplained) > len(stmts):
            self.report('C10', 'lost_student', f'students {unexplained} got nothing although their records were fine ({len(stmts)} injected statement failures)')
            self.report('C11', 'missing', f'the due requests of students {unexplained} were not queued')
        if total == 0 and not stored:
            sim.probe('nothing_due')


def prepare():
    from sim import seams
    seams.import_dp()


def execute(ctx):
    w = BatchWorld(ctx)
    w.seed()
    w.start()
    ctx.run()
    w.finish()
