"""The audit queue: real workers (dp.server.worker), real audits, simulated PostgreSQL.

Serves C01-C09, C12, C13, C14, C24.
"""
import datetime as dt
import json
import os
import re
import shutil

from sim import corpus
from sim.core import HarnessError, US, current_task
from sim.harness import drop_each
from sim.schema import make_db

RULE = {
    '*': 'Random queue contents, producers, workers and faults from one seed; non-trivial: at least one worker commit changed the queue or the results.',
    'C12': 'Random stored results with expiries, clearing commands and workers; non-trivial: a worker or the clearing command committed a change.',
    'C13': 'Random what-if submissions (usable and unusable files) among workers; non-trivial: a worker committed or a what-if succeeded.',
    'C14': 'Random one-shot audits among workers; non-trivial: a worker committed or the command stored a result.',
}
REAL = ['dp.server.worker', 'dp.server.audit', 'dp.server.cli', 'dp.server.whatif', 'dp.server.clear_expired', 'dp.run', 'dp.audit and everything below it (rules, solutions, results)', 'file reads of area files (in a scratch directory)']
STUBS = ['PostgreSQL (sim.pgengine: MVCC, row locks, advisory locks, savepoints, LISTEN/NOTIFY, READ COMMITTED re-evaluation)', 'psycopg2 (sim.pgclient)', 'select/poll, clocks, sleep, process start and death']
ASSUMPTIONS = ['the table layout is the one the SQL in the repository implies (no schema is shipped)', 'a committed transaction survives every crash of a client; the database server itself does not lose commits',
               'a dead client connection is noticed by the server within a few seconds and its transaction rolled back']

S = US
YEARS = [2017, 2018, 2019, 2020]


# ------------------------------------------------------------------ generation
def generate(rng, prop, tier):
    deep = tier == 'thorough'
    nstud = rng.choice([1, 2, 2, 3]) if prop in ('C06', 'C09', 'C07', 'C02') else rng.choice([1, 2, 3, 4])
    codes = rng.sample(corpus.CODES, rng.choice([1, 2, 3]) if prop in ('C06', 'C07', 'C09', 'C02') else rng.choice([2, 3, 4]))
    areas = []
    for c in codes:
        for y in sorted(rng.sample(YEARS, rng.choice([1, 2, 3]))):
            areas.append([corpus.folder(y), c, 'ok', y])
    if prop == 'C24' or rng.random() < 0.2:
        for c in codes:
            for y in rng.sample([1998, 1999, 2000, 2015, 2021, 2022, 2030], 2):
                if rng.random() < 0.6:
                    areas.append([corpus.folder(y), c, 'ok', y])
        for f in rng.sample(['README', 'z-old', 'beta-2', '9', 'archive', 'draft-2019', '2018', '201'], 2):
            if rng.random() < 0.5:
                areas.append([f, rng.choice(corpus.CODES), 'noise', 0])
    bad_codes = rng.sample(sorted(corpus.BAD_AREAS), rng.randint(0, 2))
    for c in bad_codes:
        areas.append([corpus.folder(2018), c, 'bad', 2018])
    if rng.random() < 0.2:
        areas.append([corpus.folder(2018), '994', 'yaml', 2018])
        bad_codes.append('994')
    seen, uniq = set(), []
    for a in areas:
        if (a[0], a[1]) not in seen:
            seen.add((a[0], a[1]))
            uniq.append(a)
    areas = uniq

    docs = []
    for i in range(nstud):
        for rev in range(rng.choice([1, 1, 2])):
            d = corpus.gen_student(rng, str(100000 + i), areas=rng.sample(codes, rng.randint(1, len(codes))), n=rng.randint(2, 6))
            docs.append({'stnum': str(100000 + i), 'doc': d, 'bad': None})
    p_bad = {'C03': 0.35, 'C01': 0.2, 'C02': 0.25, 'C05': 0.1}.get(prop, 0.1)

    def entry():
        d = rng.choice([i for i, x in enumerate(docs) if x['bad'] is None])
        code = rng.choice(codes)
        cat_year = rng.choice(YEARS + ([1999, 2000, 2001, 2014, 2025] if prop == 'C24' else [2021]))
        e = {'priority': rng.choice([1, 1, 1, 2, 100, 0, -5]), 'stnum': docs[d]['stnum'], 'catalog': corpus.folder(cat_year) if rng.random() < 0.7 else str(cat_year), 'code': code,
             'doc': d, 'run': rng.choice([1, 7, 7, -1, None, 0]), 'expires': rng.choice([None, None, -3600, 5, 86400]),
             'link_only': rng.random() < (0.5 if prop == 'C07' else 0.2)}
        if rng.random() < p_bad:
            how = rng.choice(['doc', 'area', 'missing', 'catalog', 'jsonnull', 'reject'])
            if how == 'doc':
                bd, k = corpus.corrupt(rng, docs[d]['doc'])
                docs.append({'stnum': e['stnum'], 'doc': bd, 'bad': k})
                e['doc'] = len(docs) - 1
            elif how == 'area' and bad_codes:
                e['code'] = rng.choice(bad_codes)
                e['catalog'] = '2019-20'
            elif how == 'catalog':
                e['catalog'] = rng.choice(['current', '', 'x-19'])
            elif how == 'reject':
                # auditable, but the database refuses the row
                k = rng.choice(['nul', 'surrogate', 'longclass'])
                bd = json.loads(json.dumps(docs[d]['doc']))
                bd['name'] = {'nul': 'a\u0000b', 'surrogate': 'x\ud800y', 'longclass': None}[k] if k != 'longclass' else ['not', {'a': 'string'}]
                docs.append({'stnum': e['stnum'], 'doc': bd, 'bad': 'reject_' + k})
                e['doc'] = len(docs) - 1
            elif how == 'jsonnull':
                docs.append({'stnum': e['stnum'], 'doc': None, 'bad': 'null'})
                e['doc'] = len(docs) - 1
            else:
                e['code'] = '777'
        return e

    n = rng.randint(3, 10 if deep else 7)
    ops = []
    seedq = []
    t = 0
    for i in range(n):
        if rng.random() < 0.25:
            seedq.append(entry())
            continue
        t += rng.choice([0, 0, 1000, 50000, S, 4 * S, 12 * S]) if rng.random() < 0.8 else rng.randint(0, 8 * S)
        rows = [entry() for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        ops.append({'op': 'insert', 'at': t, 'rows': rows, 'hold': rng.choice([0, 0, 0, 20000, S]), 'abort': rng.random() < 0.05})
    if prop in ('C06', 'C07', 'C09', 'C08') and rng.random() < 0.7 and (seedq or ops):
        # provoke repeats of the same request
        base = [r for o in ops for r in o['rows']] + seedq
        for _ in range(rng.choice([1, 2, 3])):
            r = dict(rng.choice(base))
            r['link_only'] = rng.random() < 0.3
            if rng.random() < 0.3:
                r['catalog'] = corpus.folder(rng.choice(YEARS))
            ops.append({'op': 'insert', 'at': rng.choice([0, t, rng.randint(0, t + S)]), 'rows': [r], 'hold': 0, 'abort': False})
    if prop in ('C01', 'C05') and rng.random() < 0.3:
        ops.append({'op': 'admin', 'at': rng.randint(0, t + S), 'hold': rng.choice([10000, S, 3 * S]), 'what': rng.choice(['lock', 'bump', 'delete'])})
    if prop == 'C12' or rng.random() < 0.1:
        for _ in range(rng.choice([1, 2])):
            ops.append({'op': 'clear', 'at': rng.randint(0, t + 10 * S)})
    if prop == 'C13' or rng.random() < 0.1:
        for _ in range(rng.choice([1, 2]) if prop == 'C13' else 1):
            d = rng.randrange(nstud)
            good = [i for i, x in enumerate(docs) if x['bad'] is None]
            d = rng.choice(good)
            ops.append({'op': 'whatif', 'at': rng.randint(0, t + 8 * S), 'doc': d, 'code': rng.choice(codes), 'catalog': rng.choice([2018, 2019, 1999]),
                        'file': rng.choice(['ok'] * 6 + ['missing', 'trunc', 'nostnum', 'badutf'])})
    if prop == 'C14' or rng.random() < 0.1:
        for _ in range(rng.choice([1, 2]) if prop == 'C14' else 1):
            good = [i for i, x in enumerate(docs)]
            a = rng.choice([x for x in areas if x[2] in ('ok', 'bad', 'yaml')])
            ops.append({'op': 'cli', 'at': rng.randint(0, t + 8 * S), 'doc': rng.choice(good), 'area': [a[0], a[1]], 'run': rng.choice([None, 5, 0]), 'flag': rng.random() < 0.5, 'by_link': rng.random() < 0.3,
                        'missing': rng.random() < 0.1})
    ops.sort(key=lambda o: o['at'])
    seeds = []
    for _ in range(rng.choice([0, 2, 4, 6]) if prop in ('C02', 'C06', 'C07', 'C09', 'C12') else rng.choice([0, 0, 2])):
        d = rng.choice([x for x in docs if x['bad'] is None])
        seeds.append({'stnum': d['stnum'], 'code': rng.choice(codes), 'catalog': corpus.folder(rng.choice(YEARS)), 'age': rng.choice([1, 60, 86400, 90000]), 'expires': rng.choice([None, -10, -3600, 3600]),
                      'link_only': rng.random() < 0.25, 'ref': docs.index(d) if rng.random() < 0.5 else None, 'content': rng.randint(0, 2)})

    nw = rng.choice([1, 2, 2, 3]) if prop != 'C05' else rng.choice([1, 2, 3])
    workers = [{'at': rng.choice([0, 0, 0, rng.randint(0, t + S)])} for _ in range(nw)]
    if rng.random() < 0.4:
        workers.append({'at': rng.randint(S, t + 20 * S)})
    faults = []
    if rng.random() < (0.8 if prop in ('C01', 'C02', 'C04') else 0.45):
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = rng.randrange(len(workers))
            kind = rng.choice(['crash', 'crash', 'crash', 'conn_drop', 'stall', 'stmt_error'] + (['io_error', 'io_error'] if prop in ('C08', 'C24') else []) if prop != 'C03' else ['stmt_error', 'stmt_error', 'crash', 'io_error', 'stall', 'conn_drop'])
            f = {'proc': f'w{w}', 'kind': kind}
            if kind in ('crash', 'conn_drop'):
                if rng.random() < 0.6:
                    f.update(label='any', nth=rng.randint(1, 60))
                else:
                    f.update(label=rng.choice(['sql delete queue', 'sql commit', 'sql insert result', 'sql update result', 'sql delete result', 'select', 'sql begin', 'sql listen', 'sql savepoint', 'open']), nth=rng.randint(1, 4))
                f['phase'] = rng.choice(['before', 'after'])
            elif kind == 'stall':
                f.update(label='any', nth=rng.randint(1, 60), us=rng.choice([200000, 2 * S, 7 * S, 30 * S]))
            elif kind == 'io_error':
                f.update(label=rng.choice(['open', 'listdir']), nth=rng.randint(1, 4), errno=rng.choice([5, 13, 24]))
            else:
                f.update(label=rng.choice(['sql insert result', 'sql update result', 'sql delete result', 'sql select']), nth=rng.randint(1, 4), code=rng.choice(['57014', '53100', '23505', '40001', '22P02']))
            faults.append(f)
    if prop in ('C01', 'C04') and rng.random() < 0.3:
        # a worker hangs for long in the middle of an audit, while the others see an empty queue again and again, and then dies
        at = {'proc': f'w{rng.randrange(len(workers))}', 'label': rng.choice(['sql insert result', 'sql insert result', 'sql commit', 'sql select', 'sql savepoint']), 'nth': rng.choice([1, 1, 2, 3])}
        faults.append({**at, 'kind': 'stall', 'us': rng.choice([12 * S, 33 * S, 100 * S])})
        faults.append({**at, 'kind': rng.choice(['crash', 'crash', 'conn_drop']), 'phase': 'before'})
    for i, o in enumerate(ops):
        if o['op'] in ('clear', 'whatif', 'cli') and rng.random() < (0.75 if prop in ('C12', 'C13', 'C14') else 0.4):
            k = rng.choice(['crash', 'crash', 'conn_drop', 'stmt_error', 'stall', 'io_error'])
            f = {'proc': f'{o["op"]}{i}', 'kind': k, 'label': 'any', 'nth': rng.randint(1, 12), 'phase': rng.choice(['before', 'after'])}
            if k == 'stmt_error':
                f['label'] = rng.choice({'clear': ['sql delete result'], 'whatif': ['sql insert queue'], 'cli': ['sql insert result', 'sql select']}[o['op']])
                f['nth'] = 1
            if k in ('crash', 'conn_drop') and rng.random() < 0.5:
                f['label'] = rng.choice(['sql commit', 'sql commit', {'clear': 'sql delete result', 'whatif': 'sql insert queue', 'cli': 'sql insert result'}[o['op']]])
                f['nth'] = 1
            if k == 'io_error':
                f['label'] = 'open'
                f['nth'] = rng.choice([1, 2])
            if k == 'stall':
                f['us'] = rng.choice([S, 10 * S])
            faults.append(f)
    if rng.random() < (0.5 if prop in ('C08', 'C24') else 0.1):
        # area files are corrected, and new catalogs published, while the workers run
        for r in range(rng.choice([1, 1, 2, 3])):
            oks = [a for a in areas if a[2] == 'ok']
            if rng.random() < 0.6:
                a = list(rng.choice(oks))
            else:
                y = rng.choice(YEARS + [2016, 2021])
                a = [corpus.folder(y), rng.choice(codes), 'ok', y]
            ops.append({'op': 'publish', 'at': rng.randint(0, t + 3 * S), 'area': a + [r + 1]})
    if prop == 'C24' and rng.random() < 0.4:
        ops.append({'op': 'unlink', 'at': rng.randint(0, t + 3 * S), 'n': rng.randint(0, 5)})
        ops.append({'op': 'vanish', 'nth': rng.randint(1, 4), 'at': 0})
    knobs = {
        'stick': rng.choice([0.0, 0.2, 0.5, 0.9]), 'latency': rng.choice([[0, 0], [0, 2000], [100, 50000], [1000, 400000]]),
        'reverse_scan': rng.random() < 0.3, 'notice_us': rng.choice([0, 0, 0, 300000, 2 * S]), 'dir_order': rng.choice([0, 1, 2, 3, 4]),
        'skew': [[rng.randint(0, t + 10 * S), rng.choice([-3600, -2, 3, 86400 * 2])]] if prop == 'C12' and rng.random() < 0.15 else [],
        'max_steps': 12000,
    }
    decoys = []
    if rng.random() < (0.4 if prop == 'C24' else 0.1):
        for c in codes:
            for y in rng.sample(YEARS, 2):
                decoys.append([corpus.folder(y), rng.choice([c + '0.yaml', c + '-draft.yaml', '0' + c + '.yaml', c + '.yml', c + '.yaml~', c + '.old.yaml', '.' + c + '.yaml'])])
    return {'areas': areas, 'docs': docs, 'decoys': decoys, 'seed_queue': seedq, 'seed_results': seeds, 'ops': ops, 'workers': workers, 'faults': faults, 'knobs': knobs}


def reductions(case):
    for key in ('faults', 'ops', 'seed_results', 'seed_queue', 'workers'):
        yield from drop_each(case, key)
    for i, o in enumerate(case['ops']):
        if o['op'] == 'insert' and len(o['rows']) > 1:
            for j in range(len(o['rows'])):
                yield {**case, 'ops': case['ops'][:i] + [{**o, 'rows': o['rows'][:j] + o['rows'][j + 1:]}] + case['ops'][i + 1:]}
    if case['knobs'].get('latency') != [0, 0]:
        yield {**case, 'knobs': {**case['knobs'], 'latency': [0, 0]}}
    for d, x in enumerate(case['docs']):
        doc = x['doc']
        if isinstance(doc, dict) and len(doc.get('courses', ())) > 1:
            nd = {**doc, 'courses': doc['courses'][:len(doc['courses']) // 2]}
            yield {**case, 'docs': case['docs'][:d] + [{**x, 'doc': nd}] + case['docs'][d + 1:]}


# ------------------------------------------------------------------ independent lookup
def lookup(areas, code, catalog):
    """the folder whose file must be used, or None: newest not newer than the requested year"""
    try:
        year = int(catalog.split('-')[0])
    except ValueError:
        return 'badcatalog'
    best = None
    for f, c, kind, y in areas:
        if c != code or kind == 'noise':
            continue
        if y <= year and (best is None or y > best[3]):
            best = [f, c, kind, y]
    return best


def spec_of(a, rev=0):
    if a[2] == 'bad':
        return corpus.BAD_AREAS[a[1]]
    if a[2] == 'yaml':
        return 'name: [unclosed\n  - {'
    spec = corpus.variant(a[1], a[3])
    if rev:
        spec['name'] += f' rev. {rev}'
    return spec


def placeholder(code):
    return {'name': code, 'type': 'error', 'code': code, 'result': {'all': [{
        'name': 'Error', 'message': f'The {code!r} area specification for this catalog year has not yet been transcribed.', 'department_audited': True}]}}


# ------------------------------------------------------------------ the world
class QueueWorld:
    def __init__(self, ctx):
        self.ctx = ctx
        self.case = ctx.case
        self.sim = ctx.sim
        self.focus = ctx.focus
        self.db = make_db(ctx)
        self.root = os.path.join(ctx.mkscratch(), 'areas')
        os.makedirs(self.root)
        self.sim.env['fs_root'] = ctx.scratch
        self.sim.env['dir_order'] = self.case['knobs'].get('dir_order', 0)
        self.areas = self.case['areas']
        self.paths = {}
        for a in self.areas:
            if a[2] == 'noise':
                self.paths[(a[0], a[1])] = corpus.write_area(self.root, a[0], a[1], {'name': 'noise', 'type': 'concentration', 'code': a[1], 'result': {'all': [{'course': 'NOISE 100'}]}})
            else:
                self.paths[(a[0], a[1])] = corpus.write_area(self.root, a[0], a[1], spec_of(a))
        # files beside them that are named almost like an area, but are none
        for f, name in self.case.get('decoys', []):
            os.makedirs(os.path.join(self.root, f), exist_ok=True)
            shutil.copy(corpus.write_area(self.ctx.scratch, 'decoy', 'd', {'name': 'decoy', 'type': 'concentration', 'code': name.split('.')[0], 'result': {'all': [{'course': 'DECOY 100'}]}}), os.path.join(self.root, f, name))
        self.changed_files = False
        self.vanish = {}
        self.refs = {}
        self.published = [(-1, [a[0], a[1], a[2], a[3], 0]) for a in self.areas]      # (since, folder, code, kind, year, revision)
        self.idle_for = {}          # (worker, qid) -> us it sat idle while the request was available
        self.entries = {}           # queue id -> info
        self.txinfo = {}            # txn -> dict
        self.avail = {}             # qid -> since
        self.held = {}              # qid -> txn
        self.stmt = {}              # session -> Exec context of the running statement
        self.worker_idle = {}       # proc -> since (None: busy)
        self.pending_log = {}       # proc -> qid
        self.errlogs = {}           # proc -> count of >=ERROR records
        self.last_official = {}     # (s, a) -> result id
        self.done = 0
        self.tools = {}
        self.results_by_entry = {}
        self.install()

    def report(self, prop, cls, msg):
        self.ctx.report(prop, cls, msg)

    # -- hooks
    def install(self):
        db = self.db
        db.on_commit.append(self.on_commit)
        db.on_end.append(self.on_end)
        db.on_lock.append(self.on_lock)
        db.on_stmt.append(self.on_stmt)
        db.on_write.append(self.on_write)
        db.on_wait.append(self.on_wait)
        self.sim.on_advance.append(self.on_advance)
        self.sim.on_log.append(self.on_log)

    @staticmethod
    def role(session):
        return session.owner.data.get('role') if session.owner is not None else None

    def on_stmt(self, session, ex, kind, st):
        held = set()
        for row in self.db.tables['queue'].rows:
            if ex.row_holders(row):
                held.add(row.rid)
        self.stmt[session] = (ex, held)
        if self.role(session) == 'clear':
            self.clear_stmt(session, ex)

    def on_wait(self, session, what):
        if what == 'queue' and self.role(session) == 'worker':
            holders = session.waiting() if session.waiting else []
            if any(getattr(h, 'session', h).owner is not None and self.role(getattr(h, 'session', h)) == 'worker' for h in holders):
                self.report('C05', 'waited', f'worker {session.owner.name} waits for a queue row another worker holds')
        self.sim.probe('lockwait_' + str(what))

    def note_held(self, session, rid):
        for s, (ex, held) in self.stmt.items():
            if s is not session:
                held.add(rid)

    def on_lock(self, session, ex, row, ver):
        if row.table.name != 'queue':
            return
        self.note_held(session, row.rid)
        if self.role(session) != 'worker':
            self.avail.pop(ver.vals['id'], None)
            self.held.setdefault(ver.vals['id'], session.txn)
            return
        self.take(session, ex, row, ver.vals)

    def on_write(self, session, kind, table, old, new):
        if table == 'queue' and kind == 'delete' and self.role(session) == 'worker':
            pass    # deleting locks the row first: on_lock has seen it
        if table == 'result' and kind == 'insert':
            key = (new['student_id'], new['area_code'])
            info = self.info(session.txn)
            mine = info.setdefault('revs', [])
            mine.append((new['id'], self.rev_options(session.txn, key)))
            info.setdefault('inserted_at', []).append(self.db.clock())

    def rev_options(self, txn, key):
        """acceptable revision numbers for a row inserted right now"""
        com, own = 0, 0
        for row in self.db.tables['result'].rows:
            v = row.committed
            if v is not None and (v['student_id'], v['area_code']) == key:
                com = max(com, v['revision'])
                gone = any(x.xmax is not None and x.xmax.top is txn and not x.xmax.is_aborted() and x.vals is v for x in row.vers)
                upd = gone and any(x.xmin.top is txn and not x.xmin.is_aborted() for x in row.vers)
                if not gone or upd:
                    own = max(own, v['revision'])
        return [com + 1, own + 1]

    def info(self, txn):
        d = self.txinfo.get(id(txn))
        if d is None:
            d = self.txinfo[id(txn)] = {'takes': [], 'txn': txn, 'proc': txn.session.owner}
        return d

    def take(self, session, ex, row, vals):
        txn = session.txn
        info = self.info(txn)
        qid = vals['id']
        if qid in [t['id'] for t in info['takes']]:
            return
        proc = session.owner
        self.flush_pending(proc)
        info['takes'].append(dict(vals))
        info.setdefault('t0', self.db.clock())
        info.setdefault('errlogs0', {})[qid] = self.errlogs.get(proc.name, 0)
        e = self.entries.get(qid)
        if e is None:
            raise HarnessError(f'take of unknown queue id {qid}')
        e['takes'] += 1
        proc.data['cur'] = e
        info.setdefault('take_us', {})[qid] = self.sim.now
        self.held[qid] = txn
        self.avail.pop(qid, None)
        self.worker_idle[proc] = None
        self.sim.event('take', q=qid)
        # C05
        held = self.stmt.get(session, (None, set()))[1]
        for r in self.db.tables['queue'].rows:
            if r is row or r.rid in held or txn in r.lockers:
                continue
            v = next((v for v in reversed(r.vers) if ex.visible(v)), None)
            if v is None:
                continue
            cur = ex.latest(r)
            if cur is None or (cur.xmax is not None and not cur.xmax.is_aborted()):
                continue
            a, b = v.vals, vals
            if a['priority'] > b['priority'] or (a['priority'] == b['priority'] and a['ts'] < b['ts']):
                self.report('C05', 'order', f'{proc.name} took request {b["id"]} (priority {b["priority"]}, {b["ts"]}) although {a["id"]} (priority {a["priority"]}, {a["ts"]}) was waiting and free')

    # -- transaction ends
    def on_end(self, txn, committed):
        s = txn.session
        self.stmt.pop(s, None)
        for qid, t in list(self.held.items()):
            if t is txn:
                del self.held[qid]
                if not committed:
                    self.make_available(qid)
                else:
                    self.make_available(qid)
        if self.role(s) == 'worker':
            info = self.txinfo.get(id(txn))
            proc = s.owner
            if info and info['takes'] and not committed:
                dead = proc.killed or s.dead
                self.sim.probe('attempt_lost' if dead else 'attempt_rolled_back')
                if not dead:
                    for t in info['takes']:
                        self.report('C03', 'returned', f'{proc.name} gave request {t["id"]} back to the queue instead of finishing it (its transaction was rolled back although the connection is fine)')
            if proc.alive() and not s.dead:
                self.worker_idle[proc] = self.sim.now

    def make_available(self, qid):
        for r in self.db.tables['queue'].rows:
            if r.committed is not None and r.committed['id'] == qid:
                self.available(qid)
                return

    def available(self, qid):
        self.avail[qid] = self.sim.now
        for k in [k for k in self.idle_for if k[1] == qid]:
            del self.idle_for[k]

    # -- what the area folder holds
    def candidates(self, code, catalog, since):
        """the specifications a look into the area folder may have given between then and now: [folder, code, kind, year, revision], None or 'badcatalog'"""
        times = [since] + [t for t, a in self.published if t > since]
        out = []
        for i, t1 in enumerate(times):
            a = lookup([x[:4] for t, x in self.published if t <= t1], code, catalog)
            if not isinstance(a, list):
                out.append(a)
                continue
            for t2 in times[i:]:
                out.append([x for t, x in self.published if t <= t2 and x[:2] == a[:2]][-1])
        return [x for i, x in enumerate(out) if x not in out[:i]]

    def publish(self, op):
        """an area file is replaced by a newer version, or appears"""
        self.sim.point('publish')
        folder, code, kind, year, rev = op['area']
        tmp = corpus.write_area(self.ctx.scratch, 'tmp', f'{code}.{rev}', spec_of(op['area'], rev), mtime=rev)
        os.makedirs(os.path.join(self.root, folder), exist_ok=True)
        self.published.append((self.sim.now, list(op['area'])))
        os.replace(tmp, os.path.join(self.root, folder, code + '.yaml'))
        self.sim.event('publish', area=op['area'])
        self.sim.probe('area_published')

    def on_commit(self, txn, changes):
        role = self.role(txn.session)
        proc = txn.session.owner
        Q = [(o, n) for t, rid, o, n in changes if t == 'queue']
        R = [(o, n) for t, rid, o, n in changes if t == 'result']
        for o, n in Q:
            if o is None and n is not None:
                self.entries[n['id']] = dict(n, takes=0, by=proc.name if proc else 'seed', at=self.sim.now)
                self.available(n['id'])
            elif n is None:
                self.avail.pop(o['id'], None)
                self.entries[o['id']]['gone'] = role
            else:
                self.entries[n['id']].update(n)
        if role == 'worker':
            self.worker_commit(txn, proc, Q, R)
        elif role == 'clear':
            self.clear_commit(txn, proc, R)
        elif role == 'cli':
            self.cli_commit(txn, proc, Q, R)
        elif role == 'whatif':
            self.tools[proc.name].setdefault('rows', []).extend(n for o, n in Q if o is None)
            for o, n in Q:
                if o is not None:
                    self.report('C13', 'touched', f'what-if changed another request: {o["id"]}')
            if R:
                self.report('C13', 'touched', 'what-if changed stored results')
        if R:
            self.check_results(txn, proc, role, R)
        info = self.txinfo.pop(id(txn), None)

    def worker_commit(self, txn, proc, Q, R):
        info = self.txinfo.get(id(txn)) or {'takes': []}
        D = [o for o, n in Q if n is None]
        if any(o is None for o, n in Q) or any(o is not None and n is not None for o, n in Q):
            self.report('C01', 'queue_write', f'{proc.name} inserted or changed queue rows while processing')
        I = [n for o, n in R if o is None]
        X = [o for o, n in R if n is None]
        U = [(o, n) for o, n in R if o is not None and n is not None]
        if not (D or I or X or U):
            return
        self.ctx.nontrivial = True
        # exactly one result per removed request, in the same commit
        left = list(D)
        pairs = []
        for n in I:
            m = None
            for d in left:
                if (d['area_code'], d['area_catalog'], d['link_only'], d['run']) == (n['area_code'], n['catalog'], n['link_only'], n['run']) and d['student_id'] == n['student_id']:
                    m = d
                    break
            if m is None and left:
                m = left[0]       # some fields wrong: C08's business
            if m is None:
                self.report('C01', 'extra_result', f'{proc.name} stored result {n["id"]} for {n["student_id"]}/{n["area_code"]} without removing a request in the same step')
                self.report('C02', 'split', f'{proc.name} stored result {n["id"]} in a commit that removes no request')
            else:
                left.remove(m)
                pairs.append((m, n))
        if (X or U) and not I:
            self.report('C02', 'partial', f'{proc.name} changed earlier results ({len(X)} deleted, {len(U)} updated) without storing a new one')
        if (X or U) and not D:
            self.report('C02', 'split', f'{proc.name} changed results in a commit that removes no request')
        if len(I) > len(D):
            self.report('C01', 'extra_result', f'{proc.name}: {len(I)} results stored for {len(D)} removed requests in one commit')
        for d in left:
            e = self.entries[d['id']]
            why = self.excuse(e, info, proc)
            if why is None:
                self.report('C01', 'lost', f'request {d["id"]} ({d["student_id"]} {d["area_catalog"]}/{d["area_code"]}) was removed by {proc.name} without a result although nothing was wrong with it')
                self.report('C03', 'good_dropped', f'request {d["id"]} is fine but was dropped')
                self.report('C24', 'not_used', f'request {d["id"]} ({d["area_catalog"]}/{d["area_code"]}) was dropped although there is an area file for it')
            else:
                self.sim.probe('dropped_' + why)
                self.entries[d['id']]['dropped'] = why
                if self.errlogs.get(proc.name, 0) <= info.get('errlogs0', {}).get(d['id'], 0):
                    self.pending_log[proc.name] = d['id']
        links = [d for d, n in pairs if d['link_only']]
        if links and len(links) == len(pairs) == len(D):
            if X or U:
                self.report('C07', 'disturbed', f'link-only request {links[0]["id"]} changed other results: deleted {[o["id"] for o in X]}, updated {[o["id"] for o, n in U]}')
        for d, n in pairs:
            self.done += 1
            self.sim.probe('stored_link_only' if d['link_only'] else 'stored')
            self.results_by_entry[d['id']] = n['id']
            if d['link_only']:
                if n['is_active'] or not n['link_only']:
                    self.report('C07', 'active_link', f'link-only request {d["id"]} stored as is_active={n["is_active"]} link_only={n["link_only"]}')
            else:
                if n['link_only'] or not n['is_active']:
                    self.report('C07', 'official_flags', f'official request {d["id"]} stored as is_active={n["is_active"]} link_only={n["link_only"]}')
                    self.report('C06', 'not_active', f'official result {n["id"]} stored inactive')
                self.last_official[(n['student_id'], n['area_code'])] = n['id']
            self.faithful(d, n, info, proc, txn)
        officials = [n for d, n in pairs if not d['link_only']]
        for o in X:
            ok = any(o['student_id'] == n['student_id'] and o['catalog'] == n['catalog'] and o['area_code'] == n['area_code'] and o['result'] == n['result'] for n in officials)
            if not ok:
                self.report('C09', 'removed_other', f'result {o["id"]} ({o["student_id"]} {o["catalog"]}/{o["area_code"]}) was deleted although it is not an identical copy of the new result')
            else:
                self.sim.probe('identical_replaced')
        for o, n in U:
            diff = [c for c in o if o[c] != n[c]]
            ok = diff == ['is_active'] and o['is_active'] is True and n['is_active'] is False and any((o['student_id'], o['area_code']) == (m['student_id'], m['area_code']) for m in officials)
            if not ok and I:
                self.report('C02', 'other_update', f'{proc.name} changed columns {diff} of result {o["id"]}')
            if o['link_only'] and diff:
                self.report('C07', 'link_updated', f'link-only result {o["id"]} changed: {diff}')
            if n['link_only'] and n['is_active']:
                self.report('C07', 'active_link', f'link-only result {n["id"]} became active')
            else:
                self.sim.probe('deactivated')
        for n in officials:
            for r in self.db.tables['result'].rows:
                v = r.committed
                if v is not None and v['id'] != n['id'] and not v['link_only'] and (v['student_id'], v['catalog'], v['area_code']) == (n['student_id'], n['catalog'], n['area_code']) and v['result'] == n['result']:
                    self.report('C09', 'duplicate', f'official results {v["id"]} and {n["id"]} of {n["student_id"]} {n["catalog"]}/{n["area_code"]} have the same content')

    def check_results(self, txn, proc, role, R):
        """C06: at most one active; revisions"""
        info = self.txinfo.get(id(txn)) or {}
        keys = {((n or o)['student_id'], (n or o)['area_code']) for o, n in R}
        for key in sorted(keys):
            rows = [r.committed for r in self.db.tables['result'].rows if r.committed is not None and (r.committed['student_id'], r.committed['area_code']) == key]
            act = [v for v in rows if v['is_active']]
            if len(act) > 1:
                self.report('C06', 'two_active', f'{key}: results {[v["id"] for v in act]} are all active')
            last = self.last_official.get(key)
            if last is not None:
                present = any(v['id'] == last for v in rows)
                if present and [v['id'] for v in act] != [last]:
                    self.report('C06', 'wrong_active', f'{key}: last official result is {last}, active: {[v["id"] for v in act]}')
                if not present and act:
                    self.report('C06', 'wrong_active', f'{key}: last official result {last} is gone, active: {[v["id"] for v in act]}')
                if role == 'worker' and any(n is None and o['id'] == last for o, n in R):
                    self.report('C06', 'last_gone', f'{key}: the last official result {last} was removed by {proc.name}')
            revs = [v['revision'] for v in rows]
            if len(set(revs)) != len(revs):
                self.report('C06', 'dup_revision', f'{key}: two results share a revision: {sorted(revs)}')
        opts = dict(info.get('revs', []))
        for o, n in R:
            if o is None:
                key = (n['student_id'], n['area_code'])
                rest = [r.committed['revision'] for r in self.db.tables['result'].rows if r.committed is not None and (r.committed['student_id'], r.committed['area_code']) == key and r.committed['id'] != n['id']]
                gone = [x['revision'] for x, y in R if y is None and (x['student_id'], x['area_code']) == key]
                ok = set(opts.get(n['id'], ())) | {max(rest, default=0) + 1, max(rest + gone, default=0) + 1}
                if n['revision'] not in ok:
                    self.report('C06', 'revision', f'{key}: result {n["id"]} got revision {n["revision"]}, expected {sorted(ok)}')

    # -- is a request allowed to fail?
    def excuse(self, e, info, proc):
        d = self.doc_of(e)
        if d is None:
            return None
        if d['bad']:
            return 'bad_doc'
        since = info.get('take_us', {}).get(e['id'], self.sim.now)
        cands = self.candidates(e['area_code'], e['area_catalog'], since)
        for a in cands:
            if a == 'badcatalog':
                return 'bad_catalog'
            if a is None:
                return 'no_area'
            if a[2] in ('bad', 'yaml'):
                return 'bad_area'
        if self.changed_files:
            return 'files_changed'
        for ev in reversed(self.sim.events):
            if ev[3] == 'take' and ev[2] == proc.name:
                break
            if ev[3] == 'fault' and ev[4].get('proc') == proc.name and ev[4].get('fault') in ('stmt_error', 'io_error'):
                return 'injected'
            if ev[3] == 'sql_error' and ev[2] == proc.name and ev[4].get('code') == '40P01':
                return 'deadlock'
        if any('bad' in self.ref(a, d['i']) for a in cands):
            return 'refused'
        return None

    def doc_of(self, e):
        k = json.dumps(e['input_data'].obj if hasattr(e['input_data'], 'obj') else json.loads(e['input_data'].text), sort_keys=True)
        return self.docs_by_json.get(k)

    # -- C08 / C24
    def ref(self, a, i):
        """what a fresh process gives for document i against that specification (or the placeholder for that code)"""
        from sim.reference import fresh
        k = (tuple(a) if isinstance(a, list) else a, i)
        if k not in self.refs:
            spec = spec_of(a, a[4]) if isinstance(a, list) else placeholder(a)
            self.refs[k] = fresh(json.loads(self.doc_text(i)), spec)
        return self.refs[k]

    def faithful(self, d, n, info, proc, txn):
        if self.focus not in ('C08', 'C24'):
            return
        same = [('student_id', 'student_id'), ('area_code', 'area_code'), ('area_catalog', 'catalog'), ('run', 'run'), ('expires_at', 'expires_at'), ('link_only', 'link_only')]
        for q, r in same:
            if d[q] != n[r]:
                self.report('C08', 'field_' + r, f'request {d["id"]} has {q}={d[q]!r} but its result has {r}={n[r]!r}')
        if d['input_data'] != n['input_data']:
            self.report('C08', 'field_input', f'the stored input document of request {d["id"]} is not the queued one')
        dd = self.doc_of(d)
        cands = self.candidates(d['area_code'], d['area_catalog'], info.get('take_us', {}).get(d['id'], self.sim.now))
        refs = [self.ref(a, dd['i']) for a in cands if isinstance(a, list) and a[2] == 'ok'] if dd is not None else []
        if dd is not None and self.changed_files:
            refs.append(self.ref(d['area_code'], dd['i']))
            # which file was current when the worker looked is unknown: any version present at some time is fine
            refs += [self.ref(x, dd['i']) for t, x in self.published if x[1] == d['area_code'] and x[2] == 'ok']
        if not refs:
            if dd is not None and None in cands and not self.changed_files:
                self.report('C24', 'no_area', f'request {d["id"]} for {d["area_catalog"]}/{d["area_code"]} got a result although no catalog folder qualifies')
            return
        if len(cands) > 1:
            self.sim.probe('published_meanwhile')
        diffs = [compare_outcome(n, r) for r in refs]
        if not any(x is None for x in diffs):
            self.report('C08', 'outcome_' + diffs[0][0], f'request {d["id"]} ({d["student_id"]} {d["area_catalog"]}/{d["area_code"]}): {diffs[0][1]}')
            if diffs[0][0] in ('name', 'result'):
                got = json.loads(n['result'].text).get('name')
                want = [r['result'].get('name') for r in refs if 'result' in r]
                if got not in want:
                    self.report('C24', 'wrong_file', f'request {d["id"]} for {d["area_catalog"]}/{d["area_code"]} used specification {got!r}, expected {want}')
        t0 = info.get('t0')
        if t0 is not None and not self.case['knobs'].get('skew'):
            t1 = self.db.clock()
            if not (txn.start <= n['ts'] <= t1) or n['ts'] < t0:
                self.report('C08', 'timestamp', f'result of request {d["id"]} has timestamp {n["ts"]}, outside its attempt {t0} .. {t1}')

    # -- clear_expired
    def clear_stmt(self, session, ex):
        tool = self.tools[session.owner.name]
        if 'eligible' not in tool:
            tool['eligible'] = self.eligible(session.txn.start)
            tool['start'] = session.txn.start

    def eligible(self, now):
        rows = [r.committed for r in self.db.tables['result'].rows if r.committed is not None]
        top = {}
        for v in rows:
            k = (v['student_id'], v['catalog'], v['area_code'])
            if k not in top or v['ts'] > top[k]:
                top[k] = v['ts']
        return {v['id'] for v in rows if v['expires_at'] is not None and v['expires_at'] <= now and v['ts'] < top[(v['student_id'], v['catalog'], v['area_code'])]}

    def clear_commit(self, txn, proc, R):
        tool = self.tools[proc.name]
        gone = [o for o, n in R if n is None]
        if any(n is not None for o, n in R):
            self.report('C12', 'changed', 'clearing changed or added results')
        tool.setdefault('deleted', []).extend(o['id'] for o in gone)
        now = self.db.clock()
        rows = [r.committed for r in self.db.tables['result'].rows if r.committed is not None]
        for o in gone:
            if o['expires_at'] is None:
                self.report('C12', 'no_expiry', f'result {o["id"]} has no expiry but was cleared')
            elif o['expires_at'] > now:
                self.report('C12', 'unexpired', f'result {o["id"]} expires at {o["expires_at"]}, cleared at {now}')
            newer = [v for v in rows if (v['student_id'], v['catalog'], v['area_code']) == (o['student_id'], o['catalog'], o['area_code']) and v['ts'] > o['ts']]
            if not newer:
                self.report('C12', 'current', f'result {o["id"]} was the most recent of {o["student_id"]} {o["catalog"]}/{o["area_code"]} but was cleared')
        if gone:
            self.sim.probe('cleared', len(gone))
            self.ctx.nontrivial = self.ctx.nontrivial or self.focus == 'C12'

    # -- cli
    def cli_commit(self, txn, proc, Q, R):
        tool = self.tools[proc.name]
        if Q:
            self.report('C14', 'queue', 'the one-shot command changed the queue')
        for o, n in R:
            if o is not None:
                self.report('C14', 'disturbed', f'the one-shot command changed or deleted result {o["id"]}')
            else:
                tool.setdefault('rows', []).append(n)

    # -- log / time
    def on_log(self, proc, level, name, msg):
        if level >= 40:
            self.errlogs[proc.name] = self.errlogs.get(proc.name, 0) + 1
            self.pending_log.pop(proc.name, None)

    def flush_pending(self, proc):
        q = self.pending_log.pop(proc.name, None)
        if q is not None:
            msg = f'{proc.name} dropped request {q} and logged no error'
            self.report('C01', 'silent_drop', msg)
            self.report('C03', 'silent_drop', msg)

    def on_advance(self, old, new):
        if not self.avail:
            return
        for p, since in self.worker_idle.items():
            if since is None or p.killed or p.exit is not None:
                continue
            if p.data.get('stall_end', 0) > since:
                since = p.data['stall_end']
            if p.data.get('stalled_until', 0) > old:
                continue
            if any(c.session.dead or c.broken for c in p.resources if hasattr(c, 'session')):
                continue
            if p.data.get('idle') and p.data.get('stall_end', 0) <= old:
                for qid in self.avail:
                    had = self.idle_for.get((p.name, qid), (0, 0))
                    us = new - old + (had[0] if had[1] == p.data.get('stall_end', 0) else 0)
                    self.idle_for[(p.name, qid)] = (us, p.data.get('stall_end', 0))
                    if us > 10 * S:
                        self.report('C04', 'not_picked_up', f'worker {p.name} sat idle for {us / 1e6:.3f} s in all while request {qid} was available, without taking it (now {new / 1e6:.3f} s)')
            for qid, t in self.avail.items():
                lim = max(t, since) + 10 * S
                if new > lim:
                    self.report('C04', 'not_picked_up', f'request {qid} has been waiting since {t / 1e6:.3f} s while worker {p.name} was idle since {since / 1e6:.3f} s; nobody took it by {new / 1e6:.3f} s')

    # -- building the run
    def seed(self):
        case = self.case
        for r in case['seed_results']:
            k = {'stnum': r['stnum']}
            doc, ref = None, None
            if r['ref'] is not None:
                a = lookup(self.areas, r['code'], r['catalog'])
                ref = self.ref(a + [0], r['ref']) if isinstance(a, list) and a[2] == 'ok' else None
            if ref is not None and 'bad' not in ref:
                res = json.dumps(ref['result'])
            else:
                res = json.dumps({'seeded': r['content'], 'name': 'old'})
            key = (r['stnum'], r['code'])
            t = self.db.tables['result']
            rows = [x.committed for x in t.rows if (x.committed['student_id'], x.committed['area_code']) == key]
            dup = any(x['catalog'] == r['catalog'] and x['result'].text == _jb(res).text for x in rows)
            if dup and not r['link_only']:
                res = json.dumps({'seeded': r['content'] + 10 * (len(rows) + 1), 'name': 'old'})
            active = not r['link_only']
            if active:
                for x in t.rows:
                    if (x.committed['student_id'], x.committed['area_code']) == key and x.committed['is_active']:
                        x.committed['is_active'] = False
            now = self.db.clock()
            n = self.db.seed('result', {
                'student_id': r['stnum'], 'area_code': r['code'], 'catalog': r['catalog'], 'run': 1, 'input_data': json.dumps({'stnum': r['stnum']}),
                'expires_at': None if r['expires'] is None else now + dt.timedelta(seconds=r['expires']), 'link_only': r['link_only'], 'result_version': 3, 'iterations': 1,
                'duration': '1ms', 'per_iteration': '1ms', 'rank': 1, 'max_rank': 2, 'result': res, 'ok': False, 'ts': now - dt.timedelta(seconds=r['age']) + dt.timedelta(milliseconds=len(rows)),
                'gpa': '0.00', 'claimed_courses': '{}', 'status': 'empty', 'is_active': active, 'revision': len(rows) + 1,
                'student_classification': None, 'student_class': None, 'student_name': None, 'student_name_sort': None})
            if active:
                self.last_official[key] = n['id']
        for i, e in enumerate(case['seed_queue']):
            vals = self.queue_vals(e)
            vals['ts'] = self.db.clock() - dt.timedelta(seconds=(len(case['seed_queue']) * 7 - i * 5) % 23)
            n = self.db.seed('queue', vals)
            self.entries[n['id']] = dict(n, takes=0, by='seed', at=0)
            self.avail[n['id']] = 0

    def queue_vals(self, e):
        doc = self.case['docs'][e['doc']]
        v = {'priority': e['priority'], 'student_id': e['stnum'], 'area_catalog': e['catalog'], 'area_code': e['code'], 'input_data': self.doc_text(e['doc']),
             'run': e['run'], 'link_only': e['link_only']}
        if e['expires'] is not None:
            v['expires_at'] = self.db.clock() + dt.timedelta(seconds=e['expires'])
        return v

    def doc_text(self, i):
        d = self.case['docs'][i]
        doc = d['doc']
        if d['bad'] in ('reject_nul', 'reject_surrogate'):
            # jsonb refuses these outright; make the *result* row refuse instead
            doc = dict(doc)
            doc['name'] = ['not', {'a': 'string'}]
        return json.dumps(doc)

    def producer(self, op):
        import psycopg2
        sim = self.sim

        def main():
            conn = psycopg2.connect('', application_name='producer')
            with conn.cursor() as curs:
                for r in op['rows']:
                    v = self.queue_vals(r)
                    cols = ', '.join(v)
                    curs.execute(f"INSERT INTO queue ({cols}) VALUES ({', '.join('%(' + c + ')s' for c in v)})", v)
                if op['hold']:
                    sim.sleep(op['hold'])
                if op['abort']:
                    conn.rollback()
                else:
                    conn.commit()
            conn.close()
        return main

    def admin(self, op):
        import psycopg2

        def main():
            conn = psycopg2.connect('', application_name='admin')
            with conn.cursor() as curs:
                curs.execute('SELECT id FROM queue ORDER BY id LIMIT 1 FOR UPDATE SKIP LOCKED')
                row = curs.fetchone()
                if row is not None:
                    if op['what'] == 'bump':
                        curs.execute('UPDATE queue SET priority = priority + 50 WHERE id = %(id)s', {'id': row[0]})
                    elif op['what'] == 'delete':
                        curs.execute('DELETE FROM queue WHERE id = %(id)s', {'id': row[0]})
                    self.sim.sleep(op['hold'])
                conn.commit()
            conn.close()
        return main

    def start(self):
        from dp.server.worker import wrapper
        sim, case = self.sim, self.case
        last = 0
        for i, op in enumerate(case['ops']):
            last = max(last, op['at'])
            if op['op'] == 'insert':
                p = sim.process(f'p{i}', self.producer(op), at=op['at'])
                p.data['role'] = 'producer'
            elif op['op'] == 'admin':
                p = sim.process(f'a{i}', self.admin(op), at=op['at'])
                p.data['role'] = 'admin'
                last = max(last, op['at'] + op['hold'])
            elif op['op'] == 'clear':
                import dp.server.clear_expired as ce
                p = sim.process(f'clear{i}', ce.main, argv=['clear_expired'], at=op['at'])
                p.data['role'] = 'clear'
                self.tools[p.name] = {'proc': p, 'kind': 'clear'}
            elif op['op'] == 'whatif':
                self.whatif(i, op)
            elif op['op'] == 'cli':
                self.cli(i, op)
            elif op['op'] == 'publish':
                p = sim.process(f'pub{i}', lambda op=op: self.publish(op), at=max(1, op['at']))
                p.data['role'] = 'rm'
            elif op['op'] == 'unlink':
                self.changed_files = True
                p = sim.process(f'rm{i}', lambda op=op: self.unlink(op['n']), at=op['at'])
                p.data['role'] = 'rm'
            elif op['op'] == 'vanish':
                self.changed_files = True
                self.vanish_nth = op['nth']
                sim.env['on_open'] = self.on_open
        tfault = sum(f.get('us', 0) for f in case.get('faults', ()))
        quiet = last + tfault + 5 * S
        for i, w in enumerate(case['workers']):
            p = sim.process(f'w{i}', lambda: wrapper(area_root=self.root), at=w['at'])
            p.data['role'] = 'worker'
            p.data['server_notice_us'] = case['knobs'].get('notice_us', 0)
            quiet = max(quiet, w['at'] + tfault + 5 * S)
            self.watch_start(p)
        # recovery: one worker nothing bad ever happens to
        self.clean = sim.process('wz', lambda: wrapper(area_root=self.root), at=quiet)
        self.clean.data['role'] = 'worker'
        self.watch_start(self.clean)
        for p in sim.procs:
            if p.name in self.tools:
                p.data['server_notice_us'] = case['knobs'].get('notice_us', 0)
        for at, sec in case['knobs'].get('skew', ()):
            sim.process('skew', lambda sec=sec: setattr(self.db, 'skew_us', self.db.skew_us + sec * S), at=max(1, at)).data['role'] = 'skew'
        sim.deadline = quiet + 60 * S
        self.min_end = quiet + 1 * S

        def until():
            return (sim.now >= self.min_end and not any(r.committed is not None for r in self.db.tables['queue'].rows)
                    and all(p.exit is not None or p.killed for p in sim.procs if p.data.get('role') not in ('worker',))
                    and not any(s.txn is not None and not s.dead for s in self.db.sessions)
                    and not any(p.name in self.pending_log and p.alive() for p in sim.procs))
        sim.until = until

    def watch_start(self, p):
        """a worker counts as idle from the moment its process starts"""
        def cb(old, new, p=p):
            if p not in self.worker_idle and p.main_task.started_us is not None:
                self.worker_idle[p] = p.main_task.started_us
        self.sim.on_advance.insert(0, cb)

    def unlink(self, n):
        self.sim.point('rm')
        files = sorted(self.paths.values())
        if files:
            f = files[n % len(files)]
            if os.path.exists(f):
                os.unlink(f)

    def on_open(self, path):
        t = current_task()
        if t.proc.data.get('role') == 'worker' and str(path).endswith('.yaml'):
            self.vanish_nth -= 1
            if self.vanish_nth == 0 and os.path.exists(path):
                os.unlink(path)
                self.sim.probe('file_vanished')

    def whatif(self, i, op):
        import dp.server.whatif as wi
        d = self.case['docs'][op['doc']]
        f = os.path.join(self.ctx.scratch, f'whatif{i}.json')
        text = json.dumps(d['doc'])
        if op['file'] == 'trunc':
            text = text[:len(text) // 2]
        elif op['file'] == 'nostnum':
            x = dict(d['doc'])
            x.pop('stnum')
            text = json.dumps(x)
        if op['file'] == 'badutf':
            with open(f, 'wb') as fh:
                fh.write(b'{"stnum": "\xff\xfe"}')
        elif op['file'] != 'missing':
            with open(f, 'w', encoding='utf-8') as fh:
                fh.write(text)
        p = self.sim.process(f'whatif{i}', wi.main, argv=['whatif', '--student', f, '--code', op['code'], '--catalog', str(op['catalog'])], at=op['at'])
        p.data['role'] = 'whatif'
        y = op['catalog']
        self.tools[p.name] = {'proc': p, 'kind': 'whatif', 'op': op, 'want': {
            'student_id': d['stnum'], 'area_code': op['code'], 'area_catalog': f'{y}-{str(y + 1)[2:]}', 'doc': d['doc']}}

    def cli(self, i, op):
        import dp.server.cli as cli
        d = self.case['docs'][op['doc']]
        f = os.path.join(self.ctx.scratch, f'cli{i}.json')
        with open(f, 'w', encoding='utf-8') as fh:
            fh.write(self.doc_text(op['doc']))
        area = self.paths.get(tuple(op['area'])) or os.path.join(self.root, op['area'][0], op['area'][1] + '.yaml')
        if op['missing']:
            area = os.path.join(self.root, op['area'][0], '888.yaml')
        if op.get('by_link') and os.path.isdir(os.path.dirname(area)):
            # named through a link to the catalog's folder
            here = os.path.join(self.ctx.scratch, f'here{i}')
            os.symlink(os.path.dirname(area), here)
            area = os.path.join(here, os.path.basename(area))
        argv = ['cli', '--area', area, '--student', f] + ([] if op['run'] is None else ['--run', str(op['run'])]) + (['--link-only'] if op['flag'] else [])
        p = self.sim.process(f'cli{i}', cli.main, argv=argv, at=op['at'])
        p.data['role'] = 'cli'
        self.tools[p.name] = {'proc': p, 'kind': 'cli', 'op': op, 'run': -1 if op['run'] is None else op['run'], 'stnum': d['stnum'], 'doc': d['doc'],
                              'catalog': op['area'][0], 'code': '888' if op['missing'] else op['area'][1]}

    # -- after the run
    def finish(self):
        sim = self.sim
        if sim.failure is not None:
            return
        capped = sim.capped
        if capped:
            sim.probe('capped')
            for prop in ('C01', 'C03', 'C04'):
                self.report(prop, 'livelock', f'no end after {sim.steps} steps ({sim.now / 1e6:.1f} s of simulated time): requests attempted {max([e["takes"] for e in self.entries.values()] or [0])} times')
            return
        for p in sim.procs:
            if p.data.get('role') == 'worker' and not p.killed and p.exit is not None:
                lost = any(c.session.dead and c.broken for c in p.resources if hasattr(c, 'session')) or p.data.get('refused')
                injected = any(f['fired'] and f['proc'] == p.name and f['kind'] in ('conn_drop', 'stmt_error', 'io_error') and f['label'] in ('connect', 'any') for f in sim.faults)
                if not lost and p.exit[0] != 'killed' and not (injected and self.drop_at_connect(p)):
                    self.report('C03', 'worker_died', f'worker {p.name} ended ({p.exit[0]}: {str(p.exit[1])[:120] if len(p.exit) > 1 else ""}) although its connection was intact')
            self.flush_alive(p)
        left = [r.committed for r in self.db.tables['queue'].rows if r.committed is not None]
        if left and self.clean.alive():
            ids = [v['id'] for v in left]
            self.report('C04', 'left', f'requests {ids} are still waiting {((sim.now - self.min_end) / 1e6):.0f} s after everything quietened down, with an idle worker')
            self.report('C03', 'blocked', f'requests {ids} were never processed')
        for name, tool in self.tools.items():
            getattr(self, 'end_' + tool['kind'])(name, tool)
        for qid, e in self.entries.items():
            if e.get('dropped') and e['takes'] > 1 and e['dropped'] != 'injected':
                lost = sum(1 for _ in range(e['takes'] - 1))
                if not sim.probes.get('attempt_lost'):
                    self.report('C03', 'retried', f'request {qid} cannot be audited but was attempted {e["takes"]} times')

    def drop_at_connect(self, p):
        return not any(hasattr(c, 'session') for c in p.resources)

    def flush_alive(self, p):
        if p.data.get('role') == 'worker' and p.alive():
            self.flush_pending(p)

    def end_clear(self, name, tool):
        p = tool['proc']
        out = p.out()
        if p.exit == ('ok', None):
            m = re.search(r'\d[\d,]*', out)
            got = int(m.group(0).replace(',', '')) if m else None
            n = len(tool.get('deleted', []))
            if got != n:
                self.report('C12', 'count', f'clearing printed {out.strip()!r} but removed {n} results')
            present = {r.committed['id'] for r in self.db.tables['result'].rows if r.committed is not None}
            if not self.case['knobs'].get('skew'):
                left = sorted(tool.get('eligible', set()) & present)
                if left:
                    self.report('C12', 'left', f'expired, superseded results {left} survived clearing')

    def end_whatif(self, name, tool):
        p, rows = tool['proc'], tool.get('rows', [])
        if len(rows) > 1:
            self.report('C13', 'many', f'what-if queued {len(rows)} requests')
        ok = p.exit is not None and p.exit[0] == 'ok'
        if ok and len(rows) != 1:
            self.report('C13', 'none', f'what-if succeeded but queued {len(rows)} requests')
        if ok:
            self.ctx.nontrivial = True
        bad = tool['op']['file']
        for n in rows:
            w = tool['want']
            if bad in ('missing', 'trunc', 'nostnum', 'badutf'):
                self.report('C13', 'partial', f'what-if queued a request from an unusable file ({bad})')
                continue
            for k in ('student_id', 'area_code', 'area_catalog'):
                if n[k] != w[k]:
                    self.report('C13', 'field', f'what-if queued {k}={n[k]!r}, expected {w[k]!r}')
            if json.loads(n['input_data'].text) != w['doc']:
                self.report('C13', 'document', 'what-if queued a different document')
            if n['priority'] <= 1:
                self.report('C13', 'priority', f'what-if priority is {n["priority"]}')
            if n['run'] != -1:
                self.report('C13', 'run', f'what-if run is {n["run"]}')
            if n['link_only']:
                self.report('C13', 'field', 'what-if queued a link-only request')
        if rows and p.exit is not None and p.exit[0] not in ('ok',) and not p.killed:
            drop = any(f['fired'] and f['proc'] == p.name for f in self.sim.faults)
            if not drop:
                self.report('C13', 'late_failure', f'what-if failed ({p.exit}) after queueing')

    def end_cli(self, name, tool):
        p, rows = tool['proc'], tool.get('rows', [])
        out = p.out()
        ok = p.exit is not None and p.exit[0] == 'ok'
        fired = any(f['fired'] and f['proc'] == p.name for f in self.sim.faults)
        ids = [int(x) for x in re.findall(r'\d+', out)]
        said = 'stored' in out or bool(ids)
        if len(rows) > 1:
            self.report('C14', 'many', f'the one-shot command stored {len(rows)} results')
        if (ok or said) and not rows:
            self.report('C14', 'false_success', f'the one-shot command ended {"successfully" if ok else "with an error"} and printed {out.strip()!r} but stored nothing')
        if rows and said and rows[0]['id'] not in ids:
            self.report('C14', 'wrong_id', f'printed {out.strip()!r}, stored id {rows[0]["id"]}')
        if ok and rows and not said:
            self.report('C14', 'no_id', f'succeeded without printing an id: {out!r}')
        if rows and not ok and not fired and not p.killed:
            self.report('C14', 'stored_failed', f'failed ({p.exit}) but stored result {rows[0]["id"]}')
        for n in rows:
            self.ctx.nontrivial = True
            if n['is_active'] or not n['link_only']:
                self.report('C14', 'flags', f'stored with is_active={n["is_active"]} link_only={n["link_only"]}')
            for k, w in (('run', tool['run']), ('catalog', tool['catalog']), ('area_code', tool['code']), ('student_id', tool['stnum'])):
                if n[k] != w:
                    self.report('C14', 'field', f'stored {k}={n[k]!r}, expected {w!r}')
            if n['expires_at'] is not None:
                self.report('C14', 'field', f'stored with expiry {n["expires_at"]}')


def _jb(text):
    from sim.pgengine import parse_jsonb
    return parse_jsonb(text)


def compare_outcome(n, ref):
    """None, or (field, text) of the first difference between a stored row and the reference"""
    from decimal import Decimal
    if 'bad' in ref:
        return ('stored_bad', f'auditing this in a fresh process fails ({ref["bad"]}), but a result was stored')
    got = json.loads(n['result'].text)
    if got.get('name') != ref['result'].get('name'):
        return ('name', f'audited against {got.get("name")!r}, expected {ref["result"].get("name")!r}')
    if n['result'] != _jb(json.dumps(ref['result'])):
        return ('result', 'the stored result document differs from what a fresh process computes')
    if n['claimed_courses'] != _jb(json.dumps(ref['claims'])):
        return ('claims', 'claimed courses differ')
    for k in ('rank', 'max_rank', 'gpa'):
        if n[k] != Decimal(ref[k]):
            return (k, f'{k} is {n[k]}, a fresh process gives {ref[k]}')
    for k in ('ok', 'status'):
        if n[k] != ref[k]:
            return (k, f'{k} is {n[k]}, a fresh process gives {ref[k]}')
    if n['result_version'] != ref['version'] or n['iterations'] != ref['iterations']:
        return ('version', f'result_version/iterations {n["result_version"]}/{n["iterations"]} vs {ref["version"]}/{ref["iterations"]}')
    for col, k in (('student_name', 'name'), ('student_name_sort', 'name_sort'), ('student_classification', 'classification')):
        if n[col] != (ref[k] or None if col != 'student_classification' else ref[k]):        # an empty name is none
            return (col, f'{col} is {n[col]!r}, the document says {ref[k]!r}')
    want = None if ref['class'] == 'None' else ref['class']
    if n['student_class'] != want:
        return ('student_class', f'student_class is {n["student_class"]!r}, the document says {want!r}')
    return None


def execute(ctx):
    w = QueueWorld(ctx)
    case = ctx.case
    w.docs_by_json = {}
    for i, d in enumerate(case['docs']):
        text = w.doc_text(i)
        w.docs_by_json.setdefault(json.dumps(json.loads(text), sort_keys=True), {'i': i, 'bad': d['bad']})
    w.seed()
    w.start()
    ctx.run()
    w.finish()


def prepare():
    from sim import seams
    seams.import_dp()
