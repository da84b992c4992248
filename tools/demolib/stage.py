"""A small stage for demonstrations: the repository's own worker code, run by
the simulator in this zip against an in-memory stand-in for PostgreSQL.
Imported as  sys.path.insert(0, '<dir>/simlib.zip'); from stage import *"""
import datetime as dt
import json
import os
import random
import shutil
import sys
import tempfile
import traceback

os.environ.setdefault('DP_REPO', os.getcwd())
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
from sim import seams, corpus  # noqa: E402
from sim.core import Choices, Sim  # noqa: E402
from sim.schema import make_db  # noqa: E402

seams.import_dp()
S = 1000000


def student(stnum='111111', **kw):
    d = corpus.gen_student(random.Random(7), stnum, areas=['100'], n=5)
    d.update(name='Ole', name_sort='Ole', exceptions=[])
    d.update(kw)
    return d


PGM = {'name': 'Plain', 'type': 'concentration', 'code': '100', 'result': {'all': [{'course': f"{c['subject']} {c['number']}"} for c in student()['courses'][:2]]}}


class _Ctx:
    pass


class Stage:
    def __init__(self, seed=0, faults=(), areas=None, stick=0.5, latency=(0, 0), **db):
        self.scratch = tempfile.mkdtemp(prefix='dpdemo.')
        self.sim = Sim(Choices(rng=random.Random(seed)), stick=stick, max_steps=60000, faults=faults, latency=latency)
        c = _Ctx()
        c.sim, c.case = self.sim, {'knobs': {}}
        self.db = make_db(c, **db)
        self.root = os.path.join(self.scratch, 'areas')
        os.makedirs(self.root)
        self.sim.env['fs_root'] = self.scratch
        for (folder, code), spec in (areas or {('2019-20', '100'): PGM}).items():
            corpus.write_area(self.root, folder, code, spec)

    def queue(self, stnum='111111', code='100', catalog='2019-20', doc=None, priority=1, age=0, **kw):
        v = {'priority': priority, 'student_id': stnum, 'area_catalog': catalog, 'area_code': code, 'input_data': json.dumps(doc if doc is not None else student(stnum)),
             'run': 2, 'link_only': False, 'ts': self.db.clock() - dt.timedelta(seconds=age)}
        v.update(kw)
        return self.db.seed('queue', v)['id']

    def result(self, stnum='111111', code='100', catalog='2019-20', result=None, **kw):
        v = {'student_id': stnum, 'area_code': code, 'catalog': catalog, 'run': 1, 'input_data': '{}', 'expires_at': None, 'link_only': False, 'result_version': 3, 'iterations': 1,
             'duration': '1ms', 'per_iteration': '1ms', 'rank': 1, 'max_rank': 2, 'result': json.dumps(result if result is not None else {'old': 1}), 'ok': False, 'ts': self.db.clock() - dt.timedelta(hours=1),
             'gpa': '0.00', 'claimed_courses': '{}', 'status': 'empty', 'is_active': True, 'revision': 1}
        v.update(kw)
        return self.db.seed('result', v)['id']

    def process(self, name, fn, at=0, role='tool', argv=None):
        p = self.sim.process(name, fn, at=at, argv=argv)
        p.data['role'] = role
        return p

    def worker(self, name='w0', at=0):
        from dp.server.worker import wrapper
        return self.process(name, lambda: wrapper(area_root=self.root), at, 'worker')

    def insert(self, name, at, **kw):
        """another session queues a request while the run goes on"""
        import psycopg2

        def main():
            v = {'priority': 1, 'student_id': '111111', 'area_catalog': '2019-20', 'area_code': '100', 'run': 2, 'input_data': None}
            v.update(kw)
            v['input_data'] = json.dumps(v['input_data'] or student(v['student_id']))
            c = psycopg2.connect('')
            cols = ', '.join(v)
            c.cursor().execute(f"INSERT INTO queue ({cols}) VALUES ({', '.join('%(' + k + ')s' for k in v)})", v)
            c.commit()
            c.close()
        return self.process(name, main, at)

    def rows(self, table):
        return sorted(self.db.tables[table].committed(), key=lambda r: r.get('id') or 0)

    def errors(self):
        import logging
        return [x for x in self.sim.logs if any(isinstance(y, int) and y >= logging.ERROR for y in x)]

    def run(self, seconds=40, until=None):
        self.sim.deadline = int(seconds * S)
        if until:
            self.sim.until = until
        self.sim.run()
        return self


def tries(fn, seeds=20):
    """fn(seed) in a forked child each; it returns None or what went wrong"""
    bad = []
    for i in range(seeds):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            made = []
            mk = tempfile.mkdtemp

            def mkdtemp(*a, **k):
                d = mk(*a, **k)
                made.append(d)
                return d
            tempfile.mkdtemp = mkdtemp
            try:
                try:
                    out = fn(i)
                except BaseException as e:
                    out = 'the demonstration failed: ' + ''.join(traceback.format_exception(e))[-1500:]
                os.write(w, (out or '').encode()[:60000])
            finally:
                for d in made:
                    shutil.rmtree(d, ignore_errors=True)
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        if data:
            bad.append((i, data.decode()))
    out = seams.real['stderr']
    if bad:
        out.write(f'BROKEN in {len(bad)} of {seeds} runs; run {bad[0][0]}: {bad[0][1]}\n')
        os._exit(1)
    out.write(f'fine in {seeds} runs\n')
    os._exit(0)
