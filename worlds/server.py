"""The server supervisor (dp.server.__main__) and its daily report job (dp.server.reports_worker).

Serves C15 and C16.
"""
import errno
import json
import os

from sim import corpus
from sim.core import US
from sim.harness import drop_each
from sim.schema import make_db

S = US
DAY = 86400 * S
RULE = {
    'C15': 'Random sequences of report-program outcomes (success, exit codes, signals, failures to start, long runs), clock jumps and stalls over simulated weeks; non-trivial: the program was started at least twice.',
    'C16': 'Random worker counts, processor counts, report settings, kill times and queued requests; non-trivial: at least one worker process was started.',
}
REAL = ['dp.server.__main__.main', 'dp.server.reports_worker', 'dp.server.worker and the audit below it (C16)']
STUBS = ['multiprocessing.Process (simulated processes)', 'subprocess (the report program is a model with scripted outcomes)', 'clocks and sleep', 'PostgreSQL/psycopg2 (C16)']
ASSUMPTIONS = ['the report program is only observable through its exit status', 'the operating system starts processes when asked']


def generate(rng, prop, tier):
    if prop == 'C15':
        n = rng.randint(2, 14 if tier == 'quick' else 30)
        runs = []
        for _ in range(n):
            k = rng.choice(['ok', 'ok', 'rc', 'signal', 'oserror', 'oserror', 'valueerror'])
            runs.append({'kind': k, 'us': rng.choice([0, 1, S, 3600 * S, 20 * 3600 * S, 30 * 3600 * S, rng.randint(0, DAY)]), 'rc': rng.choice([1, 2, 101, 127, 255]) if k == 'rc' else rng.choice([-9, -11, -15]),
                         'errno': rng.choice([errno.ENOENT, errno.EACCES, errno.EAGAIN, errno.ENOMEM, errno.ENOEXEC])})
        faults = [{'proc': 'reports', 'kind': 'stall', 'label': 'any', 'nth': rng.randint(1, 12), 'us': rng.choice([S, 3600 * S])} for _ in range(rng.choice([0, 0, 1]))]
        return {'mode': 'reports', 'runs': runs, 'jumps': [[rng.randint(0, n) * DAY + rng.randint(0, DAY), rng.choice([-86400, -3600, 60, 3600, 86400 * 3])] for _ in range(rng.choice([0, 0, 1, 2, 4]))],
                'binary': rng.choice(['/opt/reports', '/srv/dp reports/bin', 'relative/bin']), 'faults': faults, 'knobs': {'max_steps': 4000, 'stick': 0.5}}
    cpus = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])
    workers = rng.choice([None, None, 1, 2, 3, 4, 6])
    n = workers if workers else int(cpus * 0.75)
    report = rng.choice([None, None, '/opt/reports', '/srv/x'])
    kids = n + (1 if report else 0)
    kills = []
    for k in rng.sample(range(kids), rng.randint(0, kids)) if kids else []:
        if rng.random() < 0.6:
            kills.append([k, rng.choice([1, rng.randint(0, 2 * S), rng.randint(0, 40 * S)])])
    if kids and rng.random() < 0.2:
        kills = [[k, rng.randint(1, 20 * S)] for k in range(kids)]
    inserts = [{'at': rng.randint(0, 40 * S), 'doc': rng.randint(0, 2)} for _ in range(rng.randint(1, 6))]
    docs = [corpus.gen_student(rng, str(100000 + i), areas=['901'], n=3) for i in range(3)]
    return {'mode': 'server', 'cpus': cpus, 'cpus_total': cpus + rng.choice([0, 0, 1, 2, 8]), 'workers': workers, 'report': report, 'kills': kills, 'inserts': inserts, 'docs': docs,
            'runs': [{'kind': rng.choice(['ok', 'rc', 'oserror']), 'us': rng.choice([0, S, 30 * S]), 'rc': 1, 'errno': 2} for _ in range(3)],
            'faults': [{'proc': f'server.{rng.randrange(kids)}', 'kind': rng.choice(['crash', 'conn_drop', 'stall']), 'label': 'any', 'nth': rng.randint(1, 40), 'us': 3 * S} for _ in range(rng.choice([0, 0, 1]))] if kids else [],
            'knobs': {'stick': rng.choice([0.0, 0.5, 0.9]), 'latency': rng.choice([[0, 0], [0, 2000], [100, 50000]]), 'max_steps': 12000}}


def reductions(case):
    for key in ('faults', 'jumps', 'runs', 'kills', 'inserts'):
        if key == 'runs' and len(case['runs']) <= 1:
            continue
        yield from drop_each(case, key)


class Program:
    """the report program"""

    def __init__(self, world):
        self.w = world
        self.n = 0

    def start(self, sim, proc, args, kw):
        w = self.w
        i = self.n
        self.n += 1
        plan = w.case['runs'][i] if i < len(w.case['runs']) else {'kind': 'ok', 'us': S, 'rc': 0}
        w.on_program_start(proc, args, plan)
        if plan['kind'] == 'oserror':
            w.on_program_end(proc, plan, True)
            raise OSError(plan['errno'], os.strerror(plan['errno']), str(args[0]))
        if plan['kind'] == 'valueerror':
            w.on_program_end(proc, plan, True)
            raise ValueError('embedded null byte')
        rec = {'args': [str(a) for a in args], 'started': sim.now, 'ended': None, 'rc': None, 'plan': plan}
        rc = {'ok': 0, 'rc': plan['rc'], 'signal': plan['rc']}[plan['kind']]

        def body():
            if plan['us']:
                sim.sleep(plan['us'])
            if rec['ended'] is None:
                rec['ended'] = sim.now
                rec['rc'] = rc
                w.on_program_end(proc, plan, rc != 0)
        p = sim.process(f'prog{i}', body)
        p.data['role'] = 'program'
        return rec


class Base:
    def __init__(self, ctx):
        self.ctx = ctx
        self.case = ctx.case
        self.sim = ctx.sim
        self.starts, self.ends = [], []
        self.sim.env['subprocess'] = Program(self)
        self.sim.on_log.append(self.on_log)
        self.fail_pending = None

    def report(self, *a):
        self.ctx.report(*a)

    def on_log(self, proc, level, name, msg):
        if level >= 40:
            self.fail_pending = None

    def on_program_end(self, proc, plan, failed):
        self.ends.append(self.sim.now)
        if failed:
            self.fail_pending = len(self.starts)


class Reports(Base):
    def on_program_start(self, proc, args, plan):
        sim = self.sim
        now = sim.now
        args = [str(a) for a in args] if not isinstance(args, str) else args
        if args != [self.case['binary'], 'batch', '--to-database']:
            self.report('C15', 'arguments', f'the report program was started as {args}')
        stalled = self.p.data.get('stall_end', 0)
        if len(self.ends) < len(self.starts):
            self.report('C15', 'overlap', f'the report program was started again at {now / 1e6:.0f} s while a run was in progress')
        if self.fail_pending is not None:
            self.report('C15', 'unlogged', f'run {self.fail_pending} of the report program failed and nothing was logged before the next one')
        if not self.starts:
            if now > S and stalled <= 0:
                self.report('C15', 'late', f'the first report run started only after {now / 1e6:.0f} s')
        elif self.ends:
            gap = now - self.ends[-1]
            slack = sum(f.get('us', 0) for f in sim.faults if f['fired'] and f['kind'] == 'stall')
            if gap < DAY - S:
                self.report('C15', 'early', f'the next report run started {gap / 1e6:.0f} s after the previous one ended')
            elif gap > DAY + S + slack:
                self.report('C15', 'late', f'the next report run started {gap / 1e6:.0f} s after the previous one ended')
        self.starts.append(now)
        if len(self.starts) >= 2:
            self.ctx.nontrivial = True

    def start(self):
        import pathlib
        from dp.server.reports_worker import reports_wrapper
        sim, case = self.sim, self.case
        path = pathlib.Path(case['binary'])
        self.p = sim.process('reports', lambda: reports_wrapper(binary_path=path), at=1)
        self.p.data['role'] = 'reports'
        for at, sec in case.get('jumps', []):
            sim.process('clock', lambda sec=sec: self.p.data.__setitem__('wall_skew_us', self.p.data.get('wall_skew_us', 0) + sec * S), at=max(at, 1)).data['role'] = 'clock'
        total = sum(r['us'] if r['kind'] in ('ok', 'rc', 'signal') else 0 for r in case['runs'])
        self.want = len(case['runs'])
        sim.deadline = total + (self.want + 1) * DAY + sum(f.get('us', 0) for f in case['faults']) + 3600 * S

    def finish(self):
        sim = self.sim
        if sim.failure is not None:
            return
        if sim.capped:
            self.report('C15', 'busy', f'the report job made {sim.steps} steps in {sim.now / 1e6:.0f} s of simulated time')
            return
        if self.p.exit is not None:
            self.report('C15', 'stopped', f'the report job ended by itself: {self.p.exit}')
        elif len(self.starts) < self.want:
            self.report('C15', 'stopped', f'only {len(self.starts)} of {self.want} daily runs were started')


class Server(Base):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.db = make_db(ctx)
        self.root = os.path.join(ctx.mkscratch(), 'areas')
        os.makedirs(self.root)
        self.sim.env['fs_root'] = ctx.scratch
        corpus.write_area(self.root, '2018-19', '901', corpus.variant('901', 2018))
        self.sim.env['on_open'] = self.on_open
        self.sim.env['cpus'] = self.case['cpus']
        self.sim.env['cpus_total'] = self.case.get('cpus_total', self.case['cpus'])
        self.done = {}
        self.programs = []
        self.connected = set()
        self.db.on_commit.append(self.on_commit)
        self.db.on_stmt.append(lambda s, ex, kind, st: self.connected.add(s.owner.name) if s.owner is not None and s.owner.data.get('role') != 'producer' else None)

    def on_open(self, path):
        path = str(path)
        if path.endswith('.yaml') and not os.path.abspath(path).startswith(self.root + '/'):
            self.report('C16', 'folder', f'a worker read {path}, not under the configured folder')

    def on_program_start(self, proc, args, plan):
        args = [str(a) for a in args]
        if args[0] != self.case['report']:
            self.report('C16', 'report', f'report program {args} started, configured: {self.case["report"]}')
        if proc is self.p:
            self.report('C16', 'report', 'the report program runs inside the supervisor')
        self.programs.append(proc)
        self.starts.append(self.sim.now)

    def on_commit(self, txn, changes):
        for t, rid, o, n in changes:
            if t == 'queue' and o is None:
                self.done[n['id']] = None
            if t == 'queue' and n is None:
                self.done[o['id']] = self.sim.now

    def kids(self):
        return [p for p in self.sim.procs if getattr(p, 'parent', None) is self.p]

    def start(self):
        import dp.server.__main__ as m
        from sim import seams
        sim, case = self.sim, self.case
        seams.set_environ(AREA_ROOT=self.root, DP_REPORT_BIN=case['report'])
        argv = ['server'] + (['--workers', str(case['workers'])] if case['workers'] else [])
        self.p = sim.process('server', seams.mp_main(m.main), argv=argv)
        self.p.data['role'] = 'server'
        self.want = case['workers'] if case['workers'] else case['cpus'] * 3 // 4
        for k, at in case['kills']:
            def kill(k=k):
                kids = self.kids()
                if k < len(kids):
                    sim.kill(kids[k], 'kill')
            sim.process(f'kill{k}', kill, at=at).data['role'] = 'killer'
        for i, ins in enumerate(case['inserts']):
            sim.process(f'p{i}', self.producer(ins), at=ins['at']).data['role'] = 'producer'
        sim.deadline = 75 * S

        def watch(old, new):
            if self.p.exit is not None or self.p.killed:
                alive = [k.name for k in self.kids() if k.alive()]
                if alive:
                    self.report('C16', 'ended_early', f'the supervisor ended ({self.p.exit}) while {alive} were running')
        sim.on_advance.append(watch)

    def producer(self, ins):
        import psycopg2

        def main():
            conn = psycopg2.connect('', application_name='producer')
            d = self.case['docs'][ins['doc']]
            with conn.cursor() as curs:
                curs.execute("INSERT INTO queue (priority, student_id, area_catalog, area_code, input_data, run) VALUES (1, %(s)s, '2018-19', '901', %(d)s, 1)", {'s': d['stnum'], 'd': json.dumps(d)})
            conn.commit()
            conn.close()
        return main

    def finish(self):
        sim, case = self.sim, self.case
        if sim.failure is not None:
            return
        if sim.capped:
            sim.probe('capped')
            return
        kids = self.kids()
        if self.want:
            self.ctx.nontrivial = True
        total = self.want + (1 if case['report'] else 0)
        if len(kids) != total:
            self.report('C16', 'count', f'{len(kids)} processes were started, expected {self.want} workers{" and a report job" if case["report"] else ""} (usable processors {case["cpus"]}, --workers {case["workers"]})')
        early = {f['proc'] for f in sim.faults if f['fired']} | {kids[k].name for k, at in case['kills'] if k < len(kids)}
        workers = [k for k in kids if k.name in self.connected]
        if len(workers) > self.want:
            self.report('C16', 'count', f'{len(workers)} processes work on the queue, expected {self.want}')
        idle = [k.name for k in kids if k.name not in self.connected and k not in self.programs and k.name not in early]
        if idle:
            self.report('C16', 'idle', f'processes {idle} neither work on the queue nor run reports')
        if case['report'] and not self.programs and not early:
            self.report('C16', 'report', 'a report program is configured but was never started')
        if not case['report'] and self.programs:
            self.report('C16', 'report', 'a report program was started although none is configured')
        for k in kids:
            if k.exit is not None and not k.killed and k.name not in early:
                self.report('C16', 'child_ended', f'{k.name} ended by itself: {k.exit}')
        alive = [k for k in kids if k.alive()]
        if not alive and kids:
            if self.p.exit is None:
                self.report('C16', 'never_ended', 'every child process has ended but the supervisor goes on')
        walive = [k for k in workers if k.alive() and k.name not in {f['proc'] for f in sim.faults if f['fired']}]
        left = [q for q, at in self.done.items() if at is None]
        if walive and left:
            self.report('C16', 'unprocessed', f'requests {left} were never processed although workers {[k.name for k in walive]} are alive')
        if alive and self.p.exit is not None:
            self.report('C16', 'ended_early', f'the supervisor ended ({self.p.exit}) while {[k.name for k in alive]} were running')


def prepare():
    from sim import seams
    seams.import_dp()


def execute(ctx):
    w = (Reports if ctx.case['mode'] == 'reports' else Server)(ctx)
    w.start()
    ctx.run()
    w.finish()
