"""The container health check: the real `docker-healthcheck.sh`, asked again and again while the server's workers, other
programs and the database come and go.

Serves C31. The script runs under the real bash; its `psql` is a stand-in that hands each query to the simulated database.
"""
import getopt
import json
import os
import shutil
import tempfile

from sim.core import US
from sim.harness import drop_each

from . import server

S = US
RULE = {'*': 'Random worker counts, kill times, lost connections, other programs holding connections and check times from one seed; non-trivial: a check was made with a worker connected and another one without any.'}
REAL = ['docker-healthcheck.sh (under bash)', 'dp.server.__main__.main', 'dp.server.worker and the audit below it', 'dp.server.whatif', 'dp.server.cli', 'dp.server.clear_expired', 'dp.testbed.fetch (summarize)', 'dp.server.batch']
STUBS = ['psql (runs the query the script gives it against the simulated database)', 'multiprocessing.Process (simulated processes)', 'PostgreSQL/psycopg2', 'clocks']
ASSUMPTIONS = ['pg_stat_activity lists exactly the open sessions', 'a psql that cannot connect or whose query fails exits with an error and prints nothing on standard output']
CLIENTS = ['whatif', 'cli', 'clear', 'summarize', 'batch']


def generate(rng, prop, tier):
    case = server.generate(rng, 'C16', tier)
    case['mode'] = 'health'
    case['report'] = rng.choice([None, None, '/opt/reports'])
    case['workers'] = rng.choice([1, 1, 2, 3])
    case['start'] = rng.choice([0, S, rng.randint(0, 10 * S)])
    n = case['workers'] + bool(case['report'])
    case['kills'] = [[k, rng.randint(1, 40 * S)] for k in range(n) if rng.random() < 0.7]
    case['clients'] = [{'prog': rng.choice(CLIENTS), 'at': rng.randint(0, 45 * S)} for _ in range(rng.choice([0, 1, 2, 3]))]
    case['checks'] = sorted([rng.randint(0, 60 * S) for _ in range(rng.choice([2, 4, 8]))] + [min(k[1] + rng.choice([1, 1000, S]), 60 * S) for k in case['kills'] if rng.random() < 0.6])
    faults = []
    for i, c in enumerate(case['clients']):
        if rng.random() < 0.7:
            faults.append({'proc': f'client{i}', 'kind': 'stall', 'label': rng.choice(['any', 'any', 'sql commit', 'sql select']), 'nth': rng.randint(1, 8), 'us': rng.choice([S, 20 * S, 40 * S])})
    for k in range(case['workers']):
        if rng.random() < 0.3:
            faults.append({'proc': f'server.{k}', 'kind': rng.choice(['conn_drop', 'conn_drop', 'crash', 'stall']), 'label': 'any', 'nth': rng.randint(1, 40), 'us': 5 * S})
    for i in range(len(case['checks'])):
        if rng.random() < 0.15:
            faults.append({'proc': f'check{i}', 'kind': rng.choice(['conn_drop', 'stmt_error', 'conn_drop']), 'label': rng.choice(['connect', 'any', 'sql select']), 'nth': 1, 'code': '57014'})
    case['faults'] = faults
    case['knobs']['notice_us'] = rng.choice([0, 0, S])
    return case


def reductions(case):
    for key in ('faults', 'kills', 'clients', 'inserts', 'checks'):
        yield from drop_each(case, key)


# ---- the script under real bash, its psql answered from a list
STUB = r'''#!/bin/sh
n=$(cat "$PSQL_DIR/n"); n=$((n + 1)); echo "$n" > "$PSQL_DIR/n"
if [ -e "$PSQL_DIR/$n.rc" ]; then
    cat "$PSQL_DIR/$n.err" >&2; cat "$PSQL_DIR/$n.out"; exit "$(cat "$PSQL_DIR/$n.rc")"
fi
for a in "$@"; do printf '%s\0' "$a"; done > "$PSQL_DIR/$n.args"
[ -t 0 ] || true
exit 97
'''
_done = {}


def run_script(path, answers):
    """run the health check with these answers of psql: ('exit', status) or ('ask', arguments of one more query)"""
    from sim.seams import real
    with real['open'](path, 'rb') as f:
        text = f.read()
    key = (text, tuple(answers))
    if key not in _done:
        d = tempfile.mkdtemp(prefix='dphealth.')
        try:
            for name, content in [('psql', STUB), ('n', '0\n')] + [(f'{i}.{k}', v) for i, a in enumerate(answers, 1) for k, v in zip(('rc', 'out', 'err'), a)]:
                with real['open'](os.path.join(d, name), 'w') as f:
                    f.write(content)
            os.chmod(os.path.join(d, 'psql'), 0o755)
            r = real['Popen'](['bash', path], env={'PATH': f'{d}:/usr/bin:/bin', 'PSQL_DIR': d, 'HOME': d, 'LC_ALL': 'C'}, stdin=-3, stdout=-3, stderr=-3, cwd=d)
            r.wait()
            ask = os.path.join(d, f'{len(answers) + 1}.args')
            if os.path.exists(ask):
                with real['open'](ask) as f:
                    _done[key] = ('ask', tuple(f.read().split('\0')[:-1]))
            else:
                _done[key] = ('exit', r.returncode)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _done[key]


class Health(server.Server):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.seen = set()
        self.want = self.case['workers']

    def start(self):
        import dp.server.__main__ as m
        from sim import seams
        sim, case = self.sim, self.case
        seams.set_environ(AREA_ROOT=self.root, DP_REPORT_BIN=case['report'])
        sim.env['http'] = self.http
        self.p = sim.process('server', seams.mp_main(m.main), argv=['server', '--workers', str(case['workers'])], at=case['start'])
        self.p.data['role'] = 'server'
        self.p.data['server_notice_us'] = case['knobs'].get('notice_us', 0)
        for k, at in case['kills']:
            def kill(k=k):
                kids = self.kids()
                if k < len(kids):
                    sim.kill(kids[k], 'kill')
            sim.process(f'kill{k}', kill, at=at).data['role'] = 'killer'
        for i, ins in enumerate(case['inserts']):
            sim.process(f'p{i}', self.producer(ins), at=ins['at']).data['role'] = 'producer'
        for i, c in enumerate(case['clients']):
            self.client(i, c)
        for i, at in enumerate(case['checks']):
            sim.process(f'check{i}', self.check, at=at).data['role'] = 'check'
        self.db.on_stmt.append(self.on_stmt)
        sim.deadline = 110 * S

    def http(self, sim, t, method, url, fields, kw):
        from sim.seams import SimResponse
        sim.point('http')
        sim.lag()
        if url.endswith('/batch'):
            return SimResponse(200, self.case['docs'][0]['stnum'].encode())
        return SimResponse(200, json.dumps(self.case['docs'][0]).encode())

    def client(self, i, c):
        from sim.seams import real
        d = self.case['docs'][i % len(self.case['docs'])]
        f = os.path.join(self.ctx.scratch, f'client{i}.json')
        with real['open'](f, 'w', encoding='utf-8') as out:
            json.dump(d, out)
        if c['prog'] == 'whatif':
            import dp.server.whatif as m
            fn, argv = m.main, ['whatif', '--student', f, '--code', '901', '--catalog', '2018']
        elif c['prog'] == 'cli':
            import dp.server.cli as m
            fn, argv = m.main, ['cli', '--student', f, '--area', os.path.join(self.root, '2018-19', '901.yaml')]
        elif c['prog'] == 'clear':
            import dp.server.clear_expired as m
            fn, argv = m.main, ['clear']
        elif c['prog'] == 'summarize':
            import argparse
            import dp.testbed.fetch as m
            fn, argv = (lambda: m.summarize(argparse.Namespace(db='x'))), ['testbed']
        else:
            import dp.server.batch as m
            fn, argv = m.main, ['batch']
        p = self.sim.process(f'client{i}', fn, argv=argv, at=c['at'])
        p.data['role'] = 'client'

    def live(self):
        kids = self.kids()
        return sorted(s.owner.name for s in self.db.sessions if not s.dead and s.owner in kids)

    def on_stmt(self, s, ex, kind, st):
        if s.owner is not None and s.owner.data.get('role') == 'check':
            s.owner.data['live'] = self.live()

    def query(self, me, args):
        """what psql does with these arguments: (exit status, standard output, standard error)"""
        import psycopg2
        try:
            opts, rest = getopt.gnu_getopt(list(args), 'Atqc:d:h:p:U:XwF:v:1', ['no-align', 'tuples-only', 'quiet', 'command=', 'dbname=', 'host=', 'port=', 'username=', 'no-psqlrc', 'no-password', 'csv', 'field-separator=', 'set=', 'single-transaction'])
        except getopt.GetoptError as e:
            return '1', '', f'psql: {e}\n'
        flags = {k for k, v in opts}
        out = ''
        try:
            conn = psycopg2.connect('', application_name='psql')
        except psycopg2.Error as e:
            return '2', '', str(e)
        try:
            conn.autocommit = True
            with conn.cursor() as curs:
                for k, v in opts:
                    if k in ('-c', '--command'):
                        curs.execute(v)
                        rows = [['' if x is None else {True: 't', False: 'f'}.get(x, str(x)) if isinstance(x, bool) else str(x) for x in r] for r in curs.fetchall()] if curs.description else []
                        names = [c[0] for c in curs.description or ()]
                        bare = flags & {'-t', '--tuples-only'}
                        if flags & {'-A', '--no-align', '--csv'}:
                            sep = ',' if '--csv' in flags else '|'
                            lines = ([] if bare else [sep.join(names)]) + [sep.join(r) for r in rows] + ([] if bare or '--csv' in flags else [f'({len(rows)} row{"s" * (len(rows) != 1)})'])
                        else:
                            lines = ([] if bare else [' ' + ' | '.join(names) + ' ', '-' * 8]) + [' ' + ' | '.join(r) for r in rows] + ([''] if bare else [f'({len(rows)} row{"s" * (len(rows) != 1)})', ''])
                        out += ''.join(x + '\n' for x in lines)
        except psycopg2.Error as e:
            return ('2' if conn.closed else '1'), out, f'ERROR:  {e}\n'
        finally:
            conn.close()
        return '0', out, ''

    def check(self):
        from sim import seams
        from sim.core import current_task
        me = current_task().proc
        path = os.path.join(seams.REPO, 'docker-healthcheck.sh')
        answers, before = [], self.live()
        moments = [before]
        while True:
            kind, what = run_script(path, answers)
            if kind == 'exit':
                break
            if len(answers) > 8:
                self.report('C31', 'endless', f'the health check goes on asking: {what}')
                return
            answers.append(self.query(me, what))
            moments += [me.data.get('live', before), self.live()]
        healthy = what == 0
        self.sim.event('health', ok=healthy, live=len(moments[-1]))
        failed = [f for f in self.sim.faults if f['fired'] and f['proc'] == me.name]
        counts = {bool(m) for m in moments}
        if failed:
            if healthy:
                self.report('C31', 'blind', f'the health check succeeded although the database did not answer it ({failed[0]["kind"]} at {failed[0]["label"]})')
        elif healthy not in counts:
            others = sorted(f'{s.owner.name}:{s.app}' for s in self.db.sessions if not s.dead and s.owner is not None and s.owner is not me)
            self.report('C31', 'healthy' if healthy else 'unhealthy', f'at {self.sim.now / 1e6:.1f} s the health check {"succeeded" if healthy else "failed"} (status {what}); connected workers: {moments[-1] or "none"}; sessions: {others}')
        if not failed:
            self.seen |= counts
            if len(self.seen) == 2:
                self.ctx.nontrivial = True

    def finish(self):
        for p in self.sim.procs:
            if p.data.get('role') == 'check' and p.exit and p.exit[0] == 'exc':
                raise p.exit[1]
        if self.sim.capped:
            self.sim.probe('capped')


def prepare():
    from sim import seams
    seams.import_dp()


def execute(ctx):
    w = Health(ctx)
    w.start()
    ctx.run()
    w.finish()
