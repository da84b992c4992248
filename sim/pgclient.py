"""psycopg2 facade over the simulated server.

`psycopg2.connect` is replaced; everything else of psycopg2 (exception classes,
constants, extras, adaptation helpers) is the real library.
"""
import datetime as dt
import json
import re
from decimal import Decimal

import psycopg2
import psycopg2.errors
import psycopg2.extensions
import psycopg2.extras

from .core import HarnessError, SimCrash, current_task, US
from .pgengine import PgError, Unk, Jsonb, Result, to_text
from .sqlparser import parse, Unsupported, SyntaxErr, NeedsText

_errcache = {}


def pg_exception(e):
    cls = _errcache.get(e.sqlstate)
    if cls is None:
        try:
            base = psycopg2.errors.lookup(e.sqlstate)
        except KeyError:
            base = psycopg2.DatabaseError
        cls = type(base.__name__, (base,), {'pgcode': e.sqlstate, 'pgerror': None, '__module__': base.__module__})
        _errcache[e.sqlstate] = cls
    return cls(e.msg + '\n')


class Notify:
    def __init__(self, pid, channel, payload):
        self.pid, self.channel, self.payload = pid, channel, payload

    def __repr__(self):
        return f'Notify({self.pid}, {self.channel!r}, {self.payload!r})'


def adapt_value(v):
    """Python parameter -> value the engine understands (as psycopg2 would quote it)"""
    if v is None or isinstance(v, (bool, int, float, Decimal)):
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return v
            return Decimal(repr(v))
        return v
    if isinstance(v, str):
        if '\x00' in v:
            raise ValueError('A string literal cannot contain NUL (0x00) characters.')
        v.encode('utf-8')
        return Unk(v)
    if isinstance(v, (dt.datetime, dt.date, dt.timedelta)):
        return v
    if isinstance(v, list):
        out = []
        for x in v:
            y = adapt_value(x)
            out.append(str(y) if isinstance(y, Unk) else y)
        return out
    if isinstance(v, tuple):
        return tuple(adapt_value(x) for x in v)
    if isinstance(v, psycopg2.extras.Json):
        return Unk(v.dumps(v.adapted))
    import uuid
    if isinstance(v, uuid.UUID):
        return Unk(str(v))
    if isinstance(v, (dict, set, frozenset)) or True:
        raise psycopg2.ProgrammingError(f"can't adapt type '{type(v).__name__}'")


def quote(v):
    v = adapt_value(v)
    if v is None:
        return 'NULL'
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (int, Decimal)):
        return f' {v}' if v < 0 else str(v)
    if isinstance(v, float):
        return f"'{v}'::float"
    if isinstance(v, str):
        return "'" + str(v).replace("'", "''") + "'"
    if isinstance(v, dt.datetime):
        return f"'{v.isoformat()}'::{'timestamptz' if v.tzinfo else 'timestamp'}"
    if isinstance(v, dt.date):
        return f"'{v.isoformat()}'::date"
    if isinstance(v, dt.timedelta):
        return f"'{v.days} days {v.seconds}.{v.microseconds:06d} seconds'::interval"
    if isinstance(v, list):
        return "'{}'" if not v else 'ARRAY[' + ', '.join(quote(x) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(quote(x) for x in v) + ')'
    raise HarnessError(f'quote {v!r}')


def substitute(sql, params):
    """client-side textual interpolation"""
    if params is None:
        return sql
    seq = iter(params) if not isinstance(params, dict) and not hasattr(params, 'keys') else None
    n = [0]

    def rep(m):
        s = m.group(0)
        if s == '%%':
            return '%'
        if s == '%s':
            if seq is None:
                raise TypeError('dict is not a sequence')
            n[0] += 1
            try:
                return quote(next(seq))
            except StopIteration:
                raise IndexError('tuple index out of range')
        return quote(params[m.group(1)])
    return re.sub(r'%\(([^)]+)\)s|%s|%%', rep, sql)


class Lazy:
    """parameters, adapted on first use (psycopg2 adapts all of them up front; we do too)"""

    def __init__(self, params):
        self.d = {}
        if hasattr(params, 'keys'):
            self.raw = params
            self.named = True
        else:
            self.raw = list(params)
            self.named = False

    def prepare(self, names):
        for n in names:
            if isinstance(n, int):
                if self.named:
                    raise TypeError('dict is not a sequence')
                if n >= len(self.raw):
                    raise IndexError('tuple index out of range')
            elif not self.named:
                raise TypeError('format requires a mapping')
            self.d[n] = adapt_value(self.raw[n])

    def __getitem__(self, k):
        return self.d[k]


_names_cache = {}


def param_names(sql):
    if sql not in _names_cache:
        from .sqlparser import lex
        _names_cache[sql] = [t.v for t in lex(sql, True) if t.k == 'param']
    return _names_cache[sql]


def label_of(stmts):
    kind, st = stmts[0]
    if kind == 'with':
        kind, st = st['main']
    if kind in ('insert', 'update', 'delete', 'truncate'):
        return f'{kind} {st["table"]}'
    if kind == 'select':
        frm = st.get('frm') or []
        for it in frm:
            while it[0] == 'join':
                it = it[2]
            if it[0] == 'table':
                return f'select {it[1]}'
        return 'select'
    return kind


class Cursor:
    arraysize = 1
    itersize = 2000

    def __init__(self, conn, name=None, style=None, withhold=False):
        self.connection = conn
        self.name = name
        self.style = style
        self.closed = False
        self.withhold = withhold
        self.scrollable = None
        self.res = None
        self.pos = 0
        self.buf = []
        self.rowcount = -1
        self.description = None
        self.query = None
        self.statusmessage = None
        self.rownumber = 0
        self.lastrowid = 0
        self._executed = False
        self.tzinfo_factory = None
        self.row_factory = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if self.name and self._executed and not self.closed:
            self.closed = True
            if self.connection.closed or self.connection.session.dead or self.connection.proc.killed or self.connection.sim.stopping:
                return
            self.connection._run(lambda s: Result(tag='CLOSE CURSOR'), 'close')
        self.closed = True

    def _live(self):
        if self.closed:
            raise psycopg2.InterfaceError('cursor already closed')
        if self.connection.closed:
            raise psycopg2.InterfaceError('connection already closed')

    def mogrify(self, sql, params=None):
        return substitute(_s(sql, self), params).encode('utf-8')

    def execute(self, sql, params=None):
        self._live()
        sql = _s(sql, self)
        if self.name and self._executed:
            raise psycopg2.ProgrammingError("can't call .execute() on named cursors more than once")
        try:
            if params is not None and (not hasattr(params, '__len__') or len(params)) or (params is not None and hasattr(params, 'keys')):
                try:
                    stmts = parse(sql, True)
                    names = param_names(sql)
                    p = Lazy(params)
                    p.prepare(names)
                    if not p.named and len(p.raw) > len(names):
                        raise TypeError('not all arguments converted during string formatting')
                except NeedsText:
                    stmts, p = parse(substitute(sql, params)), None
            else:
                stmts, p = parse(sql), None
        except SyntaxErr as e:
            stmts, p = [('syntax_error', str(e))], None
        except Unsupported as e:
            raise HarnessError(f'unsupported SQL: {e}: {sql[:200]}')
        self.query = sql.encode('utf-8')
        if stmts and stmts[0][0] == 'syntax_error':
            msg = stmts[0][1]

            def job(s):
                if s.txn is not None:
                    s.txn.failed = True
                raise PgError('42601', msg)
            label = 'syntax'
        else:
            def job(s):
                return s.execute(stmts, p)
            label = label_of(stmts) if stmts else 'empty'
        if self.name:
            self.connection._need_txn_for_named(self)
        res = self.connection._run(job, label, stmts)
        self._executed = True
        self._set(res)
        return None

    def _set(self, res):
        self.res = res
        self.pos = 0
        self.rownumber = 0
        self.statusmessage = res.tag
        self.rowcount = res.count
        if res.cols is None:
            self.description = None
            self.buf = None
        else:
            self.description = [Column(c) for c in res.cols]
            if self.name:
                self.rowcount = -1
                self.server_rows = list(res.rows)
                self.buf = []
            else:
                self.buf = res.rows

    def executemany(self, sql, seq):
        n = 0
        for p in seq:
            self.execute(sql, p)
            n += max(self.rowcount, 0)
        self.rowcount = n

    def _fetch_page(self, n):
        def job(s):
            page = self.server_rows[:n]
            del self.server_rows[:n]
            return Result(self.res.cols, page, len(page), 'FETCH')
        r = self.connection._run(job, 'fetch')
        self.rowcount = len(r.rows)
        return r.rows

    def _row(self, r):
        vals = [py_value(v) for v in r]
        cols = self.res.cols
        if self.style == 'dict':
            return DictRow(cols, vals)
        if self.style == 'realdict':
            return dict(zip(cols, vals))
        if self.style == 'nt':
            import collections
            nt = collections.namedtuple('Record', [re.sub(r'[^a-zA-Z0-9_]', '_', c) for c in cols])
            return nt(*vals)
        return tuple(vals)

    def fetchone(self):
        self._live()
        if self.res is None or self.res.cols is None:
            raise psycopg2.ProgrammingError('no results to fetch')
        if self.name:
            rows = self._fetch_page(1)
            return self._row(rows[0]) if rows else None
        if self.pos >= len(self.buf):
            return None
        r = self.buf[self.pos]
        self.pos += 1
        self.rownumber = self.pos
        return self._row(r)

    def fetchmany(self, size=None):
        self._live()
        if self.res is None or self.res.cols is None:
            raise psycopg2.ProgrammingError('no results to fetch')
        size = size or self.arraysize
        if self.name:
            return [self._row(r) for r in self._fetch_page(size)]
        out = self.buf[self.pos:self.pos + size]
        self.pos += len(out)
        return [self._row(r) for r in out]

    def fetchall(self):
        self._live()
        if self.res is None or self.res.cols is None:
            raise psycopg2.ProgrammingError('no results to fetch')
        if self.name:
            return [self._row(r) for r in self._fetch_page(10**9)]
        out = self.buf[self.pos:]
        self.pos = len(self.buf)
        return [self._row(r) for r in out]

    def __iter__(self):
        if self.name:
            while True:
                rows = self._fetch_page(self.itersize)
                if not rows:
                    return
                for r in rows:
                    yield self._row(r)
        else:
            while True:
                r = self.fetchone()
                if r is None:
                    return
                yield r

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def setinputsizes(self, *a):
        pass

    def setoutputsize(self, *a):
        pass


class Column:
    def __init__(self, name):
        self.name = name
        self.type_code = None

    def __getitem__(self, i):
        return (self.name, None, None, None, None, None, None)[i]


class DictRow(list):
    """same access paths as psycopg2.extras.DictRow"""

    def __init__(self, cols, vals):
        super().__init__(vals)
        self._index = {c: i for i, c in enumerate(cols)}

    def __getitem__(self, x):
        if not isinstance(x, (int, slice)):
            x = self._index[x]
        return super().__getitem__(x)

    def __setitem__(self, x, v):
        if not isinstance(x, (int, slice)):
            x = self._index[x]
        super().__setitem__(x, v)

    def items(self):
        for k, i in self._index.items():
            yield k, list.__getitem__(self, i)

    def keys(self):
        return iter(self._index)

    def values(self):
        return iter(list.__iter__(self))

    def get(self, x, default=None):
        return self[x] if x in self._index else default

    def copy(self):
        return dict(self.items())

    def __contains__(self, x):
        return x in self._index


def py_value(v):
    if isinstance(v, Jsonb):
        return json.loads(v.text)
    if isinstance(v, Unk):
        return str(v)
    if isinstance(v, list):
        return [py_value(x) for x in v]
    return v


def _s(sql, cur):
    if isinstance(sql, bytes):
        return sql.decode('utf-8')
    if isinstance(sql, str):
        return sql
    raise HarnessError(f'unsupported query object {type(sql)}')


class Connection:
    """looks like psycopg2's connection, talks to the simulated server"""
    _fd = 100000

    def __init__(self, sim, db, proc, app, cursor_factory=None):
        self.sim = sim
        self.db = db
        self.proc = proc
        self.app = app
        self.session = db.connect(app)
        self.session.owner = proc
        self.closed = 0
        self.notifies = []
        self.notices = []
        self.broken = False
        self._autocommit = False
        self.cursor_factory = cursor_factory
        self.encoding = 'UTF8'
        self.server_version = 120006
        self.dsn = ''
        self.busy = None
        self.async_ = 0
        self._iso = None
        self._readonly = None
        Connection._fd += 1
        self._fdno = Connection._fd
        self._begun = False          # psycopg2's own idea of being in a transaction
        self._entered = False
        proc.resources.append(self)
        sim.env.setdefault('conns', []).append(self)

    # -- fault plumbing
    def proc_died(self):
        """our process ended: the server notices, at once or after a while"""
        if self.session.dead:
            return
        delay = self.proc.data.get('server_notice_us', 0) if self.proc.killed else 0
        if delay and not self.sim.stopping:
            s = self.session
            self.sim.env['reaper'](s, delay)
        else:
            self.session.terminate()

    def drop(self):
        """the connection is lost; the client finds out when it next uses it"""
        self.session.terminate()
        self.broken = True

    # -- statements
    def _run(self, job, label, stmts=None):
        sim, s = self.sim, self.session
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        faults = sim.point('sql ' + label)
        me = current_task()
        if self.busy is not None and self.busy is not me:
            sim.wait(lambda: self.busy is None)
        self.busy = me
        try:
            err = None
            after = []
            for f in faults:
                if f['kind'] == 'conn_drop' and f.get('phase', 'before') == 'before':
                    self.drop()
                elif f['kind'] == 'stmt_error':
                    err = PgError(f.get('code', '57014'), 'injected failure: canceling statement')
                else:
                    after.append(f)
            if s.dead or self.broken:
                self.broken = True
                self.closed = 2
                raise psycopg2.OperationalError('server closed the connection unexpectedly\n')
            arrived = []
            if s.txn is None and s.outbox:
                arrived, s.outbox = s.outbox, []
            if (not self._autocommit or self._entered) and not self._begun:
                self._begun = True
                if s.txn is None:
                    s.execute1('begin', {}, None)
                s.txn.iso = self._iso or s.iso
                if self._readonly is not None:
                    s.txn.readonly = self._readonly
            sim.env['db_task'] = me
            try:
                if err is not None:
                    if s.txn is not None:
                        s.txn.failed = True
                    sim.env.setdefault('stmt_errors', []).append((self.proc.name, label, sim.now))
                    raise err
                res = job(s)
            except PgError as e:
                if e.sqlstate == '57P01':
                    self.broken = True
                    self.closed = 2
                    raise psycopg2.OperationalError('terminating connection due to administrator command\nserver closed the connection unexpectedly\n')
                sim.event('sql_error', label=label, code=e.sqlstate, msg=e.msg[:120])
                raise pg_exception(e)
            except Unsupported as e:
                raise HarnessError(f'unsupported SQL ({label}): {e}')
            finally:
                self.notifies.extend(Notify(*n) for n in arrived)
            sim.event('sql', label=label, tag=res.tag)
            for f in after:
                if f['kind'] == 'crash':
                    sim.kill(self.proc, 'crash after ' + label)
                    raise SimCrash()
                if f['kind'] == 'conn_drop':
                    self.drop()
                    self.closed = 2
                    raise psycopg2.OperationalError('server closed the connection unexpectedly\n')
            if s.txn is None and s.outbox and sim.choices.take(2):
                got, s.outbox = s.outbox, []
                self.notifies.extend(Notify(*n) for n in got)
                sim.probe('notify_inband')
        finally:
            self.busy = None
        sim.lag()
        return res

    def _need_txn_for_named(self, cur):
        if self._autocommit and self.session.txn is None and not cur.withhold:
            raise psycopg2.ProgrammingError("can't use a named cursor outside of transactions")

    # -- API
    def cursor(self, name=None, cursor_factory=None, scrollable=None, withhold=False):
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        cf = cursor_factory or self.cursor_factory
        style = None
        if cf is not None and isinstance(cf, type):
            E = psycopg2.extras
            if issubclass(cf, E.DictCursor):
                style = 'dict'
            elif issubclass(cf, E.RealDictCursor):
                style = 'realdict'
            elif issubclass(cf, E.NamedTupleCursor):
                style = 'nt'
        return Cursor(self, name, style, withhold)

    def commit(self):
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        if not self._begun:
            return
        self._run(lambda s: s.execute1('commit', {}, None), 'commit', [('commit', {})])
        self._begun = False

    def rollback(self):
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        if not self._begun:
            return
        self._run(lambda s: s.execute1('rollback', {}, None), 'rollback', [('rollback', {})])
        self._begun = False

    def close(self):
        if self.closed:
            self.closed = self.closed or 1
            return
        self.closed = 1
        self.session.terminate()

    def cancel(self):
        pass

    def reset(self):
        self.rollback()

    @property
    def autocommit(self):
        return self._autocommit

    @autocommit.setter
    def autocommit(self, v):
        if self._begun:
            raise psycopg2.ProgrammingError('set_session cannot be used inside a transaction')
        self._autocommit = bool(v)

    @property
    def isolation_level(self):
        return self._iso

    def set_isolation_level(self, level):
        if level == psycopg2.extensions.ISOLATION_LEVEL_AUTOCOMMIT:
            self.rollback()
            self._autocommit = True
        else:
            self.rollback()
            self._autocommit = False
            self._iso = {2: 'rr', 3: 'rr'}.get(level, 'rc')

    def set_session(self, isolation_level=None, readonly=None, deferrable=None, autocommit=None):
        if self._begun:
            raise psycopg2.ProgrammingError('set_session cannot be used inside a transaction')
        if isolation_level is not None:
            lv = isolation_level
            if isinstance(lv, str):
                lv = {'READ COMMITTED': 1, 'REPEATABLE READ': 2, 'SERIALIZABLE': 3, 'READ UNCOMMITTED': 4, 'DEFAULT': 1}[lv.upper()]
            # SERIALIZABLE runs as REPEATABLE READ (no predicate locks)
            self._iso = {2: 'rr', 3: 'rr'}.get(lv, 'rc')
        if readonly is not None:
            self._readonly = None if readonly == 'DEFAULT' else bool(readonly)
            self.session.readonly = bool(self._readonly)
        if autocommit is not None:
            self._autocommit = bool(autocommit)

    @property
    def readonly(self):
        return self._readonly

    @readonly.setter
    def readonly(self, v):
        self.set_session(readonly=v)

    def poll(self):
        self.sim.point('poll')
        if self.session.dead or self.broken:
            self.closed = 2
            raise psycopg2.OperationalError('server closed the connection unexpectedly\n')
        s = self.session
        if s.txn is None and s.outbox:
            got, s.outbox = s.outbox, []
            self.notifies.extend(Notify(*n) for n in got)
            self.sim.probe('notify_polled')
        return psycopg2.extensions.POLL_OK

    def readable(self):
        """is there something to read on the socket?"""
        s = self.session
        return s.dead or self.broken or (s.txn is None and bool(s.outbox))

    def fileno(self):
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        return self._fdno

    def get_backend_pid(self):
        return self.session.pid

    def get_transaction_status(self):
        t = self.session.txn
        if t is None:
            return psycopg2.extensions.TRANSACTION_STATUS_IDLE
        return psycopg2.extensions.TRANSACTION_STATUS_INERROR if t.failed else psycopg2.extensions.TRANSACTION_STATUS_INTRANS

    @property
    def status(self):
        return psycopg2.extensions.STATUS_READY if not self._begun else psycopg2.extensions.STATUS_BEGIN

    def set_client_encoding(self, enc):
        self.encoding = enc

    def get_parameter_status(self, p):
        return None

    def __enter__(self):
        if self.closed:
            raise psycopg2.InterfaceError('connection already closed')
        if self._entered:
            raise psycopg2.ProgrammingError('the connection cannot be re-entered recursively')
        self._entered = True
        return self

    def __exit__(self, et, ev, tb):
        self._entered = False
        if et is None:
            self.commit()
        else:
            if isinstance(ev, SimCrash):
                return False
            self.rollback()
        return False


def sim_connect(sim, db, dsn=None, *a, **kw):
    t = current_task()
    faults = sim.point('connect')
    for f in faults:
        if f['kind'] in ('conn_drop', 'stmt_error'):
            raise psycopg2.OperationalError('could not connect to server: Connection refused\n')
        if f['kind'] == 'crash':
            sim.kill(t.proc, 'crash at connect')
            raise SimCrash()
    app = kw.get('application_name', '')
    c = Connection(sim, db, t.proc, app, kw.get('cursor_factory'))
    sim.event('connect', app=app)
    sim.lag()
    return c
