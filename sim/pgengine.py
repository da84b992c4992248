"""An in-memory PostgreSQL stand-in: MVCC at READ COMMITTED / REPEATABLE READ,
row, table and advisory locks with real waiting (in virtual time), deadlock
detection, savepoints, the aborted-transaction state, LISTEN/NOTIFY delivered
at commit, unique and not-null constraints.

It is a *stub* of the real server and is listed as such in the evidence.  Its
waiting is done through `db.wait(pred)`, supplied by the simulator.
"""
import datetime as dt
import json
import re
import zlib
from decimal import Decimal, InvalidOperation

from .core import HarnessError
from .sqlparser import parse, Unsupported, SyntaxErr

UTC = dt.timezone.utc


class PgError(Exception):
    def __init__(self, sqlstate, msg):
        super().__init__(msg)
        self.sqlstate = sqlstate
        self.msg = msg


class Unk(str):
    """an untyped string literal"""
    __slots__ = ()


# ------------------------------------------------------------------ jsonb
def _bad_const(c):
    raise PgError('22P02', f'invalid input syntax for type json: token "{c}" is invalid')


def _jtext(o):
    if o is None:
        return 'null'
    if o is True:
        return 'true'
    if o is False:
        return 'false'
    if isinstance(o, str):
        return json.dumps(o, ensure_ascii=False)
    if isinstance(o, Decimal):
        return format(o, 'f')
    if isinstance(o, int):
        return str(o)
    if isinstance(o, dict):
        items = sorted(o.items(), key=lambda kv: (len(kv[0].encode('utf-8')), kv[0].encode('utf-8')))
        return '{' + ', '.join(json.dumps(k, ensure_ascii=False) + ': ' + _jtext(v) for k, v in items) + '}'
    if isinstance(o, list):
        return '[' + ', '.join(_jtext(v) for v in o) + ']'
    raise HarnessError(f'json value {o!r}')


def _jcanon(o):
    if isinstance(o, bool) or o is None:
        return o
    if isinstance(o, (int, Decimal)):
        d = Decimal(o)
        d = d.normalize() if d else Decimal(0)
        return ('n', str(d))
    if isinstance(o, str):
        return ('s', o)
    if isinstance(o, list):
        return ('l', tuple(_jcanon(v) for v in o))
    return ('o', tuple(sorted((k, _jcanon(v)) for k, v in o.items())))


class Jsonb:
    __slots__ = ('obj', '_text', '_canon', 'src')

    def __init__(self, obj):
        self.obj = obj
        self._text = None
        self._canon = None

    @property
    def text(self):
        if self._text is None:
            self._text = _jtext(self.obj)
        return self._text

    @property
    def canon(self):
        if self._canon is None:
            self._canon = _jcanon(self.obj)
        return self._canon

    def __eq__(self, other):
        return isinstance(other, Jsonb) and self.canon == other.canon

    def __hash__(self):
        return hash(self.canon)

    def __repr__(self):
        t = self.text
        return f'jsonb({t[:60]}{"..." if len(t) > 60 else ""})'


_json_cache = {}


def parse_jsonb(s):
    hit = _json_cache.get(s)
    if hit is not None:
        return hit
    if '\\u0000' in s:
        stripped = s.replace('\\\\', '')
        if '\\u0000' in stripped:
            raise PgError('22P05', 'unsupported Unicode escape sequence')
    try:
        obj = json.loads(s, parse_float=Decimal, parse_constant=_bad_const)
    except (ValueError, RecursionError):
        raise PgError('22P02', 'invalid input syntax for type json')
    if re.search('[\ud800-\udfff]', s) or _has_surrogate(obj):
        raise PgError('22P02', 'invalid input syntax for type json')
    j = Jsonb(obj)
    if len(_json_cache) > 2000:
        _json_cache.clear()
    _json_cache[s] = j
    return j


def _has_surrogate(o):
    if isinstance(o, str):
        return any('\ud800' <= c <= '\udfff' for c in o)
    if isinstance(o, list):
        return any(_has_surrogate(x) for x in o)
    if isinstance(o, dict):
        return any(_has_surrogate(k) or _has_surrogate(v) for k, v in o.items())
    return False


# ------------------------------------------------------------------ casts
_UNIT = {'us': 1, 'microsecond': 1, 'microseconds': 1, 'usec': 1, 'ms': 1000, 'msec': 1000, 'millisecond': 1000, 'milliseconds': 1000,
         's': 10**6, 'sec': 10**6, 'secs': 10**6, 'second': 10**6, 'seconds': 10**6,
         'm': 60 * 10**6, 'min': 60 * 10**6, 'mins': 60 * 10**6, 'minute': 60 * 10**6, 'minutes': 60 * 10**6,
         'h': 3600 * 10**6, 'hr': 3600 * 10**6, 'hrs': 3600 * 10**6, 'hour': 3600 * 10**6, 'hours': 3600 * 10**6,
         'd': 86400 * 10**6, 'day': 86400 * 10**6, 'days': 86400 * 10**6,
         'w': 7 * 86400 * 10**6, 'week': 7 * 86400 * 10**6, 'weeks': 7 * 86400 * 10**6,
         'mon': 30 * 86400 * 10**6, 'month': 30 * 86400 * 10**6, 'months': 30 * 86400 * 10**6,
         'y': 365 * 86400 * 10**6, 'year': 365 * 86400 * 10**6, 'years': 365 * 86400 * 10**6}


def parse_interval(s):
    s0 = s
    s = s.strip().lower()
    total = Decimal(0)
    pos = 0
    m = re.fullmatch(r'(?:(-?\d+) days?,? )?(-?)(\d+):(\d\d)(?::(\d\d(?:\.\d+)?))?', s)
    if m:
        d, sg, h, mi, se = m.groups()
        us = (int(h) * 3600 + int(mi) * 60) * 10**6 + int(Decimal(se or 0) * 10**6)
        us = -us if sg else us
        return dt.timedelta(days=int(d or 0), microseconds=us)
    for m in re.finditer(r'\s*([-+]?\d+(?:\.\d*)?|[-+]?\.\d+)\s*([a-zµ]*)', s):
        if m.start() != pos:
            break
        pos = m.end()
        unit = m.group(2) or 'seconds'
        if unit not in _UNIT:
            raise PgError('22007', f'invalid input syntax for type interval: "{s0}"')
        total += Decimal(m.group(1)) * _UNIT[unit]
    if pos != len(s) or not s:
        if s.endswith(' ago') and pos:
            return -dt.timedelta(microseconds=int(total))
        raise PgError('22007', f'invalid input syntax for type interval: "{s0}"')
    return dt.timedelta(microseconds=int(total.to_integral_value()))


def parse_ts(s, tz):
    x = s.strip()
    try:
        if x == 'now':
            raise ValueError
        x2 = re.sub(r'\s+', ' ', x)
        x2 = re.sub(r'Z$', '+00:00', x2)
        x2 = re.sub(r'([+-]\d\d)$', r'\1:00', x2) if re.search(r':\d\d(\.\d+)?[+-]\d\d$', x2) else x2
        d = dt.datetime.fromisoformat(x2)
    except ValueError:
        raise PgError('22007', f'invalid input syntax for type timestamp: "{s}"')
    if tz:
        return d if d.tzinfo else d.replace(tzinfo=UTC)
    return d.replace(tzinfo=None)


def typeof(v):
    if v is None:
        return 'null'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, Decimal):
        return 'numeric'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, Unk):
        return 'unknown'
    if isinstance(v, str):
        return 'text'
    if isinstance(v, Jsonb):
        return 'jsonb'
    if isinstance(v, dt.datetime):
        return 'timestamptz' if v.tzinfo else 'timestamp'
    if isinstance(v, dt.date):
        return 'date'
    if isinstance(v, dt.timedelta):
        return 'interval'
    if isinstance(v, list):
        return 'array'
    if isinstance(v, tuple):
        return 'record'
    raise HarnessError(f'no SQL type for {v!r}')


def to_text(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return str(v)
    if isinstance(v, Jsonb):
        return v.text
    if isinstance(v, Decimal):
        return format(v, 'f')
    if isinstance(v, dt.datetime):
        s = v.isoformat(sep=' ')
        return re.sub(r'([+-]\d\d):00$', r'\1', s)
    if isinstance(v, dt.timedelta):
        return str(v)
    if isinstance(v, list):
        return '{' + ','.join('NULL' if x is None else to_text(x) for x in v) + '}'
    return str(v)


def cast(v, ty, explicit=True):
    """explicit cast, or assignment cast when explicit is False"""
    if v is None:
        return None
    if ty.endswith('[]'):
        base = ty[:-2]
        if isinstance(v, list):
            return [cast(x, base, explicit) for x in v]
        if isinstance(v, str):
            s = v.strip()
            if s == '{}':
                return []
            if s.startswith('{') and s.endswith('}'):
                return [cast(Unk(x.strip('"')), base) for x in s[1:-1].split(',')]
        raise PgError('22P02', f'malformed array literal: "{v}"')
    src = typeof(v)
    if ty == src:
        return v
    strlike = src == 'unknown' or (src == 'text' and explicit)
    try:
        if ty == 'text':
            if src in ('unknown', 'text'):
                return str(v)
            return to_text(v)
        if ty == 'int':
            if strlike:
                try:
                    n = int(v.strip())
                except ValueError:
                    raise PgError('22P02', f'invalid input syntax for type integer: "{v}"')
            elif src in ('numeric', 'float'):
                n = int(Decimal(v).to_integral_value())
            elif src == 'bool' and explicit:
                n = int(v)
            else:
                raise PgError('42804', f'column is of type integer but expression is of type {src}')
            return n
        if ty in ('numeric', 'float'):
            if strlike or src in ('int', 'numeric', 'float'):
                try:
                    d = Decimal(v.strip() if isinstance(v, str) else str(v))
                except InvalidOperation:
                    raise PgError('22P02', f'invalid input syntax for type {ty}: "{v}"')
                return d if ty == 'numeric' else float(d)
            raise PgError('42804', f'column is of type {ty} but expression is of type {src}')
        if ty == 'bool':
            if strlike:
                x = v.strip().lower()
                if x in ('t', 'true', 'yes', 'on', '1', 'y'):
                    return True
                if x in ('f', 'false', 'no', 'off', '0', 'n'):
                    return False
                raise PgError('22P02', f'invalid input syntax for type boolean: "{v}"')
            if src == 'int' and explicit:
                return v != 0
            raise PgError('42804', f'column is of type boolean but expression is of type {src}')
        if ty in ('jsonb', 'json'):
            if strlike:
                return parse_jsonb(v)
            raise PgError('42804', f'column is of type jsonb but expression is of type {src}')
        if ty == 'timestamptz':
            if strlike:
                return parse_ts(v, True)
            if src == 'timestamp':
                return v.replace(tzinfo=UTC)
            if src == 'date':
                return dt.datetime(v.year, v.month, v.day, tzinfo=UTC)
            raise PgError('42804', f'column is of type timestamptz but expression is of type {src}')
        if ty == 'timestamp':
            if strlike:
                return parse_ts(v, False)
            if src == 'timestamptz':
                return v.astimezone(UTC).replace(tzinfo=None)
            if src == 'date':
                return dt.datetime(v.year, v.month, v.day)
            raise PgError('42804', f'column is of type timestamp but expression is of type {src}')
        if ty == 'date':
            if strlike:
                return parse_ts(v, False).date()
            if src in ('timestamptz', 'timestamp'):
                return v.date()
            raise PgError('42804', f'column is of type date but expression is of type {src}')
        if ty == 'interval':
            if strlike:
                return parse_interval(v)
            raise PgError('42804', f'column is of type interval but expression is of type {src}')
    except OverflowError:
        raise PgError('22003', 'value out of range')
    raise Unsupported(f'cast {src} to {ty}')


NUM = ('int', 'numeric', 'float')


def unify(a, b):
    """coerce unknown literals towards the other side's type"""
    ta, tb = typeof(a), typeof(b)
    if ta == tb:
        return a, b
    if ta == 'unknown':
        if tb in ('text', 'null'):
            return str(a), b
        if tb in ('array', 'record'):
            return a, b
        return cast(a, 'numeric' if tb == 'int' and '.' in a else tb), b
    if tb == 'unknown':
        if ta in ('text', 'null'):
            return a, str(b)
        if ta in ('array', 'record'):
            return a, b
        return a, cast(b, 'numeric' if ta == 'int' and '.' in b else ta)
    if ta in NUM and tb in NUM:
        if 'float' in (ta, tb):
            return float(a), float(b)
        return Decimal(a), Decimal(b)
    if ta == 'timestamptz' and tb in ('timestamp', 'date'):
        return a, cast(b, 'timestamptz')
    if tb == 'timestamptz' and ta in ('timestamp', 'date'):
        return cast(a, 'timestamptz'), b
    if ta == 'timestamp' and tb == 'date':
        return a, cast(b, 'timestamp')
    if tb == 'timestamp' and ta == 'date':
        return cast(a, 'timestamp'), b
    raise PgError('42883', f'operator does not exist: {ta} = {tb}')


def jkey(j):
    return repr(j.canon)


def compare(op, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if op == '=':
            res = True
            for x, y in zip(a, b):
                c = compare('=', x, y)
                if c is False:
                    return False
                if c is None:
                    res = None
            return res
        if op == '<>':
            c = compare('=', a, b)
            return None if c is None else not c
        for x, y in zip(a, b):
            e = compare('=', x, y)
            if e is None:
                return None
            if not e:
                return compare(op[0], x, y)
        return op in ('<=', '>=')
    if a is None or b is None:
        return None
    a, b = unify(a, b)
    if isinstance(a, Jsonb):
        if op == '=':
            return a == b
        if op == '<>':
            return not a == b
        a, b = jkey(a), jkey(b)
    if op == '=':
        return a == b
    if op == '<>':
        return a != b
    if op == '<':
        return a < b
    if op == '>':
        return a > b
    if op == '<=':
        return a <= b
    return a >= b


class SortKey:
    __slots__ = ('v', 'desc', 'nulls')

    def __init__(self, v, desc, nulls):
        self.v, self.desc = v, desc
        self.nulls = nulls or ('first' if desc else 'last')

    def __lt__(self, o):
        a, b = self.v, o.v
        if a is None or b is None:
            if a is None and b is None:
                return False
            return (a is None) == (self.nulls == 'first')
        return bool(compare('>' if self.desc else '<', a, b))

    def __eq__(self, o):
        if self.v is None or o.v is None:
            return self.v is None and o.v is None
        return bool(compare('=', self.v, o.v))


# ------------------------------------------------------------------ storage
class Sub:
    """a (sub)transaction"""
    __slots__ = ('top', 'parent', 'aborted')

    def __init__(self, top, parent):
        self.top, self.parent, self.aborted = top, parent, False

    def is_aborted(self):
        s = self
        while s is not None:
            if s.aborted:
                return True
            s = s.parent
        return self.top.status == 'aborted'

    def live(self):
        """still in progress (neither committed nor aborted)"""
        return self.top.status == 'active' and not self.is_aborted()


class Txn:
    _n = 0

    def __init__(self, db, session, implicit):
        self.db = db
        self.session = session
        self.id = db.next_xid()
        self.status = 'active'
        self.seq = None
        self.failed = False
        self.root = Sub(self, None)
        self.stack = []           # (name, Sub)
        self.cid = 0
        self.start = db.clock()
        self.start_us = db.now_us()
        self.iso = session.iso
        self.readonly = session.readonly
        self.snap = None
        self.touched = []         # Row objects
        self.notifies = []        # (sub, channel, payload)
        self.listens = []         # (sub, 'add'|'del', channel)
        self.table_locks = {}     # table -> set(modes)
        self.adv = []             # advisory keys held until the end
        self.implicit = implicit
        self.takes = []

    @property
    def sub(self):
        return self.stack[-1][1] if self.stack else self.root


class Ver:
    __slots__ = ('vals', 'xmin', 'cmin', 'xmax', 'cmax', 'row', 'order')

    def __init__(self, vals, xmin, cmin, row, order):
        self.vals, self.xmin, self.cmin = vals, xmin, cmin
        self.xmax, self.cmax = None, None
        self.row = row
        self.order = order


class Row:
    __slots__ = ('table', 'vers', 'lockers', 'rid', 'committed')

    def __init__(self, table, rid):
        self.table = table
        self.vers = []
        self.lockers = {}        # Txn -> (mode, Sub)
        self.rid = rid
        self.committed = None


class Table:
    def __init__(self, name, cols, unique=()):
        self.name = name
        self.cols = cols                     # list of (name, type, default, notnull)
        self.colnames = [c[0] for c in cols]
        self.types = {c[0]: c[1] for c in cols}
        self.unique = list(unique)           # list of (name, keyfunc(vals) -> hashable or None)
        self.rows = []
        self.serial = 0

    def committed(self):
        return [r.committed for r in self.rows if r.committed is not None]


class Activity(Table):
    """the system view of the open sessions, not subject to snapshots"""

    def __init__(self):
        super().__init__('pg_stat_activity', [(n, 'text' if n != 'pid' else 'int', None, False) for n in ('datname', 'pid', 'usename', 'application_name', 'backend_type', 'state')])

    def current(self, db, mine):
        out = []
        for s in db.sessions:
            if s.dead:
                continue
            state = 'active' if s is mine or s.busy or s.waiting else 'idle in transaction' if s.txn is not None else 'idle'
            out.append(Ver({'datname': 'degreepath', 'pid': s.pid, 'usename': 'degreepath', 'application_name': (s.app or '')[:63], 'backend_type': 'client backend', 'state': state}, None, 0, None, s.pid))
        return out


CONFLICTS = {
    'access share': {'access exclusive'},
    'row share': {'exclusive', 'access exclusive'},
    'row exclusive': {'share', 'share row exclusive', 'exclusive', 'access exclusive'},
    'share update exclusive': {'share update exclusive', 'share', 'share row exclusive', 'exclusive', 'access exclusive'},
    'share': {'row exclusive', 'share update exclusive', 'share row exclusive', 'exclusive', 'access exclusive'},
    'share row exclusive': {'row exclusive', 'share update exclusive', 'share', 'share row exclusive', 'exclusive', 'access exclusive'},
    'exclusive': {'row share', 'row exclusive', 'share update exclusive', 'share', 'share row exclusive', 'exclusive', 'access exclusive'},
    'access exclusive': set(['access share', 'row share', 'row exclusive', 'share update exclusive', 'share', 'share row exclusive', 'exclusive', 'access exclusive']),
}


class Database:
    def __init__(self, now_us, wait, mid_point=None, epoch=None, reverse_scan=False):
        self.tables = {}
        self._now = now_us
        self.wait_fn = wait
        self.mid_point = mid_point or (lambda: None)
        self.epoch = epoch or dt.datetime(2021, 3, 1, 12, 0, 0, tzinfo=UTC)
        self.skew_us = 0
        self.xid = 0
        self.commit_seq = 0
        self.order = 0
        self.sessions = []
        self.advisory = {}        # key -> list of (session, txn or None)
        self.on_commit = []       # f(txn, changes)
        self.on_write = []        # f(session, kind, table, old, new)
        self.on_stmt = []         # f(session, exec, kind, st) when a statement starts
        self.on_lock = []         # f(session, exec, row, version) when a row is locked
        self.on_wait = []         # f(session, what) when a lock wait starts
        self.on_end = []          # f(txn, committed: bool)
        self.triggers = {}        # table -> f(txn, vals) on insert
        self.reverse_scan = reverse_scan
        self.tick = 0
        self.stats = {}

    # time
    def now_us(self):
        return self._now()

    def clock(self):
        self.tick += 1
        return self.epoch + dt.timedelta(microseconds=self._now() + self.skew_us)

    def next_xid(self):
        self.xid += 1
        return self.xid

    def add_table(self, table):
        self.tables[table.name] = table

    def table(self, name):
        t = self.tables.get(name)
        if t is None:
            raise PgError('42P01', f'relation "{name}" does not exist')
        return t

    def connect(self, app, **kw):
        s = Session(self, app)
        self.sessions.append(s)
        return s

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def seed(self, table, vals):
        """put a committed row in place before the run"""
        t = self.table(table)
        s = Session(self, 'seed')
        txn = Txn(self, s, True)
        ex = Exec(s, txn, None)
        vals = {k: Unk(v) if type(v) is str else v for k, v in vals.items()}
        full = ex.fill_defaults(t, vals)
        row = ex.raw_insert(t, full)
        txn.status = 'committed'
        self.commit_seq += 1
        txn.seq = self.commit_seq
        row.committed = row.vers[-1].vals
        return row.committed

    # waiting
    def wait_for(self, session, holders_fn, what):
        """block until holders_fn() (a list of Txn/Session) is empty"""
        holders = [h for h in holders_fn() if h is not session.txn]
        if not holders:
            return
        session.waiting = holders_fn
        self.stat('lock_wait')
        for cb in self.on_wait:
            cb(session, what)
        try:
            if self._deadlocked(session):
                self.stat('deadlock')
                raise PgError('40P01', 'deadlock detected')
            self.wait_fn(lambda: session.dead or not [h for h in holders_fn() if h is not session.txn])
        finally:
            session.waiting = None
        if session.dead:
            raise PgError('57P01', 'terminating connection due to administrator command')

    def _deadlocked(self, session):
        seen = set()
        todo = [session]
        while todo:
            s = todo.pop()
            if s.waiting is None:
                continue
            for h in s.waiting():
                hs = h.session if isinstance(h, Txn) else h
                if hs is session and s is not session:
                    return True
                if hs is session:
                    continue
                if id(hs) not in seen:
                    seen.add(id(hs))
                    todo.append(hs)
        return False

    # commit / abort
    def finish(self, txn, commit):
        session = txn.session
        if commit:
            self.commit_seq += 1
            txn.status = 'committed'
            txn.seq = self.commit_seq
            changes = []
            seen = set()
            for row in txn.touched:
                if id(row) in seen:
                    continue
                seen.add(id(row))
                old = row.committed
                new = None
                for v in reversed(row.vers):
                    if v.xmin.is_aborted():
                        continue
                    if v.xmax is not None and not v.xmax.is_aborted() and v.xmax.top.status == 'committed':
                        new = None
                    else:
                        new = v.vals
                    break
                if old is not new:
                    row.committed = new
                    changes.append((row.table.name, row.rid, old, new))
            for sub, kind, ch in txn.listens:
                if not sub.is_aborted():
                    if kind == 'add':
                        session.channels.add(ch)
                    elif ch == '*':
                        session.channels.clear()
                    else:
                        session.channels.discard(ch)
            sent = set()
            for sub, ch, payload in txn.notifies:
                if sub.is_aborted() or (ch, payload) in sent:
                    continue
                sent.add((ch, payload))
                for s in self.sessions:
                    if not s.dead and ch in s.channels:
                        s.outbox.append((session.pid, ch, payload))
        else:
            txn.status = 'aborted'
            changes = []
        for row in txn.touched:
            row.lockers.pop(txn, None)
        for key in txn.adv:
            lst = self.advisory.get(key, [])
            for e in list(lst):
                if e[1] is txn:
                    lst.remove(e)
        session.txn = None
        for cb in self.on_end:
            cb(txn, commit)
        if commit:
            for cb in self.on_commit:
                cb(txn, changes)


ADVISORY = {t + x + 'lock' + s for t in ('pg_advisory_', 'pg_try_advisory_') for x in ('', 'xact_') for s in ('', '_shared')}


class Session:
    _pid = 1000

    def __init__(self, db, app):
        self.db = db
        self.app = app
        self.pid = 1000 + len(db.sessions)
        self.txn = None
        self.dead = False
        self.waiting = None
        self.channels = set()
        self.outbox = []
        self.iso = 'rc'
        self.readonly = False
        self.busy = False
        self.owner = None
        self.settings = {}

    def terminate(self):
        if self.dead:
            return
        self.dead = True
        if self.txn is not None:
            self.db.finish(self.txn, False)
        for lst in self.db.advisory.values():
            for e in list(lst):
                if e[0] is self:
                    lst.remove(e)
        self.channels.clear()
        self.outbox = []

    # -- statement execution
    def execute(self, stmts, params):
        """run parsed statements; returns the last result"""
        res = Result()
        if len(stmts) == 0:
            raise PgError('42601', "can't execute an empty query")
        started_implicit = False
        if len(stmts) > 1 and self.txn is None and not any(k == 'begin' for k, _ in stmts):
            self.txn = Txn(self.db, self, True)
            started_implicit = True
        try:
            for kind, st in stmts:
                res = self.execute1(kind, st, params)
        except PgError:
            if started_implicit and self.txn is not None:
                self.db.finish(self.txn, False)
            raise
        if started_implicit and self.txn is not None:
            self.db.finish(self.txn, True)
        return res

    def execute1(self, kind, st, params):
        if self.dead:
            raise PgError('57P01', 'terminating connection')
        db, txn = self.db, self.txn
        if kind == 'begin':
            if txn is not None:
                if txn.failed:
                    raise PgError('25P02', 'current transaction is aborted, commands ignored until end of transaction block')
                if txn.implicit:
                    txn.implicit = False
                return Result(tag='BEGIN')     # WARNING: already a transaction in progress
            self.txn = Txn(db, self, False)
            if st.get('iso'):
                self.txn.iso = self._iso(st['iso'])
            if st.get('readonly') is not None:
                self.txn.readonly = st['readonly']
            return Result(tag='BEGIN')
        if kind == 'commit':
            if txn is None:
                return Result(tag='COMMIT')    # WARNING: no transaction in progress
            if txn.failed:
                db.finish(txn, False)
                return Result(tag='ROLLBACK')
            db.finish(txn, True)
            return Result(tag='COMMIT')
        if kind == 'rollback':
            if txn is not None:
                db.finish(txn, False)
            return Result(tag='ROLLBACK')
        if kind == 'rollback_to':
            if txn is None or txn.implicit:
                raise PgError('25P01', 'ROLLBACK TO SAVEPOINT can only be used in transaction blocks')
            for i in range(len(txn.stack) - 1, -1, -1):
                if txn.stack[i][0] == st['name']:
                    break
            else:
                raise self._failtxn(PgError('3B001', f'savepoint "{st["name"]}" does not exist'))
            for _, sub in txn.stack[i:]:
                sub.aborted = True
            txn.stack[i:] = []
            txn.stack.append((st['name'], Sub(txn, txn.sub)))
            txn.failed = False
            return Result(tag='ROLLBACK')
        if txn is not None and txn.failed:
            raise PgError('25P02', 'current transaction is aborted, commands ignored until end of transaction block')
        if kind == 'savepoint':
            if txn is None or txn.implicit:
                raise PgError('25P01', 'SAVEPOINT can only be used in transaction blocks')
            txn.stack.append((st['name'], Sub(txn, txn.sub)))
            return Result(tag='SAVEPOINT')
        if kind == 'release':
            if txn is None or txn.implicit:
                raise PgError('25P01', 'RELEASE SAVEPOINT can only be used in transaction blocks')
            for i in range(len(txn.stack) - 1, -1, -1):
                if txn.stack[i][0] == st['name']:
                    txn.stack[i:] = []
                    return Result(tag='RELEASE')
            raise self._failtxn(PgError('3B001', 'savepoint does not exist'))
        if kind == 'set':
            self.settings[st['name']] = st['vals']
            return Result(tag='SET')
        if kind == 'upkeep':
            if st['what'] == 'vacuum' and txn is not None:
                raise self._failtxn(PgError('25001', 'VACUUM cannot run inside a transaction block'))
            return Result(tag=st['what'].upper())
        if kind == 'set_transaction':
            if txn is not None:
                if st.get('iso'):
                    txn.iso = self._iso(st['iso'])
                if st.get('readonly') is not None:
                    txn.readonly = st['readonly']
            return Result(tag='SET')

        own = txn is None
        if own:
            txn = self.txn = Txn(db, self, True)
        try:
            txn.cid += 1
            ex = Exec(self, txn, params)
            for cb in db.on_stmt:
                cb(self, ex, kind, st)
            res = ex.run(kind, st)
        except PgError:
            if own:
                if self.txn is txn:
                    db.finish(txn, False)
            else:
                txn.failed = True
            raise
        except BaseException:
            raise
        if own and self.txn is txn:
            db.finish(txn, True)
        return res

    def _failtxn(self, e):
        if self.txn is not None and not self.txn.implicit:
            self.txn.failed = True
        return e

    def _iso(self, iso):
        return 'rr' if iso == 'ser' else iso


class Result:
    def __init__(self, cols=None, rows=None, count=-1, tag=''):
        self.cols = cols            # list of names or None
        self.rows = rows            # list of tuples or None
        self.count = count
        self.tag = tag


class Env:
    __slots__ = ('b', 'parent', 'depth', 'extra')

    def __init__(self, bindings, parent, extra=None):
        self.b = bindings           # alias -> (colnames, dict)
        self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1
        self.extra = extra


AGG = {'count', 'sum', 'max', 'min', 'avg', 'array_agg', 'string_agg', 'bool_and', 'bool_or', 'every', 'jsonb_agg', 'json_agg'}


def walk_agg(e):
    """does this expression contain an aggregate (outside subqueries)?"""
    if not isinstance(e, tuple) or not e:
        return False
    if e[0] in ('subq', 'exists', 'arrsub', 'ulit', 'lit', 'col', 'param'):
        return False
    if e[0] == 'insub':
        return walk_agg(e[1])
    if e[0] == 'func' and e[1] in AGG:
        return True
    for x in e[1:]:
        if isinstance(x, tuple) and walk_agg(x):
            return True
        if isinstance(x, list):
            for y in x:
                if isinstance(y, tuple) and (walk_agg(y) or any(isinstance(z, tuple) and walk_agg(z) for z in y)):
                    return True
    return False


class Exec:
    """one statement"""

    def __init__(self, session, txn, params):
        self.s, self.txn, self.params = session, txn, params
        self.db = session.db
        self.sub = txn.sub
        if txn.iso == 'rr':
            if txn.snap is None:
                txn.snap = self.db.commit_seq
            self.snap = txn.snap
        else:
            self.snap = self.db.commit_seq
        self.cache = {}
        self.low = 10 ** 9
        self.ctes = {}
        self.stmt_ts = self.db.clock()
        self.window = None
        self.agg_rows = None

    # -- dispatch
    def run(self, kind, st):
        if kind == 'select':
            cols, rows = self.select(st, None)
            return Result(cols, rows, len(rows), f'SELECT {len(rows)}')
        if kind in ('insert', 'update', 'delete', 'truncate', 'lock') and self.txn.readonly:
            raise PgError('25006', f'cannot execute {kind.upper()} in a read-only transaction')
        if kind == 'insert':
            return self.insert(st)
        if kind == 'update':
            return self.update(st)
        if kind == 'delete':
            return self.delete(st)
        if kind == 'with':
            for name, cols, (k2, st2) in st['ctes']:
                r = self.run(k2, st2)
                names = cols or r.cols or []
                self.ctes[name] = (names, r.rows or [])
            return self.run(*st['main'])
        if kind == 'truncate':
            return self.delete(dict(table=st['table'], alias=st['table'], frm=[], where=None, returning=None))
        if kind == 'lock':
            for t in st['tables']:
                self.table_lock(self.db.table(t), st['mode'], st['nowait'])
            if self.txn.iso == 'rc':
                self.snap = self.db.commit_seq
            return Result(tag='LOCK TABLE')
        if kind == 'listen':
            self.txn.listens.append((self.sub, 'add', st['channel']))
            return Result(tag='LISTEN')
        if kind == 'unlisten':
            self.txn.listens.append((self.sub, 'del', st['channel']))
            return Result(tag='UNLISTEN')
        if kind == 'notify':
            self.txn.notifies.append((self.sub, st['channel'], st['payload']))
            return Result(tag='NOTIFY')
        raise Unsupported(f'statement {kind}')

    # -- visibility
    def visible(self, ver):
        x = ver.xmin
        if x.top is self.txn:
            if x.is_aborted() or ver.cmin >= self.txn.cid:
                return False
        elif not (x.top.status == 'committed' and x.top.seq <= self.snap and not x.is_aborted()):
            return False
        y = ver.xmax
        if y is None:
            return True
        if y.top is self.txn:
            return y.is_aborted() or ver.cmax >= self.txn.cid
        return not (y.top.status == 'committed' and y.top.seq <= self.snap and not y.is_aborted())

    def scan(self, table):
        if isinstance(table, Activity):
            return table.current(self.db, self.s)
        self.table_lock(table, 'access share')
        out = []
        for row in table.rows:
            for v in reversed(row.vers):
                if self.visible(v):
                    out.append(v)
                    break
        out.sort(key=lambda v: v.order, reverse=self.db.reverse_scan)
        return out

    # -- locks
    def table_lock(self, table, mode, nowait=False):
        held = self.txn.table_locks.setdefault(table.name, set())
        if mode in held:
            return
        conf = CONFLICTS[mode]

        def holders():
            return [s.txn for s in self.db.sessions
                    if s is not self.s and s.txn is not None and s.txn.status == 'active' and (s.txn.table_locks.get(table.name, set()) & conf)]
        if holders():
            if nowait:
                raise PgError('55P03', f'could not obtain lock on relation "{table.name}"')
            self.db.wait_for(self.s, holders, table.name)
            if self.txn.iso == 'rc':
                self.snap = self.db.commit_seq
        held.add(mode)

    def row_holders(self, row, mode='update'):
        out = []
        for t, (m, sub) in list(row.lockers.items()):
            if t is not self.txn and sub.live():
                if not (mode in ('share', 'kshare') and m in ('share', 'kshare')):
                    out.append(t)
        v = self.latest(row)
        if v is not None and v.xmax is not None and v.xmax.live() and v.xmax.top is not self.txn:
            if v.xmax.top not in out:
                out.append(v.xmax.top)
        # an uncommitted new version made by somebody else
        if v is not None and v.xmin.live() and v.xmin.top is not self.txn and v.xmin.top not in out:
            out.append(v.xmin.top)
        return out

    @staticmethod
    def latest(row):
        for v in reversed(row.vers):
            if not v.xmin.is_aborted():
                return v
        return None

    def lock_row(self, ver, mode='update', wait='wait'):
        """lock the row of ver; returns the version to work on, or None to skip"""
        row = ver.row
        while True:
            hs = self.row_holders(row, mode)
            if not hs:
                break
            if wait == 'skip':
                return None
            if wait == 'nowait':
                raise PgError('55P03', 'could not obtain lock on row')
            self.db.wait_for(self.s, lambda: self.row_holders(row, mode), row.table.name)
        cur = self.latest(row)
        if cur is None:
            return None
        if cur.xmax is not None and not cur.xmax.is_aborted():
            if cur.xmax.top.status == 'committed' or cur.xmax.top is self.txn:
                if cur.xmax.top is not self.txn and self.txn.iso == 'rr' and cur.xmax.top.seq > self.snap:
                    raise PgError('40001', 'could not serialize access due to concurrent delete')
                return None
        if cur is not ver and self.txn.iso == 'rr' and cur.xmin.top is not self.txn:
            raise PgError('40001', 'could not serialize access due to concurrent update')
        have = row.lockers.get(self.txn)
        if have is None or not have[1].live() or (have[0] in ('share', 'kshare') and mode not in ('share', 'kshare')):
            row.lockers[self.txn] = (mode, self.sub)
        self.txn.touched.append(row)
        for cb in self.db.on_lock:
            cb(self.s, self, row, cur)
        return cur

    # -- from
    def from_rows(self, items, parent, lock=None):
        """list of (bindings, {alias: Ver})"""
        rows = [({}, {})]
        for it in items:
            new = []
            for b, vs in rows:
                for b2, v2 in self.item_rows(it, parent, b):
                    nb = dict(b)
                    nb.update(b2)
                    nv = dict(vs)
                    nv.update(v2)
                    new.append((nb, nv))
            rows = new
        return rows

    def item_rows(self, it, parent, sofar):
        k = it[0]
        if k == 'table':
            _, name, alias = it
            if name in self.ctes:
                cols, rws = self.ctes[name]
                return [({alias: (cols, dict(zip(cols, r)))}, {}) for r in rws]
            t = self.db.table(name)
            return [({alias: (t.colnames, v.vals)}, {alias: v}) for v in self.scan(t)]
        if k == 'sub':
            _, s, alias, cols = it
            names, rws = self.select(s, parent)
            names = cols or names
            return [({alias: (names, dict(zip(names, r)))}, {}) for r in rws]
        if k == 'funcscan':
            _, name, args, alias, cols = it
            vals = [self.ev(a, Env(sofar, parent)) for a in args]
            if name == 'unnest':
                col = (cols or [alias])[0]
                return [({alias: ([col], {col: x})}, {}) for x in (vals[0] or [])]
            if name == 'generate_series':
                col = (cols or [alias])[0]
                return [({alias: ([col], {col: x})}, {}) for x in range(vals[0], vals[1] + 1)]
            r = self.func(name, vals)
            col = (cols or [alias])[0]
            return [({alias: ([col], {col: r})}, {})]
        if k == 'lsub':
            _, s, alias, cols = it
            names, rws = self.select(s, Env(sofar, parent))
            names = cols or names
            return [({alias: (names, dict(zip(names, r)))}, {}) for r in rws]
        if k == 'join' and it[1] in ('right', 'full'):
            _, kind, l, r, cond = it
            # the other way round, plus (full) what is left over on the left
            out = [(b, v) for b, v in self.item_rows(('join', 'left', r, l, cond), parent, sofar)]
            if kind == 'full':
                names = [a for a, _ in self.item_cols(l, parent)]
                got = [{a: b[a][1] for a in names} for b, v in out]
                for lb, lv in self.item_rows(l, parent, sofar):
                    if not any(all(g[a] is lb[a][1] for a in names) for g in got):
                        nb = dict(lb)
                        for alias, cols in self.item_cols(r, parent):
                            nb[alias] = (cols, {c: None for c in cols})
                        out.append((nb, dict(lv)))
            return out
        if k == 'join':
            _, kind, l, r, cond = it
            out = []
            for lb, lv in self.item_rows(l, parent, sofar):
                hit = False
                for rb, rv in self.item_rows(r, parent, {**sofar, **lb}):
                    nb = dict(lb)
                    nb.update(rb)
                    if cond is None:
                        ok = True
                    elif cond[0] == 'using':
                        ok = all(compare('=', self.lookup_in(lb, c), self.lookup_in(rb, c)) for c in cond[1])
                    else:
                        ok = self.ev(cond, Env(nb, parent)) is True
                    if ok:
                        hit = True
                        nv = dict(lv)
                        nv.update(rv)
                        out.append((nb, nv))
                if not hit and kind == 'left':
                    nb = dict(lb)
                    for alias, cols in self.item_cols(r, parent):
                        nb[alias] = (cols, {c: None for c in cols})
                    out.append((nb, dict(lv)))
            return out
        raise Unsupported(k)

    def item_cols(self, it, parent):
        k = it[0]
        if k == 'table':
            if it[1] in self.ctes:
                return [(it[2], self.ctes[it[1]][0])]
            return [(it[2], self.db.table(it[1]).colnames)]
        if k in ('sub', 'lsub'):
            names = it[3] or [t[2] for t in it[1]['targets']]
            return [(it[2], names)]
        if k == 'join':
            return self.item_cols(it[2], parent) + self.item_cols(it[3], parent)
        raise Unsupported(k)

    def lookup_in(self, b, c):
        for cols, d in b.values():
            if c in d:
                return d[c]
        raise PgError('42703', f'column "{c}" does not exist')

    # -- select
    def select(self, s, parent):
        if 'setop' in s:
            _, l = self.select(s['left'], parent)
            _, r = self.select(s['right'], parent)
            key = lambda row: tuple(self.hk(x) for x in row)
            if s['setop'] == 'union':
                rows = l + r
                if not s['all']:
                    rows = self.dedupe(rows)
            elif s['setop'] == 'except':
                rk = {key(x) for x in r}
                rows = self.dedupe([x for x in l if key(x) not in rk])
            else:
                rk = {key(x) for x in r}
                rows = self.dedupe([x for x in l if key(x) in rk])
            names = [t[2] for t in s['targets']]
            pairs = [(row, Env({'_': (names, dict(zip(names, row)))}, parent)) for row in rows]
            return names, self.finish_select(s, names, pairs, parent)
        if 'values' in s:
            names = [t[2] for t in s['targets']]
            rows = [tuple(self.ev(e, Env({}, parent)) for e in r) for r in s['values']]
            pairs = [(row, Env({'_': (names, dict(zip(names, row)))}, parent)) for row in rows]
            return names, self.finish_select(s, names, pairs, parent)

        rows = self.from_rows(s['frm'], parent)
        if s['where'] is not None:
            rows = [(b, v) for b, v in rows if self.ev(s['where'], Env(b, parent)) is True]

        names, exprs = self.expand(s['targets'], s['frm'], parent, rows)
        has_agg = s['group'] is not None or any(walk_agg(e) for e in exprs) or (s['having'] is not None)

        if has_agg:
            if s['lock']:
                raise PgError('0A000', 'FOR UPDATE is not allowed with aggregate functions')
            groups = {}
            if s['group'] is not None:
                for b, v in rows:
                    env = Env(b, parent)
                    gk = tuple(self.hk(self.ev(self.group_expr(g, names, exprs), env)) for g in s['group'])
                    groups.setdefault(gk, []).append(env)
            else:
                groups[()] = [Env(b, parent) for b, v in rows]
            pairs = []
            for g in groups.values():
                base = g[0] if g else Env({a: (c, {x: None for x in c}) for it in s['frm'] for a, c in self.item_cols(it, parent)}, parent)
                env = Env(base.b, parent, extra=g)
                if s['having'] is not None and self.ev(s['having'], env) is not True:
                    continue
                pairs.append((tuple(self.ev(e, env) for e in exprs), env))
            return names, self.finish_select(s, names, pairs, parent, exprs)

        if s['lock'] and s['order']:
            rows = self.order_rows(s, rows, names, exprs, parent)
        if s['lock']:
            rows = self.lock_rows(s, rows, parent)
            pairs = [(tuple(self.ev(e, Env(b, parent)) for e in exprs), Env(b, parent)) for b, v in rows]
            return names, [p[0] for p in pairs]
        if any(self.has_window(e) for e in exprs):
            envs = [Env(b, parent) for b, v in rows]
            self.window = envs
            pairs = [(tuple(self.ev(e, env) for e in exprs), env) for env in envs]
            self.window = None
        else:
            pairs = []
            for b, v in rows:
                env = Env(b, parent)
                pairs.append((tuple(self.ev(e, env) for e in exprs), env))
        return names, self.finish_select(s, names, pairs, parent, exprs)

    def has_window(self, e):
        if not isinstance(e, tuple) or not e:
            return False
        if e[0] == 'window':
            return True
        return any(self.has_window(x) for x in e[1:] if isinstance(x, tuple))

    def group_expr(self, g, names, exprs):
        if g[0] == 'lit' and isinstance(g[1], int):
            return exprs[g[1] - 1]
        if g[0] == 'col' and g[1] is None and g[2] in names and exprs[names.index(g[2])] != g:
            # an output alias, unless an input column of that name exists
            return ('alias_or_col', g, exprs[names.index(g[2])])
        return g

    def order_rows(self, s, rows, names, exprs, parent):
        def key(r):
            env = Env(r[0], parent)
            return [SortKey(self.ev_order(e, env, names, exprs, None), d, n) for e, d, n in s['order']]
        return sorted(rows, key=key)

    def lock_rows(self, s, rows, parent):
        lk = s['lock']
        limit = None if s['limit'] is None else self.ev(s['limit'], Env({}, parent))
        offset = 0 if s['offset'] is None else self.ev(s['offset'], Env({}, parent))
        if limit is not None and isinstance(limit, str):
            limit = int(limit)
        for tname in sorted(set(v.row.table.name for b, vs in rows for v in vs.values())):
            self.table_lock(self.db.table(tname), 'row share')
        self.db.mid_point()
        out, skipped = [], 0
        for b, vs in rows:
            if limit is not None and len(out) >= limit:
                break
            nb, ok, changed = dict(b), True, False
            for alias, v in vs.items():
                if lk['of'] and alias not in lk['of']:
                    continue
                cur = self.lock_row(v, lk['mode'], lk['wait'])
                if cur is None:
                    ok = False
                    break
                if cur is not v:
                    nb[alias] = (b[alias][0], cur.vals)
                    changed = True
            if not ok:
                continue
            if changed and s['where'] is not None and self.ev(s['where'], Env(nb, parent)) is not True:
                continue
            if skipped < offset:
                skipped += 1
                continue
            out.append((nb, vs))
        return out

    def finish_select(self, s, names, pairs, parent, exprs=None):
        d = s.get('distinct')
        if d is True:
            seen, out = set(), []
            for row, env in pairs:
                k = tuple(self.hk(x) for x in row)
                if k not in seen:
                    seen.add(k)
                    out.append((row, env))
            pairs = out
        if s['order']:
            pairs = sorted(pairs, key=lambda p: [SortKey(self.ev_order(e, p[1], names, exprs, p[0]), ds, n) for e, ds, n in s['order']])
        if isinstance(d, list):
            seen, out = set(), []
            for row, env in pairs:
                k = tuple(self.hk(self.ev(e, env)) for e in d)
                if k not in seen:
                    seen.add(k)
                    out.append((row, env))
            pairs = out
        rows = [p[0] for p in pairs]
        if s['offset'] is not None:
            rows = rows[int(self.ev(s['offset'], Env({}, parent))):]
        if s['limit'] is not None:
            n = self.ev(s['limit'], Env({}, parent))
            if n is not None:
                rows = rows[:int(n)]
        return rows

    def ev_order(self, e, env, names, exprs, row):
        if e[0] == 'lit' and isinstance(e[1], int) and not isinstance(e[1], bool):
            return row[e[1] - 1] if row is not None else self.ev(exprs[e[1] - 1], env)
        if e[0] == 'col' and e[1] is None and e[2] in names:
            i = names.index(e[2])
            return row[i] if row is not None else self.ev(exprs[i], env)
        return self.ev(e, env)

    def expand(self, targets, frm, parent, rows):
        names, exprs = [], []
        for t in targets:
            if t[0] == '*':
                for it in frm:
                    for alias, cols in self.item_cols(it, parent):
                        if t[1] is None or t[1] == alias:
                            for c in cols:
                                names.append(c)
                                exprs.append(('col', alias, c))
            else:
                names.append(t[2])
                exprs.append(t[1])
        return names, exprs

    @staticmethod
    def hk(v):
        if isinstance(v, Jsonb):
            return ('j', v.canon)
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, (int, Decimal, float)):
            return ('n', Decimal(v))
        if isinstance(v, list):
            return ('l', tuple(Exec.hk(x) for x in v))
        if isinstance(v, str):
            return ('t', str(v))
        return v

    def dedupe(self, rows):
        seen, out = set(), []
        for r in rows:
            k = tuple(self.hk(x) for x in r)
            if k not in seen:
                seen.add(k)
                out.append(r)
        return out

    # -- DML
    def fill_defaults(self, t, vals):
        full = {}
        for name, ty, default, notnull in t.cols:
            if name in vals:
                full[name] = cast(vals[name], ty, False)
            elif default is not None:
                full[name] = default(self, t)
            else:
                full[name] = None
            if full[name] is None and notnull:
                raise PgError('23502', f'null value in column "{name}" of relation "{t.name}" violates not-null constraint')
        for k in vals:
            if k not in t.types:
                raise PgError('42703', f'column "{k}" of relation "{t.name}" does not exist')
        return full

    def raw_insert(self, t, full):
        self.db.order += 1
        row = Row(t, self.db.order)
        v = Ver(full, self.sub, self.txn.cid, row, self.db.order)
        row.vers.append(v)
        t.rows.append(row)
        self.txn.touched.append(row)
        return row

    def conflicting(self, t, full, skip=None, only=None):
        """('row', ver) for an existing unique conflict, ('wait', txn) for an in-progress one, or None"""
        for uname, keyf in t.unique:
            if only is not None and uname not in only:
                continue
            k = keyf(full)
            if k is None:
                continue
            for row in t.rows:
                if row is skip:
                    continue
                v = self.latest(row)
                if v is None:
                    continue
                if keyf(v.vals) != k:
                    # the previous committed version may still come back if the changer aborts
                    continue
                if v.xmin.live() and v.xmin.top is not self.txn:
                    return ('wait', v.xmin.top, uname)
                if v.xmax is not None and not v.xmax.is_aborted():
                    if v.xmax.live() and v.xmax.top is not self.txn:
                        return ('wait', v.xmax.top, uname)
                    continue
                return ('row', v, uname)
        return None

    def insert(self, st):
        t = self.db.table(st['table'])
        self.table_lock(t, 'row exclusive')
        kind, src = st['source']
        cols = st['cols'] or t.colnames
        for c in cols:
            if c not in t.types:
                raise PgError('42703', f'column "{c}" of relation "{t.name}" does not exist')
        if kind == 'default':
            rows = [{}]
        elif kind == 'values':
            rows = []
            for r in src:
                if len(r) > len(cols):
                    raise PgError('42601', 'INSERT has more expressions than target columns')
                if st['cols'] and len(r) < len(cols):
                    raise PgError('42601', 'INSERT has more target columns than expressions')
                rows.append({c: self.ev(e, Env({}, None)) for c, e in zip(cols, r) if e != ('default',)})
        else:
            if kind == 'with':
                res = self.run(*src)
                rws = res.rows
            else:
                _, rws = self.select(src, None)
            rows = [dict(zip(cols, r)) for r in rws]
        n, ret = 0, []
        alias = st['alias'] or t.name
        for vals in rows:
            full = self.fill_defaults(t, vals)
            c = self.conflicting(t, full)
            while c is not None and c[0] == 'wait':
                holder = c[1]
                self.db.wait_for(self.s, lambda: [holder] if holder.status == 'active' else [], t.name)
                c = self.conflicting(t, full)
            if c is not None:
                if st['conflict'] is None:
                    raise PgError('23505', f'duplicate key value violates unique constraint "{c[2]}"')
                if st['conflict'][0] == 'nothing':
                    continue
                _, _, sets, where = st['conflict']
                cur = self.lock_row(c[1])
                if cur is None:
                    continue
                env = Env({alias: (t.colnames, cur.vals), 'excluded': (t.colnames, full)}, None)
                if where is not None and self.ev(where, env) is not True:
                    continue
                nv = self.apply_update(t, cur, sets, env, prefer=alias)
                n += 1
                if st['returning']:
                    ret.append(self.returning(st['returning'], t, alias, nv.vals))
                continue
            row = self.raw_insert(t, full)
            n += 1
            for cb in self.db.on_write:
                cb(self.s, 'insert', t.name, None, full)
            trig = self.db.triggers.get(t.name)
            if trig:
                trig(self.txn, self.sub, full)
            if st['returning']:
                ret.append(self.returning(st['returning'], t, alias, full))
        return self.dml_result(st, t, ret, n, f'INSERT 0 {n}')

    def dml_result(self, st, t, ret, n, tag):
        if st['returning']:
            names = []
            for x in st['returning']:
                if x[0] == '*':
                    names += t.colnames
                else:
                    names.append(x[2])
            return Result(names, ret, n, tag)
        return Result(None, None, n, tag)

    def returning(self, targets, t, alias, vals, bindings=None):
        b = dict(bindings or {})
        b[alias] = (t.colnames, vals)
        env = Env(b, None)
        out = []
        for x in targets:
            if x[0] == '*':
                out += [vals[c] for c in t.colnames]
            else:
                out.append(self.ev(x[1], env))
        return tuple(out)

    def apply_update(self, t, ver, sets, env, prefer=None):
        new = dict(ver.vals)
        for cols, e in sets:
            if len(cols) == 1:
                if e == ('default',):
                    c = [c for c in t.cols if c[0] == cols[0]][0]
                    vals = [c[2](self, t) if c[2] else None]
                else:
                    vals = [self.ev(e, env)]
            else:
                if e[0] == 'subq':
                    _, rws = self.select(e[1], env)
                    vals = list(rws[0]) if rws else [None] * len(cols)
                else:
                    vals = list(self.ev(e, env))
            for c, v in zip(cols, vals):
                if c not in t.types:
                    raise PgError('42703', f'column "{c}" of relation "{t.name}" does not exist')
                new[c] = cast(v, t.types[c], False)
        for name, ty, default, notnull in t.cols:
            if notnull and new[name] is None:
                raise PgError('23502', f'null value in column "{name}" violates not-null constraint')
        c = self.conflicting(t, new, skip=ver.row)
        while c is not None and c[0] == 'wait':
            holder = c[1]
            self.db.wait_for(self.s, lambda: [holder] if holder.status == 'active' else [], t.name)
            c = self.conflicting(t, new, skip=ver.row)
        if c is not None:
            raise PgError('23505', f'duplicate key value violates unique constraint "{c[2]}"')
        ver.xmax, ver.cmax = self.sub, self.txn.cid
        self.db.order += 1
        nv = Ver(new, self.sub, self.txn.cid, ver.row, self.db.order)
        ver.row.vers.append(nv)
        self.txn.touched.append(ver.row)
        for cb in self.db.on_write:
            cb(self.s, 'update', t.name, ver.vals, new)
        return nv

    def targets_for(self, st):
        """(alias, [(bindings, ver)]) of the rows an UPDATE/DELETE hits"""
        t = self.db.table(st['table'])
        self.table_lock(t, 'row exclusive')
        alias = st['alias']
        items = [('table', st['table'], alias)] + list(st['frm'])
        rows = self.from_rows(items, None)
        hits, seen = [], set()
        for b, vs in rows:
            if st['where'] is None or self.ev(st['where'], Env(b, None)) is True:
                v = vs[alias]
                if id(v) not in seen:
                    seen.add(id(v))
                    hits.append((b, v))
        self.db.mid_point()
        return t, alias, hits

    def epq(self, st, t, alias, b, v):
        cur = self.lock_row(v)
        if cur is None:
            return None, None
        if cur is not v:
            b = dict(b)
            b[alias] = (t.colnames, cur.vals)
            if st['where'] is not None and self.ev(st['where'], Env(b, None)) is not True:
                return None, None
        return b, cur

    def update(self, st):
        t, alias, hits = self.targets_for(st)
        n, ret = 0, []
        for b, v in hits:
            b, cur = self.epq(st, t, alias, b, v)
            if cur is None:
                continue
            nv = self.apply_update(t, cur, st['sets'], Env(b, None))
            n += 1
            if st['returning']:
                ret.append(self.returning(st['returning'], t, alias, nv.vals, b))
        return self.dml_result(st, t, ret, n, f'UPDATE {n}')

    def delete(self, st):
        t, alias, hits = self.targets_for(st)
        n, ret = 0, []
        for b, v in hits:
            b, cur = self.epq(st, t, alias, b, v)
            if cur is None:
                continue
            cur.xmax, cur.cmax = self.sub, self.txn.cid
            self.txn.touched.append(cur.row)
            for cb in self.db.on_write:
                cb(self.s, 'delete', t.name, cur.vals, None)
            n += 1
            if st['returning']:
                ret.append(self.returning(st['returning'], t, alias, cur.vals, b))
        return self.dml_result(st, t, ret, n, f'DELETE {n}')

    # -- expressions
    def ev(self, e, env):
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k}')
        return m(e, env)

    def x_lit(self, e, env):
        return e[1]

    def x_ulit(self, e, env):
        return Unk(e[1])

    def x_param(self, e, env):
        return self.params[e[1]]

    def x_star(self, e, env):
        raise Unsupported('*')

    def x_col(self, e, env):
        _, q, n = e
        x = env
        while x is not None:
            if q is not None:
                if q in x.b:
                    d = x.b[q][1]
                    if n not in d:
                        raise PgError('42703', f'column {q}.{n} does not exist')
                    if x.depth < self.low:
                        self.low = x.depth
                    return d[n]
            else:
                found = [d for alias, (cols, d) in x.b.items() if n in d and alias != 'excluded']
                if len(found) > 1:
                    vals = {id(f) for f in found}
                    if len(vals) > 1:
                        raise PgError('42702', f'column reference "{n}" is ambiguous')
                if found:
                    if x.depth < self.low:
                        self.low = x.depth
                    return found[0][n]
                if n in x.b:
                    raise Unsupported('whole-row reference')
            x = x.parent
        raise PgError('42703', f'column "{n}" does not exist')

    def x_alias_or_col(self, e, env):
        try:
            return self.ev(e[1], env)
        except PgError:
            return self.ev(e[2], env)

    def x_or(self, e, env):
        l = self.boolv(self.ev(e[1], env))
        if l is True:
            return True
        r = self.boolv(self.ev(e[2], env))
        if r is True:
            return True
        return None if l is None or r is None else False

    def x_and(self, e, env):
        l = self.boolv(self.ev(e[1], env))
        if l is False:
            return False
        r = self.boolv(self.ev(e[2], env))
        if r is False:
            return False
        return None if l is None or r is None else True

    def boolv(self, v):
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, Unk):
            return cast(v, 'bool')
        raise PgError('42804', f'argument must be type boolean, not type {typeof(v)}')

    def x_not(self, e, env):
        v = self.boolv(self.ev(e[1], env))
        return None if v is None else not v

    def x_isnull(self, e, env):
        return self.ev(e[1], env) is None

    def x_istrue(self, e, env):
        return self.boolv(self.ev(e[1], env)) is True

    def x_isfalse(self, e, env):
        return self.boolv(self.ev(e[1], env)) is False

    def x_distinct(self, e, env):
        a, b = self.ev(e[1], env), self.ev(e[2], env)
        if a is None or b is None:
            return not (a is None and b is None)
        return not compare('=', a, b)

    def x_cmp(self, e, env):
        a, b = self.ev(e[2], env), self.ev(e[3], env)
        return compare(e[1], a, b)

    def x_in(self, e, env):
        a = self.ev(e[1], env)
        res = False
        for x in e[2]:
            c = compare('=', a, self.ev(x, env))
            if c is True:
                return True
            if c is None:
                res = None
        return res

    def x_inparam(self, e, env):
        a, items = self.ev(e[1], env), self.ev(e[2], env)
        if not isinstance(items, (tuple, list)):
            raise PgError('42601', 'syntax error in IN')
        res = False
        for x in items:
            c = compare('=', a, x)
            if c is True:
                return True
            if c is None:
                res = None
        return res

    def x_insub(self, e, env):
        a = self.ev(e[1], env)
        rows = self.subrows(e[2], env)
        res = False
        for r in rows:
            c = compare('=', a, r if isinstance(a, tuple) else r[0])
            if c is True:
                return True
            if c is None:
                res = None
        return res

    def x_any(self, e, env):
        _, op, l, r = e
        a, arr = self.ev(l, env), self.ev(r, env)
        if isinstance(arr, Unk):
            arr = cast(arr, 'text[]')
        if arr is None:
            return None
        res = False
        for x in arr:
            c = compare(op, a, x)
            if c is True:
                return True
            if c is None:
                res = None
        return res

    def x_all(self, e, env):
        _, op, l, r = e
        a, arr = self.ev(l, env), self.ev(r, env)
        if isinstance(arr, Unk):
            arr = cast(arr, 'text[]')
        if arr is None:
            return None
        res = True
        for x in arr:
            c = compare(op, a, x)
            if c is False:
                return False
            if c is None:
                res = None
        return res

    def x_like(self, e, env):
        a, p = self.ev(e[1], env), self.ev(e[2], env)
        if a is None or p is None:
            return None
        rx = ''.join('.*' if c == '%' else '.' if c == '_' else re.escape(c[-1]) for c in re.findall(r'\\.|.', p, re.S))
        return re.fullmatch(rx, a, re.S | (re.I if e[3] else 0)) is not None

    def x_op(self, e, env):
        _, op, l, r = e
        a, b = self.ev(l, env), self.ev(r, env)
        if a is None or b is None:
            return None
        if op == '||':
            if isinstance(a, list) or isinstance(b, list):
                return (a if isinstance(a, list) else [a]) + (b if isinstance(b, list) else [b])
            if isinstance(a, Jsonb) and isinstance(b, Jsonb):
                if isinstance(a.obj, dict) and isinstance(b.obj, dict):
                    return Jsonb({**a.obj, **b.obj})
                raise Unsupported('jsonb ||')
            return to_text(a) + to_text(b)
        if op in ('->', '->>'):
            if isinstance(a, Unk):
                a = parse_jsonb(a)
            if not isinstance(a, Jsonb):
                raise PgError('42883', f'operator does not exist: {typeof(a)} {op}')
            o = a.obj
            if isinstance(o, dict):
                v = o.get(str(b), Ellipsis)
            elif isinstance(o, list) and isinstance(b, int):
                v = o[b] if -len(o) <= b < len(o) else Ellipsis
            else:
                v = Ellipsis
            if v is Ellipsis:
                return None
            if op == '->':
                return Jsonb(v)
            return None if v is None else v if isinstance(v, str) else _jtext(v)
        if op in ('@>', '<@'):
            a, b = (parse_jsonb(x) if isinstance(x, Unk) else x for x in (a, b))
            if op == '<@':
                a, b = b, a
            if isinstance(a, list) and isinstance(b, list):
                return all(any(compare('=', x, y) is True for x in a) for y in b)
            return self.jcontains(a.obj, b.obj)
        if op == '-' and isinstance(a, Jsonb):
            if isinstance(a.obj, dict):
                return Jsonb({k: v for k, v in a.obj.items() if k != str(b)})
            raise Unsupported('jsonb -')
        if op == '?':
            return str(b) in a.obj if isinstance(a.obj, (dict, list)) else False
        if op in ('~', '~*', '!~', '!~*'):
            hit = re.search(b, a, re.I if op.endswith('*') else 0) is not None
            return hit != op.startswith('!')
        ta, tb = typeof(a), typeof(b)
        if ta == 'unknown' and tb != 'unknown':
            a = cast(a, 'interval' if tb in ('timestamptz', 'timestamp', 'interval') else tb)
        elif tb == 'unknown' and ta != 'unknown':
            b = cast(b, 'interval' if ta in ('interval',) or (op == '+' and ta in ('timestamptz', 'timestamp')) else ta)
        ta, tb = typeof(a), typeof(b)
        if op in ('+', '-') and (ta in ('timestamptz', 'timestamp', 'date', 'interval') or tb in ('timestamptz', 'timestamp', 'interval')):
            if ta == 'date' and tb == 'int':
                b = dt.timedelta(days=b)
            elif ta == 'int' and tb == 'date' and op == '+':
                a = dt.timedelta(days=a)
            elif ta == tb == 'date' and op == '-':
                return (a - b).days
            try:
                return a + b if op == '+' else a - b
            except TypeError:
                raise PgError('42883', f'operator does not exist: {ta} {op} {tb}')
        if op in ('*', '/') and 'interval' in (ta, tb):
            if ta == 'interval':
                return a * float(b) if op == '*' else a / float(b)
            return b * float(a)
        if ta not in NUM or tb not in NUM:
            raise PgError('42883', f'operator does not exist: {ta} {op} {tb}')
        if ta != tb:
            a, b = unify(a, b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '^':
            return float(a) ** float(b)
        if b == 0:
            raise PgError('22012', 'division by zero')
        if op == '/':
            if isinstance(a, int):
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            return a / b
        if op == '%':
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        raise Unsupported(f'operator {op}')

    def jcontains(self, a, b):
        if isinstance(a, dict) and isinstance(b, dict):
            return all(k in a and self.jcontains(a[k], v) for k, v in b.items())
        if isinstance(a, list) and isinstance(b, list):
            return all(any(self.jcontains(x, y) for x in a) for y in b)
        return _jcanon(a) == _jcanon(b)

    def x_neg(self, e, env):
        v = self.ev(e[1], env)
        return None if v is None else -v

    def x_atz(self, e, env):
        v, z = self.ev(e[1], env), self.ev(e[2], env)
        if v is None or z is None:
            return None
        import zoneinfo
        try:
            tz = zoneinfo.ZoneInfo(str(z)) if str(z).upper() != 'UTC' else UTC
        except Exception:
            tz = dt.timezone(dt.timedelta(hours=-6))
        if isinstance(v, Unk):
            v = cast(v, 'timestamptz')
        if v.tzinfo is not None:
            return v.astimezone(tz).replace(tzinfo=None)
        return v.replace(tzinfo=tz)

    def x_cast(self, e, env):
        return cast(self.ev(e[1], env), e[2])

    def x_index(self, e, env):
        a, i = self.ev(e[1], env), self.ev(e[2], env)
        if a is None or i is None:
            return None
        if isinstance(a, Jsonb):
            return self.x_op(('op', '->', ('lit', a), ('lit', i)), env)
        return a[i - 1] if 0 < i <= len(a) else None

    def x_row(self, e, env):
        return tuple(self.ev(x, env) for x in e[1])

    def x_array(self, e, env):
        vals = [self.ev(x, env) for x in e[1]]
        if any(not isinstance(v, Unk) and v is not None for v in vals):
            return vals
        return [None if v is None else str(v) for v in vals]

    def x_case(self, e, env):
        _, operand, whens, els = e
        o = self.ev(operand, env) if operand is not None else None
        for c, r in whens:
            v = self.ev(c, env)
            if operand is not None:
                v = compare('=', o, v)
            if v is True:
                return self.ev(r, env)
        return self.ev(els, env) if els is not None else None

    def x_extract(self, e, env):
        v = self.ev(e[2], env)
        return self.extract(e[1], v)

    def extract(self, f, v):
        if v is None:
            return None
        if f == 'epoch':
            if isinstance(v, dt.timedelta):
                return v.total_seconds()
            if v.tzinfo is None:
                v = v.replace(tzinfo=UTC)
            return v.timestamp()
        if isinstance(v, dt.timedelta):
            us = round(v.total_seconds() * 1e6)
            sign, us = (-1, -us) if us < 0 else (1, us)
            d = {'day': v.days, 'hour': sign * (us // 3_600_000_000 % 24), 'minute': sign * (us // 60_000_000 % 60), 'second': sign * (us % 60_000_000) / 1e6,
                 'milliseconds': sign * (us % 60_000_000) / 1e3, 'microseconds': sign * (us % 60_000_000), 'year': 0, 'month': 0}
        else:
            sec = getattr(v, 'second', 0) + getattr(v, 'microsecond', 0) / 1e6
            d = {'year': v.year, 'month': v.month, 'day': v.day, 'hour': getattr(v, 'hour', 0), 'minute': getattr(v, 'minute', 0), 'second': sec, 'milliseconds': sec * 1e3, 'microseconds': sec * 1e6,
                 'dow': v.isoweekday() % 7, 'isodow': v.isoweekday(), 'doy': v.timetuple().tm_yday, 'week': v.isocalendar()[1], 'isoyear': v.isocalendar()[0], 'quarter': (v.month + 2) // 3}
        if f not in d:
            raise Unsupported(f'extract {f}')
        return d[f] * 1.0

    def trunc(self, f, v):
        if isinstance(v, Unk):
            v = cast(v, 'timestamptz')
        if isinstance(v, dt.timedelta):
            us = {'day': 86_400_000_000, 'hour': 3_600_000_000, 'minute': 60_000_000, 'second': 1_000_000}.get(f)
            if us is None:
                raise Unsupported(f'date_trunc {f} of interval')
            return v - v % dt.timedelta(microseconds=us)
        if not isinstance(v, dt.datetime):
            v = dt.datetime(v.year, v.month, v.day, tzinfo=UTC)
        if f == 'week':
            v = v - dt.timedelta(days=v.weekday())
            f = 'day'
        order = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
        if f == 'milliseconds':
            return v.replace(microsecond=v.microsecond // 1000 * 1000)
        if f not in order:
            raise Unsupported(f'date_trunc {f}')
        i = order.index(f)
        return v.replace(**{k: (1 if k in ('month', 'day') else 0) for k in order[i + 1:]})

    def x_coalesce(self, e, env):
        for x in e[1]:
            v = self.ev(x, env)
            if v is not None:
                return v
        return None

    def x_nullif(self, e, env):
        a, b = self.ev(e[1][0], env), self.ev(e[1][1], env)
        if a is not None and b is not None and compare('=', a, b):
            return None
        return a

    def x_greatest(self, e, env):
        vals = [v for v in (self.ev(x, env) for x in e[1]) if v is not None]
        out = None
        for v in vals:
            if out is None or compare('>', v, out):
                out = v
        return out

    def x_least(self, e, env):
        vals = [v for v in (self.ev(x, env) for x in e[1]) if v is not None]
        out = None
        for v in vals:
            if out is None or compare('<', v, out):
                out = v
        return out

    # subqueries: those that never look outside themselves run once per statement
    def subrows(self, s, env):
        key = id(s)
        if key in self.cache:
            return self.cache[key]
        save, self.low = self.low, 10 ** 9
        inner_parent = env
        _, rows = self.select(s, inner_parent)
        low, self.low = self.low, min(save, self.low if self.low <= env.depth else 10 ** 9)
        if low > env.depth:
            self.cache[key] = rows
        return rows

    def x_subq(self, e, env):
        rows = self.subrows(e[1], env)
        if len(rows) > 1:
            raise PgError('21000', 'more than one row returned by a subquery used as an expression')
        if not rows:
            return None
        if len(rows[0]) > 1:
            return tuple(rows[0])
        return rows[0][0]

    def x_exists(self, e, env):
        return len(self.subrows(e[1], env)) > 0

    def x_arrsub(self, e, env):
        return [r[0] for r in self.subrows(e[1], env)]

    def x_wholerow(self, e, env):
        raise Unsupported('whole-row reference')

    def x_default(self, e, env):
        raise Unsupported('DEFAULT here')

    def x_window(self, e, env):
        _, name, args, part, order = e
        envs = self.window
        mykey = [self.hk(self.ev(p, env)) for p in part]
        peers = [x for x in envs if [self.hk(self.ev(p, x)) for p in part] == mykey]
        if order:
            peers = sorted(peers, key=lambda x: [SortKey(self.ev(o, x), d, n) for o, d, n in order])
        at = [i for i, x in enumerate(peers) if x is env][0]
        if name == 'row_number':
            return at + 1
        okey = lambda x: [self.hk(self.ev(o, x)) for o, _, _ in order or ()]     # noqa: E731
        mine = okey(env)
        first = [i for i, x in enumerate(peers) if okey(x) == mine][0]
        last = [i for i, x in enumerate(peers) if okey(x) == mine][-1]
        if name == 'rank':
            return first + 1
        if name == 'dense_rank':
            return len({tuple(okey(x)) for x in peers[:first]}) + 1
        if name in ('lag', 'lead'):
            off = self.ev(args[1], env) if len(args) > 1 else 1
            j = at - off if name == 'lag' else at + off
            if 0 <= j < len(peers):
                return self.ev(args[0], peers[j])
            return self.ev(args[2], env) if len(args) > 2 else None
        frame = peers[:last + 1] if order else peers
        if name == 'first_value':
            return self.ev(args[0], frame[0])
        if name == 'last_value':
            return self.ev(args[0], frame[-1])
        if name in AGG:
            return self.agg(('func', name, args or ['*'], False, None, None), frame)
        raise Unsupported(f'window {name}')

    def to_char(self, v, f):
        if not isinstance(v, (dt.datetime, dt.date)):
            raise Unsupported('to_char of a number')
        out = f
        for k, x in (('YYYY', '%Y'), ('MM', '%m'), ('DD', '%d'), ('HH24', '%H'), ('MI', '%M'), ('SS', '%S'), ('US', '%f')):
            out = out.replace(k, x)
        return v.strftime(out)

    # functions
    def x_func(self, e, env):
        _, name, args, distinct, filt, order = e
        if name in AGG and not (name in ('max', 'min') and False):
            x = env
            while x is not None and x.extra is None:
                x = x.parent
            if x is None:
                raise PgError('42803', 'aggregate functions are not allowed here')
            return self.agg(e, x.extra)
        if args and isinstance(args[-1], tuple) and args[-1][0] == 'named':
            if name != 'make_interval' or any(a[0] != 'named' for a in args):
                raise Unsupported('named arguments')
            got = {a[1]: self.ev(a[2], env) for a in args}
            return self.func(name, [got.get(k, 0) for k in ('years', 'months', 'weeks', 'days', 'hours', 'mins', 'secs')])
        return self.func(name, [self.ev(a, env) for a in args])

    def agg(self, e, envs):
        _, name, args, distinct, filt, order = e
        if filt is not None:
            envs = [x for x in envs if self.ev(filt, x) is True]
        if args == ['*']:
            return len(envs)
        if order:
            envs = sorted(envs, key=lambda x: [SortKey(self.ev(o, x), d, n) for o, d, n in order])
        vals = [self.ev(args[0], x) for x in envs]
        if name in ('array_agg', 'jsonb_agg', 'json_agg'):
            if not vals:
                return None
            if name == 'array_agg':
                return vals
            return Jsonb([v.obj if isinstance(v, Jsonb) else v for v in vals])
        vals = [v for v in vals if v is not None]
        if distinct:
            vals = [r[0] for r in self.dedupe([(v,) for v in vals])]
        if name == 'count':
            return len(vals)
        if not vals:
            return None
        if name == 'sum':
            out = vals[0]
            for v in vals[1:]:
                out = out + v
            return out
        if name == 'avg':
            return sum(Decimal(v) for v in vals) / len(vals)
        if name in ('bool_and', 'every'):
            return all(vals)
        if name == 'bool_or':
            return any(vals)
        if name == 'string_agg':
            return str(self.ev(args[1], envs[0])).join(vals)
        out = vals[0]
        for v in vals[1:]:
            if compare('>' if name == 'max' else '<', v, out):
                out = v
        return out

    def adv_key(self, vals):
        return tuple(int(v) for v in vals)

    def func(self, name, a):
        db = self.db
        if name in ('now', 'transaction_timestamp'):
            return self.txn.start
        if name == 'statement_timestamp':
            return self.stmt_ts
        if name in ('clock_timestamp', 'timeofday'):
            return db.clock()
        if name == 'current_date':
            return self.txn.start.date()
        if name in ('hashtext', 'hashtextextended'):
            return None if a[0] is None else zlib.crc32(str(a[0]).encode('utf-8')) - 2**31
        if name in ADVISORY:
            if any(x is None for x in a):
                return None
            key = self.adv_key(a)
            shared = name.endswith('_shared')
            lst = db.advisory.setdefault(key, [])

            def holders():
                return [(e[1] or e[0]) for e in lst if e[0] is not self.s and not (shared and e[2])]
            if 'try' in name:
                if holders():
                    return False
            elif holders():
                db.wait_for(self.s, holders, 'advisory')
            if 'xact' in name:
                lst.append((self.s, self.txn, shared))
                self.txn.adv.append(key)
            else:
                lst.append((self.s, None, shared))
            return True if 'try' in name else ''
        if name in ('pg_advisory_unlock', 'pg_advisory_unlock_shared'):
            lst = db.advisory.get(self.adv_key(a), [])
            for e in lst:
                if e[0] is self.s and e[1] is None and e[2] == name.endswith('_shared'):
                    lst.remove(e)
                    return True
            return False
        if name == 'pg_advisory_unlock_all':
            for lst in db.advisory.values():
                for e in list(lst):
                    if e[0] is self.s and e[1] is None:
                        lst.remove(e)
            return ''
        if name == 'pg_notify':
            self.txn.notifies.append((self.sub, str(a[0]).lower(), str(a[1]) if a[1] is not None else ''))
            return ''
        if name == 'pg_backend_pid':
            return self.s.pid
        if name in ('txid_current', 'pg_current_xact_id'):
            return self.txn.id
        if name in ('date_part',):
            return self.extract(str(a[0]), a[1])
        if name == 'timezone':
            return self.x_atz(('atz', ('lit', a[1]), ('lit', a[0])), None)
        if any(x is None for x in a) and name not in ('concat', 'concat_ws', 'jsonb_build_object', 'format'):
            return None
        if name == 'lower':
            return a[0].lower()
        if name == 'upper':
            return a[0].upper()
        if name in ('length', 'char_length'):
            return len(a[0])
        if name in ('trim', 'btrim'):
            return a[0].strip()
        if name in ('substr', 'substring'):
            st = a[1] - 1
            return a[0][max(st, 0):] if len(a) == 2 else a[0][max(st, 0):max(st + a[2], 0)]
        if name == 'left':
            return a[0][:a[1]]
        if name == 'right':
            return a[0][-a[1]:] if a[1] else ''
        if name == 'concat':
            return ''.join(to_text(x) for x in a if x is not None)
        if name == 'md5':
            import hashlib
            return hashlib.md5(to_text(a[0]).encode()).hexdigest()
        if name == 'abs':
            return abs(a[0])
        if name == 'round':
            return round(a[0]) if len(a) == 1 else round(Decimal(a[0]), a[1])
        if name == 'floor':
            import math
            return math.floor(a[0])
        if name in ('to_jsonb', 'to_json'):
            return a[0] if isinstance(a[0], Jsonb) else Jsonb(str(a[0]) if isinstance(a[0], str) else a[0])
        if name == 'make_interval' and len(a) <= 7:
            y, mo, w, d, h, mi, sec = list(a) + [0] * (7 - len(a))
            if y or mo:
                raise Unsupported('make_interval with months')
            return dt.timedelta(weeks=w, days=d, hours=h, minutes=mi, seconds=float(sec))
        if name == 'date_trunc':
            return self.trunc(str(a[0]).lower(), a[1])
        if name == 'date':
            return cast(a[0], 'date')
        if name == 'position':
            return str(a[1]).find(str(a[0])) + 1
        if name == 'isfinite':
            return True
        if name == 'random' and not a:
            self.db.rand = (getattr(self.db, 'rand', 12345) * 1103515245 + 12345) % 2 ** 31
            return self.db.rand / 2 ** 31
        if name == 'age':
            return a[0] - a[1] if len(a) == 2 else dt.datetime.combine(self.txn.start.date(), dt.time(), UTC) - a[0]
        if name == 'to_timestamp' and len(a) == 1:
            return dt.datetime.fromtimestamp(float(a[0]), UTC)
        if name == 'to_char':
            return self.to_char(a[0], str(a[1]))
        if name in ('ceil', 'ceiling'):
            import math
            return math.ceil(a[0])
        if name == 'trunc':
            return int(a[0]) if len(a) == 1 else Decimal(a[0]).quantize(Decimal(1).scaleb(-a[1]), rounding='ROUND_DOWN')
        if name == 'sign':
            return (a[0] > 0) - (a[0] < 0)
        if name == 'mod':
            r = abs(a[0]) % abs(a[1])
            return r if a[0] >= 0 else -r
        if name in ('power', 'pow'):
            return float(a[0]) ** float(a[1])
        if name == 'sqrt':
            return float(a[0]) ** 0.5
        if name == 'ltrim':
            return a[0].lstrip(a[1] if len(a) > 1 else ' ')
        if name == 'rtrim':
            return a[0].rstrip(a[1] if len(a) > 1 else ' ')
        if name == 'replace':
            return a[0].replace(a[1], a[2])
        if name == 'reverse':
            return a[0][::-1]
        if name == 'split_part':
            parts = a[0].split(a[1])
            return parts[a[2] - 1] if 0 < a[2] <= len(parts) else ''
        if name == 'strpos':
            return a[0].find(a[1]) + 1
        if name == 'starts_with':
            return a[0].startswith(a[1])
        if name in ('lpad', 'rpad'):
            fill = a[2] if len(a) > 2 else ' '
            pad = (fill * a[1])[:max(a[1] - len(a[0]), 0)]
            return (pad + a[0] if name == 'lpad' else a[0] + pad)[:a[1]]
        if name == 'regexp_replace':
            flags = a[3] if len(a) > 3 else ''
            return re.sub(a[1], re.sub(r'\\(\d)', r'\\g<\1>', a[2]), a[0], count=0 if 'g' in flags else 1, flags=re.I if 'i' in flags else 0)
        if name == 'initcap':
            return a[0].title()
        if name == 'concat_ws':
            return str(a[0]).join(to_text(x) for x in a[1:] if x is not None)
        if name in ('octet_length',):
            return len(a[0].encode('utf-8'))
        if name in ('jsonb_array_length', 'json_array_length'):
            return len(a[0].obj)
        if name in ('jsonb_build_array', 'json_build_array'):
            return Jsonb([x.obj if isinstance(x, Jsonb) else str(x) if isinstance(x, str) else x for x in a])
        if name in ('jsonb_build_object', 'json_build_object'):
            return Jsonb({str(a[i]): a[i + 1].obj if isinstance(a[i + 1], Jsonb) else str(a[i + 1]) if isinstance(a[i + 1], str) else a[i + 1] for i in range(0, len(a), 2)})
        if name in ('jsonb_extract_path', 'jsonb_extract_path_text'):
            o = a[0].obj
            for k in a[1:]:
                o = o.get(str(k)) if isinstance(o, dict) else o[int(k)] if isinstance(o, list) and int(k) < len(o) else None
            if o is None:
                return None
            return Jsonb(o) if not name.endswith('text') else o if isinstance(o, str) else _jtext(o)
        if name == 'array_append':
            return a[0] + [a[1]]
        if name == 'array_remove':
            return [x for x in a[0] if x != a[1]]
        if name == 'array_position':
            return a[0].index(a[1]) + 1 if a[1] in a[0] else None
        if name == 'cardinality' or name == 'array_length':
            return len(a[0])
        if name == 'jsonb_typeof':
            o = a[0].obj
            return 'null' if o is None else 'boolean' if isinstance(o, bool) else 'string' if isinstance(o, str) else 'array' if isinstance(o, list) else 'object' if isinstance(o, dict) else 'number'
        raise Unsupported(f'function {name}')
