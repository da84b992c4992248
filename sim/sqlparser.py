"""A parser for the subset of PostgreSQL's SQL the simulated server speaks.

Statements become ('kind', dict) tuples, expressions become tuples whose first
item is the node name.  Anything outside the subset raises Unsupported, which
the harness reports as its own error, never as a violation.
"""
import functools
import re
from decimal import Decimal


class Unsupported(Exception):
    pass


class SyntaxErr(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<estr>[eE]'(?:[^'\\]|''|\\.)*')
  | (?P<str>'(?:[^']|'')*')
  | (?P<dollar>\$(?P<tag>[A-Za-z_]*)\$.*?\$(?P=tag)\$)
  | (?P<qid>"(?:[^"]|"")*")
  | (?P<param>%\((?P<pname>[^)]+)\)s|%s)
  | (?P<num>(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][-+]?\d+)?)
  | (?P<id>[A-Za-z_][A-Za-z_0-9$]*)
  | (?P<op>::|<=|>=|<>|!=|\|\||->>|->|\#>>|\#>|@>|<@|!~\*|!~|~\*|:=|=>|&&|[-+*/%^=<>(),.;\[\]~?|&:])
""", re.X | re.S)


class Tok:
    __slots__ = ('k', 'v', 'raw')

    def __init__(self, k, v, raw):
        self.k, self.v, self.raw = k, v, raw

    def __repr__(self):
        return f'{self.k}:{self.v!r}'


class NeedsText(Exception):
    """a placeholder sits where only textual substitution will do"""


def lex(sql, params=False):
    out, i, n = [], 0, len(sql)
    pos = 0
    while i < n:
        m = TOKEN.match(sql, i)
        if not m:
            raise SyntaxErr(f'syntax error at or near {sql[i:i+20]!r}')
        i = m.end()
        k = m.lastgroup
        if k == 'tag':
            k = 'dollar'
        raw = m.group(0)
        if m.group('ws') is not None:
            continue
        if m.group('param') is not None:
            if not params:
                i = m.start() + 1
                out.append(Tok('op', '%', '%'))
                continue
            if m.group('pname') is not None:
                out.append(Tok('param', m.group('pname'), raw))
            else:
                out.append(Tok('param', pos, raw))
                pos += 1
            continue
        if params and '%' in raw:
            if raw == '%' and sql[i:i + 1] == '%':
                i += 1
            elif m.group('str') is not None or m.group('estr') is not None or m.group('qid') is not None or m.group('dollar') is not None:
                raise NeedsText(raw)
        if m.group('estr') is not None:
            body = raw[2:-1]
            body = re.sub(r"''|\\(.)", lambda mm: "'" if mm.group(0) == "''" else {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}.get(mm.group(1), mm.group(1)), body, flags=re.S)
            out.append(Tok('str', body, raw))
        elif m.group('str') is not None:
            out.append(Tok('str', raw[1:-1].replace("''", "'"), raw))
        elif m.group('dollar') is not None:
            t = m.group('tag')
            out.append(Tok('str', raw[len(t) + 2:-(len(t) + 2)], raw))
        elif m.group('qid') is not None:
            out.append(Tok('qid', raw[1:-1].replace('""', '"'), raw))
        elif m.group('num') is not None:
            v = int(raw) if raw.isdigit() else Decimal(raw)
            out.append(Tok('num', v, raw))
        elif m.group('id') is not None:
            out.append(Tok('id', raw.lower(), raw))
        else:
            out.append(Tok('op', '<>' if raw == '!=' else raw, raw))
    out.append(Tok('eof', None, ''))
    return out


RESERVED = set("""all and any array as asc between both by case cast check collate column constraint create cross
current_date current_timestamp default deferrable desc distinct do else end except exists false fetch for foreign from full grant group
having in inner intersect into is isnull join leading left like ilike limit natural not notnull null offset on only or order
outer primary references returning right select set similar some table then to trailing true union unique user using values when
where window with nowait skip conflict""".split())
# words that are fine as column names / aliases although they are in the list above
SOFT = {'user', 'skip', 'nowait', 'conflict', 'values', 'set', 'fetch', 'table', 'similar'}

TYPES = {
    'int': 'int', 'integer': 'int', 'int4': 'int', 'int8': 'int', 'bigint': 'int', 'smallint': 'int', 'int2': 'int',
    'text': 'text', 'varchar': 'text', 'character': 'text', 'char': 'text', 'name': 'text', 'citext': 'text', 'uuid': 'text',
    'bool': 'bool', 'boolean': 'bool', 'json': 'json', 'jsonb': 'jsonb',
    'numeric': 'numeric', 'decimal': 'numeric', 'float': 'float', 'float8': 'float', 'float4': 'float', 'real': 'float', 'double': 'float',
    'timestamptz': 'timestamptz', 'timestamp': 'timestamp', 'date': 'date', 'interval': 'interval',
    'regclass': 'text', 'oid': 'int', 'void': 'text',
}


class Parser:
    def __init__(self, sql, params=False):
        self.toks = lex(sql, params)
        self.i = 0

    # -- helpers
    @property
    def t(self):
        return self.toks[self.i]

    def peek(self, k=1):
        return self.toks[min(self.i + k, len(self.toks) - 1)]

    def adv(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def iskw(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k) if k else self.t
            if not (t.k == 'id' and t.v == w):
                return False
        return True

    def kw(self, *words):
        if self.iskw(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.kw(*words):
            raise SyntaxErr(f'expected {" ".join(words)} near {self.t.raw!r}')

    def isop(self, v):
        return self.t.k == 'op' and self.t.v == v

    def op(self, v):
        if self.isop(v):
            self.i += 1
            return True
        return False

    def needop(self, v):
        if not self.op(v):
            raise SyntaxErr(f'syntax error at or near "{self.t.raw}" (expected {v!r})')

    def ident(self):
        t = self.t
        if t.k == 'qid' or t.k == 'id':
            self.i += 1
            return t.v
        raise SyntaxErr(f'syntax error at or near "{t.raw}"')

    def tablename(self):
        n = self.ident()
        while self.op('.'):
            n = self.ident()      # schema prefix is dropped
        return n

    # -- statements
    def script(self):
        out = []
        while self.t.k != 'eof':
            if self.op(';'):
                continue
            out.append(self.statement())
            if self.t.k != 'eof':
                self.needop(';')
        return out

    def statement(self):
        t = self.t
        if t.k == 'op' and t.v == '(':
            return ('select', self.select())
        if t.k != 'id':
            raise SyntaxErr(f'syntax error at or near "{t.raw}"')
        w = t.v
        if w in ('begin', 'start'):
            self.adv()
            self.kw('transaction') or self.kw('work')
            iso, ro = self.txn_modes()
            return ('begin', dict(iso=iso, readonly=ro))
        if w in ('commit', 'end'):
            self.adv()
            self.kw('transaction') or self.kw('work')
            return ('commit', {})
        if w in ('rollback', 'abort'):
            self.adv()
            self.kw('transaction') or self.kw('work')
            if self.kw('to'):
                self.kw('savepoint')
                return ('rollback_to', dict(name=self.ident()))
            return ('rollback', {})
        if w == 'savepoint':
            self.adv()
            return ('savepoint', dict(name=self.ident()))
        if w == 'release':
            self.adv()
            self.kw('savepoint')
            return ('release', dict(name=self.ident()))
        if w == 'listen':
            self.adv()
            return ('listen', dict(channel=self.ident()))
        if w == 'unlisten':
            self.adv()
            if self.op('*'):
                return ('unlisten', dict(channel='*'))
            return ('unlisten', dict(channel=self.ident()))
        if w == 'notify':
            self.adv()
            ch = self.ident()
            payload = ''
            if self.op(','):
                payload = self.adv().v
            return ('notify', dict(channel=ch, payload=payload))
        if w == 'set':
            self.adv()
            self.kw('local') or self.kw('session')
            if self.kw('transaction') or self.kw('characteristics', 'as', 'transaction'):
                iso, ro = self.txn_modes()
                return ('set_transaction', dict(iso=iso, readonly=ro))
            name = self.ident()
            while self.op('.'):
                name += '.' + self.ident()
            vals = []
            while self.t.k != 'eof' and not self.isop(';'):
                vals.append(self.adv().v)
            return ('set', dict(name=name, vals=vals))
        if w == 'lock':
            self.adv()
            self.kw('table')
            names = [self.tablename()]
            while self.op(','):
                names.append(self.tablename())
            mode = 'access exclusive'
            nowait = False
            if self.kw('in'):
                words = []
                while not self.iskw('mode'):
                    words.append(self.ident())
                self.need('mode')
                mode = ' '.join(words)
            if self.kw('nowait'):
                nowait = True
            return ('lock', dict(tables=names, mode=mode, nowait=nowait))
        if w == 'with':
            return self.with_stmt()
        if w in ('select', 'values'):
            return ('select', self.select())
        if w == 'insert':
            return ('insert', self.insert())
        if w == 'update':
            return ('update', self.update())
        if w == 'delete':
            return ('delete', self.delete())
        if w == 'truncate':
            self.adv()
            self.kw('table')
            return ('truncate', dict(table=self.tablename()))
        if w in ('vacuum', 'analyze'):
            while self.t.k != 'eof' and not self.isop(';'):
                self.adv()
            return ('upkeep', dict(what=w))
        raise Unsupported(f'statement {w!r}')

    def txn_modes(self):
        iso, ro = None, None
        while True:
            if self.kw('isolation', 'level'):
                if self.kw('read', 'committed') or self.kw('read', 'uncommitted'):
                    iso = 'rc'
                elif self.kw('repeatable', 'read'):
                    iso = 'rr'
                elif self.kw('serializable'):
                    iso = 'ser'
                else:
                    raise SyntaxErr('isolation level')
            elif self.kw('read', 'only'):
                ro = True
            elif self.kw('read', 'write'):
                ro = False
            elif self.kw('not', 'deferrable') or self.kw('deferrable'):
                pass
            elif self.op(','):
                pass
            else:
                return iso, ro

    def with_stmt(self):
        self.need('with')
        if self.kw('recursive'):
            raise Unsupported('WITH RECURSIVE')
        ctes = []
        while True:
            name = self.ident()
            cols = None
            if self.op('('):
                cols = self.identlist()
            self.need('as')
            self.kw('materialized') or self.kw('not', 'materialized')
            self.needop('(')
            sub = self.statement()
            self.needop(')')
            ctes.append((name, cols, sub))
            if not self.op(','):
                break
        main = self.statement()
        return ('with', dict(ctes=ctes, main=main))

    def identlist(self):
        out = [self.ident()]
        while self.op(','):
            out.append(self.ident())
        self.needop(')')
        return out

    def insert(self):
        self.need('insert')
        self.need('into')
        table = self.tablename()
        alias = self.ident() if self.kw('as') else None
        cols = None
        if self.isop('(') and not (self.peek().k == 'id' and self.peek().v in ('select', 'with', 'values')):
            self.adv()
            cols = self.identlist()
        if self.kw('default', 'values'):
            source = ('default', None)
        else:
            if self.kw('overriding'):
                raise Unsupported('OVERRIDING')
            if self.iskw('values'):
                source = ('values', self.values_rows())
            elif self.iskw('with'):
                source = ('with', self.with_stmt())
            else:
                source = ('select', self.select())
        conflict = None
        if self.kw('on', 'conflict'):
            target = None
            if self.op('('):
                depth, start = 1, self.i
                exprs = [self.expr()]
                while self.op(','):
                    exprs.append(self.expr())
                self.needop(')')
                target = exprs
                if self.kw('where'):
                    self.expr()
            elif self.kw('on', 'constraint'):
                self.ident()
                target = None
            self.need('do')
            if self.kw('nothing'):
                conflict = ('nothing', target, None, None)
            else:
                self.need('update')
                self.need('set')
                sets = self.setlist()
                where = self.expr() if self.kw('where') else None
                conflict = ('update', target, sets, where)
        ret = self.returning()
        return dict(table=table, alias=alias, cols=cols, source=source, conflict=conflict, returning=ret)

    def values_rows(self):
        self.need('values')
        rows = []
        while True:
            self.needop('(')
            row = []
            if not self.isop(')'):
                row.append(self.expr_or_default())
                while self.op(','):
                    row.append(self.expr_or_default())
            self.needop(')')
            rows.append(row)
            if not self.op(','):
                return rows

    def expr_or_default(self):
        if self.kw('default'):
            return ('default',)
        return self.expr()

    def setlist(self):
        sets = []
        while True:
            if self.op('('):
                cols = self.identlist()
                self.needop('=')
                self.kw('row')
                e = self.expr()
                sets.append((cols, e))
            else:
                c = self.ident()
                while self.op('.'):
                    c = self.ident()
                self.needop('=')
                sets.append(([c], self.expr_or_default()))
            if not self.op(','):
                return sets

    def update(self):
        self.need('update')
        self.kw('only')
        table = self.tablename()
        alias = self.alias()
        self.need('set')
        sets = self.setlist()
        frm = self.fromlist() if self.kw('from') else []
        where = self.expr() if self.kw('where') else None
        return dict(table=table, alias=alias or table, sets=sets, frm=frm, where=where, returning=self.returning())

    def delete(self):
        self.need('delete')
        self.need('from')
        self.kw('only')
        table = self.tablename()
        alias = self.alias()
        using = self.fromlist() if self.kw('using') else []
        where = self.expr() if self.kw('where') else None
        return dict(table=table, alias=alias or table, frm=using, where=where, returning=self.returning())

    def alias(self):
        if self.kw('as'):
            return self.ident()
        if self.t.k == 'qid' or (self.t.k == 'id' and self.t.v not in RESERVED and self.t.v not in ('set',)):
            return self.ident()
        return None

    def returning(self):
        if self.kw('returning'):
            return self.targets()
        return None

    def targets(self):
        out = []
        while True:
            if self.op('*'):
                out.append(('*', None, None))
            elif self.t.k in ('id', 'qid') and self.peek().k == 'op' and self.peek().v == '.' and self.peek(2).k == 'op' and self.peek(2).v == '*':
                q = self.ident()
                self.adv()
                self.adv()
                out.append(('*', q, None))
            else:
                e = self.expr()
                name = None
                if self.kw('as'):
                    name = self.ident()
                elif self.t.k == 'qid' or (self.t.k == 'id' and self.t.v not in RESERVED):
                    name = self.ident()
                out.append(('e', e, name or self.autoname(e)))
            if not self.op(','):
                return out

    def autoname(self, e):
        k = e[0]
        if k == 'col':
            return e[2]
        if k == 'func':
            return e[1]
        if k == 'cast':
            n = self.autoname(e[1])
            return n if n != '?column?' else e[2]
        if k in ('case', 'extract', 'coalesce', 'nullif', 'exists', 'greatest', 'least'):
            return {'extract': 'date_part'}.get(k, k)
        if k == 'atz':
            return 'timezone'
        if k == 'subq':
            ts = e[1]['targets']
            if ts and ts[0][0] == 'e':
                return ts[0][2]
        if k == 'array':
            return 'array'
        return '?column?'

    # -- select
    def select(self):
        left = self.select_term()
        while self.iskw('union') or self.iskw('except') or self.iskw('intersect'):
            opn = self.adv().v
            all_ = self.kw('all')
            self.kw('distinct')
            right = self.select_term()
            left = dict(setop=opn, all=all_, left=left, right=right, targets=left['targets'], order=[], limit=None, offset=None, lock=None)
        self.tail(left)
        return left

    def select_term(self):
        if self.op('('):
            s = self.select()
            self.needop(')')
            return s
        if self.iskw('values'):
            rows = self.values_rows()
            n = len(rows[0])
            return dict(values=rows, targets=[('e', ('col', None, f'column{i+1}'), f'column{i+1}') for i in range(n)], order=[], limit=None, offset=None, lock=None)
        if self.iskw('with'):
            raise Unsupported('nested WITH in select term')
        self.need('select')
        distinct = None
        if self.kw('distinct'):
            distinct = True
            if self.kw('on'):
                self.needop('(')
                distinct = [self.expr()]
                while self.op(','):
                    distinct.append(self.expr())
                self.needop(')')
        else:
            self.kw('all')
        targets = [] if self.iskw('from') else self.targets()
        frm = self.fromlist() if self.kw('from') else []
        where = self.expr() if self.kw('where') else None
        group = None
        if self.kw('group', 'by'):
            group = [self.expr()]
            while self.op(','):
                group.append(self.expr())
        having = self.expr() if self.kw('having') else None
        if self.iskw('window'):
            raise Unsupported('WINDOW')
        return dict(distinct=distinct, targets=targets, frm=frm, where=where, group=group, having=having, order=[], limit=None, offset=None, lock=None)

    def tail(self, s):
        while True:
            if self.kw('order', 'by'):
                items = []
                while True:
                    e = self.expr()
                    desc = False
                    if self.kw('desc'):
                        desc = True
                    else:
                        self.kw('asc')
                    nulls = None
                    if self.kw('nulls', 'first'):
                        nulls = 'first'
                    elif self.kw('nulls', 'last'):
                        nulls = 'last'
                    items.append((e, desc, nulls))
                    if not self.op(','):
                        break
                s['order'] = items
            elif self.kw('limit'):
                s['limit'] = None if self.kw('all') else self.expr()
            elif self.kw('offset'):
                s['offset'] = self.expr()
                self.kw('rows') or self.kw('row')
            elif self.kw('fetch'):
                self.kw('first') or self.kw('next')
                s['limit'] = ('lit', 1)
                if not (self.iskw('row') or self.iskw('rows')):
                    s['limit'] = self.primary()
                self.kw('rows') or self.kw('row')
                self.need('only')
            elif self.iskw('for'):
                self.adv()
                if self.kw('update'):
                    mode = 'update'
                elif self.kw('no', 'key', 'update'):
                    mode = 'nkupdate'
                elif self.kw('share'):
                    mode = 'share'
                elif self.kw('key', 'share'):
                    mode = 'kshare'
                else:
                    raise SyntaxErr('FOR what')
                of = None
                if self.kw('of'):
                    of = [self.ident()]
                    while self.op(','):
                        of.append(self.ident())
                wait = 'wait'
                if self.kw('skip', 'locked'):
                    wait = 'skip'
                elif self.kw('nowait'):
                    wait = 'nowait'
                s['lock'] = dict(mode=mode, of=of, wait=wait)
            else:
                return

    def fromlist(self):
        items = [self.fromitem()]
        while self.op(','):
            items.append(self.fromitem())
        return items

    def fromitem(self):
        left = self.fromprim()
        while True:
            kind = None
            if self.kw('cross', 'join'):
                right = self.fromprim()
                left = ('join', 'inner', left, right, None)
                continue
            if self.kw('inner', 'join') or self.kw('join'):
                kind = 'inner'
            elif self.kw('left', 'outer', 'join') or self.kw('left', 'join'):
                kind = 'left'
            elif self.kw('right', 'outer', 'join') or self.kw('right', 'join'):
                kind = 'right'
            elif self.kw('full', 'outer', 'join') or self.kw('full', 'join'):
                kind = 'full'
            elif self.iskw('natural'):
                raise Unsupported('join type')
            else:
                return left
            right = self.fromprim()
            if self.kw('on'):
                left = ('join', kind, left, right, self.expr())
            elif self.kw('using'):
                self.needop('(')
                left = ('join', kind, left, right, ('using', self.identlist()))
            else:
                raise SyntaxErr('join condition')

    def fromprim(self):
        lateral = self.kw('lateral')
        if self.op('('):
            if self.iskw('select') or self.iskw('values') or self.isop('('):
                s = self.select()
                self.needop(')')
                a = self.alias()
                cols = None
                if self.op('('):
                    cols = self.identlist()
                return ('lsub' if lateral else 'sub', s, a or '_sub', cols)
            it = self.fromitem()
            self.needop(')')
            return it
        self.kw('only')
        name = self.tablename()
        if self.op('('):
            args = []
            if not self.isop(')'):
                args.append(self.expr())
                while self.op(','):
                    args.append(self.expr())
            self.needop(')')
            a = self.alias()
            cols = None
            if self.op('('):
                cols = self.identlist()
            return ('funcscan', name, args, a or name, cols)
        a = self.alias()
        return ('table', name, a or name)

    # -- expressions
    def expr(self):
        return self.or_()

    def or_(self):
        l = self.and_()
        while self.kw('or'):
            l = ('or', l, self.and_())
        return l

    def and_(self):
        l = self.not_()
        while self.kw('and'):
            l = ('and', l, self.not_())
        return l

    def not_(self):
        if self.kw('not'):
            return ('not', self.not_())
        return self.is_()

    def is_(self):
        l = self.cmp_()
        while True:
            if self.kw('is'):
                neg = self.kw('not')
                if self.kw('null'):
                    l = ('isnull', l)
                elif self.kw('true'):
                    l = ('istrue', l)
                elif self.kw('false'):
                    l = ('isfalse', l)
                elif self.kw('unknown'):
                    l = ('isnull', l)
                elif self.kw('distinct', 'from'):
                    l = ('distinct', l, self.cmp_())
                else:
                    raise SyntaxErr('IS what')
                if neg:
                    l = ('not', l)
            elif self.kw('isnull'):
                l = ('isnull', l)
            elif self.kw('notnull'):
                l = ('not', ('isnull', l))
            else:
                return l

    def cmp_(self):
        l = self.range_()
        while self.t.k == 'op' and self.t.v in ('=', '<>', '<', '>', '<=', '>='):
            o = self.adv().v
            if self.iskw('any') or self.iskw('some') or self.iskw('all'):
                q = 'all' if self.adv().v == 'all' else 'any'
                self.needop('(')
                if self.iskw('select') or self.iskw('values'):
                    r = ('arrsub', self.select())
                else:
                    r = self.expr()
                self.needop(')')
                l = (q, o, l, r)
            else:
                l = ('cmp', o, l, self.range_())
        return l

    def range_(self):
        l = self.other()
        while True:
            save = self.i
            neg = self.kw('not')
            if self.kw('between'):
                self.kw('symmetric')
                lo = self.other()
                self.need('and')
                hi = self.other()
                l = ('and', ('cmp', '>=', l, lo), ('cmp', '<=', l, hi))
            elif self.iskw('in') and self.peek().k == 'param':
                self.adv()
                l = ('inparam', l, ('param', self.adv().v))
            elif self.kw('in'):
                self.needop('(')
                if self.iskw('select') or self.iskw('values') or self.iskw('with'):
                    l = ('insub', l, self.select())
                else:
                    items = [self.expr()]
                    while self.op(','):
                        items.append(self.expr())
                    l = ('in', l, items)
                self.needop(')')
            elif self.kw('like'):
                l = ('like', l, self.other(), False)
            elif self.kw('ilike'):
                l = ('like', l, self.other(), True)
            else:
                self.i = save
                return l
            if neg:
                l = ('not', l)

    def other(self):
        l = self.add()
        while self.t.k == 'op' and self.t.v in ('||', '->', '->>', '#>', '#>>', '@>', '<@', '?', '~', '~*', '!~', '!~*', '&&'):
            o = self.adv().v
            l = ('op', o, l, self.add())
        return l

    def add(self):
        l = self.mul()
        while self.t.k == 'op' and self.t.v in ('+', '-'):
            o = self.adv().v
            l = ('op', o, l, self.mul())
        return l

    def mul(self):
        l = self.pow_()
        while self.t.k == 'op' and self.t.v in ('*', '/', '%'):
            o = self.adv().v
            l = ('op', o, l, self.pow_())
        return l

    def pow_(self):
        l = self.atz()
        while self.isop('^'):
            self.adv()
            l = ('op', '^', l, self.atz())
        return l

    def atz(self):
        l = self.unary()
        while self.kw('at', 'time', 'zone'):
            l = ('atz', l, self.unary())
        return l

    def unary(self):
        if self.op('-'):
            return ('neg', self.unary())
        if self.op('+'):
            return self.unary()
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.op('::'):
                e = ('cast', e, self.typename())
            elif self.isop('['):
                self.adv()
                ix = self.expr()
                self.needop(']')
                e = ('index', e, ix)
            elif self.kw('collate'):
                self.ident()
            else:
                return e

    def typename(self):
        t = self.t
        if t.k not in ('id', 'qid'):
            raise SyntaxErr(f'type name near {t.raw!r}')
        n = self.ident()
        if self.op('.'):
            n = self.ident()
        if n not in TYPES:
            raise Unsupported(f'type {n}')
        base = TYPES[n]
        if n == 'double':
            self.kw('precision')
        if n == 'character':
            self.kw('varying')
        if self.op('('):
            while not self.op(')'):
                self.adv()
        if n in ('timestamp', 'time'):
            if self.kw('with', 'time', 'zone'):
                base = 'timestamptz'
            else:
                self.kw('without', 'time', 'zone')
        while self.op('['):
            if self.t.k == 'num':
                self.adv()
            self.needop(']')
            base = base + '[]'
        return base

    def primary(self):
        t = self.t
        if t.k == 'num':
            self.adv()
            return ('lit', t.v)
        if t.k == 'str':
            self.adv()
            return ('ulit', t.v)
        if t.k == 'param':
            self.adv()
            return ('param', t.v)
        if t.k == 'op' and t.v == '(':
            self.adv()
            if self.iskw('select') or self.iskw('values'):
                s = self.select()
                self.needop(')')
                return ('subq', s)
            if self.iskw('with'):
                raise Unsupported('WITH in subquery')
            e = self.expr()
            if self.op(','):
                items = [e, self.expr()]
                while self.op(','):
                    items.append(self.expr())
                self.needop(')')
                return ('row', items)
            self.needop(')')
            return e
        if t.k == 'op' and t.v == '*':
            self.adv()
            return ('star',)
        if t.k == 'qid':
            return self.colref()
        if t.k != 'id':
            raise SyntaxErr(f'syntax error at or near "{t.raw}"')
        w = t.v
        if w == 'null':
            self.adv()
            return ('lit', None)
        if w == 'true':
            self.adv()
            return ('lit', True)
        if w == 'false':
            self.adv()
            return ('lit', False)
        if w in ('current_timestamp', 'localtimestamp'):
            self.adv()
            if self.op('('):
                self.adv()
                self.needop(')')
            return ('func', 'now', [], False, None, None)
        if w == 'current_date':
            self.adv()
            return ('func', 'current_date', [], False, None, None)
        if w == 'current_user':
            self.adv()
            return ('ulit', 'postgres')
        if w == 'case':
            return self.case()
        if w == 'cast' and self.peek().v == '(':
            self.adv()
            self.adv()
            e = self.expr()
            self.need('as')
            ty = self.typename()
            self.needop(')')
            return ('cast', e, ty)
        if w == 'exists' and self.peek().v == '(':
            self.adv()
            self.adv()
            s = self.select()
            self.needop(')')
            return ('exists', s)
        if w == 'extract' and self.peek().v == '(':
            self.adv()
            self.adv()
            f = self.adv().v
            self.need('from')
            e = self.expr()
            self.needop(')')
            return ('extract', str(f).lower(), e)
        if w == 'row' and self.peek().v == '(':
            self.adv()
            self.adv()
            items = [self.expr()]
            while self.op(','):
                items.append(self.expr())
            self.needop(')')
            return ('row', items)
        if w == 'array':
            self.adv()
            if self.op('('):
                s = self.select()
                self.needop(')')
                return ('arrsub', s)
            self.needop('[')
            items = []
            if not self.isop(']'):
                items.append(self.expr())
                while self.op(','):
                    items.append(self.expr())
            self.needop(']')
            return ('array', items)
        if w in TYPES and self.peek().k == 'param':
            ty = TYPES[w]
            self.adv()
            return ('cast', ('param', self.adv().v), ty)
        if w in TYPES and self.peek().k == 'str':
            ty = TYPES[w]
            self.adv()
            return ('cast', ('ulit', self.adv().v), ty)
        if w == 'timestamp' and self.peek().v == 'with':
            self.adv()
            self.need('with', 'time', 'zone')
            return ('cast', ('ulit', self.adv().v), 'timestamptz')
        if self.peek().k == 'op' and self.peek().v == '(' and w not in ('in', 'and', 'or', 'not'):
            return self.func()
        if w in RESERVED and w not in SOFT:
            raise SyntaxErr(f'syntax error at or near "{t.raw}"')
        return self.colref()

    def arg(self):
        t = self.toks[self.i + 1] if self.i + 1 < len(self.toks) else None
        if t is not None and t.k == 'op' and t.v in ('=>', ':=') and self.t.k in ('id', 'qid'):
            name = self.ident()
            self.adv()
            return ('named', name, self.expr())
        return self.expr()

    def func(self):
        name = self.ident()
        self.needop('(')
        distinct, args, star = False, [], False
        order = None
        if self.op('*'):
            star = True
        elif not self.isop(')'):
            distinct = self.kw('distinct')
            self.kw('variadic')
            if name == 'position':
                args.append(self.other())
                self.need('in')
                args.append(self.other())
            else:
                args.append(self.arg())
            while self.op(','):
                args.append(self.arg())
            if self.kw('order', 'by'):
                order = []
                while True:
                    e = self.expr()
                    desc = self.kw('desc')
                    self.kw('asc')
                    order.append((e, desc, None))
                    if not self.op(','):
                        break
        self.needop(')')
        filt = None
        if self.iskw('filter'):
            self.adv()
            self.needop('(')
            self.need('where')
            filt = self.expr()
            self.needop(')')
        over = None
        if self.kw('over'):
            self.needop('(')
            part, ordr = [], []
            if self.kw('partition', 'by'):
                part.append(self.expr())
                while self.op(','):
                    part.append(self.expr())
            if self.kw('order', 'by'):
                while True:
                    e = self.expr()
                    desc = self.kw('desc')
                    self.kw('asc')
                    nulls = None
                    if self.kw('nulls', 'first'):
                        nulls = 'first'
                    elif self.kw('nulls', 'last'):
                        nulls = 'last'
                    ordr.append((e, desc, nulls))
                    if not self.op(','):
                        break
            self.needop(')')
            return ('window', name, args, part, ordr)
        if name in ('coalesce', 'nullif', 'greatest', 'least'):
            return (name, args)
        return ('func', name, args if not star else ['*'], distinct, filt, order)

    def case(self):
        self.need('case')
        operand = None if self.iskw('when') else self.expr()
        whens = []
        while self.kw('when'):
            c = self.expr()
            self.need('then')
            whens.append((c, self.expr()))
        els = self.expr() if self.kw('else') else None
        self.need('end')
        return ('case', operand, whens, els)

    def colref(self):
        n = self.ident()
        q = None
        while self.isop('.') :
            self.adv()
            if self.op('*'):
                return ('wholerow', n)
            q, n = n, self.ident()
        return ('col', q, n)


@functools.lru_cache(4096)
def parse(sql, params=False):
    return Parser(sql, params).script()
