"""What auditing a document gives in a process that has done nothing else.

A zygote process is forked right after the code is imported; it never audits
anything itself but forks a child per question, so every answer comes from a
pristine process whatever the simulated run has done to its own modules.
"""
import json
import os
import struct

from .core import HarnessError
from .harness import forked


def _plain(o):
    return json.loads(json.dumps(o))


def audit_now(doc, spec, plain=False, **argv):
    """run the audit in this process; the outcome as plain data"""
    from dp.audit import Arguments, ResultMsg
    from dp.run import run
    try:
        last = None
        for msg in run(Arguments(**argv), student=doc, area_spec=spec):
            if isinstance(msg, ResultMsg):
                last = msg
        if last is None:
            return {'bad': 'no result'}
        d = last.result.to_dict()
        return {
            'result': _plain(d), 'claims': _plain(last.result.keyed_claims()), 'iterations': last.iters,
            'rank': str(d['rank']), 'max_rank': str(d['max_rank']), 'gpa': str(d['gpa']), 'ok': d['ok'], 'status': d['status'], 'version': d['version'],
            **({} if plain else {'name': doc['name'], 'name_sort': doc['name_sort'], 'classification': doc['classification'], 'class': doc['class']}),
        }
    except Exception as e:
        return {'bad': f'{type(e).__name__}: {e}'[:200]}


def audit_text(doc, spec):
    """the outcome, plus how the command line shows it"""
    from dp.audit import Arguments, ResultMsg
    from dp.run import run
    from dp.stringify_v3 import print_result
    out = audit_now(doc, spec, plain=True)
    if 'bad' in out:
        return out
    for msg in run(Arguments(), student=doc, area_spec=spec):
        if isinstance(msg, ResultMsg):
            out['courses'] = sorted(c.clbid for c in msg.transcript)
            try:
                out['text'] = '\n'.join(print_result(out['result'], transcript={c.clbid: c for c in msg.transcript}))
            except Exception as e:
                out['unshowable'] = f'{type(e).__name__}: {e}'[:200]
    return out


def listing(doc, spec, o):
    """what a local audit with these options has to print, piece by piece; put together from the parts of the auditor, without its message loop"""
    from dp.area import AreaOfStudy
    from dp.data.student import Student
    from dp.exception import CourseOverrideException, load_exception, load_migrations
    from dp.lib import grade_point_average, grade_point_average_items
    from dp.stringify_v3 import print_result
    try:
        code = spec['code']
        moves = load_migrations(spec.get('exceptions-migrations', []))
        exceptions = [load_exception(e, moves) for e in doc.get('exceptions', []) if e['area_code'] == code]
        st = Student.load(doc, code=code, overrides=[e for e in exceptions if isinstance(e, CourseOverrideException)], credits_overrides=spec.get('credit', {}))
        if o['mode'] == 'transcript':
            return {'rows': [[c.course(), c.name, c.clbid, c.course_type.value, str(c.credits), f'{c.year}-{c.term}', c.sub_type.name, c.grade_code.value, 'Y' if c.is_in_gpa else 'N'] for c in st.courses]}
        if o['mode'] == 'gpa':
            rows, seen = [], []
            taken = st.courses_with_failed
            for term in sorted({c.year_term() for c in taken}):
                mine = [c for c in taken if c.year_term() == term]
                count = set(grade_point_average_items(set(mine)))
                if not count:
                    rows.append([term, ' ', '0 courses', ' '])
                    continue
                rows.append([term, ' ', ' ', ' '])
                rows += [[c.course(), c.year_term(), c.grade_code.value, str(c.grade_points)] for c in sorted(count, key=lambda c: (c.year, c.term, c.course(), c.clbid))]
                rows.append([' ', ' ', 'gpa:', str(grade_point_average(set(mine)))])
                seen += count
                rows.append([' ', ' ', 'cum. gpa:', str(grade_point_average(set(seen)))])
            return {'rows': rows + [['overall', '---', 'gpa:', str(grade_point_average(taken))]]}
        area = AreaOfStudy.load(specification=spec, c=st.constants(), student=st, exceptions=exceptions)
        guess = area.estimate(student=st, exceptions=exceptions)
        if o['mode'] == 'estimate':
            return {'estimate': guess}
        best = None
        out, n, seen, some, done = [], 0, 0, False, False
        for sol in area.solutions(student=st, exceptions=exceptions):
            n += 1
            if (o.get('only') and n not in o['only']) or n % o.get('each', 1):
                continue
            seen += 1
            r = sol.audit()
            done = r.status().value in ('done', 'waived')
            if best is None or r.rank()[0] > best[1] or done:
                best = (r, r.rank()[0], n)
            if done:
                break
            if o.get('all') or o.get('only'):
                out.append((r, best[2], seen, n))
                some = True
            if o.get('stop') and seen >= o['stop']:
                break
        if best is None:
            return {'none': True}
        if done or not some:
            out.append((best[0], best[2], seen, n))
        names = {c.clbid: c for c in st.courses_with_failed}
        items = []
        for r, b, seen, n in out:
            it = {'best': b, 'seen': seen, 'made': n, 'result': _plain(r.to_dict())}
            if o['mode'] == 'claimed':
                it['claimed'] = ','.join(c.pretty() for c in sorted((x.course for x in r.claims()), key=lambda c: [c.subject, c.number, c.year, c.term, c.section]))
            if o['mode'] == 'jsont':
                it['courses'] = _plain([c.to_dict() for c in st.courses_with_failed])
            if o['mode'] == 'text':
                it['text'] = '\n'.join(print_result(it['result'], transcript=names, show_paths=o.get('paths', True), show_ranks=o.get('ranks', True)))
                it['claims'] = [f'  - {names[k].course_with_term()} "{names[k].name}" at ' + ' > '.join([it['result']['name'], *(x[1:] for x in p if x.startswith('%'))]) for k, ps in r.keyed_claims().items() for p in ps]
            items.append(it)
        return {'items': items}
    except Exception as e:
        return {'bad': f'{type(e).__name__}: {e}'[:200]}


def show(result, doc):
    """how a saved result is shown for a student; None if it cannot be"""
    from dp.data.student import Student
    from dp.stringify_v3 import print_result
    try:
        return '\n'.join(print_result(result, transcript={c.clbid: c for c in Student.load(doc).courses_with_failed}))
    except Exception:
        return None


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _write(fd, data):
    mv = memoryview(data)
    while mv:
        mv = mv[os.write(fd, mv):]


class Zygote:
    def __init__(self):
        self.q_r, self.q_w = os.pipe()
        self.a_r, self.a_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.q_w)
                os.close(self.a_r)
                self.serve()
            finally:
                os._exit(0)
        os.close(self.q_r)
        os.close(self.a_w)
        self.cache = {}

    def serve(self):
        while True:
            h = _read(self.q_r, 4)
            if h is None:
                return
            body = _read(self.q_r, struct.unpack('>I', h)[0])
            if body is None:
                return
            kind, args = json.loads(body)
            res = forked(lambda: SERVICES[kind](*args), 60)
            data = json.dumps(res).encode()
            _write(self.a_w, struct.pack('>I', len(data)) + data)

    def ask(self, kind, *args):
        body = json.dumps([kind, args]).encode()
        if body in self.cache:
            return self.cache[body]
        _write(self.q_w, struct.pack('>I', len(body)) + body)
        h = _read(self.a_r, 4)
        if h is None:
            raise HarnessError('reference process died')
        res = json.loads(_read(self.a_r, struct.unpack('>I', h)[0]))
        if isinstance(res, dict) and ('error' in res or 'hang' in res):
            if 'hang' in res:
                return {'bad': 'hangs'}
            raise HarnessError(f'reference failed: {res}')
        self.cache[body] = res
        return res

    def close(self):
        os.close(self.q_w)
        os.close(self.a_r)
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass


SERVICES = {'show': show, 'listing': listing, 'audit': audit_now, 'audit_text': audit_text, 'audit_some': lambda doc, spec, n: audit_now(doc, spec, stop_after=n)}
_zygote = None


ON_START, ON_STOP = [], []


def start():
    """(re)start the zygote; call it in the pristine process, before the first run"""
    global _zygote
    stop()
    _zygote = Zygote()
    for fn in ON_START:
        fn()


def stop():
    global _zygote
    for fn in ON_STOP:
        fn()
    if _zygote is not None:
        _zygote.close()
        _zygote = None


def fresh(doc, spec):
    return _zygote.ask('audit', doc, spec)


def ask(kind, *args):
    return _zygote.ask(kind, *args)
