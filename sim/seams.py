"""Every way the repository reaches the outside world, rerouted to the simulator.

`install()` must run before anything of `dp` is imported.  Each replacement
only acts when the calling thread is a simulated task; otherwise (harness code,
reference computations) it calls the real thing.
"""
import builtins
import concurrent.futures
import glob as _glob
import io
import logging
import multiprocessing
import os
import pickle
import queue
import random
import select
import selectors
import sqlite3
import subprocess
import sys
import threading
import time

import psycopg2
import psycopg2.extensions
import psycopg2.extras

from .core import HarnessError, SimCrash, SimLock, SimRLock, US, current_task

real = {}
installed = False

REPO = os.environ.get('DP_REPO', '/repo')


def _is_dp_caller(depth=2):
    """is the code that called the patched function the repository's own?"""
    name = sys._getframe(depth).f_globals.get('__name__', '')
    return name == 'dp' or name.startswith('dp.') or name.startswith('dp_sim_main')


# ------------------------------------------------------------------ psycopg2
def _connect(dsn=None, connection_factory=None, cursor_factory=None, **kw):
    t = current_task()
    if t is None:
        raise HarnessError('psycopg2.connect outside the simulation')
    from .pgclient import sim_connect
    db = t.sim.env.get('db')
    if db is None:
        raise psycopg2.OperationalError('could not connect to server: no database in this world\n')
    if connection_factory is not None:
        raise HarnessError('connection_factory is not simulated')
    return sim_connect(t.sim, db, dsn, cursor_factory=cursor_factory, **kw)


# ------------------------------------------------------------------ select
def _conn_of(sim, o):
    """the simulated connection behind what was passed to select"""
    if hasattr(o, 'readable') and hasattr(o, 'session'):
        o.fileno()                      # raises when it is closed
        return o
    fd = o if isinstance(o, int) else o.fileno()
    for c in sim.env.get('conns', []):
        if c._fdno == fd and not c.closed:
            return c
    if fd >= 100000:
        raise OSError(9, 'Bad file descriptor')
    raise HarnessError(f'select on {o!r}')


def _select(r, w, x, timeout=None):
    t = current_task()
    if t is None:
        return real['select'](r, w, x, timeout)
    sim = t.sim
    r, w, x = list(r), list(w), list(x)
    conns = [(o, _conn_of(sim, o)) for o in r]
    faults = sim.point('select')
    for f in faults:
        if f['kind'] == 'conn_drop':
            for _, c in conns:
                c.drop()
        elif f['kind'] == 'crash':
            sim.kill(t.proc, 'crash at select')
            raise SimCrash()
        elif f['kind'] == 'interrupt':
            raise KeyboardInterrupt()
    t.proc.data['idle_since'] = sim.now
    t.proc.data['idle'] = True
    try:
        if not w:
            # with writers listed they are ready at once
            sim.wait(lambda: any(c.readable() for _, c in conns), None if timeout is None else max(0, int(timeout * US)))
    finally:
        t.proc.data['idle'] = False
        t.proc.data['idle_until'] = sim.now
    ready = [o for o, c in conns if c.readable()]
    if not ready and not w:
        sim.probe('select_timeout')
        return [], [], []
    return ready, list(w), []


class _Poll:
    """select.poll / select.epoll over simulated connections"""
    per_second = 1000
    IN, OUT = 1, 4

    def __init__(self, *a, **kw):
        self.objs = {}

    def _fd(self, o):
        return o if isinstance(o, int) else o.fileno()

    def register(self, o, mask=1):
        self.objs[self._fd(o)] = mask

    modify = register

    def unregister(self, o):
        del self.objs[self._fd(o)]

    def poll(self, timeout=None, maxevents=-1):
        if timeout is not None and timeout < 0:
            timeout = None
        ins = [fd for fd, m in self.objs.items() if m & 1]
        outs = [fd for fd, m in self.objs.items() if m & 4]
        r, w, _ = _select(ins, outs, [], None if timeout is None else timeout / self.per_second)
        return [(fd, (1 if fd in r else 0) | (4 if fd in w else 0)) for fd in self.objs if fd in r or fd in w]

    def close(self):
        self.objs.clear()

    def fileno(self):
        return 99999

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Epoll(_Poll):
    per_second = 1


def _poll():
    if current_task() is None:
        return real['poll']()
    return _Poll()


def _epoll(*a, **kw):
    if current_task() is None:
        return real['epoll'](*a, **kw)
    return _Epoll()


# ------------------------------------------------------------------ time
def _tick(t):
    """monotonic per process: virtual time plus one microsecond per reading"""
    p = t.proc
    n = p.data.get('ticks', 0) + 1
    p.data['ticks'] = n
    return t.sim.now + n


def _time():
    t = current_task()
    if t is None:
        return real['time']()
    return 1614600000 + (t.sim.now + t.proc.data.get('wall_skew_us', 0)) / US


def _perf():
    t = current_task()
    if t is None:
        return real['perf_counter']()
    hook = t.sim.env.get('perf_hook')
    if hook is not None:
        return hook(t)
    # computing takes time in the real world: five milliseconds per reading
    return 5000 + (t.sim.now + 5000 * (_tick(t) - t.sim.now)) / US


def _mono():
    t = current_task()
    if t is None:
        return real['monotonic']()
    return 7000 + _tick(t) / US


def _sleep(s):
    t = current_task()
    if t is None:
        return real['sleep'](s)
    if s < 0:
        raise ValueError('sleep length must be non-negative')
    t.sim.event('sleep', s=s)
    for f in t.sim.point('sleep'):
        if f['kind'] == 'interrupt':
            raise KeyboardInterrupt()
        if f['kind'] == 'crash':
            t.sim.kill(t.proc)
            raise SimCrash()
    t.proc.data['idle'] = True
    try:
        t.sim.sleep(int(s * US))
    finally:
        t.proc.data['idle'] = False


# ------------------------------------------------------------------ subprocess
class _SimPopen:
    def __init__(self, args, sim, t, **kw):
        self.args = args
        self.pid = 4000 + len(sim.env.setdefault('children', []))
        model = sim.env.get('subprocess')
        if model is None:
            raise HarnessError(f'subprocess in a world without one: {args!r}')
        self.sim = sim
        self.rec = model.start(sim, t.proc, args, kw)       # may raise OSError
        sim.env['children'].append(self.rec)
        self.returncode = None
        self.stdin = self.stdout = self.stderr = None

    def poll(self):
        if self.rec['ended'] is not None:
            self.returncode = self.rec['rc']
        return self.returncode

    def wait(self, timeout=None):
        ok = self.sim.wait(lambda: self.rec['ended'] is not None, None if timeout is None else int(timeout * US))
        if not ok:
            raise subprocess.TimeoutExpired(self.args, timeout)
        self.returncode = self.rec['rc']
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return (None, None)

    def kill(self):
        if self.rec['ended'] is None:
            self.rec['ended'] = self.sim.now
            self.rec['rc'] = -9
            self.rec['killed'] = True

    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


def _popen(args, *a, **kw):
    t = current_task()
    if t is None:
        return real['Popen'](args, *a, **kw)
    t.sim.point('subprocess')
    return _SimPopen(args, t.sim, t, **kw)


def _run(args, *a, **kw):
    t = current_task()
    if t is None:
        return real['run'](args, *a, **kw)
    check = kw.pop('check', False)
    timeout = kw.pop('timeout', None)
    kw.pop('input', None)
    for f in t.sim.point('subprocess'):
        if f['kind'] == 'interrupt':
            raise KeyboardInterrupt()
    p = _SimPopen(args, t.sim, t, **kw)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        raise
    except SimCrash:
        raise
    if check and rc:
        raise subprocess.CalledProcessError(rc, args)
    return subprocess.CompletedProcess(args, rc, None, None)


def _call(args, *a, **kw):
    if current_task() is None:
        return real['call'](args, *a, **kw)
    return _run(args, *a, **kw).returncode


def _check_call(args, *a, **kw):
    if current_task() is None:
        return real['check_call'](args, *a, **kw)
    _run(args, *a, check=True, **kw)
    return 0


def _check_output(args, *a, **kw):
    if current_task() is None:
        return real['check_output'](args, *a, **kw)
    _run(args, *a, check=True, **kw)
    return b''


# ------------------------------------------------------------------ multiprocessing
class SimProcess:
    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, tuple(args), dict(kwargs or {})
        self.name = name
        self.daemon = bool(daemon)
        self.proc = None
        self.exitcode = None
        self.pid = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        t = current_task()
        sim = t.sim
        for f in sim.point('fork'):
            if f['kind'] == 'fork_error':
                raise OSError(11, 'Resource temporarily unavailable')
        if self.proc is not None:
            raise AssertionError('cannot start a process twice')
        n = sim.env.setdefault('forked', [])
        self.pid = 2000 + len(n)
        name = f'{t.proc.name}.{len(n)}'
        n.append(self)
        self.parent = t.proc
        started = sim.env.get('on_fork')
        if started:
            started(self, name)
        self.proc = sim.process(name, self.run, argv=list(t.proc.argv))
        self.proc.parent = t.proc
        t.proc.data.setdefault('children', []).append(self)
        sim.event('fork', child=name)

    def _dead(self):
        return self.proc.killed or self.proc.exit is not None

    def is_alive(self):
        return self.proc is not None and not self._dead()

    def join(self, timeout=None):
        t = current_task()
        t.sim.point('join')
        t.sim.wait(self._dead, None if timeout is None else int(timeout * US))
        if self._dead():
            e = self.proc.exit
            self.exitcode = -9 if self.proc.killed else (0 if e and e[0] == 'ok' else 1)

    def terminate(self):
        self.proc.sim.kill(self.proc, 'terminate')

    kill = terminate

    def close(self):
        pass


def _at_exit(proc):
    """what multiprocessing does when its parent process ends normally"""
    sim = proc.sim
    for c in proc.data.get('children', []):
        if c.daemon and c.is_alive():
            c.terminate()
    for c in proc.data.get('children', []):
        if not c.daemon:
            sim.wait(c._dead)


def mp_main(fn):
    """wrap a simulated main program that may use multiprocessing"""
    def inner():
        t = current_task()
        try:
            r = fn()
        except SimCrash:
            raise
        except BaseException:
            _at_exit(t.proc)
            raise
        _at_exit(t.proc)
        return r
    return inner


class _ProcessFactory:
    def __new__(cls, *a, **kw):
        if current_task() is None:
            return real['Process'](*a, **kw)
        return SimProcess(*a, **kw)


class _Context:
    """multiprocessing.get_context() inside the simulation"""
    Process = _ProcessFactory

    def get_start_method(self, allow_none=False):
        return 'fork'

    def cpu_count(self):
        return os.cpu_count()

    def get_context(self, method=None):
        return self


def _get_context(method=None):
    if current_task() is None:
        return real['get_context'](method)
    return _Context()


# ------------------------------------------------------------------ http
class SimResponse:
    def __init__(self, status, data, headers=None):
        self.status = status
        self.data = data
        self.headers = headers or {}
        self.reason = 'OK' if status == 200 else 'error'

    def json(self):
        import json
        return json.loads(self.data.decode('utf-8'))

    def read(self, *a, **kw):
        return self.data

    def release_conn(self):
        pass

    def close(self):
        pass

    def getheader(self, n, d=None):
        return self.headers.get(n, d)


class SimPool:
    def __init__(self, *a, **kw):
        pass

    def request(self, method, url, fields=None, headers=None, **kw):
        t = current_task()
        if t is None:
            raise HarnessError('HTTP outside the simulation')
        h = t.sim.env.get('http')
        if h is None:
            raise HarnessError(f'HTTP in a world without one: {url}')
        if '?' in url:
            from urllib.parse import urlsplit, parse_qsl
            fields = {**dict(parse_qsl(urlsplit(url).query)), **dict(fields or {})}
            url = url.split('?')[0]
        return h(t.sim, t, method, url, fields, kw)

    def urlopen(self, method, url, **kw):
        from urllib.parse import urlsplit, parse_qsl
        s = urlsplit(url)
        return self.request(method, url.split('?')[0], fields=dict(parse_qsl(s.query)), **kw)

    def request_encode_url(self, method, url, fields=None, **kw):
        return self.request(method, url, fields=fields, **kw)

    def clear(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ futures
class SimFuture(concurrent.futures.Future):
    """result passing in virtual time"""

    def __init__(self):
        self._st = 'PENDING'
        self._val = None
        self._exc = None
        self._cbs = []
        self.seq = None

    def done(self):
        return self._st in ('DONE', 'CANCELLED')

    def cancelled(self):
        return self._st == 'CANCELLED'

    def running(self):
        return self._st == 'RUNNING'

    def cancel(self):
        if self._st in ('RUNNING', 'DONE'):
            return False
        if self._st == 'PENDING':
            self._finish('CANCELLED')
        return True

    def _finish(self, st, val=None, exc=None):
        if self.done():
            return
        t = current_task()
        sim = t.sim if t else None
        self._st, self._val, self._exc = st, val, exc
        if sim is not None:
            sim.env['fut_seq'] = sim.env.get('fut_seq', 0) + 1
            self.seq = sim.env['fut_seq']
        for cb in self._cbs:
            try:
                cb(self)
            except Exception:
                pass

    def _wait(self, timeout):
        t = current_task()
        t.sim.point('future')
        ok = t.sim.wait(self.done, None if timeout is None else int(timeout * US))
        if not ok:
            raise concurrent.futures.TimeoutError()
        if self._st == 'CANCELLED':
            raise concurrent.futures.CancelledError()

    def result(self, timeout=None):
        self._wait(timeout)
        if self._exc is not None:
            try:
                raise self._exc
            finally:
                self = None
        return self._val

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._exc

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._cbs.append(fn)

    def set_running_or_notify_cancel(self):
        if self._st == 'CANCELLED':
            return False
        self._st = 'RUNNING'
        return True

    def set_result(self, r):
        self._finish('DONE', r)

    def set_exception(self, e):
        self._finish('DONE', None, e)

    def __repr__(self):
        return f'<SimFuture {self._st}>'


class _SimExecutor(concurrent.futures.Executor):
    def submit(self, fn, /, *args, **kwargs):
        t = current_task()
        sim = t.sim
        sim.point('submit')
        if self.broken is not None:
            raise self.broken_error()
        if self.down:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = SimFuture()
        self.queue.append((f, fn, args, kwargs))
        if self.n < self.max_workers and self.idle < len(self.queue):
            self._spawn(t)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        t = current_task()
        self.down = True
        if cancel_futures:
            for f, *_ in self.queue:
                f.cancel()
            self.queue.clear()
        if t is None or t.proc.killed or t.sim.stopping:
            return
        if wait:
            t.sim.point('pool shutdown')
            t.sim.wait(lambda: self.n == 0)

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if isinstance(ev, SimCrash):
            return False
        self.shutdown(wait=True)
        return False


class SimThreadPool(_SimExecutor):
    kind = 'thread'

    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        if max_workers is None:
            max_workers = min(32, (os.cpu_count() or 1) + 4)
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self.max_workers = max_workers
        self.queue = []
        self.n = 0
        self.idle = 0
        self.down = False
        self.broken = None
        self.spawned = 0
        self.initializer = initializer
        self.initargs = initargs

    def _spawn(self, t):
        self.n += 1
        self.spawned += 1
        sim = t.sim
        tf = sim.env.get('trace_files')
        sim.spawn(f'{t.proc.name}#t{self.spawned}', self._loop, t.proc, trace_files=tf)

    def _loop(self):
        t = current_task()
        sim = t.sim
        try:
            if self.initializer:
                self.initializer(*self.initargs)
            while True:
                self.idle += 1
                sim.wait(lambda: self.queue or self.down)
                self.idle -= 1
                if not self.queue:
                    return
                f, fn, a, kw = self.queue.pop(0)
                if not f.set_running_or_notify_cancel():
                    continue
                sim.point('task')
                try:
                    r = fn(*a, **kw)
                except (SimCrash, HarnessError):
                    raise
                except BaseException as e:
                    f.set_exception(e)
                    e = None
                else:
                    f.set_result(r)
        finally:
            self.n -= 1


class SimProcessPool(_SimExecutor):
    kind = 'process'

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        if max_workers is None:
            max_workers = os.cpu_count() or 1
        if max_workers <= 0:
            raise ValueError('max_workers must be greater than 0')
        self.max_workers = max_workers
        self.queue = []
        self.n = 0
        self.idle = 0
        self.down = False
        self.broken = None
        self.spawned = 0
        self.running = set()
        self.owner = current_task().proc
        self.initializer = initializer
        self.initargs = initargs

    def broken_error(self):
        from concurrent.futures.process import BrokenProcessPool
        return BrokenProcessPool('A child process terminated abruptly, the process pool is not usable anymore')

    def _spawn(self, t):
        self.n += 1
        self.spawned += 1
        sim = t.sim
        p = sim.process(f'{t.proc.name}.p{self.spawned}', self._loop)
        p.parent = t.proc
        p.data['pool_child'] = True
        pool = self

        class Watch:
            def proc_died(self_):
                if p.killed and pool.broken is None:
                    pool.broken = p
                    for f, *_ in pool.queue:
                        f._finish('DONE', None, pool.broken_error())
                    pool.queue.clear()
                    for f in list(pool.running):
                        f._finish('DONE', None, pool.broken_error())
                    pool.down = True
        p.resources.append(Watch())
        t.proc.resources.append(_Kill(p))

    def _loop(self):
        t = current_task()
        sim = t.sim
        try:
            if self.initializer:
                self.initializer(*self.initargs)
            while True:
                self.idle += 1
                sim.wait(lambda: self.queue or self.down or self.owner.killed)
                self.idle -= 1
                if self.owner.killed or self.broken is not None:
                    return
                if not self.queue:
                    return
                f, fn, a, kw = self.queue.pop(0)
                if not f.set_running_or_notify_cancel():
                    continue
                try:
                    fn, a, kw = pickle.loads(pickle.dumps((fn, a, kw)))
                except Exception as e:
                    f.set_exception(e)
                    continue
                self.running.add(f)
                try:
                    for flt in sim.point('task'):
                        if flt['kind'] == 'crash':
                            sim.kill(t.proc)
                            raise SimCrash()
                        if flt['kind'] == 'task_error':
                            raise MemoryError('injected allocation failure')
                    watch = sim.env.get('task_watch')
                    if watch is not None:
                        watch(t, 'begin', a, kw)
                    try:
                        r = fn(*a, **kw)
                    finally:
                        if watch is not None:
                            watch(t, 'end', a, kw)
                    blob = pickle.dumps(r)
                except (SimCrash, HarnessError):
                    raise
                except BaseException as e:
                    try:
                        e2 = pickle.loads(pickle.dumps(e))
                    except Exception as e3:
                        e2 = e3
                    self.running.discard(f)
                    f.set_exception(e2)
                else:
                    self.running.discard(f)
                    f.set_result(pickle.loads(blob))
        finally:
            self.n -= 1


class _Kill:
    def __init__(self, p):
        self.p = p

    def proc_died(self):
        if self.p.exit is None and not self.p.killed:
            self.p.sim.kill(self.p, 'parent died')


def _as_completed(fs, timeout=None):
    t = current_task()
    if t is None:
        return real['as_completed'](fs, timeout)
    return _as_completed_sim(fs, timeout)


def _as_completed_sim(fs, timeout):
    t = current_task()
    sim = t.sim
    pending = []
    for f in fs:
        if f not in pending:
            pending.append(f)
    end = None if timeout is None else sim.now + int(timeout * US)
    while pending:
        ok = sim.wait(lambda: any(f.done() for f in pending), None if end is None else max(0, end - sim.now))
        if not ok:
            raise concurrent.futures.TimeoutError(f'{len(pending)} futures unfinished')
        d = sorted([f for f in pending if f.done()], key=lambda f: f.seq or 0)
        for f in d:
            pending.remove(f)
            yield f
        sim.point('future')


def _fwait(fs, timeout=None, return_when=concurrent.futures.ALL_COMPLETED):
    t = current_task()
    if t is None:
        return real['fwait'](fs, timeout, return_when)
    fs = list(fs)

    def enough():
        d = [f for f in fs if f.done()]
        if return_when == concurrent.futures.FIRST_COMPLETED:
            return bool(d) or not fs
        if return_when == concurrent.futures.FIRST_EXCEPTION and any(f._exc for f in d):
            return True
        return len(d) == len(fs)
    t.sim.wait(enough, None if timeout is None else int(timeout * US))
    d = {f for f in fs if f.done()}
    return concurrent.futures._base.DoneAndNotDoneFutures(d, set(fs) - d)


def _tpool(*a, **kw):
    if current_task() is None:
        return real['ThreadPoolExecutor'](*a, **kw)
    return SimThreadPool(*a, **kw)


def _ppool(*a, **kw):
    if current_task() is None:
        return real['ProcessPoolExecutor'](*a, **kw)
    return SimProcessPool(*a, **kw)


# ------------------------------------------------------------------ threads and locks
def _for_dp(depth=2):
    """like _is_dp_caller, seeing through the queue module"""
    f = sys._getframe(depth)
    while f is not None and f.f_globals.get('__name__') in ('queue', 'threading', 'contextlib'):
        f = f.f_back
    name = f.f_globals.get('__name__', '') if f is not None else ''
    return name == 'dp' or name.startswith('dp.') or name.startswith('dp_sim_main')


def _lock():
    if _for_dp():
        return SimLock()
    return real['Lock']()


def _rlock():
    if _for_dp():
        return SimRLock()
    return real['RLock']()


class _SimCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else SimRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.acquire()

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        t = current_task()
        if self._lock.owner is not t:
            raise RuntimeError('cannot wait on un-acquired lock')
        depth = self._lock.depth
        me = [False]
        self._waiters.append(me)
        self._lock.depth = 1
        self._lock.release()
        try:
            return t.sim.wait(lambda: me[0], None if timeout is None else max(0, int(timeout * US)))
        finally:
            if me in self._waiters:
                self._waiters.remove(me)
            if not (t.proc.killed or t.sim.stopping):
                self._lock.acquire()
                self._lock.depth = depth

    def wait_for(self, predicate, timeout=None):
        t = current_task()
        end = None if timeout is None else t.sim.now + int(timeout * US)
        while not predicate():
            left = None if end is None else (end - t.sim.now) / US
            if left is not None and left <= 0:
                break
            self.wait(left)
        return predicate()

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class _SimEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        t = current_task()
        for f in t.sim.point('sleep'):
            if f['kind'] == 'interrupt':
                raise KeyboardInterrupt()
            if f['kind'] == 'crash':
                t.sim.kill(t.proc)
                raise SimCrash()
        if self._flag:
            return True
        if timeout is not None:
            t.sim.event('sleep', s=timeout)
        t.proc.data['idle'] = True
        try:
            t.sim.wait(lambda: self._flag, None if timeout is None else max(0, int(timeout * US)))
        finally:
            t.proc.data['idle'] = False
        return self._flag


class _SimSemaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        t = current_task()
        t.sim.point('lock')
        if self._value <= 0:
            if not blocking:
                return False
            if not t.sim.wait(lambda: self._value > 0, None if timeout is None else int(timeout * US)):
                return False
        self._value -= 1
        return True

    __enter__ = acquire

    def release(self, n=1):
        self._value += n

    def __exit__(self, *a):
        self.release()


def _prim(real_name, cls):
    def make(*a, **kw):
        return cls(*a, **kw) if _for_dp() else real[real_name](*a, **kw)
    make.__name__ = real_name
    return make


def _simple_queue():
    import queue
    if _for_dp():
        return queue.Queue()
    return real['SimpleQueue']()


class _SimThread:
    """threading.Thread inside the simulation"""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name = name or 'thread'
        self.daemon = daemon
        self.task = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        t = current_task()
        self.task = t.sim.spawn(f'{t.proc.name}#{self.name}', self.run, t.proc)

    def join(self, timeout=None):
        t = current_task()
        t.sim.wait(lambda: self.task.done, None if timeout is None else int(timeout * US))

    def is_alive(self):
        return self.task is not None and not self.task.done


class _SimTimer(_SimThread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=function, args=args or (), kwargs=kwargs)
        self.interval, self._off = interval, False

    def cancel(self):
        self._off = True

    def run(self):
        t = current_task()
        t.sim.wait(lambda: self._off, int(self.interval * US))
        if not self._off:
            super().run()


class _ThreadMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (real['Thread'], _SimThread))

    def __subclasscheck__(cls, c):
        return issubclass(c, (real['Thread'], _SimThread))


class _ThreadFactory(_SimThread, metaclass=_ThreadMeta):
    """what dp sees as threading.Thread"""

    def __new__(cls, *a, **kw):
        if cls is _ThreadFactory and not (current_task() is not None and _is_dp_caller()):
            return real['Thread'](*a, **kw)
        return object.__new__(cls)


# ------------------------------------------------------------------ stdio, argv
class _Out(io.TextIOBase):
    def __init__(self, which):
        self.which = which

    def _real(self):
        return real[self.which]

    def write(self, s):
        t = current_task()
        if t is None:
            return self._real().write(s)
        if t.sim.env.get('out_points') and self.which == 'stdout':
            _fs_fault('print', '<stdout>')
        getattr(t.proc, self.which).append(s)
        if self.which == 'stdout':
            cb = t.sim.env.get('on_print')
            if cb:
                cb(t.proc, s)
        return len(s)

    def flush(self):
        if current_task() is None:
            self._real().flush()

    def isatty(self):
        return False

    def fileno(self):
        if current_task() is None:
            return self._real().fileno()
        raise io.UnsupportedOperation('fileno')

    @property
    def buffer(self):
        return self._real().buffer

    @property
    def encoding(self):
        return 'utf-8'

    def writable(self):
        return True


class _In(io.TextIOBase):
    def _src(self):
        t = current_task()
        if t is None:
            return real['stdin']
        if 'stdin' not in t.proc.data:
            t.proc.data['stdin'] = io.StringIO('')
        return t.proc.data['stdin']

    def readline(self, *a):
        return self._src().readline(*a)

    def read(self, *a):
        return self._src().read(*a)

    def readlines(self, *a):
        return self._src().readlines(*a)

    def __iter__(self):
        return iter(self._src())

    def readable(self):
        return True

    def isatty(self):
        return False

    def fileno(self):
        if current_task() is None:
            return real['stdin'].fileno()
        raise io.UnsupportedOperation('fileno')


def _input(prompt=''):
    t = current_task()
    if t is None:
        return real['input'](prompt)
    sys.stdout.write(str(prompt))
    s = sys.stdin.readline()
    if not s:
        raise EOFError('EOF when reading a line')
    return s.rstrip('\n')


class _Argv(list):
    def _l(self):
        t = current_task()
        return t.proc.argv if t is not None else None

    def __getitem__(self, i):
        p = self._l()
        return list.__getitem__(self, i) if p is None else p[i]

    def __len__(self):
        p = self._l()
        return list.__len__(self) if p is None else len(p)

    def __iter__(self):
        p = self._l()
        return list.__iter__(self) if p is None else iter(p)

    def copy(self):
        return list(iter(self))


# ------------------------------------------------------------------ logging
class _LogHandler(logging.Handler):
    def emit(self, record):
        t = current_task()
        if t is None:
            return
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = f'<unformattable log message: {e!r}>'
        t.sim.logs.append((t.sim.now, t.proc.name, record.levelno, record.name, msg))
        for cb in t.sim.on_log:
            cb(t.proc, record.levelno, record.name, msg)


# ------------------------------------------------------------------ files
def under_root(path):
    t = current_task()
    if t is None:
        return False
    root = t.sim.env.get('fs_root')
    if root is None:
        return False
    try:
        p = os.fspath(path)
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.abspath(p).startswith(root)


def _fs_fault(label, path):
    t = current_task()
    for f in t.sim.point(label):
        if f['kind'] == 'io_error':
            raise OSError(f.get('errno', 5), os.strerror(f.get('errno', 5)), str(path))
        if f['kind'] == 'interrupt':
            raise KeyboardInterrupt()
        if f['kind'] == 'crash':
            t.sim.kill(t.proc)
            raise SimCrash()


def _open(file, mode='r', *a, **kw):
    if not isinstance(file, int) and under_root(file):
        _fs_fault('open', file)
        cb = current_task().sim.env.get('on_open')
        if cb is not None:
            cb(file)
        f = real['open'](file, mode, *a, **kw)
        if current_task().sim.env.get('write_points') and set(mode) & set('wax+'):
            return _WFile(f, file)
        return f
    return real['open'](file, mode, *a, **kw)


class _WFile:
    """a file being written: any write and the final flush can fail"""

    def __init__(self, f, path):
        self.__dict__.update(f=f, path=path)

    def write(self, s):
        _fs_fault('write', self.path)
        return self.f.write(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def close(self):
        if not self.f.closed:
            try:
                if current_task() is not None and not current_task().proc.killed:
                    _fs_fault('fclose', self.path)
            finally:
                self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(self.f)

    def __getattr__(self, name):
        return getattr(self.f, name)


def _order(names, t):
    mode = t.sim.env.get('dir_order', 0)
    names = sorted(names)
    if mode == 0:
        return names
    if mode == 1:
        return names[::-1]
    r = random.Random(f'{mode}:{len(names)}:{names[:1]}')
    r.shuffle(names)
    return names


def _listdir(path='.'):
    if under_root(path):
        _fs_fault('listdir', path)
        return _order(real['listdir'](path), current_task())
    return real['listdir'](path)


class _Scan:
    def __init__(self, entries):
        self.e = entries

    def __iter__(self):
        return iter(self.e)

    def __next__(self):
        if not self.e:
            raise StopIteration
        return self.e.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path='.'):
    if not isinstance(path, int) and under_root(path):
        _fs_fault('listdir', path)
        with real['scandir'](path) as it:
            ents = list(it)
        byname = {e.name: e for e in ents}
        return _Scan([byname[n] for n in _order(list(byname), current_task())])
    return real['scandir'](path)


# ------------------------------------------------------------------ sqlite
BUSY = ('database is locked', 'database table is locked', 'database schema is locked')


class _SqliteGone:
    """what the operating system does with a dead process's database file: locks go, the journal stays valid"""

    def __init__(self, c):
        self.c = c

    def proc_died(self):
        try:
            sqlite3.Connection.rollback(self.c)
            sqlite3.Connection.close(self.c)
        except sqlite3.Error:
            pass


class SimSqlite(sqlite3.Connection):
    """real SQLite; busy-waiting in virtual time, faults, no work after death"""

    def __init__(self, *a, **kw):
        self._sim_task = current_task()
        self._busy_us = 0
        super().__init__(*a, **kw)

    def _guard(self, label):
        t = current_task()
        if t is None:
            return None
        sim = t.sim
        sim._check(t)
        if self._same and t is not self._sim_task:
            raise sqlite3.ProgrammingError('SQLite objects created in a thread can only be used in that same thread.')
        after = []
        for f in sim.point(label):
            if f['kind'] == 'disk_error':
                raise sqlite3.OperationalError(f.get('msg', 'database or disk is full'))
            if f['kind'] == 'crash':
                after.append(f)
        return after

    def _retry(self, label, fn):
        t = current_task()
        if t is None:
            return fn()
        after = self._guard(label)
        sim = t.sim
        end = sim.now + self._busy_us
        k = 0
        while True:
            try:
                r = fn()
                break
            except sqlite3.OperationalError as e:
                if not any(b in str(e) for b in BUSY) or sim.now >= end:
                    raise
                sim.probe('sqlite_busy_wait')
                sim.sleep(min((1000, 2000, 5000, 10000, 25000, 100000)[min(k, 5)], end - sim.now))
                k += 1
        hook = sim.env.get('sqlite_hook')
        if hook is not None and not self.in_transaction:
            hook(t.proc)
        for f in after:
            sim.kill(t.proc, f'crash after {label}')
            raise SimCrash()
        return r

    def cursor(self, factory=None):
        return super().cursor(factory or SimSqliteCursor)

    def execute(self, sql, *a):
        c = self.cursor()
        c.execute(sql, *a)
        return c

    def executemany(self, sql, *a):
        c = self.cursor()
        c.executemany(sql, *a)
        return c

    def executescript(self, sql):
        c = self.cursor()
        c.executescript(sql)
        return c

    def commit(self):
        return self._retry('sqlite commit', super().commit)

    def rollback(self):
        t = current_task()
        if t is not None:
            t.sim._check(t)
        return super().rollback()

    def close(self):
        t = current_task()
        if t is not None and self._died in t.proc.resources:
            t.proc.resources.remove(self._died)
        return super().close()

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        t = current_task()
        if isinstance(ev, SimCrash) or (t is not None and t.proc.killed):
            self._died.proc_died()
            return False
        if et is None:
            try:
                self.commit()
            except BaseException:
                if t is None or not t.proc.killed:
                    super().rollback()
                raise
        else:
            super().rollback()
        return False


def _sql_label(sql):
    w = sql.split(None, 1)[0].lower() if isinstance(sql, str) and sql.strip() else 'empty'
    return 'sqlite ' + w


class SimSqliteCursor(sqlite3.Cursor):
    def execute(self, sql, *a):
        return self.connection._retry(_sql_label(sql), lambda: super(SimSqliteCursor, self).execute(sql, *a))

    def executemany(self, sql, *a):
        return self.connection._retry(_sql_label(sql), lambda: super(SimSqliteCursor, self).executemany(sql, *a))

    def executescript(self, sql):
        return self.connection._retry('sqlite script', lambda: super(SimSqliteCursor, self).executescript(sql))


def _sqlite_connect(database, *a, **kw):
    t = current_task()
    if t is None:
        return real['sqlite_connect'](database, *a, **kw)
    if 'factory' in kw or len(a) > 3:
        raise HarnessError('sqlite3.connect with positional tail or factory')
    names = ['timeout', 'detect_types', 'isolation_level']
    for n, v in zip(names, a):
        kw[n] = v
    timeout = kw.pop('timeout', 5.0)
    for f in t.sim.point('sqlite connect'):
        if f['kind'] == 'disk_error':
            raise sqlite3.OperationalError('unable to open database file')
        if f['kind'] == 'crash':
            t.sim.kill(t.proc)
            raise SimCrash()
    same = kw.pop('check_same_thread', True)
    kw['check_same_thread'] = False     # a dying process closes its files from whatever task kills it
    c = real['sqlite_connect'](database, timeout=0, factory=SimSqlite, **kw)
    c._busy_us = int(timeout * US)
    c._same = same
    c._died = _SqliteGone(c)
    t.proc.resources.append(c._died)
    return c


# ------------------------------------------------------------------ misc
def _affinity(pid=0):
    t = current_task()
    if t is None:
        return real['sched_getaffinity'](pid)
    n = t.sim.env.get('cpus', 4)
    return set(range(t.sim.env.get('cpus_total', n) - n, t.sim.env.get('cpus_total', n)))


def _cpu_count():
    t = current_task()
    if t is None:
        return real['cpu_count']()
    return t.sim.env.get('cpus_total', t.sim.env.get('cpus', 4))


def set_environ(**kw):
    """the (single) current world's environment variables"""
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = str(v)


class _Tqdm:
    def __init__(self, iterable=None, *a, **kw):
        self.it = iterable
        self.n = 0
        self.total = kw.get('total')

    def __iter__(self):
        for x in self.it:
            yield x
            self.n += 1

    def update(self, n=1):
        self.n += n

    def set_description(self, *a, **kw):
        pass

    set_postfix = set_description_str = set_postfix_str = set_description

    def write(self, *a, **kw):
        pass

    def close(self):
        pass

    def refresh(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install():
    global installed
    if installed:
        return
    installed = True
    if 'dp' in sys.modules:
        raise HarnessError('dp was imported before the seams were installed')
    import urllib3
    import tqdm
    from . import attrsfix  # noqa: F401

    real.update(connect=psycopg2.connect, select=select.select, poll=select.poll, epoll=select.epoll,
                time=time.time, perf_counter=time.perf_counter, monotonic=time.monotonic, sleep=time.sleep,
                run=subprocess.run, Popen=subprocess.Popen, call=subprocess.call, check_call=subprocess.check_call, check_output=subprocess.check_output,
                Process=multiprocessing.Process, get_context=multiprocessing.get_context, ThreadPoolExecutor=concurrent.futures.ThreadPoolExecutor,
                ProcessPoolExecutor=concurrent.futures.ProcessPoolExecutor, as_completed=concurrent.futures.as_completed,
                fwait=concurrent.futures.wait, Lock=threading.Lock, RLock=threading.RLock,
                stdout=sys.stdout, stderr=sys.stderr, stdin=sys.stdin, input=builtins.input,
                open=builtins.open, listdir=os.listdir, scandir=os.scandir,
                sqlite_connect=sqlite3.connect, sched_getaffinity=os.sched_getaffinity, cpu_count=os.cpu_count, Thread=threading.Thread)

    psycopg2.connect = _connect
    select.select = _select
    select.poll = _poll
    select.epoll = _epoll
    selectors.EpollSelector._selector_cls = staticmethod(_epoll)
    selectors.PollSelector._selector_cls = staticmethod(_poll)
    selectors.SelectSelector._select = lambda self, r, w, x, timeout=None: _select(r, w, [], timeout)
    time.time, time.perf_counter, time.monotonic, time.sleep = _time, _perf, _mono, _sleep
    time.time_ns = lambda: int(_time() * 1e9)
    time.perf_counter_ns = lambda: int(_perf() * 1e9)
    time.monotonic_ns = lambda: int(_mono() * 1e9)
    subprocess.run, subprocess.Popen = _run, _PopenType(_popen)
    subprocess.call, subprocess.check_call, subprocess.check_output = _call, _check_call, _check_output
    multiprocessing.Process = _ProcessFactory
    multiprocessing.get_context = _get_context
    urllib3.PoolManager = SimPool
    concurrent.futures.ThreadPoolExecutor = _tpool
    concurrent.futures.ProcessPoolExecutor = _ppool
    concurrent.futures.as_completed = _as_completed
    concurrent.futures.wait = _fwait
    threading.Lock = _lock
    threading.RLock = _rlock
    threading.Thread = _ThreadFactory
    for name, cls in (('Condition', _SimCondition), ('Event', _SimEvent), ('Semaphore', _SimSemaphore),
                      ('BoundedSemaphore', _SimSemaphore), ('Timer', _SimTimer)):
        real[name] = getattr(threading, name)
        setattr(threading, name, _prim(name, cls))
    real['SimpleQueue'] = queue.SimpleQueue
    queue.SimpleQueue = _simple_queue
    tqdm.tqdm = _Tqdm
    sqlite3.connect = _sqlite_connect
    sys.argv = _Argv(sys.argv)
    sys.stdout, sys.stderr, sys.stdin = _Out('stdout'), _Out('stderr'), _In()
    builtins.input = _input
    builtins.open = _open
    io.open = _open
    os.listdir, os.scandir = _listdir, _scandir
    os.sched_getaffinity, os.cpu_count = _affinity, _cpu_count

    os.environ['DP_BATCH_URL'] = 'http://sim.invalid/batch'
    os.environ['DP_SINGLE_URL'] = 'http://sim.invalid/single'
    root = logging.getLogger()
    root.addHandler(_LogHandler())
    root.setLevel(logging.INFO)
    logging.raiseExceptions = False


def _PopenType(fn):
    class Popen:
        def __new__(cls, *a, **kw):
            return fn(*a, **kw)
    return Popen


def import_dp():
    """import the repository's code from /repo with the seams in place"""
    install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import dp.server.worker
    import dp
    where = os.path.dirname(os.path.abspath(dp.__file__))
    if where != os.path.join(os.path.abspath(REPO), 'dp'):
        raise HarnessError(f'dp imported from {where}')
