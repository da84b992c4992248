"""Deterministic scheduler.

Simulated processes run the repository's real code in real threads, but only
one thread ever runs: a baton is passed at seam calls (`point`, `wait`,
`sleep`).  Who gets it next, and every other run-time decision, comes from one
recorded list of small integers (`Choices`); 0 always means "no preemption /
nothing unusual", which is what makes traces shrinkable.  Time is virtual.
"""
import os
import random
import sys
import threading
import traceback

US = 1_000_000


class SimCrash(BaseException):
    """kill -9 of the simulated process this thread belongs to"""


class HarnessError(Exception):
    """the harness (not the code under test) is at fault"""


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


class Choices:
    """the single source of run-time decisions"""

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.trace = []

    def take(self, n, weight0=None):
        if n <= 1:
            return 0
        i = len(self.trace)
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = v % n
        elif weight0 is not None and self.rng.random() < weight0:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v


class Proc:
    """a simulated operating-system process"""

    def __init__(self, sim, name, argv=None):
        self.sim = sim
        self.name = name
        self.argv = argv or [name]
        self.killed = False
        self.tasks = []
        self.resources = []      # objects with .proc_died()
        self.counters = {}       # seam label -> how often
        self.stdout = []
        self.stderr = []
        self.exit = None         # ('ok', value) | ('exc', exception) | ('exit', code) | ('killed',)
        self.data = {}

    def count(self, label):
        c = self.counters.get(label, 0) + 1
        self.counters[label] = c
        return c

    def alive(self):
        return not self.killed and self.exit is None

    def out(self):
        return ''.join(self.stdout)

    def err(self):
        return ''.join(self.stderr)


class Task:
    def __init__(self, sim, name, fn, proc, idx):
        self.sim = sim
        self.name = name
        self.fn = fn
        self.proc = proc
        self.idx = idx
        self.lock = threading.Semaphore(0)
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.started = False
        self.poisoned = 0
        self.result = None
        self.exc = None
        self.trace_files = None
        self.started_us = None
        self.thread = threading.Thread(target=self._main, name='sim:' + name, daemon=True)

    def _main(self):
        self.lock.acquire()
        _current.task = self
        self.sim.current = self
        self.started_us = self.sim.now
        if self.trace_files:
            sys.settrace(self._tracer)
        try:
            if self.proc.killed or self.sim.stopping:
                raise SimCrash()
            self.result = self.fn()
        except SimCrash:
            self.exc = SimCrash()
        except BaseException as e:
            self.exc = e
            if isinstance(e, (HarnessError, Violation)):
                self.sim.fail(e)
        finally:
            sys.settrace(None)
            self.done = True
            try:
                self.sim._task_done(self)
            finally:
                self.sim._dispatch_next_from_dead(self)

    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for suffix in self.trace_files:
            if fn.endswith(suffix):
                return self._line
        return None

    def _line(self, frame, event, arg):
        if event == 'line' and not self.sim.stopping:
            self.sim.preempt()
        return self._line

    def ready(self):
        if self.pred is None and self.deadline is None:
            return True
        if self.proc.killed or self.sim.stopping:
            return True
        if self.pred is not None and self.pred():
            return True
        return self.deadline is not None and self.deadline <= self.sim.now


_current = threading.local()


def current_task():
    return getattr(_current, 'task', None)


def current_sim():
    t = current_task()
    return t.sim if t is not None else None


class Sim:
    def __init__(self, choices, *, stick=0.5, max_steps=20000, faults=(), latency=(0, 0)):
        self.choices = choices
        self.stick = stick
        self.now = 0                      # virtual microseconds
        self.tasks = []
        self.procs = []
        self.current = None
        self.steps = 0
        self.max_steps = max_steps
        self.capped = False
        self.stopping = False
        self.failure = None
        self.events = []                  # history: (seq, now, task, kind, info)
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f['fired'] = False
        self.fired = {}                   # fault kind -> how often it actually fired
        self.on_advance = []              # callbacks(old, new)
        self.on_log = []
        self.probes = {}
        self.latency = latency
        self.ctrl = threading.Semaphore(0)
        self.until = None                 # predicate checked at each dispatch: stop the run
        self.deadline = None              # virtual time at which the run stops
        self.switches = 0
        self.stack_sig = 0
        self.env = {}
        self.logs = []

    # ---- history -------------------------------------------------------
    def event(self, kind, /, **info):
        t = current_task()
        self.events.append((len(self.events), self.now, t.name if t else '-', kind, info))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fail(self, exc):
        if self.failure is None:
            self.failure = exc

    def violation(self, cls, msg):
        v = Violation(cls, msg)
        self.fail(v)
        return v

    # ---- processes ------------------------------------------------------
    def process(self, name, fn, argv=None, at=0, trace_files=None):
        """start a simulated process whose main task runs fn()"""
        p = Proc(self, name, argv)
        self.procs.append(p)

        def main():
            try:
                r = fn()
                p.exit = ('ok', r)
            except SimCrash:
                if p.killed:
                    p.exit = ('killed',)
                raise
            except SystemExit as e:
                p.exit = ('exit', e.code)
            except (HarnessError, Violation):
                p.exit = ('harness',)
                raise
            except BaseException as e:
                p.exit = ('exc', e)
                self.event('proc_exc', proc=p.name, error=repr(e)[:300])
            finally:
                # a process that ends, however it ends, gives up its resources
                for r in list(p.resources):
                    r.proc_died()
        p.main_task = self.spawn(name, main, p, at=at, trace_files=trace_files)
        return p

    def spawn(self, name, fn, proc, at=0, trace_files=None):
        t = Task(self, name, fn, proc, len(self.tasks))
        t.trace_files = trace_files
        self.tasks.append(t)
        proc.tasks.append(t)
        if at:
            t.deadline = self.now + at
        t.thread.start()
        return t

    def kill(self, proc, why='crash'):
        if proc.killed or proc.exit is not None:
            return False
        proc.killed = True
        self.event('kill', proc=proc.name, why=why)
        for r in list(proc.resources):
            r.proc_died()
        return True

    # ---- seam calls -----------------------------------------------------
    def _check(self, t):
        if t.proc.killed or self.stopping:
            t.poisoned += 1
            if t.poisoned > 200:
                # code that swallows BaseException in a loop: park it for good
                t.done = True
                self._dispatch_next_from_dead(t)
                threading.Semaphore(0).acquire()
            raise SimCrash()

    def point(self, label, **info):
        """a scheduling point; returns the faults that fire here"""
        t = current_task()
        if t is None or t.sim is not self:
            return ()
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.capped = True
            self.stopping = True
            raise SimCrash()
        self._switch(t)
        self._check(t)
        n_any = t.proc.count('any')
        n_lab = t.proc.count(label)
        hit = []
        for f in self.faults:
            if f['fired'] or f['proc'] != t.proc.name:
                continue
            fl = f['label']
            if (fl == 'any' and n_any == f['nth']) or (fl == label and n_lab == f['nth']):
                f['fired'] = True
                self.fired[f['kind']] = self.fired.get(f['kind'], 0) + 1
                self.event('fault', fault=f['kind'], proc=t.proc.name, label=label, nth=f['nth'], phase=f.get('phase', 'before'))
                if f['kind'] == 'stall':
                    t.proc.data['stalled_until'] = self.now + f.get('us', 1000000)
                    self.sleep(f.get('us', 1000000))
                    t.proc.data['stall_end'] = self.now
                elif f['kind'] == 'crash' and f.get('phase', 'before') == 'before':
                    self.kill(t.proc)
                    raise SimCrash()
                else:
                    hit.append(f)
        return hit

    def preempt(self):
        """scheduling point without fault processing (line-level preemption)"""
        t = current_task()
        if t is None or t.sim is not self:
            return
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.capped = True
            self.stopping = True
            raise SimCrash()
        self._switch(t)
        self._check(t)

    def wait(self, pred, timeout=None):
        """block until pred() or timeout (virtual us); True if pred held"""
        t = current_task()
        if t is None or t.sim is not self:
            raise HarnessError('wait outside a simulated task')
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.capped = True
            self.stopping = True
            raise SimCrash()
        if not pred():
            t.pred = pred
            t.deadline = None if timeout is None else self.now + timeout
            self._switch(t)
            t.pred = None
            t.deadline = None
            self._check(t)
        return bool(pred())

    def sleep(self, us):
        t = current_task()
        self._check(t)
        self.steps += 1
        if self.steps > self.max_steps:
            self.capped = True
            self.stopping = True
            raise SimCrash()
        if us <= 0:
            return
        t.pred = None
        t.deadline = self.now + int(us)
        self._switch(t)
        t.deadline = None
        self._check(t)

    def lag(self):
        """virtual duration of one seam operation"""
        lo, hi = self.latency
        if hi <= 0:
            return
        k = self.choices.take(8, weight0=0.5)
        us = lo + (hi - lo) * k // 7
        # nobody else can be due earlier and nobody is ready: plain clock advance
        self.sleep(us)

    # ---- dispatch -------------------------------------------------------
    def _pick(self, cur):
        """the next task to run, or None when the run is over"""
        while True:
            if self.failure is not None or self.stopping:
                self.stopping = True
                live = [t for t in self.tasks if not t.done]
                return live[0] if live else None
            if self.until is not None and self.until():
                self.stopping = True
                continue
            ready = [t for t in self.tasks if not t.done and t.ready()]
            if ready:
                if cur is not None and cur in ready:
                    if len(ready) == 1:
                        return cur
                    ready.remove(cur)
                    ready.insert(0, cur)
                    return ready[self.choices.take(len(ready), weight0=self.stick)]
                return ready[self.choices.take(len(ready))]
            deadlines = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if not deadlines:
                self.stopping = True
                continue
            new = min(deadlines)
            if self.deadline is not None and new > self.deadline:
                new = self.deadline
                self._advance(new)
                self.stopping = True
                continue
            self._advance(new)

    def _advance(self, new):
        old = self.now
        if new > old:
            self.now = new
            for cb in self.on_advance:
                try:
                    cb(old, new)
                except (Violation, HarnessError) as e:
                    self.fail(e)
                except Exception as e:
                    self.fail(HarnessError('advance callback: ' + ''.join(traceback.format_exception(e))))

    def _switch(self, t):
        try:
            nxt = self._pick(t)
        except Exception as e:
            self.fail(e if isinstance(e, (Violation, HarnessError)) else HarnessError('scheduler: ' + ''.join(traceback.format_exception(e))))
            nxt = t
        if nxt is t:
            return
        self.switches += 1
        self.stack_sig = (self.stack_sig * 1000003 ^ (nxt.idx + 1)) & 0xFFFFFFFFFFFF
        self.current = nxt
        nxt.lock.release()
        t.lock.acquire()
        self.current = t

    def _dispatch_next_from_dead(self, t):
        try:
            nxt = self._pick(None)
        except Exception as e:
            self.fail(e if isinstance(e, (Violation, HarnessError)) else HarnessError('scheduler: ' + ''.join(traceback.format_exception(e))))
            self.stopping = True
            live = [x for x in self.tasks if not x.done]
            nxt = live[0] if live else None
        if nxt is None:
            self.ctrl.release()
        else:
            self.current = nxt
            nxt.lock.release()

    def _task_done(self, t):
        pass

    def run(self):
        """run until nothing can happen any more (or until/deadline/failure)"""
        if not self.tasks:
            return
        try:
            first = self._pick(None)
        except (Violation, HarnessError) as e:
            self.fail(e)
            self.stopping = True
            first = self.tasks[0]
        if first is not None:
            self.current = first
            first.lock.release()
            self.ctrl.acquire()
        for t in self.tasks:
            t.thread.join(timeout=5)
        if isinstance(self.failure, HarnessError):
            raise self.failure


class SimLock:
    """a lock that blocks in virtual time inside the simulation"""
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        t = current_task()
        if t is None:
            me = ('real', threading.get_ident())
            self.owner = me
            self.depth += 1
            return True
        if self.owner is t and self._reentrant:
            self.depth += 1
            return True
        t.sim.point('lock')
        if self._held():
            if not blocking:
                return False
            ok = t.sim.wait(lambda: not self._held(), None if timeout is None or timeout < 0 else int(timeout * US))
            if not ok:
                return False
        self.owner = t
        self.depth = 1
        return True

    def _held(self):
        return self.owner is not None and not (isinstance(self.owner, Task) and (self.owner.proc.killed or self.owner.done))

    def release(self):
        self.depth -= 1
        if self.depth <= 0:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True
