"""Executing one simulated run: fork, run, report; shared by all worlds."""
import hashlib
import importlib
import json
import os
import random
import re
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from .core import Choices, HarnessError, Sim, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = 60.0


class Ctx:
    """one run: the simulator plus where violations go"""

    def __init__(self, case, choices, focus):
        k = case.get('knobs', {})
        self.case = case
        self.focus = focus
        self.choices = choices
        self.viols = []
        self.sim = Sim(choices, stick=k.get('stick', 0.5), max_steps=k.get('max_steps', 20000), faults=case.get('faults', ()),
                       latency=tuple(k.get('latency', (0, 0))))
        self.scratch = None
        self.nontrivial = False
        self.digest = hashlib.sha256()

    def report(self, prop, cls, msg):
        if any(v[0] == prop and v[1] == cls for v in self.viols):
            return
        self.viols.append([prop, cls, msg])
        if prop == self.focus and self.sim.failure is None:
            self.sim.fail(Violation(cls, msg))

    def mkscratch(self):
        if self.scratch is None:
            base = os.environ.get('DPSIM_BASE') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
            self.scratch = tempfile.mkdtemp(prefix='dpsim.', dir=base)
        return self.scratch

    def run(self):
        self.sim.run()

    def result(self):
        sim = self.sim
        text = '\n'.join([repr(e[1:]) for e in sim.events] + [repr(x) for x in sim.logs] + [p.name + repr((p.out(), p.err(), p.exit and p.exit[0])) for p in sim.procs])
        if self.scratch:
            text = text.replace(self.scratch, '<scratch>')
        text = re.sub(r' at 0x[0-9a-f]+', ' at 0x', text)
        h = hashlib.sha256(text.encode('utf-8', 'replace'))
        return {
            'viol': self.viols, 'probes': sim.probes, 'fired': sim.fired, 'sim_us': sim.now, 'steps': sim.steps,
            'switches': sim.switches, 'sig': sim.stack_sig, 'hash': h.hexdigest()[:16], 'trace': sim.choices.trace,
            'capped': sim.capped, 'nontrivial': self.nontrivial,
        }

    def history(self, n=400):
        out = []
        for seq, now, who, kind, info in self.sim.events[-n:]:
            out.append(f'{now / 1e6:12.6f} {who:12s} {kind} ' + ' '.join(f'{k}={v}' for k, v in info.items()))
        return out

    def cleanup(self):
        if self.scratch:
            shutil.rmtree(self.scratch, ignore_errors=True)


def forked(fn, timeout=RUN_TIMEOUT):
    """run fn() in a forked child; its JSON-able return value, or {'hang': True} / {'error': text}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = fn()
            except BaseException as e:
                out = {'error': ''.join(traceback.format_exception(e))[-6000:]}
            data = json.dumps(out).encode()
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
            os.close(w)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + timeout
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            hang = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if hang:
        return {'hang': True}
    if not chunks:
        return {'error': f'child ended with status {st}'}
    return json.loads(b''.join(chunks))


def seed_rng(*parts):
    return random.Random('/'.join(str(p) for p in parts))


def load_world(name):
    return importlib.import_module('worlds.' + name)


def execute(world, case, focus, choices, want_history=False):
    """one run in this process"""
    ctx = Ctx(case, choices, focus)
    try:
        world.execute(ctx)
        res = ctx.result()
        if want_history:
            res['history'] = ctx.history()
            res['logs'] = [list(map(str, x)) for x in ctx.sim.logs[-60:]]
        return res
    finally:
        ctx.cleanup()


def run_case(world, case, focus, choices, want_history=False, timeout=RUN_TIMEOUT):
    return forked(lambda: execute(world, case, focus, choices, want_history), timeout)


def run_seed(world, prop, tier, base, i, want_history=False):
    rng = seed_rng(base, prop, world.__name__, tier, i)
    case = world.generate(rng, prop, tier)
    crng = seed_rng('choices', base, prop, world.__name__, tier, i)
    return case, run_case(world, case, prop, Choices(rng=crng), want_history)


def mine(res, prop):
    if res.get('hang'):
        return [prop, 'hang', f'the run did not end within {RUN_TIMEOUT:.0f} s of real time: the code under test stopped reaching any seam']
    for v in res.get('viol', ()):
        if v[0] == prop:
            return v
    return None


# ------------------------------------------------------------------ minimising
def minimise(world, prop, case, trace, cls, budget=25.0):
    """smaller case + choices that still give the same violation class"""
    end = time.monotonic() + budget
    tries = 0

    def attempt(c, tr):
        nonlocal tries
        if time.monotonic() > end:
            return None
        tries += 1
        res = run_case(world, c, prop, Choices(replay=tr), timeout=20)
        v = mine(res, prop)
        return res if v is not None and v[1] == cls else None

    best, btrace = case, list(trace)
    r = attempt(best, btrace)
    if r is None:
        return case, trace, tries
    btrace = r.get('trace', btrace) or btrace
    if attempt(best, []) is not None:
        btrace = []
    changed = True
    while changed and time.monotonic() < end:
        changed = False
        for c2 in world.reductions(best):
            if time.monotonic() > end:
                break
            for tr in ([], btrace):
                if attempt(c2, tr) is not None:
                    best, btrace = c2, list(tr)
                    changed = True
                    break
                if not btrace:
                    break
            if changed:
                break
    # choices: cut the tail, then zero blocks
    while btrace and btrace[-1] == 0:
        btrace.pop()
    n = len(btrace)
    step = max(1, n // 2)
    while step >= 1 and btrace and time.monotonic() < end:
        i = 0
        while i < len(btrace) and time.monotonic() < end:
            blk = btrace[i:i + step]
            if any(blk):
                t2 = btrace[:i] + [0] * len(blk) + btrace[i + step:]
                while t2 and t2[-1] == 0:
                    t2.pop()
                if attempt(best, t2) is not None:
                    btrace = t2
            i += step
        step //= 2
    return best, btrace, tries


def drop_each(case, key):
    """cases with one element (or half) of a list removed"""
    lst = case.get(key) or []
    n = len(lst)
    if n >= 4:
        yield {**case, key: lst[:n // 2]}
        yield {**case, key: lst[n // 2:]}
    for i in range(n):
        yield {**case, key: lst[:i] + lst[i + 1:]}
