"""Real interpreters for the simulated fleet: one per PYTHONHASHSEED, each forking a child per process lifetime.

A session is the list of things one process of the fleet does between its start and its end; it runs for real, in a
child of an interpreter with the hash seed the case chose, and its answers come back as plain data.
"""
import json
import os
import struct
import subprocess
import sys

from . import reference
from .core import HarnessError
from .reference import _read, _write

HASHES = (0, 1, 7, 99, 4242, 31337)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_pool = {}
_want = []


def want(hashes):
    """keep an interpreter with each of these hash seeds, from the next reference.start() on"""
    _want[:] = list(hashes)
    if restart not in reference.ON_START:
        reference.ON_START.append(restart)
        reference.ON_STOP.append(stop)


def restart():
    stop()
    for h in _want:
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        env = {**os.environ, 'PYTHONHASHSEED': str(h), 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1', 'PYTHONPATH': VERIF,
               'TZ': ('UTC', 'America/Chicago', 'Asia/Kathmandu')[h % 3], 'LC_ALL': ('C', 'C.UTF-8')[h % 2]}
        p = subprocess.Popen([sys.executable, '-m', 'sim.fleet', str(qr), str(aw)], env=env, cwd='/', pass_fds=(qr, aw), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL)
        os.close(qr)
        os.close(aw)
        _pool[h] = (p, qw, ar)


def stop():
    for p, qw, ar in _pool.values():
        os.close(qw)
        os.close(ar)
        p.wait()
    _pool.clear()


def session(h, ops):
    """run the ops in one new process of the interpreter with hash seed h"""
    _, qw, ar = _pool[h]
    body = json.dumps(ops).encode()
    _write(qw, struct.pack('>I', len(body)) + body)
    n = _read(ar, 4)
    if n is None:
        raise HarnessError(f'the interpreter with hash seed {h} died')
    res = json.loads(_read(ar, struct.unpack('>I', n)[0]))
    if isinstance(res, dict):
        raise HarnessError(f'a process of the fleet failed: {str(res)[-1500:]}')
    return res


# ------------------------------------------------------------------ inside the interpreter
def shuffled_listings():
    import random
    real_scandir, real_listdir = os.scandir, os.listdir
    state = {'seed': 0}

    class Scan:
        def __init__(self, it):
            with it:
                self.items = sorted(it, key=lambda e: e.name)
            random.Random(f'{state["seed"]}/{len(self.items)}').shuffle(self.items)
            self.it = iter(self.items)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

    def listdir(*a):
        out = sorted(real_listdir(*a))
        random.Random(f'{state["seed"]}/{len(out)}').shuffle(out)
        return out
    os.scandir = lambda *a: Scan(real_scandir(*a))
    os.listdir = listdir
    return state


def one(op, listing):
    import contextlib
    import io
    import pathlib
    from dp.audit import Arguments
    from dp.run import find_area, load_area, run
    from worlds import stream
    spec = op.get('spec')
    doc = json.loads(json.dumps(op['doc']))
    out = {}
    if op.get('root'):
        listing['seed'] = op['listing']
        path = find_area(pathlib.Path(op['root']), op['catalog'], op['code'])
        out['path'] = None if path is None else str(path.relative_to(op['root']))
        if path is None:
            return out
        spec = load_area(path)
    args = dict(op.get('args') or {})
    text = io.StringIO()
    msgs, last = [], None

    def go():
        nonlocal last
        try:
            gen = run(Arguments(**args), student=doc, area_spec=spec)
            for m in gen:
                msgs.append(stream.view(m))
                if msgs[-1][0] == 'result':
                    last = m
                if op.get('limit') and len(msgs) >= op['limit']:
                    gen.close()
                    break
        except Exception as e:
            msgs.append(['raised', type(e).__name__])
        return {}
    with contextlib.redirect_stdout(text):
        r = stream.budgeted(go, op.get('budget', 20000))
    if r.get('bad'):
        return {'slow': True}
    out['messages'] = msgs
    if text.getvalue():
        out['text'] = text.getvalue()
    if last is not None:
        out.update(stream.plain(last.result))
        if op.get('full'):
            out['result'] = reference._plain(out['result'])
        else:
            out['result'] = stream.digest(out['result'])
    return out


def main(qr, aw):
    sys.path.insert(0, VERIF)
    from . import seams
    from .harness import forked
    seams.import_dp()
    from worlds import stream  # noqa: F401
    listing = shuffled_listings()
    while True:
        h = _read(qr, 4)
        if h is None:
            return
        ops = json.loads(_read(qr, struct.unpack('>I', h)[0]))
        data = json.dumps(forked(lambda: [one(op, listing) for op in ops], 50)).encode()
        _write(aw, struct.pack('>I', len(data)) + data)


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]))
