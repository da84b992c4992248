"""replay.py FILE: re-execute a recorded violation. exit 1: reproduced; 0: the property held this time; 3: something else happened"""
import json
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import harness, reference          # noqa: E402
from sim.core import Choices                # noqa: E402


def main():
    with open(sys.argv[1], encoding='utf-8') as fh:
        r = json.load(fh)
    world = harness.load_world(r['world'])
    world.prepare()
    scratch = tempfile.mkdtemp(prefix='dpsim.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    os.environ['DPSIM_BASE'] = scratch
    try:
        reference.start()
        res = harness.run_case(world, r['case'], r['property'], Choices(replay=r['choices']), want_history=True)
    finally:
        reference.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    v = harness.mine(res, r['property'])
    if '-v' in sys.argv:
        print('\n'.join(res.get('history', [])))
        print('\n'.join(' '.join(x) for x in res.get('logs', [])))
    if 'error' in res:
        print(res['error'])
        return 3
    if v is None:
        print('the property held')
        return 0
    print(f'[{v[1]}] {v[2]}')
    same = v[1] == r['class'] and (r['hash'] is None or res.get('hash') == r['hash'])
    print('same event log' if same else 'NOT the recorded event log')
    return 1 if same else 3


if __name__ == '__main__':
    sys.exit(main())
