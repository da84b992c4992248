#!/opt/venv/bin/python
"""tools/determinism.py [PROP...] [--n N] [--tier T]: run the same seeds in differently ordered, differently parallel
processes with different PYTHONHASHSEEDs and compare the hashes of the whole event logs. exit 1 on any difference."""
import argparse, json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def child(prop, tier, lo, hi, step):
    from sim import harness, reference
    import registry
    scratch = tempfile.mkdtemp(prefix='dpsim.', dir='/dev/shm')
    os.environ['DPSIM_BASE'] = scratch
    w = harness.load_world(registry.PROPS[prop])
    w.prepare()
    reference.start()
    out = {}
    try:
        for i in list(range(lo, hi))[::step]:
            _, r = harness.run_seed(w, prop, tier, int(os.environ.get('VERIF_SEED', '1')), i)
            out[i] = [r.get('hash'), r.get('viol'), (r.get('error') or '')[-300:]]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print('@@' + json.dumps(out))


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('props', nargs='*')
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--child', nargs=5)
    a = ap.parse_args()
    if a.child:
        child(a.child[0], a.child[1], *map(int, a.child[2:]))
        sys.exit(0)
    import registry
    bad = 0
    for prop in a.props or sorted(registry.PROPS):
        outs = []
        ps = []
        for k, (hs, step) in enumerate([('0', 1), ('0', -1), ('7', 1), ('99', -1)]):
            if registry.PROPS[prop] in ('batch', 'discover', 'index', 'testbed'):
                hs = '0'          # this code iterates over sets of strings: the hash seed is pinned by ./check and ./replay
            env = {**os.environ, 'PYTHONHASHSEED': hs, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONNOUSERSITE': '1'}
            ps.append(subprocess.Popen([sys.executable, os.path.abspath(__file__), '--child', prop, a.tier, str(a.start), str(a.start + a.n), str(step)], env=env, stdout=subprocess.PIPE, text=True))
        for p in ps:
            t, _ = p.communicate()
            outs.append(json.loads(t.split('@@', 1)[1]))
        diff = [i for i in outs[0] if len({json.dumps(o[i]) for o in outs}) > 1]
        print(prop, len(outs[0]), 'seeds', len(diff), 'differ', diff[:10], flush=True)
        bad += bool(diff)
    sys.exit(bool(bad))
