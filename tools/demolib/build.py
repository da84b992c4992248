"""put a copy of the simulator beside each demonstration that uses it: build.py SEEDED_DIR..."""
import os
import sys
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))


def build(d):
    with zipfile.ZipFile(os.path.join(d, 'simlib.zip'), 'w', zipfile.ZIP_DEFLATED) as z:
        def add(src, name):
            zi = zipfile.ZipInfo(name, (2020, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, open(src, 'rb').read())
        add(os.path.join(HERE, 'stage.py'), 'stage.py')
        for n in ('__init__', 'core', 'seams', 'pgengine', 'pgclient', 'sqlparser', 'schema', 'attrsfix', 'corpus'):
            add(os.path.join(V, 'sim', n + '.py'), f'sim/{n}.py')


for d in sys.argv[1:]:
    build(d)
