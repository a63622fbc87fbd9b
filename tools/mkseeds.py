#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seedsrc/<id>.py (by hand, after adding one or after a commit in /repo).

A seed source is a Python file: a header of literal assignments PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new[, which])],
then a line '# --- demo' and the demonstration, which exits 0 on the unchanged tree."""
import json
import os
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
SH = '''#!/bin/bash
# run with the repository as working directory
export PYTHONPATH="$PWD/python" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
exec "$py" -W ignore "$(dirname "$0")/demo.py"
'''


def main(ids):
    originals = tempfile.mkdtemp()
    subprocess.check_call('git -C /repo archive 09f09ef python/src | tar -x -C %s' % originals, shell=True)
    for f in sorted(os.listdir(os.path.join(HERE, 'seedsrc'))):
        sid = f[:-3]
        if not f.endswith('.py') or (ids and sid not in ids):
            continue
        head, demo = open(os.path.join(HERE, 'seedsrc', f)).read().split('# --- demo\n', 1)
        g = {}
        exec(head, g)
        w = tempfile.mkdtemp()
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        for e in g['EDITS']:
            p = os.path.join(w, 'python/src', e[0])
            s = open(p).read()
            which = e[3] if len(e) > 3 else None
            n = s.count(e[1])
            if n == 0 or (n > 1 and which is None):
                raise SystemExit('%s: %d matches of %r' % (sid, n, e[1]))
            parts = s.split(e[1])
            i = (which or 0) + 1
            s = e[1].join(parts[:i]) + e[2] + e[1].join(parts[i:])
            open(p, 'w').write(s)
            orig = set(l.strip() for l in open(os.path.join(originals, 'python/src', e[0])))
            old = set(l.strip() for l in e[1].splitlines()) - set(l.strip() for l in e[2].splitlines())
            if not any(any(o in l for l in orig) for o in old if o):
                print('%s: WARNING changes no original line' % sid)
        d = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True).stdout
        o = os.path.join(OUT, sid)
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(d)
        open(os.path.join(o, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        open(os.path.join(o, 'demo.py'), 'w').write(demo)
        json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        shutil.rmtree(w)
    shutil.rmtree(originals)


main(sys.argv[1:])
