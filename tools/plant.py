"""plant(id, property, edits, demo, files, needs, breaks): write seeded/<id> from text edits [(path, old, new)] of /repo (each old text must occur exactly once, or give a count as 4th item)."""
import os, json, subprocess, tempfile, shutil

def plant(id, prop, edits, demo, files=None, needs='', breaks=''):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        for p in {e[0] for e in edits}:
            for x in 'ab':
                q = os.path.join(t, x, p)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                shutil.copy('/repo/' + p, q)
        for e in edits:
            q = os.path.join(t, 'b', e[0])
            s = open(q, newline='').read()
            n = e[3] if len(e) > 3 else 1
            assert s.count(e[1]) == n, (id, e[0], e[1], s.count(e[1]))
            open(q, 'w', newline='').write(s.replace(e[1], e[2]))
        out = b''
        for p in sorted({e[0] for e in edits}):
            r = subprocess.run(['diff', '-u', '--label', 'a/' + p, '--label', 'b/' + p, 'a/' + p, 'b/' + p], cwd=t, capture_output=True)
            assert r.returncode == 1, (id, p, r)
            out += f'diff --git a/{p} b/{p}\n'.encode() + r.stdout
        open(d + '/patch.diff', 'wb').write(out)
    finally:
        shutil.rmtree(t)
    open(d + '/demo.sh', 'w').write(demo)
    for n, s in (files or {}).items():
        open(d + '/' + n, 'w').write(s)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)

C_DEMO = '''#!/bin/bash
# cwd: the repository, after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
%s
'''
LIB = '-I src -L _build/c/src -lhorus -lm -Wl,-rpath,"$PWD/_build/c/src"'
def c_demo(flags='', name='demo.c', pre='gcc'):
    return C_DEMO % f'{pre} -w -o "$T/x" "$D/{name}" {flags} {LIB} || exit 9\ntimeout 250 "$T/x"'
def py_demo(name='demo.py'):
    return C_DEMO % f'PYTHONPATH="$PWD:$PWD/_build/py" PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/horus-venv/bin/python -W ignore "$D/{name}" "$T"'
