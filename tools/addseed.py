"""addseed.py SPEC.py: write seeded/<id>/ from S(id, prop, file, [(old, new)...], needs, breaks, demo) calls in SPEC.py"""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'gyp/pylib/gyp/'
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/gyp/pylib" exec python3 "$(dirname "$0")/demo.py"\n'
JS = '#!/bin/bash\nNODE_PATH="$(npm root -g)/npm/node_modules" exec node "$(dirname "$0")/demo.js"\n'
ids = []


def S(id, prop, file, edits, needs, breaks, demo, js=False):
    w = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
    try:
        files = edits if isinstance(edits, dict) else {file: edits}
        for f, es in files.items():
            p = w + '/r/' + (f if os.path.exists(w + '/r/' + f) else P + f)
            t = open(p).read()
            for o, n in es:
                assert t.count(o) == 1, (id, f, o, t.count(o))
                t = t.replace(o, n)
            open(p, 'w').write(t)
        d = HERE + '/seeded/' + id
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode())
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write(JS if js else SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + ('/demo.js' if js else '/demo.py'), 'w').write(demo.strip('\n') + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ids.append(id)


exec(open(sys.argv[1]).read(), {'S': S})
subprocess.call([HERE + '/tools/seedtest.sh'] + ids)
