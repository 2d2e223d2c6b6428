"""Requests to the real JavaScript of the repository, answered by vlib/js/server.js in a node process (one per platform asked for)."""
import json, os, select, subprocess, time
from vlib.base import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
PROCS = {}


def node_path():
    out = subprocess.run(['npm', 'root', '-g'], capture_output=True, text=True).stdout.strip() or '/usr/lib/node_modules'
    return os.path.join(out, 'npm', 'node_modules')


def start(platform=''):
    env = dict(os.environ, NODE_PATH=node_path())
    for k in list(env):
        if k.lower().startswith('npm_config') or k in ('NODEJS_ORG_MIRROR', 'PYTHON', 'NODE_GYP_FORCE_PYTHON'): del env[k]
    r, w = os.pipe()
    # the answers have a descriptor of their own: the program itself prints to the standard streams
    p = subprocess.Popen(['node', os.path.join(HERE, 'js', 'server.js'), os.path.realpath(REPO), platform], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                         stderr=subprocess.DEVNULL, env=dict(env, ANSWERS=str(w)), bufsize=0, pass_fds=[w])
    os.close(w)
    p.answers = r
    return p


class JSError(Exception): pass


def call(fn, arg, platform='', wait=20.0):
    """The answer of the real code; JSError(text) when it threw."""
    key = (os.getpid(), platform)
    p = PROCS.get(key)
    if p is None or p.poll() is not None: p = PROCS[key] = start(platform)
    p.stdin.write((json.dumps({'fn': fn, 'arg': arg}) + '\n').encode())
    buf, end = b'', time.time() + wait
    while not buf.endswith(b'\n'):
        if not select.select([p.answers], [], [], max(0, end - time.time()))[0]:
            p.kill()
            PROCS.pop(key, None)
            raise JSError('no answer from %s within %gs' % (fn, wait))
        chunk = os.read(p.answers, 1 << 16)
        if not chunk:
            PROCS.pop(key, None)
            raise JSError('the node process ended while running %s' % fn)
        buf += chunk
    d = json.loads(buf)
    if 'error' in d: raise JSError(d['error'])
    return d['ok']
