"""Re-runs a recorded counterexample natively against /repo's current tree: replay.py <file>"""
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import build as B
from config import PROPS
pid = unit = None
env = dict(os.environ)
for l in open(sys.argv[1]):
    if l.startswith('#unit '):
        _, pid, unit = l.split()
    if l.startswith('#env '):
        k, v = l[5:].strip().split('=', 1)
        env[k] = v
u = [x for x in PROPS[pid]['units'] if x['name'] == unit][0]
w = tempfile.mkdtemp(prefix='nlcgr_')
b = B.build(os.path.join(os.path.dirname(HERE), 'harness', u['harness']), w, u.get('driver', False), u.get('defines', ()))
body = ''.join(l for l in open(sys.argv[1]) if not l.startswith('#'))
open(w + '/in', 'w').write(body)
rc = subprocess.run([b['replay'], w + '/in'], env=env, cwd=w).returncode
shutil.rmtree(w)
sys.exit(rc)
