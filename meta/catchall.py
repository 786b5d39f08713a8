#!/usr/bin/env python3
"""catchall.py [ID...]: run every planted bug against its property's check, in scratch
copies of /repo and /verif, and record the result in caught.json."""
import json, os, subprocess, sys, tempfile, glob, shutil
from concurrent.futures import ThreadPoolExecutor
import threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(d)) for d in glob.glob(V + '/seeded/*/meta.json'))
T = tempfile.mkdtemp(prefix='catchall.', dir='/tmp')
slots = queue.Queue(); N = int(os.environ.get('J', 3))
for k in range(N):
    subprocess.run(['git', 'clone', '-q', '/repo', f'{T}/repo{k}'], check=True)
    subprocess.run(['cp', '-a', V, f'{T}/verif{k}'], check=True)
    slots.put(k)
path = V + '/meta/caught.json'; lock = threading.Lock()
def one(i):
    k = slots.get()
    try:
        repo = f'{T}/repo{k}'
        prop = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        if subprocess.run(['git', '-C', repo, 'apply', f'{V}/seeded/{i}/patch.diff']).returncode: return
        r = subprocess.run([f'{T}/verif{k}/check.sh', prop], env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        ok = r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout
        print(i, prop, 'caught' if ok else f'MISSED rc={r.returncode}', flush=True)
        with lock:
            c = json.load(open(path)) if os.path.exists(path) else {}
            c[i] = [prop] if ok else []
            json.dump(c, open(path, 'w'), indent=0, sort_keys=True)
    finally: slots.put(k)
with ThreadPoolExecutor(N) as ex: list(ex.map(one, ids))
shutil.rmtree(T)
