#!/usr/bin/env python3
"""Development aid (not a check): run the check of each planted bug's property on a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = V + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='det')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
        subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], check=True)
        r = subprocess.run(['python3', V + '/check.py', p, '--repo', w, '--no-evidence'], capture_output=True, text=True)
        print(i, p, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, (r.stdout.strip().split('\n') or [''])[0][:200], flush=True)
    finally:
        shutil.rmtree(w)
