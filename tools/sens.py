#!/usr/bin/env python3
"""Development helper: sens.py [ID...] - runs the check of each planted bug's property (or PROP=... ) against a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    d = f'{V}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    props = os.environ.get('PROP', meta['property']).split(',')
    t = tempfile.mkdtemp(prefix='sens')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {t}', shell=True, check=True)
    subprocess.run(['git', 'apply', '--unsafe-paths', '--directory', t, d + '/patch.diff'], cwd='/', check=False)
    subprocess.run(f'cd {t} && patch -p1 -N -s < {d}/patch.diff', shell=True, stdout=subprocess.DEVNULL)
    for p in props:
        s = time.time()
        r = subprocess.run(['python3', 'check.py', p, os.environ.get('TIER', 'quick')], cwd=V, env=dict(os.environ, TPP_REPO=t, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i, p, 'rc', r.returncode, '%.0fs' % (time.time() - s), v[:1], r.stdout.splitlines()[-3:] if not v else '', flush=True)
        if v:
            f = v[0].split('replay=')[1].split()[0]
            try: print('    ', open(os.path.join(V, f)).read()[:300].replace('\n', ' | '))
            except OSError as e: print(e)
    shutil.rmtree(t)
