#!/usr/bin/env python3
"""plant.py SPEC.py: checks a planted bug (compiles, stable tests pass, demo passes without and fails with it, only original
lines changed) and stores it under /verif/seeded/<id>/.  SPEC.py defines id, prop, file, edits=[(old,new)], demo (C++ source),
flags, needs, breaks."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '8d58ca3'


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    g = {'flags': '-std=c++17 -O1', 'cxx': 'g++', 'extra': {}}
    exec(open(spec).read(), g)
    w = tempfile.mkdtemp(prefix='plant-')
    try:
        r = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        orig_all = {}
        edits = g['edits'] if isinstance(g['edits'], dict) else {g['file']: g['edits']}
        for f, es in edits.items():
            p = os.path.join(r, f)
            s = open(p).read()
            for old, new in es:
                n = s.count(old)
                if n != 1:
                    print(f'edit matches {n} times: {old[:80]!r}')
                    return 1
                s = s.replace(old, new)
            open(p, 'w').write(s)
        diff = sh(['git', '-C', r, 'diff']).stdout
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for f in edits:
            orig_all[f] = set(sh(['git', '-C', r, 'show', f'{BASE}:{f}']).stdout.splitlines())
        allo = set().union(*orig_all.values())
        bad = [l for l in removed if l not in allo]
        for f in edits:    # the lines changed have to be the original ones
            ln = 0
            d0 = sh(['git', '-C', r, 'diff', '-U0', '--', f]).stdout.splitlines()
            bl = sh(['git', '-C', r, 'blame', '-s', 'HEAD', '--', f]).stdout.splitlines()
            for l in d0:
                if l.startswith('@@'):
                    ln = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if not bl[ln - 1].startswith('^' + BASE):
                        bad.append(bl[ln - 1])
                    ln += 1
        if bad or not removed:
            print('WARNING: removed lines not in the original repository:', bad[:4], 'removed', len(removed))
        d = os.path.join(V, 'seeded', g['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(g['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(f'''#!/bin/bash
# run in the repository root; exits 0 iff the property holds in the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf -- "$tmp"' EXIT
{g['cxx']} {g['flags']} -I. "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 3
timeout 120 "$tmp/demo"
''')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh([os.path.join(d, 'demo.sh')], cwd='/repo')
        b = sh([os.path.join(d, 'demo.sh')], cwd=r)
        print('demo unchanged:', a.returncode, a.stdout[-300:], '| patched:', b.returncode, b.stdout[-300:])
        # tests, in a private copy of the build
        shutil.rmtree(os.path.join(r, '_build'), ignore_errors=True)
        c = sh(f'CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S {r} -B {r}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DTPP_TESTS=ON && ninja -C {r}/_build')
        if c.returncode:
            print('BUILD FAILS', c.stdout[-1500:])
            return 1
        t = sh('for x in $(ls -d _build/* _build/*/* 2>/dev/null); do if [ -f $x ] && [ -x $x ]; then case $x in *test*) echo $x; timeout 100 $x | tail -4; echo rc=${PIPESTATUS[0]};; esac; fi; done', cwd=r, executable='/bin/bash')
        ct = sh('ctest --output-on-failure 2>&1 | tail -15', cwd=os.path.join(r, '_build'))
        print('\n'.join(l for l in ct.stdout.splitlines() if 'tests passed' in l or ' - ' in l and '(' in l))
        ok = a.returncode == 0 and b.returncode not in (0, 3) and '100% tests passed' in ct.stdout
        print('OK' if ok else 'NOT OK', g['id'])
        if not ok:
            shutil.rmtree(d)
        return 0 if ok else 1
    finally:
        shutil.rmtree(w, ignore_errors=True)


sys.exit(max(main(s) for s in sys.argv[1:]))
