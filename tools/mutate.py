#!/usr/bin/env python3
"""Development helper (not a check): mutation testing of the checks.

  mutate.py gen N SEED OUT.jsonl            sample N one-line changes of /repo/tpp
  mutate.py run IN.jsonl OUT.jsonl [JOBS]   which of them pass the repository's tests, and which profiles see the survivors

Scratch copies live under /tmp/mut-*, each removed when its mutant is done."""
import json, os, random, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
FILES = ['detail/swiss_table.hpp', 'detail/dense_table.hpp', 'detail/table_common.hpp', 'detail/utility.hpp', 'detail/multikey.hpp', 'detail/stable_traits.hpp', 'detail/arch.hpp',
         'dense_map.hpp', 'dense_set.hpp', 'dense_multimap.hpp', 'dense_multiset.hpp', 'sparse_map.hpp', 'sparse_set.hpp', 'stable_map.hpp', 'stable_set.hpp']
SUBS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<\-])<=', '<'), (r'(?<![>\-])>=', '>'), (r'(?<= )<(?= )', '<='), (r'(?<= )>(?= )', '>='), (r'(?<= )<(?= )', '>'), (r'(?<= )>(?= )', '<'),
        (r'&&', '||'), (r'\|\|', '&&'), (r'(?<= )\+(?= )', '-'), (r'(?<= )-(?= )', '+'), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\+\+', '--'), (r'--', '++'), (r'!(?=[\w(])', ''),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'std::move\((\w[\w.\->]*)\)', r'\1'), (r'std::forward<\w+>\((\w+)\)', r'\1'), (r'\? (.+?) : (.+?)([;)])', r'? \2 : \1\3'),
        (r'\bif (constexpr )?\((.+)\)', None), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'\bbegin\b', 'end'), (r'\bend\b', 'begin'), (r'\bother\.', 'this->'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'(?<= )\*(?= )', '+'),
        (r'(?<= )/(?= )', '*'), (r'(?<= )%(?= )', '/'), (r'>>', '<<'), (r'(?<= )\|(?= )', '&'), (r'(?<= )&(?= )', '|'), (r'(\w+)\((\w+), (\w+)\)', r'\1(\3, \2)'),
        (r'\bconst_cast\b', 'const_cast'), (r'propagate_on_container_\w+::value', 'is_always_equal::value'), (r'\breturn \*this;', None)]


def gen(n, seed, out):
    rng = random.Random(seed)
    allm = []
    for f in FILES:
        lines = open('/repo/tpp/' + f).read().split('\n')
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if '/*' in s: comment = True
            if comment:
                if '*/' in s: comment = False
                continue
            if not s or s.startswith(('//', '#', '*', 'template', 'using ', 'static_assert', 'typedef', 'friend', 'namespace', 'public', 'private', 'TPP_ASSERT')) or 'requires' in s:
                continue
            code = l.split('//')[0]
            for pat, rep in SUBS:
                for m in re.finditer(pat, code):
                    if rep is None:
                        if 'if' in m.group(0) and 'constexpr' not in m.group(0):
                            for v in ('true', 'false'):
                                k = code.find('(', m.start())
                                d, e = 0, k
                                for e in range(k, len(code)):
                                    d += {'(': 1, ')': -1}.get(code[e], 0)
                                    if d == 0: break
                                c = code[k + 1:e]
                                if ';' in c: p, q = c.rsplit(';', 1); new = code[:k + 1] + p + '; ((void)(' + q + '), ' + v + ')' + code[e:]
                                else: new = code[:k + 1] + '((void)(' + c + '), ' + v + ')' + code[e:]
                                allm.append((f, i, l, new, 'if ' + v))
                        continue
                    new = code[:m.start()] + m.expand(rep) + code[m.end():]
                    if new != code: allm.append((f, i, l, new, f'{pat} -> {rep}'))
            if s.endswith(';') and not re.match(r'(return|const|auto|using|static|constexpr|throw|size_type|break|continue|goto|else|if|for|\}|case|default|std::|[\w:<>]+ \w+;|[\w:<>]+ [\w&*]+ = )', s) and s.count('(') == s.count(')'):
                ind = l[:len(l) - len(l.lstrip())]
                allm.append((f, i, l, ind + ';', 'delete'))
                allm.append((f, i, l, ind + ';', 'delete'))
    rng.shuffle(allm)
    seen, res = set(), []
    for m in allm:
        if (m[0], m[1], m[3]) in seen: continue
        seen.add((m[0], m[1], m[3]))
        res.append(m)
        if len(res) >= n: break
    with open(out, 'w') as o:
        for k, m in enumerate(res):
            o.write(json.dumps({'id': k, 'file': m[0], 'line': m[1] + 1, 'old': m[2], 'new': m[3], 'op': m[4]}) + '\n')
    print(len(set((m[0], m[1], m[3]) for m in allm)), 'possible,', len(res), 'sampled')


TESTS = ['dense_set', 'dense_map', 'ordered_dense_set', 'ordered_dense_map', 'dense_multiset', 'dense_multimap', 'sparse_set', 'sparse_map', 'ordered_sparse_set', 'ordered_sparse_map',
         'stable_set', 'stable_map', 'ordered_stable_set', 'ordered_stable_map']
PROFILES = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C16', 'C17', 'C20']


def sh(cmd, timeout, cwd=None):
    try:
        return subprocess.run(cmd, timeout=timeout, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except subprocess.TimeoutExpired:
        return 124


def tests_pass(d):
    objs = []
    for f in ('main', 'dense_table_tests', 'swiss_table_tests'):
        o = f'{d}/{f}.o'
        if sh(['g++', '-std=c++17', '-O1', '-DNDEBUG', '-Wall', '-Wextra', '-Wpedantic', '-Werror', '-I' + d, '-I' + d + '/tpp', '-c', f'/repo/test/{f}.cpp', '-o', o], 300): return 'no compile'
        objs.append(o)
    if sh(['g++'] + objs + ['-o', d + '/t'], 60): return 'no link'
    for t in TESTS:
        if sh([d + '/t', t], 20): return 'killed by tests'
    return 'survives'


def sim(d, cfg):
    import check
    cxx, fl = check.CONFIGS[cfg]
    race = cfg in check.RACE
    src = V + ('/race' if race else '/sim')
    b = [cxx] + fl.split() + ['-I' + d, '-I' + V + '/sim', '-I' + src, '-no-pie', '-fno-pie', '-w']
    od = f'{d}/{cfg}'
    os.makedirs(od)
    objs = []
    for c in check.ALL:
        o = f'{od}/{c}.o'
        if sh(b + (['-fsanitize=thread'] if race else ['-fsanitize-coverage=trace-pc']) + ['-DSIM_CONT=' + c, '-DSIM_ORD=' + ('true' if c in check.ORDERED else 'false'), '-DSIM_POL=0', '-c', src + ('/rcont.cpp' if race else '/cont.cpp'), '-o', o], 400):
            return {'compile': c}
        objs.append(o)
    objs += [f'/tmp/mut/{cfg}-{f}.o' for f in (('rt',) if race else ('core', 'driver'))]
    if sh([cxx] + fl.split() + ['-no-pie'] + objs + ['-lpthread', '-o', od + '/s'], 120): return {'link': 1}
    res = {}
    T = os.environ.get('MUT_TIME', '3')
    for p in (['C13', 'C14'] if race else PROFILES):
        st = f'{od}/st.{p}'
        rc = sh([od + '/s', 'batch', '--profile', p, '--seed', '11', '--time', T, '--status', st, '--out', '/dev/null'], 60)
        if rc:
            raw = open(st, 'rb').read()
            cls = raw[24:88].split(b'\0')[0].decode('latin1') or ('hang' if rc == 124 else 'crash')
            res[p] = cls + ': ' + raw[88:].split(b'\0')[0].decode('latin1')[:100]
            if not os.environ.get('MUT_ALL'): break
    return res


def one(m):
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo/tpp', d + '/tpp')
        p = f'{d}/tpp/{m["file"]}'
        lines = open(p).read().split('\n')
        assert lines[m['line'] - 1] == m['old']
        lines[m['line'] - 1] = m['new']
        open(p, 'w').write('\n'.join(lines))
        if 'tests' not in m: m['tests'] = tests_pass(d)
        if m['tests'] == 'survives':
            m['seen'] = {}
            for cfg in os.environ.get('MUT_CFGS', 'B,A,R').split(','):
                m['seen'][cfg] = sim(d, cfg)
                if m['seen'][cfg]: break
    finally:
        shutil.rmtree(d)
    return m


def main():
    if sys.argv[1] == 'gen':
        return gen(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    import check
    os.makedirs('/tmp/mut', exist_ok=True)
    for cfg in os.environ.get('MUT_CFGS', 'B,A,R').split(','):
        cxx, fl = check.CONFIGS[cfg]
        race = cfg in check.RACE
        for f in (('rt',) if race else ('core', 'driver')):
            src = V + ('/race' if race else '/sim')
            subprocess.run([cxx] + fl.split() + ['-I/repo', '-I' + V + '/sim', '-I' + src, '-no-pie', '-fno-pie', '-w', '-c', f'{src}/{f}.cpp', '-o', f'/tmp/mut/{cfg}-{f}.o'], check=True)
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(l)['id'] for l in open(sys.argv[3])}
    todo = [m for m in map(json.loads, open(sys.argv[2])) if m['id'] not in done]
    with open(sys.argv[3], 'a') as o, ThreadPoolExecutor(int(sys.argv[4]) if len(sys.argv) > 4 else 8) as ex:
        for m in ex.map(one, todo):
            o.write(json.dumps(m) + '\n')
            o.flush()


main()
