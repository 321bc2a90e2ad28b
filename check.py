#!/usr/bin/env python3
"""Deterministic simulation checks for tpp.

  check.py PROPERTY [quick|thorough]     run a check (exit 0: held, exit 1: VIOLATION line)
  check.py replay FILE                   rebuild what FILE needs and replay it (exit 1 if it still fails)
"""
import array, json, os, queue, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(VERIF, 'sim')
REPO = os.environ.get('TPP_REPO', '/repo')
NPROC = max(2, min(8, os.cpu_count() or 8))

CONTS = ['sparse_set', 'sparse_map', 'stable_set', 'stable_map', 'dense_set', 'dense_map']
ALL = CONTS + ['ordered_' + c for c in CONTS] + ['dense_multiset', 'dense_multimap']
ORDERED = [c for c in ALL if c.startswith('ordered_')]
STABLE = [c for c in ALL if 'stable' in c]
MULTI = ['dense_multiset', 'dense_multimap']

# Build configurations: (compiler, flags).  TPP_DEBUG selects separate element/metadata buffers and internal assertions.
CONFIGS = {
    'A': ('clang++', '-std=c++17 -O1 -DTPP_DEBUG -fsanitize=address'),
    'B': ('clang++', '-std=c++20 -O1 -DNDEBUG'),
    'C': ('g++', '-std=c++17 -O1 -DNDEBUG -DTPP_NO_SIMD'),
    'D': ('g++', '-std=c++20 -O2 -DNDEBUG'),
    'E': ('g++', '-std=c++17 -O1 -DTPP_DEBUG -fsanitize=address'),
    'F': ('clang++', '-std=c++17 -O3 -DNDEBUG -march=native'),
    'G': ('clang++', '-std=c++20 -O1 -DNDEBUG -DTPP_NO_SIMD -fsanitize=address'),
    'H': ('g++', '-std=c++17 -O0 -DTPP_DEBUG -DTPP_NO_SIMD'),
    'I': ('clang++', '-std=c++17 -O1 -DTPP_DEBUG'),
    # pretended targets (sim/arch): NEON instructions emulated, MSVC intrinsics emulated, unknown compiler and processor, unknown processor
    'N': ('clang++', '-std=c++17 -O1 -DNDEBUG -DSIM_ARCH=1 -I' + SIM + '/arch/neon'),
    'M': ('clang++', '-std=c++17 -O1 -DNDEBUG -DSIM_ARCH=4 -I' + SIM + '/arch/msvc'),
    'U': ('clang++', '-std=c++17 -O1 -DNDEBUG -DSIM_ARCH=5'),
    'P': ('g++', '-std=c++17 -O1 -DNDEBUG -DSIM_ARCH=2'),
    'Q': ('clang++', '-std=c++17 -O1 -DTPP_DEBUG -fsanitize=builtin,shift,integer-divide-by-zero,bounds,return,unreachable -fsanitize-trap=all -DSIM_ARCH=1 -I' + SIM + '/arch/neon'),
    'J': ('clang++', '-std=c++17 -O1 -DNDEBUG -march=native'),
    # stateless (empty) hash and comparison types, transparency the other way round: sets transparent, maps opaque
    'X': ('clang++', '-std=c++20 -O1 -DNDEBUG -DSIM_ALT'),
    'Y': ('g++', '-std=c++17 -O1 -DTPP_DEBUG -DSIM_ALT'),
}

# Concurrency simulator (race/): the containers are instrumented with -fsanitize=thread, the runtime behind it is race/rt.cpp.
CONFIGS.update({
    'R': ('clang++', '-std=c++17 -O1 -DTPP_DEBUG'),
    'S': ('clang++', '-std=c++20 -O1 -DNDEBUG'),
    'T': ('clang++', '-std=c++17 -O1 -DNDEBUG -DTPP_NO_SIMD'),
    'V': ('g++', '-std=c++17 -O1 -DTPP_DEBUG -DTPP_NO_SIMD'),
})
RACE = 'RSTV'


def ops_table():
    t = {}
    for n, c in re.findall(r'X\((\w+), ([A-Z0-9| ]+)\)', open(os.path.join(SIM, 'ops.hpp')).read()):
        t[n] = set(x.strip() for x in c.split('|'))
    return t


OPS = ops_table()


# ------------------------------------------------------------------ build
class Build:
    """A set of simulator binaries, compiled from the current /repo working tree."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='tppsim-')
        self.failed = []  # translation units the current tree does not compile
        self.t = 0.0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def build(self, wanted):
        """wanted: list of (config, policy, containers); returns {(config, policy): (binary, containers)}"""
        t0 = time.time()
        jobs = []
        for cfg, pol, conts in wanted:
            cxx, fl = CONFIGS[cfg]
            d = os.path.join(self.dir, f'{cfg}{pol}')
            os.makedirs(d, exist_ok=True)
            base = [cxx] + fl.split() + ['-I' + os.path.join(REPO), '-I' + SIM, '-no-pie', '-fno-pie', '-w']
            if cfg in RACE:
                src = os.path.join(VERIF, 'race')
                for c in conts:
                    o = os.path.join(d, c + '.o')
                    jobs.append((1 + ('map' in c) + 2 * ('multi' in c), cfg, pol, c, o, base + ['-I' + src, '-fsanitize=thread', '-DSIM_CONT=' + c,
                                 '-DSIM_ORD=' + ('true' if c in ORDERED else 'false'), '-c', os.path.join(src, 'rcont.cpp'), '-o', o]))
                o = os.path.join(d, 'rt.o')
                jobs.append((9, cfg, pol, 'core', o, base + ['-I' + src, '-c', os.path.join(src, 'rt.cpp'), '-o', o]))
                continue
            for c in conts:
                o = os.path.join(d, c + '.o')
                jobs.append((1 + ('map' in c) + 2 * ('multi' in c) + ('ordered' in c), cfg, pol, c, o,
                             base + ['-fsanitize-coverage=trace-pc', '-DSIM_CONT=' + c, '-DSIM_ORD=' + ('true' if c in ORDERED else 'false'),
                                     f'-DSIM_POL={pol}', '-c', os.path.join(SIM, 'cont.cpp'), '-o', o]))
            for f in ('core', 'driver'):
                o = os.path.join(d, f + '.o')
                jobs.append((9, cfg, pol, f, o, base + ['-c', os.path.join(SIM, f + '.cpp'), '-o', o]))
        jobs.sort(key=lambda j: -j[0])

        def run(j):
            try:
                p = subprocess.run(j[5], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=400, text=True)
                return j, p.returncode, p.stderr[:600]
            except subprocess.TimeoutExpired:
                return j, 1, 'compiler timeout'
        ok = {}
        with ThreadPoolExecutor(NPROC) as ex:
            for j, rc, err in ex.map(run, jobs):
                if rc == 0:
                    ok.setdefault((j[1], j[2]), []).append((j[3], j[4]))
                else:
                    self.failed.append(f'{j[1]}{j[2]}:{j[3]}')
                    print(f'note: {j[3]} does not compile in configuration {j[1]} (policy {j[2]}): {err.splitlines()[0] if err else ""}', flush=True)
        res = {}
        for cfg, pol, conts in wanted:
            objs = ok.get((cfg, pol), [])
            names = [n for n, _ in objs]
            if 'core' not in names or (cfg not in RACE and 'driver' not in names) or not set(names) & set(conts):
                continue
            cxx, fl = CONFIGS[cfg]
            b = os.path.join(self.dir, f'{cfg}{pol}', 'sim')
            p = subprocess.run([cxx] + fl.split() + ['-no-pie'] + [o for _, o in objs] + ['-o', b, '-lpthread'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            if p.returncode == 0:
                res[(cfg, pol)] = (b, [cname(c, pol) for c in conts if c in names])
            else:
                print('note: link failed: ' + p.stderr[:400])
        self.t += time.time() - t0
        return res


def cname(c, pol):
    return c if pol == 0 else f'{c}@{pol}'


def base_name(c):
    return c.split('@')[0]


# ------------------------------------------------------------------ traces
class TraceInfo:
    def __init__(self, text):
        self.text = text
        self.cont = re.search(r'^container (\S+)', text, re.M).group(1)
        self.env = dict(re.findall(r'(\w+)=(\d+)', re.search(r'^env (.*)', text, re.M).group(1)))
        self.ops = []
        for m in re.finditer(r'^op (\w+) (.*)', text, re.M):
            self.ops.append((m.group(1), {k: int(v) for k, v in re.findall(r'(\w+)=(-?\d+)', m.group(2))}))

    def has(self, cat):
        return any(cat in OPS[o] for o, _ in self.ops)

    def has_op(self, *names):
        return any(o in names for o, _ in self.ops)

    def faulted(self, cat=None):
        return any(a.get('fk', 0) and (cat is None or cat in OPS[o]) for o, a in self.ops)


UNSAFE = {'memory', 'crash', 'assert', 'lifetime', 'alloc', 'terminate', 'progress'}
PLAIN_WORDS = {  # the call a violation inside the operation PLAIN belongs to
    'C05': 'erase', 'C06': 'copy|move|swap|range construction', 'C07': 'merge|extract|node operation', 'C09': '(insert|emplace|assign|operator).* failed', 'C17': '==',
    'C08': 'reserve|rehash', 'C16': '^$', 'C20': '^$', 'C11': '^$', 'C12': '^$'}
CONTENT = {'size', 'content', 'iter', 'lookup', 'result', 'next', 'visit', 'args', 'bucket', 'throw', 'interference'}


def relevant(prop, t, cls, msg=''):
    """Does the minimised failing run t, violating oracle cls, break property prop?"""
    b = base_name(t.cont)
    if cls == 'arena':  # the simulator ran out of its own memory
        return False
    side = {'leak', 'propagation', 'growth', 'functor', 'equality'}
    if cls in ('moves', 'quantity', 'cost'):
        return prop == {'moves': 'C20', 'quantity': 'C08', 'cost': 'C19'}[cls]
    if msg.startswith('plain:') and prop in PLAIN_WORDS:
        return bool(re.search(PLAIN_WORDS[prop], msg))
    if prop == 'C19':
        return cls == 'progress' and t.has_op('GIANT')
    if prop == 'C01':
        return cls not in side | {'stability', 'conservation', 'reserve', 'atomicity', 'exhausted'} or (cls == 'atomicity' and not t.faulted())
    if prop == 'C02':
        return b in ORDERED and cls not in side | {'reserve'}
    if prop == 'C03':
        return b in STABLE and cls not in side | {'reserve', 'throw'}
    if prop == 'C04':
        return b in MULTI and cls not in side | {'reserve'}
    if prop == 'C05':
        return t.has('ERASE') and cls not in side | {'reserve'}
    if prop == 'C06':
        return t.has('CM')
    if prop == 'C07':
        return t.has('NODE')
    if prop == 'C08':
        return cls in ('progress', 'growth', 'reserve', 'exhausted') or t.has('CAP')
    if prop == 'C09':
        return t.faulted('SINGLE')
    if prop == 'C10':
        return t.faulted() or cls in UNSAFE | {'leak'}
    if prop == 'C11':
        return t.has_op('MEMLIM')
    if prop == 'C12':
        return cls in ('alloc', 'propagation', 'leak') or t.env.get('nres', '1') != '1'
    if prop == 'C16':
        return t.has('ALIAS')
    if prop == 'C20':
        return cls == 'args'
    if prop in ('C13', 'C14'):
        return cls in ('race', 'interference')
    if prop == 'C17':
        return t.has('EQL') or cls == 'equality'
    return False


def run_sim(args, timeout=None, cwd=None):
    env = dict(os.environ)
    env.pop('ASAN_OPTIONS', None)
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out
    return p.returncode, out


def replay(binary, path, timeout=120):
    rc, out = run_sim([binary, 'replay', path], timeout)
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return {'bad': True, 'cls': 'timeout' if rc == 124 else 'error', 'msg': f'exit {rc}', 'op': -1}


# ------------------------------------------------------------------ exploration
class Explorer:
    def __init__(self, prop, profile, seed, work):
        self.prop, self.profile, self.seed, self.work = prop, profile, seed, work
        self.stats = {}
        self.logs = set()
        self.per_config = {}
        self.wall = 0.0
        self.foreign = []
        self.found = None
        self.gate_failures = []
        self.errors = []
        self.lock = threading.Lock()

    def merge(self, j, label):
        s = self.stats
        for k in ('runs', 'ops', 'steps', 'faulty_runs', 'nontrivial', 'allocs', 'exhausted_hits'):
            s[k] = s.get(k, 0) + j[k]
        for k in ('edges', 'max_op_steps', 'states'):
            s[k] = max(s.get(k, 0), j[k])
        for k in ('faults', 'opcounts'):
            d = s.setdefault(k, {})
            for n, (x, y) in j[k].items():
                a = d.setdefault(n, [0, 0])
                a[0] += x
                a[1] += y
        s['steps_per_call'] = [max(x, y) for x, y in zip(s.get('steps_per_call', [0] * 4), j.get('steps_per_call', [0] * 4))]
        for n, x in j['conts'].items():
            d = s.setdefault('conts', {})
            d[n] = d.get(n, 0) + x
        self.per_config[label] = self.per_config.get(label, 0) + j['runs']

    def explore(self, label, binary, conts, seed, seconds, max_bad=10):
        """Seeded batches on all cores; the first violation that breaks the property ends it."""
        if not conts or self.found:
            return
        t_end = time.time() + seconds
        stop = threading.Event()
        bad = queue.Queue()
        procs = {}
        seen_sig = {}

        def worker(w):
            start, n = 0, 0
            while not stop.is_set() and n < 400:
                left = t_end - time.time()
                if left <= 0.3:
                    return
                tag = f'{label}-{seed}-{w}-{n}'
                n += 1
                st, out, logs = (os.path.join(self.work, f'{x}.{tag}') for x in ('st', 'out', 'logs'))
                cmd = [binary, 'batch', '--profile', self.profile, '--seed', str(seed), '--worker', str(w), '--workers', str(NPROC), '--start', str(start),
                       '--time', f'{left:.2f}', '--status', st, '--out', out, '--logs', logs, '--conts', ','.join(conts)]
                env = dict(os.environ)
                env.pop('ASAN_OPTIONS', None)
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
                procs[w] = p
                hung = False
                try:
                    p.wait(left + 45)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    hung = True
                if p.returncode == 0:
                    with self.lock:
                        self.merge(json.load(open(out)), label)
                        a = array.array('Q')
                        a.frombytes(open(logs, 'rb').read())
                        self.logs.update(a)
                    for f in (st, out, logs):
                        os.unlink(f)
                    return
                if stop.is_set():
                    return
                raw = open(st, 'rb').read()
                rs, ri, op, _ = struct.unpack('QQii', raw[:24])
                cls = raw[24:88].split(b'\0')[0].decode('latin1')
                msg = raw[88:].split(b'\0')[0].decode('latin1')
                bad.put((ri, op, cls or ('hang' if hung else 'crash'), msg))
                start = ri + 1
        def guarded(w):
            try:
                worker(w)
            except Exception as e:  # an error of the machinery, not a verdict
                self.errors.append(f'{label} worker {w}: {type(e).__name__}: {e}')
        ths = [threading.Thread(target=guarded, args=(w,), daemon=True) for w in range(NPROC)]
        t0 = time.time()
        for x in ths:
            x.start()
        handled = 0
        while any(x.is_alive() for x in ths) or not bad.empty():
            try:
                ri, op, cls, msg = bad.get(timeout=0.05)
            except queue.Empty:
                continue
            sig = (cls, re.sub(r'\d+', '#', msg)[:60])
            seen_sig[sig] = seen_sig.get(sig, 0) + 1
            if seen_sig[sig] > 4 or handled >= max_bad * 4:
                continue  # already looked at several of this kind
            handled += 1
            if self.examine(label, binary, conts, seed, ri, op, cls, msg):
                stop.set()
                for p in procs.values():
                    if p.poll() is None:
                        p.kill()
                break
        for x in ths:
            x.join()
        self.wall += time.time() - t0

    def examine(self, label, binary, conts, seed, index, op, cls, msg):
        """Gate, minimise and attribute one violation; True if it is one of this property."""
        rc, text = run_sim([binary, 'gen', '--profile', self.profile, '--seed', str(seed), '--index', str(index), '--conts', ','.join(conts)], 60)
        path = os.path.join(self.work, f'bad-{label}-{seed}-{index}.trace')
        open(path, 'w').write(text)
        a, b = replay(binary, path), replay(binary, path)
        if not a['bad'] or (a['cls'], a['op'], a['full']) != (b['cls'], b['op'], b['full']) or (a['cls'] != cls and a['cls'] not in ('crash', 'timeout') and not (a['cls'] == 'interference' and cls != 'race')):
            self.gate_failures.append(f'config {label} seed {seed} index {index}: batch saw {cls} at op {op}, replays saw {a} and {b}')
            return False
        mpath = path[:-6] + '.min'
        rc, out = run_sim([binary, 'min', path, mpath, '--budget', '500'], 90)
        if rc == 77 and os.path.exists(mpath):
            m1, m2 = replay(binary, mpath), replay(binary, mpath)
            if m1['bad'] and (m1['cls'], m1['op']) == (m2['cls'], m2['op']):
                a, path = m1, mpath
        t = TraceInfo(open(path).read())
        if not relevant(self.prop, t, a['cls'], a['msg']):
            self.foreign.append({'config': label, 'seed': seed, 'index': index, 'class': a['cls'], 'msg': a['msg'], 'container': t.cont, 'ops': [o for o, _ in t.ops]})
            return False
        known = known_finding(self.prop, t, a)
        if known:
            if known not in self.known:
                self.known.append(known)
            return False
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        final = os.path.join(VERIF, 'replays', f'{self.prop}-{label}-{seed}-{index}.trace')
        cfg, pol = split_label(label)
        body = re.sub(r'^(expect|#).*\n', '', open(path).read(), flags=re.M)
        open(final, 'w').write(body + f'# config: {cfg} {pol}\n# property: {self.prop}\n# found: profile {self.profile} seed {seed} index {index}\n'
                               f'expect class={a["cls"]} op={a["op"]}\n# {a["msg"]}\n')
        self.found = {'replay': final, 'class': a['cls'], 'msg': a['msg'], 'container': t.cont, 'ops': [o for o, _ in t.ops]}
        return True

    known = []


def split_label(label):
    m = re.match(r'([A-Z])(\d+)$', label)
    return m.group(1), int(m.group(2))


def known_finding(prop, t, verdict):
    return None  # no open findings: every defect found so far is repaired (see KNOWN_FINDINGS.txt)


# ------------------------------------------------------------------ plans
def plan(prop, tier):
    """(containers, [(config, policy, share of the exploration time)], seconds of exploration)"""
    conts = {'C02': ORDERED, 'C03': STABLE, 'C04': MULTI, 'C07': STABLE}.get(prop, ALL)
    if tier == 'quick':
        if prop == 'C12':
            return conts, [('A', 0, 1), ('A', 7, 2), ('B', 7, 1), ('B', 8, 1)], 30
        if prop in ('C03', 'C06', 'C07', 'C10', 'C11', 'C17'):
            return conts, [('A', 0, 2), ('B', 0, 2), ('C', 0, 1), ('X', 0, 1), ('I', 7, 1)], 34
        return conts, [('A', 0, 2), ('B', 0, 2), ('C', 0, 1), ('X', 0, 1)], 30
    if prop == 'C12':
        return conts, [(c, p, 1) for p in (0, 1, 2, 4, 7, 8, 15, 16, 17, 24) for c in ('A', 'B')], 480
    if prop in ('C06', 'C07', 'C10', 'C11'):
        return conts, [('A', 0, 2), ('B', 0, 2), ('C', 0, 1), ('D', 0, 1), ('E', 0, 1), ('F', 0, 1), ('X', 0, 1), ('Y', 0, 1), ('A', 7, 1), ('B', 7, 1)], 540
    return conts, [('A', 0, 2), ('B', 0, 2), ('C', 0, 1), ('D', 0, 1), ('E', 0, 1), ('F', 0, 1), ('G', 0, 1), ('H', 0, 1), ('X', 0, 1), ('Y', 0, 1)], 540


REAL = ['all tpp container headers in /repo/tpp compiled unmodified (tables, buffers, metadata, ordering links, node handles)']
STUB = ['allocator (simulated heap)', 'hash function', 'key comparison', 'key and mapped types', 'predicates']


def write_evidence(prop, tier, seed, cov, t0, violations, assumptions=None, level='exploration'):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions or ['element moves, destructors, swaps and allocator copies do not throw', 'hash and equality are consistent and deterministic',
                                         'sampling: a clean batch is evidence, not proof'],
          'wall_s': round(time.time() - t0, 2), 'violations': violations}
    path = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)


def history_check(prop, tier, seed, t0):
    conts, configs, seconds = plan(prop, tier)
    scale = float(os.environ.get('TPP_TIME_SCALE', '1'))
    bld = Build()
    try:
        bins = bld.build([(c, p, conts) for c, p, _ in configs])
        if not bins:
            print('error: nothing builds')
            return 2
        ex = Explorer(prop, prop, seed, bld.dir)
        total = sum(s for _, _, s in configs)
        for n, (c, p, share) in enumerate(configs):
            if (c, p) in bins:
                b, cs = bins[(c, p)]
                ex.explore(f'{c}{p}', b, cs, seed * 1000 + n, max(4, seconds * scale * share / total))
        samples = []
        (c, p), (b, cs) = next(iter(bins.items()))
        for i in (0, 1):
            samples.append(run_sim([b, 'gen', '--profile', prop, '--seed', str(seed * 1000), '--index', str(i), '--conts', ','.join(cs)], 60)[1].splitlines())
        s = ex.stats
        hours = max(ex.wall, 1e-3) / 3600
        cov = {'evaluations': s.get('runs', 0), 'distinct_nontrivial': len(ex.logs),
               'rule': 'One evaluation is one simulated run: a seeded history of operations on up to three containers of one kind with a seeded environment '
                       '(hash quality, heap placement and reuse, memory junk, allocators, key domain) and seeded faults. Non-trivial: it allocates and contains an '
                       'operation that changes a container. Distinct: different event-log hash (every callback, allocation address and result).',
               'samples': samples,
               'runs_per_hour': int(s.get('runs', 0) / hours), 'seeds_per_hour': int(s.get('runs', 0) / hours), 'exploration_wall_s': round(ex.wall, 2), 'build_wall_s': round(bld.t, 2),
               'simulated_time': {'operations': s.get('ops', 0), 'instrumented_steps': s.get('steps', 0), 'longest_operation_steps': s.get('max_op_steps', 0)},
               'large_container_steps_per_call': dict(zip(('lookup_hit', 'lookup_miss', 'insertion', 'erasure'), (round(x) for x in s.get('steps_per_call', [])))),
               'runs_with_faults_fired': s.get('faulty_runs', 0),
               'faults': {k: {'points_reached': v[0], 'injected': v[1]} for k, v in s.get('faults', {}).items()},
               'allocations_refused_while_exhausted': s.get('exhausted_hits', 0), 'allocations': s.get('allocs', 0),
               'container_states_reached': s.get('states', 0), 'state_measure': 'distinct hashes (22 bits) of key contents (in order where ordered), bucket counts and occupied node handles of all containers of a run, after each operation; largest single worker',
               'code_edges_hashed': s.get('edges', 0), 'operations': {k: v[0] for k, v in s.get('opcounts', {}).items() if v[0]},
               'runs_per_configuration': {f'{k}: ' + ' '.join(CONFIGS[split_label(k)[0]]) + f' allocator policy {split_label(k)[1]}': v for k, v in ex.per_config.items()},
               'runs_per_container': s.get('conts', {}), 'real_components': REAL, 'stub_components': STUB,
               'units_not_compiling': bld.failed, 'violations_of_other_properties_seen': ex.foreign[:20], 'gate_failures': ex.gate_failures[:20]}
        write_evidence(prop, tier, seed, cov, t0, 1 if ex.found else 0)
        for k in ex.known:
            print(f'KNOWN-FINDING: property={prop} {k}')
        for f in ex.foreign[:5]:
            print(f'note: a violation outside {prop}: {f["container"]} {f["class"]}: {f["msg"]} ops {" ".join(f["ops"])}')
        for g in ex.gate_failures[:5]:
            print('note: not reproducible: ' + g)
        print(f'{prop} {tier}: {s.get("runs", 0)} runs, {len(ex.logs)} distinct, {s.get("faulty_runs", 0)} with faults, {s.get("ops", 0)} operations in {ex.wall:.0f}s (+{bld.t:.0f}s build)')
        if ex.found:
            f = ex.found
            print(f'{f["container"]}: {f["class"]}: {f["msg"]} after {" ".join(f["ops"])}')
            print(f'VIOLATION property={prop} replay={f["replay"]}')
            return 1
        if ex.errors:
            print('internal error: ' + '; '.join(ex.errors))
            return 2
        if ex.gate_failures and not ex.foreign:
            return 3
        return 0
    finally:
        bld.close()


# ------------------------------------------------------------------ C13, C14: several threads
REAL_RACE = ['all tpp container headers in /repo/tpp compiled unmodified', 'operating system threads, one runs at a time', 'std::mutex, std::call_once, function-local statics, atomics: real objects, blocking simulated']
STUB_RACE = ['thread scheduler (seeded baton)', 'allocator and operator new (simulated memory)', 'thread sanitizer runtime (replaced by the happens-before checker in race/rt.cpp)', 'hash function', 'key comparison', 'key and mapped types']


def race_check(prop, tier, seed, t0):
    scale = float(os.environ.get('TPP_TIME_SCALE', '1'))
    configs, seconds = (('R', 'S'), 30) if tier == 'quick' else (('R', 'S', 'T', 'V'), 540)
    bld = Build()
    try:
        bins = bld.build([(c, 0, ALL) for c in configs])
        if not bins:
            print('error: nothing builds')
            return 2
        ex = Explorer(prop, prop, seed, bld.dir)
        for n, c in enumerate(configs):
            if (c, 0) in bins:
                b, cs = bins[(c, 0)]
                ex.explore(f'{c}0', b, cs, seed * 1000 + n, max(4, seconds * scale / len(configs)))
        (c, p), (b, cs) = next(iter(bins.items()))
        samples = [run_sim([b, 'gen', '--profile', prop, '--seed', str(seed * 1000), '--index', str(i), '--conts', ','.join(cs)], 60)[1].splitlines() for i in (0, 1)]
        s = ex.stats
        hours = max(ex.wall, 1e-3) / 3600
        cov = {'evaluations': s.get('runs', 0), 'distinct_nontrivial': len(ex.logs),
               'rule': 'One evaluation is one simulated run: a seeded single-threaded history over eight containers, then 2-4 threads with seeded operations, interleaved at memory accesses by the seeded '
                       'scheduler; then the same operations with the threads one after the other' + (' and taking turns on one thread' if prop == 'C14' else '') + ', whose results must be equal. '
                       'Non-trivial: at least one preemption inside the concurrent phase. Distinct: different hash of schedule (thread and number of accesses of every segment) and results.',
               'samples': samples, 'runs_per_hour': int(s.get('runs', 0) / hours), 'seeds_per_hour': int(s.get('runs', 0) / hours), 'exploration_wall_s': round(ex.wall, 2), 'build_wall_s': round(bld.t, 2),
               'simulated_time': {'operations': s.get('ops', 0), 'memory_accesses_in_the_concurrent_phase': s.get('steps', 0), 'longest_run_accesses': s.get('max_op_steps', 0)},
               'runs_with_faults_fired': s.get('faulty_runs', 0), 'faults': {k: {'points_reached': v[0], 'injected': v[1]} for k, v in s.get('faults', {}).items()},
               'allocations': s.get('allocs', 0), 'interleaving_points_reached': s.get('states', 0),
               'interleaving_measure': 'distinct pairs (access site where a thread was stopped, access site where the next one continued), hashed to 20 bits; largest single worker. Distinct schedules: distinct_nontrivial',
               'access_sites_hashed': s.get('edges', 0), 'operations': {k: v[0] for k, v in s.get('opcounts', {}).items() if v[0]},
               'runs_per_configuration': {config_name(split_label(k)): v for k, v in ex.per_config.items()}, 'runs_per_container': s.get('conts', {}),
               'real_components': REAL_RACE, 'stub_components': STUB_RACE, 'units_not_compiling': bld.failed,
               'violations_of_other_properties_seen': ex.foreign[:20], 'gate_failures': ex.gate_failures[:20]}
        write_evidence(prop, tier, seed, cov, t0, 1 if ex.found else 0,
                       ['element moves, destructors and swaps do not throw', 'hash, equality and allocator are themselves thread-safe', 'atomics are treated as sequentially consistent; fences order nothing by themselves',
                        'sampling: a clean batch is evidence, not proof'])
        for f in ex.foreign[:5]:
            print(f'note: a violation outside {prop}: {f["container"]} {f["class"]}: {f["msg"]} ops {" ".join(f["ops"])}')
        for g in ex.gate_failures[:5]:
            print('note: not reproducible: ' + g)
        print(f'{prop} {tier}: {s.get("runs", 0)} runs, {len(ex.logs)} distinct interleavings, {s.get("faulty_runs", 0)} with faults, {s.get("steps", 0)} interleaved accesses in {ex.wall:.0f}s (+{bld.t:.0f}s build)')
        if ex.found:
            f = ex.found
            print(f'{f["container"]}: {f["class"]}: {f["msg"]} after {" ".join(f["ops"])}')
            print(f'VIOLATION property={prop} replay={f["replay"]}')
            return 1
        return 3 if ex.gate_failures and not ex.foreign else 0
    finally:
        bld.close()


# ------------------------------------------------------------------ C15: the same runs in several builds
DIFF_PROFILE = 'C15'


class Lockstep:
    """Runs the same seeds in several builds and compares the API-level logs of every run."""

    def __init__(self, bins, seed, work, conts):
        self.bins, self.seed, self.work, self.conts = bins, seed, work, ','.join(conts)
        self.stats = Explorer('C15', DIFF_PROFILE, seed, work)
        self.compared = 0
        self.logs = set()

    def run_block(self, key, lo, hi, t_end):
        """{index: (container, api hash or ('bad', class))} of the runs lo <= i < hi in one build"""
        res = {}
        per = 2 if len(self.bins) <= 4 else 1

        def worker(w):
            start, n = lo, 0
            while start < hi and n < 200:
                tag = f'{key[0]}{key[1]}-{w}-{lo}-{n}'
                n += 1
                st, out, hs = (os.path.join(self.work, f'{x}.{tag}') for x in ('st', 'out', 'hs'))
                left = max(1.0, t_end - time.time())
                p = subprocess.Popen([self.bins[key][0], 'batch', '--profile', DIFF_PROFILE, '--seed', str(self.seed), '--worker', str(w), '--workers', str(per), '--start', str(start),
                                      '--max', str(hi), '--time', f'{left:.2f}', '--status', st, '--out', out, '--hashes', hs, '--conts', self.conts],
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                try:
                    p.wait(left + 60)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                lines = open(hs).read().split('\n')[:-1] if os.path.exists(hs) else []
                for l in lines:
                    f = l.split()
                    if len(f) == 4:
                        res[int(f[0])] = (f[1], f[3])
                if p.returncode == 0:
                    with self.stats.lock:
                        self.stats.merge(json.load(open(out)), f'{key[0]}{key[1]}')
                    break
                raw = open(st, 'rb').read()
                ri = struct.unpack('QQii', raw[:24])[1]
                res[ri] = ('?', 'bad')
                start = max(ri, start) + 1
            for f in os.listdir(self.work):
                if f.split('.')[0] in ('st', 'out', 'hs') and f'.{key[0]}{key[1]}-{w}-{lo}-' in f:
                    os.unlink(os.path.join(self.work, f))
        ths = [threading.Thread(target=worker, args=(w,)) for w in range(per)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return res

    def explore(self, seconds, block=400):
        """Returns (index, {build: result}) of the first run on which the builds disagree, or None."""
        t0 = time.time()
        t_end = t0 + seconds
        lo, diffs = 0, []
        while time.time() < t_end and not diffs:
            hi = lo + block
            tb = time.time()
            with ThreadPoolExecutor(len(self.bins)) as ex:
                rs = dict(zip(self.bins, ex.map(lambda k: self.run_block(k, lo, hi, t_end + 2), self.bins)))
            common = set.intersection(*[set(r) for r in rs.values()])
            for i in sorted(common):
                v = {k: r[i] for k, r in rs.items()}
                self.compared += 1
                ok = {x[1] for x in v.values()}
                self.logs.add(next(iter(ok)))
                if len(ok) > 1:
                    diffs.append((i, v))
            lo = hi
            if time.time() - tb < 2:
                block *= 2
        self.stats.wall += time.time() - t0
        return diffs


def verdict_of(v):
    return ('bad', v['cls']) if v['bad'] else ('held', str(v['api']))


def disagree(ba, bb, path):
    """Do two builds observably disagree on a trace?  (None: they agree)"""
    a, b = replay(ba, path), replay(bb, path)
    if a['cls'] == 'timeout' or b['cls'] == 'timeout':
        return None
    if a['bad'] and b['bad']:
        return None
    if a['bad'] != b['bad'] or a['api'] != b['api']:
        return a, b
    return None


def diff_minimise(ba, bb, text, work, budget=260):
    """Delta-debugs the operations (then their faults) of a trace on which two builds disagree."""
    lines = text.splitlines()
    head = [l for l in lines if not l.startswith('op ')]
    ops = [l for l in lines if l.startswith('op ')]
    path = os.path.join(work, 'min.trace')
    left = [budget]

    def bad(o, h=None):
        if left[0] <= 0:
            return False
        left[0] -= 1
        open(path, 'w').write('\n'.join((h or head) + o) + '\n')
        return disagree(ba, bb, path) is not None
    chunk = max(1, len(ops) // 2)
    while True:
        i, any_ = 0, False
        while i < len(ops):
            cand = ops[:i] + ops[i + chunk:]
            if bad(cand):
                ops, any_ = cand, True
            else:
                i += chunk
        if left[0] <= 0 or (chunk == 1 and not any_):
            break
        chunk = max(1, chunk // 2)
    for i in range(len(ops)):
        if ' fk=0' not in ops[i]:
            cand = ops[:i] + [re.sub(r' fk=\d+ fn=\d+', ' fk=0 fn=0', ops[i])] + ops[i + 1:]
            if bad(cand):
                ops = cand
    for a, b in ((r'hash_mode=\d+', 'hash_mode=1'), (r'heap_mode=\d+', 'heap_mode=0'), (r'junk=\d+', 'junk=0'), (r'salts=\d+', 'salts=0'), (r'nres=\d+', 'nres=1')):
        h = [re.sub(a, b, l) if l.startswith('env') else l for l in head]
        if h != head and bad(ops, h):
            head = h
    return '\n'.join(head + ops) + '\n'


def config_name(k):
    return f'{k[0]}{k[1]}: ' + ' '.join(CONFIGS[k[0]]) + f' allocator policy {k[1]}'


def lockstep_check(prop, tier, seed, t0):
    scale = float(os.environ.get('TPP_TIME_SCALE', '1'))
    if tier == 'quick':
        configs, seconds = [(c, 0) for c in 'IBCJNMU'], 24
    else:
        configs, seconds = [(c, 0) for c in 'IBCJNMUPDEGHQ'], 480
    bld = Build()
    found, foreign, gate = None, [], []
    try:
        bins = bld.build([(c, p, ALL) for c, p in configs])
        # a container that one configuration compiles and another does not
        missing = {}
        # A pretended target that does not compile says nothing by itself: the emulation may lack something a real compiler has.
        drop = {f[0] for f in bld.failed if f[0] in 'MUP'}
        if any(f[0] in 'NQ' for f in bld.failed) and neon_probe():
            drop |= set('NQ')
        if drop:
            print('note: not compared, because the emulation lacks something: ' + ' '.join(sorted(drop)))
            bins = {k: b for k, b in bins.items() if k[0] not in drop}
            bld.failed = [f for f in bld.failed if f[0] not in drop]
            configs = [k for k in configs if k[0] not in drop]
        for k in configs:
            for c in ALL:
                if f'{k[0]}{k[1]}:{c}' in bld.failed:
                    missing.setdefault(c, []).append(k)
        for c, ks in missing.items():
            if len(ks) < len(configs):
                k2 = [k for k in configs if k not in ks][0]
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                path = os.path.join(VERIF, 'replays', f'C15-compile-{c}-{ks[0][0]}.trace')
                open(path, 'w').write(f'# property: C15\n# compile: {c}\n# config: {ks[0][0]} {ks[0][1]}\n# other: {k2[0]} {k2[1]}\n')
                found = {'replay': path, 'text': f'{c} compiles in configuration {config_name(k2)} but not in {config_name(ks[0])}'}
        if not bins or any(f.endswith((':core', ':driver')) for f in bld.failed):
            print('error: nothing builds')
            return 2
        conts = [c for c in ALL if c not in missing]
        ls = None
        blocks, t_end, tried = 0, time.time() + seconds * scale, 0
        ls = Lockstep(bins, seed * 1000, bld.dir, conts)
        while not found and time.time() < t_end and blocks < 40:
            ls.seed = seed * 1000 + blocks
            blocks += 1
            for i, v in ls.explore(t_end - time.time()):
                keys = list(v)
                if tried >= 6:
                    break
                a, b = next((x, y) for x in keys for y in keys if v[x][1] != v[y][1])
                text = run_sim([bins[a][0], 'gen', '--profile', DIFF_PROFILE, '--seed', str(ls.seed), '--index', str(i), '--conts', ','.join(conts)], 60)[1]
                path = os.path.join(bld.dir, f'diff-{i}.trace')
                open(path, 'w').write(text)
                d = disagree(bins[a][0], bins[b][0], path)
                if not d:
                    gate.append(f'seed {ls.seed} index {i}: {a} {v[a]} versus {b} {v[b]} agree when replayed')
                    continue
                tried += 1
                m = diff_minimise(bins[a][0], bins[b][0], text, bld.dir)
                open(path, 'w').write(m)
                d = disagree(bins[a][0], bins[b][0], path)
                d2 = disagree(bins[a][0], bins[b][0], path)
                if not d or (verdict_of(d[0]), verdict_of(d[1])) != (verdict_of(d2[0]), verdict_of(d2[1])):
                    gate.append(f'seed {ls.seed} index {i}: the minimised trace is not reproducible')
                    continue
                t = TraceInfo(m)
                os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
                final = os.path.join(VERIF, 'replays', f'C15-{a[0]}{a[1]}-{b[0]}{b[1]}-{ls.seed}-{i}.trace')
                what = ' / '.join(f'{k[0]}{k[1]} ' + (f'{x["cls"]}: {x["msg"]}' if x['bad'] else f'log {x["api"]}') for k, x in zip((a, b), d))
                open(final, 'w').write(m + f'# config: {a[0]} {a[1]}\n# other: {b[0]} {b[1]}\n# property: C15\n# found: profile {DIFF_PROFILE} seed {ls.seed} index {i}\n# {what}\n')
                found = {'replay': final, 'text': f'{t.cont}: builds disagree after {" ".join(o for o, _ in t.ops)}: {what}'}
                break
            if tried >= 6:
                break
        s = ls.stats.stats
        hours = max(ls.stats.wall, 1e-3) / 3600
        samples = [run_sim([next(iter(bins.values()))[0], 'gen', '--profile', DIFF_PROFILE, '--seed', str(seed * 1000), '--index', str(i), '--conts', ','.join(conts)], 60)[1].splitlines() for i in (0, 1)]
        cov = {'evaluations': ls.compared, 'distinct_nontrivial': len(ls.logs),
               'rule': 'One evaluation is one seeded history (operations, environment, element-copy faults, exhaustion) executed by every listed build and compared: return values, exceptions, sizes, '
                       'contents, order of ordered containers after every operation. Distinct: different API-level log.',
               'samples': samples, 'runs_per_hour': int(s.get('runs', 0) / hours), 'seeds_per_hour': int(ls.compared / hours),
               'exploration_wall_s': round(ls.stats.wall, 2), 'build_wall_s': round(bld.t, 2),
               'simulated_time': {'operations': s.get('ops', 0), 'instrumented_steps': s.get('steps', 0), 'longest_operation_steps': s.get('max_op_steps', 0)},
               'runs_with_faults_fired': s.get('faulty_runs', 0), 'faults': {k: {'points_reached': v[0], 'injected': v[1]} for k, v in s.get('faults', {}).items()},
               'allocations_refused_while_exhausted': s.get('exhausted_hits', 0), 'allocations': s.get('allocs', 0),
               'container_states_reached': s.get('states', 0), 'state_measure': 'distinct hashes (22 bits) of key contents, bucket counts and node handles after each operation; largest single worker',
               'operations': {k: v[0] for k, v in s.get('opcounts', {}).items() if v[0]},
               'runs_per_configuration': {config_name(split_label(k)): v for k, v in ls.stats.per_config.items()}, 'runs_per_container': s.get('conts', {}),
               'real_components': REAL, 'stub_components': STUB + STUB15, 'units_not_compiling': bld.failed, 'gate_failures': gate[:20]}
        write_evidence(prop, tier, seed, cov, t0, 1 if found else 0)
        for g in gate[:5]:
            print('note: not reproducible: ' + g)
        print(f'{prop} {tier}: {ls.compared} histories in {len(bins)} builds, {len(ls.logs)} distinct, {s.get("faulty_runs", 0)} runs with faults in {ls.stats.wall:.0f}s (+{bld.t:.0f}s build)')
        if found:
            print(found['text'])
            print(f'VIOLATION property={prop} replay={found["replay"]}')
            return 1
        return 3 if gate else 0
    finally:
        bld.close()


STUB15 = ['NEON instructions (scalar emulation in sim/arch/neon)', 'MSVC intrinsics (sim/arch/msvc)', 'predefined macros of other compilers and processors']


def neon_probe():
    """Does clang compile the library for a real NEON target?"""
    a = os.path.join(SIM, 'arch', 'a64')
    inc = []
    for v in ('13', '14', '12'):
        if os.path.isdir('/usr/include/c++/' + v):
            inc = ['-isystem', f'/usr/include/x86_64-linux-gnu/c++/{v}', '-isystem', f'/usr/include/c++/{v}', '-isystem', '/usr/include/x86_64-linux-gnu']
            break
    p = subprocess.run(['clang++', '--target=aarch64-linux-gnu', '-std=c++17', '-I' + a] + inc + ['-I' + REPO, '-fsyntax-only', '-w', os.path.join(a, 'probe.cpp')],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p.returncode == 0


def replay_pair(path, text):
    """A replay file that names two builds: they must agree."""
    a = re.search(r'^# config: (\w) (\d+)', text, re.M)
    b = re.search(r'^# other: (\w) (\d+)', text, re.M)
    a, b = (a.group(1), int(a.group(2))), (b.group(1), int(b.group(2)))
    comp = re.search(r'^# compile: (\S+)', text, re.M)
    c = comp.group(1) if comp else base_name(TraceInfo(text).cont)
    bld = Build()
    try:
        bins = bld.build([(a[0], a[1], [c]), (b[0], b[1], [c])])
        if comp or len(bins) < 2:
            bad = len(bins) == 1
            print(f'{c} compiles in: {" ".join(k[0] + str(k[1]) for k in bins)}')
        else:
            d = disagree(bins[a][0], bins[b][0], path)
            bad = d is not None
            for k in (a, b):
                print(f'--- {config_name(k)}')
                print(run_sim([bins[k][0], 'replay', os.path.abspath(path), '--v', '1'], 120)[1][-3000:])
                print(json.dumps(replay(bins[k][0], path)))
        if bad:
            print(f'VIOLATION property=C15 replay={path}')
            return 1
        return 0
    finally:
        bld.close()


def replay_cmd(path):
    text = open(path).read()
    if re.search(r'^# other:', text, re.M):
        return replay_pair(path, text)
    m = re.search(r'^# config: (\w) (\d+)', text, re.M)
    if not m:
        print('no "# config:" line in the replay file')
        return 2
    prop = re.search(r'^# property: (\S+)', text, re.M)
    cfg, pol = m.group(1), int(m.group(2))
    bld = Build()
    try:
        bins = bld.build([(cfg, pol, [base_name(TraceInfo(text).cont)])])
        if not bins:
            return 2
        b = bins[(cfg, pol)][0]
        rc, out = run_sim([b, 'replay', os.path.abspath(path), '--v', '1'], 120)
        print(out[-6000:])
        v = replay(b, path)
        print(json.dumps(v))
        want = re.search(r'^expect class=(\S+) op=(-?\d+)', text, re.M)
        if want:
            print('reproduces exactly' if v['bad'] and (v['cls'], str(v['op'])) == want.groups() else 'differs from the recorded violation')
        if v['bad']:
            print(f'VIOLATION property={prop.group(1) if prop else "?"} replay={path}')
            return 1
        return 0
    finally:
        bld.close()


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == 'replay':
        return replay_cmd(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    print(f'seed {seed}', flush=True)
    t0 = time.time()
    if prop in ('C13', 'C14'):
        return race_check(prop, tier, seed, t0)
    if prop == 'C15':
        return lockstep_check(prop, tier, seed, t0)
    return history_check(prop, tier, seed, t0)


if __name__ == '__main__':
    sys.exit(main())
