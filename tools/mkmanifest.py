#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HIST = 'deterministic simulation of operation histories with injected faults against a reference model (seeded search, minimised replays)'
NOTE = ('Seeded search, not proof. The real container code runs unmodified under a simulated heap, fault injector, adversarial hashes and tracked elements; '
        'every violation is gated by two fresh-process replays. Trusts the reference model, the compilers and that element moves and destructors do not throw. ')
checks = {
    'C01': 'Model comparison (find/contains/at/size/iteration/results) after every operation, on 14 containers.',
    'C02': 'Sequence model with forwards/backwards traversal and hint adjacency on the six ordered containers.',
    'C03': 'Addresses of every element compared after every operation on the four stable containers and their node handles.',
    'C04': 'Every element looked up through each of its keys after every operation on the multi-key containers.',
    'C05': 'Exact victims and visits of erase, erase ranges, erase_if and erase-while-iterating, including throwing predicates.',
    'C06': 'Copies, moves, assignments and swaps between containers with arbitrary prior histories.',
    'C07': 'Conservation of elements across node handles and merge, with faults in the middle.',
    'C08': 'Step budget per operation, bounded bucket growth under churn, reserve guarantees, cleanly failing huge requests.',
    'C09': 'A fault at the n-th callback of a single-element operation leaves the state unchanged; the repeated call succeeds.',
    'C10': 'Lifetime registry and leak ledger of elements and memory under faults in every operation.',
    'C11': 'Windows in which the allocator refuses everything.',
    'C12': 'Ownership ledger of every block per allocator; propagation traits compiled in several policies.',
    'C16': 'Arguments referring to own elements against a model with copied arguments.',
    'C19': 'Steps (instrumented edges) per lookup, insertion and erasure in containers of up to 250000 elements after random bulk histories with faults.',
    'C20': 'Arguments as const lvalues, mutable lvalues and rvalues, looked at after every call whether it succeeded, found the key or threw.',
    'C13': 'Vector-clock race detection on every access of 2-4 reader threads and comparison of their results with those of the threads alone.',
    'C14': 'The same for threads that each own containers which were copied, moved and swapped among each other before; results also compared with one thread taking turns.',
    'C15': 'The same seeded histories in 7 (quick) or 13 (thorough) builds, compared operation by operation; NEON, MSVC and unknown targets are emulated.',
    'C17': 'operator==/!= on pairs of containers with different histories against model equality.',
}
tech = {k: HIST for k in checks}
tech['C15'] = 'deterministic simulation of the same seeded histories and faults in lock-step across builds (differential, seeded search, minimised replays)'
RACE = 'deterministic simulation of thread interleavings at memory-access granularity with happens-before race detection and result comparison (seeded schedules and faults, minimised replays)'
tech['C13'] = tech['C14'] = RACE
exec(open(os.path.join(V, 'tools', 'manifest_extra.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_extra.py')) else None
m = {'version': 1, 'setup_cmd': 'true',
     'checks': [{'property': p, 'quick_cmd': f'python3 check.py {p} quick', 'thorough_cmd': f'python3 check.py {p} thorough',
                 'evidence_file': f'evidence/{p}.json', 'technique': tech[p], 'level': 'exploration', 'level_note': NOTE + checks[p]} for p in sorted(checks)],
     'not_applicable': [
         {'property': 'C18', 'reason': 'Purely a compile-time interface question: there is no schedule, fault, time or interleaving for a simulator to decide.'}]
     + [{'property': p, 'reason': 'check under construction'} for p in ('C13', 'C14', 'C15') if p not in checks],
     'notes': 'No hooks in /repo: every seam (allocator, hash, comparison, elements, predicates, build configuration) is a template parameter or macro the library already has. '
              'Commits in /repo are fixes of genuine defects only, listed in KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
