#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTES = {
    'C01': 'Seeded search over schedules: whole queries of other callers at '
           'chosen instructions of a query, mutual interruption, random '
           'interleavings of 2-4 callers; each answer equals a reference run '
           'in a pristine process.',
    'C02': 'Seeded fault injection: one error per query, at context '
           'operations (before/after), geometry reads, comparisons, hashing, '
           'arbitrary instructions, and by exhausting the stack; the very '
           'object injected must reach the caller and nothing geometric may '
           'start after it.',
    'C03': 'Seeded fault injection followed by retries and other queries, on '
           'the same thread and on threads in the middle of theirs; answers '
           'equal references, retries take no more steps.',
    'C04': 'All arguments are guarded objects; identity snapshots of '
           'their content are compared at instructions (every one for small '
           'runs, every 1-11th for larger), at every context operation and at '
           'the end, also when a fault aborts the query.',
    'C05': 'Callers with different contexts, ambient changes in the middle '
           'of queries by callbacks and other callers; every context '
           'operation must be of the bound context, ambient context watched.',
    'C06': 'Seeded histories of 6-600 queries with in-place edits, disposal '
           'and re-creation, context changes; every answer equals a pristine '
           'process\'s.',
    'C07': 'Weak references to everything callers own, live-object census, '
           'value of all module-reachable state at three marks of a history, '
           'interpreter settings; with aborted and interleaved queries.',
    'C08': 'Callers suspended indefinitely at chosen instants of their '
           'queries; the others must finish in as many own steps as alone, '
           'without waiting on simulated locks.',
    'C09': 'Queries issued inside queries from context operations, reads, '
           'comparisons and arbitrary instructions (signal handlers), up to '
           'depth three, some of them failing.',
    'C10': 'The same history in universes with other hash values of points, '
           'addresses, collector timing, clocks, random state, process ids, '
           'heap layouts and PYTHONHASHSEED.',
    'C11': 'The process is forked at chosen instants of queries, from inside '
           'one or while other threads are suspended in theirs; the child '
           'finishes the interrupted query and issues new ones, all compared '
           'with references; waiting in the child is a deadlock event.',
    'C12': 'Operations and operands are logged under random schedules, '
           'histories, aborts, nesting and incidental state, and compared '
           'with the log of a reference run (a prefix of it after an abort).',
}
TRUST = (' Sampled, not exhaustive. Trusts the simulator\'s seams, CPython\'s '
         'sys.monitoring and that preemption happens between bytecode '
         'instructions.')
PURE = ('A pure function of the arguments of one query: no schedule, clock, '
        'I/O, fault or interleaving takes part in it, so there is nothing a '
        'simulator could decide; checking it would be input generation '
        'against a geometric oracle, another family of technique. ')
REASONS = {
    'F01': PURE, 'F02': PURE, 'F03': PURE, 'F04': PURE,
    'F05': PURE + 'It relates the answers of independent pure evaluations.',
    'F06': PURE + 'It relates the answers of independent pure evaluations.',
    'F07': PURE + 'Exactness is decided inside the supplied context '
                  '(ground), on values alone.',
    'F08': PURE + 'Termination and complexity of an undisturbed query depend '
                  'on its input only; progress under schedules and faults is '
                  'C08, and guided by C03.',
}


def main():
    with open(os.path.join(ROOT, 'properties.jsonl')) as file:
        ids = [json.loads(line)['id'] for line in file if line.strip()]
    checks = [{
        'property': prop,
        'quick_cmd': 'python3 check.py ' + prop,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + prop,
        'evidence_file': 'evidence/%s.json' % prop,
        'technique': 'deterministic simulation with fault injection: seeded '
                     'search over schedules and faults, replayable and '
                     'minimised',
        'level': 'exploration',
        'level_note': NOTES[prop] + TRUST,
    } for prop in ids if prop in NOTES]
    manifest = {
        'version': 1,
        'setup_cmd': 'python3 tools/selfcheck.py',
        'checks': checks,
        'not_applicable': [{'property': prop, 'reason': REASONS[prop].strip()}
                           for prop in ids if prop not in NOTES],
        'notes': 'No hooks in /repo: every seam is an argument of the '
                 'library (contexts, geometries, points, sequences), the '
                 'interpreter (sys.monitoring) or the standard library '
                 '(locks, clocks, entropy), replaced before orient is '
                 'imported. Replay: python3 check.py --replay FILE.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
        json.dump(manifest, file, indent=1)
        file.write('\n')


main()
