#!/usr/bin/env python3
"""check.py PROPERTY            decides the property (tier from VERIF_TIER)
check.py --replay FILE        executes a replay file in a fresh process
"""
import json
import os
import selectors
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PYTHON = '/opt/venv/bin/python'
REPLAYS = os.path.join(ROOT, 'evidence', 'replays')
KNOWN = os.path.join(ROOT, 'known_findings.jsonl')

# simulated runs per tier: fixed work, so that a seed is one exploration
RUNS = {
    'C01': 2000, 'C02': 2000, 'C03': 2000, 'C04': 1800, 'C05': 1200,
    'C06': 1200, 'C07': 700, 'C08': 2200, 'C09': 1600, 'C10': 1400,
    'C11': 900, 'C12': 700,
}
QUICK_BUDGET_S = 420.
THOROUGH_BUDGET_S = 780.

REAL = ['orient.planar and all of orient.core (every instruction)',
        'ground contexts and geometries (kernels: exact, plain, robust)',
        'dendroid red-black trees, prioq priority queues',
        'CPython interpreter, its collector and its threads']
STUBS = ['thread scheduling: real threads parked on gates, one runs at a '
         'time, chosen by the scenario',
         'locks, conditions, semaphores: waiting decided by the simulator',
         'clocks, sleeping, random state, entropy, process id: simulated',
         'contexts, geometries, points and sequences: subclasses of the real '
         'ones with observation and fault points']


def environment(hashseed='0'):
    result = dict(os.environ)
    result.update(PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1')
    result.pop('PYTHONPATH', None)
    if os.environ.get('DST_SCRATCH_COPY'):
        # development only: the code under test is a scratch copy of /repo
        result['PYTHONPATH'] = os.environ['DST_SCRATCH_COPY']
    return result


def replay(path, hashseed='0', timeout=400):
    """Violations the replay file reproduces in a fresh process."""
    process = subprocess.run([PYTHON, '-m', 'dst.worker', '--replay', path],
                             cwd=ROOT, env=environment(hashseed),
                             stdout=subprocess.PIPE, timeout=timeout)
    lines = process.stdout.decode().strip().splitlines()
    if process.returncode or not lines:
        return None
    return json.loads(lines[-1])


def known_findings(prop):
    """(signature, description) of recorded, unrepaired findings."""
    result = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as file:
            for line in file:
                line = line.strip()
                if line:
                    entry = json.loads(line)
                    if (entry.get('property') == prop
                            and entry.get('status') == 'known'):
                        result.append(entry)
    return result


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.workers = int(os.environ.get('VERIF_WORKERS',
                                          os.cpu_count() or 4))
        self.processes = {}
        self.stats, self.digests, self.samples = {}, set(), []
        self.errors, self.unreproduced = [], []
        self.finished = 0

    def launch(self):
        if self.tier == 'quick':
            runs, budget = RUNS[self.prop], QUICK_BUDGET_S
            minimum = 30
        else:
            runs, budget, minimum = 10 ** 9, THOROUGH_BUDGET_S, 30
        runs = int(os.environ.get('VERIF_RUNS', runs))
        budget = float(os.environ.get('VERIF_BUDGET_S', budget))
        self.selector = selectors.DefaultSelector()
        for number in range(self.workers):
            count = len(range(number, runs, self.workers))
            process = subprocess.Popen(
                    [PYTHON, '-m', 'dst.worker', self.prop, str(self.seed),
                     str(number), str(self.workers), str(count), str(budget),
                     str(minimum)],
                    cwd=ROOT, env=environment(), stdout=subprocess.PIPE,
                    start_new_session=True)
            self.processes[number] = process
            self.selector.register(process.stdout, selectors.EVENT_READ,
                                   number)
            os.set_blocking(process.stdout.fileno(), False)

    def kill(self):
        import signal
        for process in self.processes.values():
            try:
                os.killpg(process.pid, signal.SIGKILL)
            except OSError:
                pass
            process.wait()

    def messages(self, quiet_limit=400.):
        buffers = {number: b'' for number in self.processes}
        heard = {number: time.monotonic() for number in self.processes}
        running = set(self.processes)
        while running:
            for key, _ in self.selector.select(1.):
                number = key.data
                data = key.fileobj.read()
                if data is None:
                    continue
                heard[number] = time.monotonic()
                if not data:
                    self.selector.unregister(key.fileobj)
                    running.discard(number)
                    code = self.processes[number].wait()
                    if code:
                        self.errors.append('worker %d: exit status %s'
                                           % (number, code))
                    continue
                buffers[number] += data
                *lines, buffers[number] = buffers[number].split(b'\n')
                for line in lines:
                    start = time.monotonic()
                    yield number, json.loads(line)
                    spent = time.monotonic() - start
                    for other in heard:
                        heard[other] += spent
            for number in list(running):
                if time.monotonic() - heard[number] > quiet_limit:
                    self.errors.append('worker %d: silent' % number)
                    return

    def add(self, message):
        self.finished += 1
        for name, value in message['stats'].items():
            if isinstance(value, dict):
                total = self.stats.setdefault(name, {})
                for key, amount in value.items():
                    total[key] = total.get(key, 0) + amount
            else:
                self.stats[name] = self.stats.get(name, 0) + value
        self.digests.update(message['digests'])
        self.samples += message['samples']

    def confirm(self, message):
        """Path of the replay file, if a fresh process reproduces it."""
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d-%d.json'
                            % (self.prop, self.seed, message['index']))
        for scenario in (message['scenario'], message['original']):
            data = {'property': self.prop, 'seed': [self.seed,
                                                    message['index']],
                    'violations': message['violation'],
                    'scenario': scenario}
            with open(path, 'w') as file:
                json.dump(data, file, indent=1)
            for _ in range(2):
                try:
                    result = replay(path)
                except subprocess.TimeoutExpired:
                    result = None
                if result and result['violations']:
                    data['violations'] = result['violations']
                    data['trace'] = result['trace']
                    data['digest'] = result['digest']
                    with open(path, 'w') as file:
                        json.dump(data, file, indent=1)
                    return path, result['violations']
        return None, None

    def run(self):
        begin = time.monotonic()
        known = known_findings(self.prop)
        self.launch()
        found = None
        try:
            for number, message in self.messages():
                if 'error' in message:
                    self.errors.append(message['error'])
                elif 'stats' in message:
                    self.add(message)
                elif 'violation' in message:
                    path, violations = self.confirm(message)
                    if path is None:
                        self.unreproduced.append(message['index'])
                        self.errors.append(
                                'violation at index %d did not replay: %s'
                                % (message['index'], message['violation']))
                    else:
                        found = path, violations
                        break
        finally:
            self.kill()
        wall = time.monotonic() - begin
        self.write_evidence(wall, found)
        for entry in known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop,
                                                     entry['what']))
        if found is not None:
            path, violations = found
            for violation in violations[:3]:
                print('  %s: %s' % (violation['kind'], violation['detail']))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.errors or self.finished < len(self.processes):
            for error in self.errors:
                print('ERROR', error, file=sys.stderr)
            return 2
        runs = self.stats['runs']
        if not runs or self.stats['bad_solos'] > max(3, runs // 20):
            print('ERROR nothing explored or reference executions fail: %s'
                  % {key: self.stats[key] for key in ('runs', 'bad_solos',
                                                      'empty')},
                  file=sys.stderr)
            return 2
        print('%s held: %d simulated runs, %d distinct, %d instructions of '
              'the code under test, faults fired: %s'
              % (self.prop, runs, len(self.digests), self.stats['steps'],
                 self.stats['fired']))
        return 0

    def write_evidence(self, wall, found):
        stats = self.stats
        runs = stats.get('runs', 0)
        hours = max(wall, 1e-9) / 3600
        data = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed,
            'level': 'exploration', 'wall_s': round(wall, 2),
            'violations': 0 if found is None else 1,
            'coverage': {
                'evaluations': runs,
                'distinct_nontrivial': len(self.digests),
                'rule': 'A case is one simulated run: a seeded scenario '
                        '(callers, geometries, contexts, schedule, faults) '
                        'executed in a fresh process and judged against '
                        'reference executions. Distinct: different digest of '
                        'the ordered log of scheduling decisions, fired '
                        'faults and answers. Non-trivial: at least one '
                        'scheduling decision or fault fired inside a query '
                        '(C06, C07: a history of several queries).',
                'samples': self.samples[:6],
                'simulated_runs_per_hour': round(runs / hours),
                'seeds_per_hour': round(runs / hours),
                'simulated_time': '%d instructions of the code under test '
                                  '(the clock of the simulation) in '
                                  'simulated runs, %d in reference '
                                  'executions'
                                  % (stats.get('steps', 0),
                                     stats.get('reference_steps', 0)),
                'simulated_instructions': stats.get('steps', 0),
                'queries_judged': stats.get('queries', 0),
                'reference_executions': stats.get('solos', 0),
                'faults_fired': stats.get('fired', {}),
                'context_switches_inside_queries': stats.get('switches', 0),
                'distinct_interleavings': len(self.digests),
                'distinct_measure': 'digests of ordered event logs',
                'queries_by_function': stats.get('functions', {}),
                'answers_seen': stats.get('outcomes', {}),
                'components_real': REAL, 'components_stubbed': STUBS,
                'exhaustive': False,
            },
            'assumptions': [
                'threads are preempted between bytecode instructions (CPython '
                'with its global lock)',
                'a query executed alone in a pristine process of the same '
                'tree is the reference'],
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w') as file:
            json.dump(data, file, indent=1)
        os.replace(path + '.tmp', path)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        with open(sys.argv[2]) as file:
            prop = json.load(file)['property']
        result = replay(os.path.abspath(sys.argv[2]))
        if result is None:
            return 2
        print(json.dumps(result, indent=1))
        if result['violations']:
            print('VIOLATION property=%s replay=%s' % (prop, sys.argv[2]))
            return 1
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in RUNS:
        print(__doc__, file=sys.stderr)
        return 2
    return Check(sys.argv[1]).run()


if __name__ == '__main__':
    sys.exit(main())
