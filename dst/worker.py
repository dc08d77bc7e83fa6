"""Zygote process: plans, executes, judges and minimises simulated runs."""
import copy
import gc
import json
import os
import subprocess
import sys
from random import Random

from . import engine as _engine
from . import gen, geo, hot, judge, runner
from .seams import raw

CORPUS_SIZE = 40
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Tools:
    """What planning and judging need of the code under test."""

    def __init__(self, prop, seed=1):
        self.prop, self.seed = prop, seed
        self.names = _engine.query_names()
        self.memo = {}
        self.solos = 0
        self.bad_solos = 0
        self.scouted = 0
        self.reference_steps = 0
        self.siblings = {}
        self.hot = {site for site, tags in hot.find(_engine.all_codes).items()
                    if tags.intersection(hot.TAGS[prop])}
        self.hot_lines = {site.rsplit('+', 1)[0] for site in self.hot}
        self.corpora, self.entered = {}, {}
        self.reaching = None

    # where faults and switches are worth most, and arguments leading there

    def corpus(self, fn):
        """Hot lines to arguments with which the function executes them."""
        # all of them at once: plans do not depend on what was planned before
        self.hot_functions()
        return self.corpora[fn]

    def start_corpus(self, fn):
        self.entered[fn] = set()
        self.extend_corpus(fn, 0)

    def extend_corpus(self, fn, number):
        rng = Random('corpus:%s:%s:%d' % (self.seed, fn, number))
        pairs = [geo.Pool(rng).pair(*fn.split('_in_'))
                 for _ in range(CORPUS_SIZE)]
        found = runner.scout(fn, pairs, 120.)
        if not isinstance(found, list):
            return
        self.scouted += len(pairs)
        result = self.corpora[fn]
        for pair, lines in zip(pairs, found):
            self.entered[fn].update(line.rsplit(':', 1)[0]
                                    for line in lines or ())
            for line in sorted(self.hot_lines.intersection(lines or ())):
                known = result.setdefault(line, [])
                if len(known) < CORPUS_SIZE:
                    known.append(pair)

    def hot_functions(self):
        """Hot lines to functions which execute them."""
        if self.reaching is None:
            self.reaching = {}
            self.corpora = {fn: {} for fn in self.names}
            if self.hot_lines:
                for fn in self.names:
                    self.start_corpus(fn)
                for number in range(1, 8):
                    # seldom reached lines of functions which are reached
                    for fn in self.names:
                        wanted = {line.rsplit(':', 1)[0]
                                  for line in self.hot_lines
                                  if sum(len(corpus.get(line, ()))
                                         for corpus in self.corpora.values()
                                         ) < 6}
                        if wanted & self.entered[fn]:
                            self.extend_corpus(fn, number)
                budget = self.scouted + 1500
                for number in range(8, 40):
                    # more of what was hard to find
                    for fn in self.names:
                        if self.scouted < budget and any(
                                sum(len(corpus.get(line, ()))
                                    for corpus in self.corpora.values()) < 24
                                for line in self.corpora[fn]):
                            self.extend_corpus(fn, number)
                for fn in self.names:
                    for line in sorted(self.corpora[fn]):
                        self.reaching.setdefault(line, []).append(fn)
        return self.reaching

    def clear(self):
        self.memo.clear()

    def solo(self, fn, literals, spec, explicit, universe, sites=False):
        key = judge.solo_key({'op': fn, 'lits': literals, 'spec': spec,
                              'explicit': explicit}, universe)
        if key in self.memo:
            result = self.memo[key]
            if result is None or not sites or 'sites' in result:
                return result
        scenario = {'contexts': [spec], 'universe': universe}
        op = {'q': fn, 'a': list(range(len(literals))),
              'c': 0 if explicit else None}
        result = runner.run_solo(runner.solo_scenario(scenario, op, literals,
                                                      0), sites)
        self.solos += 1
        if 'hang' in result or 'blocked' in result or 'crash' in result:
            self.bad_solos += 1
            result = None
        elif any(event['kind'] == 'harness' for event in result['events']):
            raise judge.HarnessError(str(result['events']))
        elif result['outcome'][1] == 'StepCap':
            result = None
        else:
            self.reference_steps += result['steps']
        self.memo[key] = result
        return result

    def rarest(self, fn, pairs):
        """Index of the pair whose query executes the least common lines,
        those lines, and indices of other pairs whose queries execute some of
        them."""
        result = runner.scout(fn, pairs)
        if not isinstance(result, list):
            return 0, set(), []
        self.scouted += len(pairs)
        counts = {}
        for lines in result:
            for line in lines or ():
                counts[line] = counts.get(line, 0) + 1
        scores = [sum(counts[line] ** -2 for line in lines) if lines else -1.
                  for lines in result]
        best = max(range(len(scores)), key=scores.__getitem__)
        rare = {line for line in result[best] or ()
                if counts[line] * 4 <= len(pairs)}
        shared = [len(rare.intersection(lines or ())) for lines in result]
        kin = sorted((index for index in range(len(pairs))
                      if index != best and shared[index]),
                     key=lambda index: -shared[index])
        return best, rare, kin[:2]

    def solo_of(self, scenario):
        universe = scenario.get('universe', {})

        def solo(record):
            return self.solo(record['op'], record['lits'], record['spec'],
                             record['explicit'], universe)
        return solo

    def hashseeds(self, rng, index):
        # few for each worker: another process serves each of them
        return rng.sample(range(1 + index % 8 * 4, 5 + index % 8 * 4), 2)

    def sibling(self, hashseed):
        """Process with another hash seed answering single queries."""
        process = self.siblings.get(hashseed)
        if process is None:
            environment = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            process = self.siblings[hashseed] = subprocess.Popen(
                    [sys.executable, '-m', 'dst.worker', '--sibling'],
                    cwd=ROOT, env=environment, stdin=subprocess.PIPE,
                    stdout=subprocess.PIPE)
        return process

    def remote(self, hashseed, scenario):
        process = self.sibling(hashseed)
        process.stdin.write(json.dumps(scenario).encode() + b'\n')
        process.stdin.flush()
        line = process.stdout.readline()
        if not line:
            del self.siblings[hashseed]
            raise judge.HarnessError('sibling process died')
        return json.loads(line)

    def close(self):
        for process in self.siblings.values():
            process.stdin.close()
            process.wait()
        self.siblings = {}


def execute(scenario, tools, timeout=60.):
    """(report, violations) of a scenario."""
    prop = scenario['prop']
    if 'universes' in scenario:
        return execute_universes(scenario, tools, timeout)
    report = runner.run_scenario(scenario, timeout)
    violations = judge.judge(prop, scenario, report, tools.solo_of(scenario))
    return report, violations


def execute_universes(scenario, tools, timeout):
    """The same history in several universes, and with other hash seeds."""
    total, violations, reports = None, [], []
    for number, universe in enumerate(scenario['universes']):
        variant = {key: value for key, value in scenario.items()
                   if key not in ('universes', 'hashseeds')}
        variant['universe'] = dict(scenario['universe'],
                                   hash_salt=universe.get('hash_salt'),
                                   noise=universe.get('noise'),
                                   collector=universe.get('gc'))
        variant['knobs'] = universe.get('knobs', {})
        if universe.get('process'):
            variant['process'] = universe['process']
        report = runner.run_scenario(variant, timeout)
        found = judge.judge(scenario['prop'], scenario, report, tools.solo_of(scenario))
        for violation in found:
            violation['detail'] = ('universe %d: ' % number
                                   + violation['detail'])
        violations += found
        reports.append(report)
        if total is None:
            total = report
        elif 'fired' in report and 'fired' in total:
            for name in ('steps', 'switches'):
                total[name] += report[name]
            for name, count in report['fired'].items():
                total['fired'][name] = total['fired'].get(name, 0) + count
        if total is report and 'fired' in total:
            total['fired'] = dict(total['fired'])
        if 'fired' in report:
            for name, value in universe.items():
                if value and value != 'off' and name != 'knobs':
                    key = 'universe ' + name
                    total['fired'][key] = total['fired'].get(key, 0) + 1
            for name, value in universe.get('knobs', {}).items():
                if value is not None:
                    key = 'universe ' + name
                    total['fired'][key] = total['fired'].get(key, 0) + 1
    for hashseed in scenario.get('hashseeds', ()):
        variant = {key: value for key, value in scenario.items()
                   if key not in ('universes', 'hashseeds')}
        report = tools.remote(hashseed, variant)
        found = judge.judge(scenario['prop'], scenario, report, tools.solo_of(scenario))
        for violation in found:
            violation['detail'] = ('PYTHONHASHSEED=%s: ' % hashseed
                                   + violation['detail'])
        violations += found
        if total is not None and 'fired' in total:
            total['fired']['universe hashseed'] = total['fired'].get(
                    'universe hashseed', 0) + 1
    return total, violations


# minimisation


def size_of(scenario):
    return len(json.dumps(scenario))


def reductions(scenario):
    """Smaller scenarios, the biggest cuts first."""
    def clone():
        return copy.deepcopy(scenario)

    threads = scenario['threads']
    if len(threads) > 1:
        for number in range(len(threads)):
            if threads[number]:
                candidate = clone()
                candidate['threads'][number] = []
                yield candidate
    for number, ops in enumerate(threads):
        size = len(ops)
        chunk = size // 2
        while chunk >= 1:
            for start in range(0, size, chunk):
                candidate = clone()
                del candidate['threads'][number][start:start + chunk]
                yield candidate
            chunk //= 2

    def trigger_lists(holder):
        for ops in holder['threads']:
            for op in ops:
                yield from nested_lists(op)

    def nested_lists(op):
        if op.get('tr'):
            yield op
        for inner in inner_ops(op):
            yield from nested_lists(inner)

    def fork_lists(holder):
        for ops in holder['threads']:
            for op in ops:
                yield from inner_fork_lists(op)

    def inner_fork_lists(op):
        if op.get('fork'):
            yield op['fork']
        for action in op.get('tr', ()):
            if action['do'] == 'fork' and action['q']:
                yield action['q']
        for inner in inner_ops(op):
            yield from inner_fork_lists(inner)

    count = sum(1 for _ in trigger_lists(scenario))
    for position in range(count):
        op = list(trigger_lists(scenario))[position]
        size = len(op['tr'])
        chunk = size
        while chunk >= 1:
            for start in range(0, size, chunk):
                candidate = clone()
                target = list(trigger_lists(candidate))[position]
                del target['tr'][start:start + chunk]
                if not target['tr']:
                    del target['tr']
                yield candidate
            chunk //= 2
    for position, ops in enumerate(fork_lists(scenario)):
        for number in range(len(ops)):
            candidate = clone()
            del list(fork_lists(candidate))[position][number]
            yield candidate
    for position in range(count):
        for number, action in enumerate(
                list(trigger_lists(scenario))[position]['tr']):
            if action.get('exc') not in (None, 'Kernel'):
                candidate = clone()
                list(trigger_lists(candidate))[position]['tr'][number][
                    'exc'] = 'Kernel'
                yield candidate
    for number in range(len(scenario.get('universes', ()))):
        if len(scenario['universes']) > 1 or scenario.get('hashseeds'):
            candidate = clone()
            del candidate['universes'][number]
            yield candidate
    if scenario.get('hashseeds') and scenario.get('universes'):
        candidate = clone()
        candidate['hashseeds'] = []
        yield candidate
    for key in ('hooked', 'sequence', 'shared_points'):
        if scenario['universe'].get(key):
            candidate = clone()
            del candidate['universe'][key]
            yield candidate
    for number, spec in enumerate(scenario['contexts']):
        for key in list(spec):
            if key == 'param':
                continue
            candidate = clone()
            del candidate['contexts'][number][key]
            yield candidate
    yield from without_unused(scenario)
    for number, literal in enumerate(scenario['geoms']):
        for smaller in shrink(literal):
            candidate = clone()
            candidate['geoms'][number] = smaller
            yield candidate


def inner_ops(op):
    """Operations performed in the middle of the operation."""
    for action in op.get('tr', ()):
        if action['do'] == 'nested':
            yield action['q']
        elif action['do'] == 'fork':
            yield from action['q']
    yield from op.get('fork', ())


def shrink(literal):
    t, v = literal['t'], literal['v']

    def drop(items, least):
        for number in range(len(items)):
            if len(items) > least:
                yield items[:number] + items[number + 1:]

    if t in ('contour', 'region'):
        for value in drop(v, 3):
            yield {'t': t, 'v': value}
    elif t in ('multisegment', 'multiregion', 'multipolygon'):
        for value in drop(v, 1):
            yield {'t': t, 'v': value}
        if t == 'multiregion':
            for number, contour in enumerate(v):
                for value in drop(contour, 3):
                    yield {'t': t, 'v': v[:number] + [value]
                                        + v[number + 1:]}
        elif t == 'multipolygon':
            for number, part in enumerate(v):
                for smaller in shrink({'t': 'polygon', 'v': part}):
                    yield {'t': t, 'v': v[:number] + [smaller['v']]
                                        + v[number + 1:]}
    elif t == 'polygon':
        for holes in drop(v[1], 0):
            yield {'t': t, 'v': [v[0], holes]}
        for value in drop(v[0], 3):
            yield {'t': t, 'v': [value, v[1]]}


def without_unused(scenario):
    used = set()

    def visit(op):
        used.update(op.get('a', ()))
        for key in ('edit', 'renew'):
            if key in op:
                used.add(op[key])
        for inner in inner_ops(op):
            visit(inner)

    def rename(op):
        if 'a' in op:
            op['a'] = [numbers[index] for index in op['a']]
        for key in ('edit', 'renew'):
            if key in op:
                op[key] = numbers[op[key]]
        for inner in inner_ops(op):
            rename(inner)

    for ops in scenario['threads']:
        for op in ops:
            visit(op)
    numbers = {old: new for new, old in enumerate(sorted(used))}
    if len(numbers) == len(scenario['geoms']):
        return
    candidate = copy.deepcopy(scenario)
    for ops in candidate['threads']:
        for op in ops:
            rename(op)
    candidate['geoms'] = [candidate['geoms'][index] for index in sorted(used)]
    if 'release' in candidate:
        candidate['release'] = [
            [kind, numbers[number] if kind == 'g' else number]
            for kind, number in candidate['release']
            if kind != 'g' or number in numbers]
    yield candidate


def has_query(scenario):
    return any('q' in op or op.get('fork')
               for ops in scenario['threads'] for op in ops)


def minimise(scenario, violations, tools, seconds=45.):
    """Smallest found scenario with the same class of violation."""
    wanted = set(judge.kinds(violations))
    if wanted & {'hang', 'blocked'}:
        return scenario, violations
    deadline = raw.monotonic() + seconds
    best, best_violations = scenario, violations
    progress = True
    tried = set()
    while progress and raw.monotonic() < deadline:
        progress = False
        for candidate in reductions(best):
            if raw.monotonic() > deadline:
                break
            if not has_query(candidate):
                continue
            key = hash(json.dumps(candidate, sort_keys=True))
            if key in tried:
                continue
            tried.add(key)
            tools.clear()
            try:
                _, found = execute(candidate, tools, 30.)
            except judge.HarnessError:
                continue
            found = [violation for violation in found
                     if violation['kind'] in wanted]
            if found:
                best, best_violations = candidate, found
                progress = True
                break
    tools.clear()
    return best, best_violations


def describe(scenario, report):
    """One line about the run, for evidence."""
    queries = [op['q'] for ops in scenario['threads'] for op in ops
               if 'q' in op]
    return {'seed': scenario['seed'], 'threads': len(scenario['threads']),
            'queries': len(queries), 'first': queries[:4],
            'steps': report.get('steps'), 'fired': report.get('fired'),
            'digest': report.get('digest')}


def serve_sibling():
    start()
    for line in sys.stdin:
        scenario = json.loads(line)
        report = runner.run_scenario(scenario)
        report.pop('trace', None)
        sys.stdout.write(json.dumps(report) + '\n')
        sys.stdout.flush()


def start():
    _engine.load()
    gc.collect()
    gc.freeze()
    gc.disable()


def emit(message):
    sys.stdout.write(json.dumps(message) + '\n')
    sys.stdout.flush()


def main(prop, seed, first, stride, count, budget, minimum):
    """Runs ``first``, ``first + stride``, ... until count or time is over;
    ``minimum`` of them are executed whatever the time."""
    start()
    tools = Tools(prop, seed)
    begin = raw.monotonic()
    stats = {'runs': 0, 'fired': {}, 'steps': 0, 'switches': 0, 'queries': 0,
             'empty': 0, 'solos': 0, 'functions': {}, 'outcomes': {},
             'nontrivial': 0, 'bad_solos': 0, 'more_steps_exact': 0,
             'reference_steps': 0}
    digests = set()
    samples = []
    index = first
    last_report = begin
    for number in range(count):
        now = raw.monotonic()
        if now - begin > budget and number >= minimum:
            break
        index = first + number * stride
        tools.clear()
        try:
            scenario = gen.plan(prop, seed, index, tools)
            if scenario is None:
                stats['empty'] += 1
                continue
            report, violations = execute(scenario, tools)
        except judge.HarnessError as error:
            emit({'error': str(error)[-3000:], 'index': index})
            return
        stats['runs'] += 1
        if not violations:
            for name, amount in report['fired'].items():
                stats['fired'][name] = stats['fired'].get(name, 0) + amount
            stats['steps'] += report['steps']
            stats['switches'] += report['switches']
            stats['queries'] += len(report['records'])
            if report['fired'] or prop in ('C06', 'C07'):
                if report['digest'] not in digests:
                    digests.add(report['digest'])
                    stats['nontrivial'] += 1
            for _, record in report['records']:
                name = record['op']
                stats['functions'][name] = stats['functions'].get(name, 0) + 1
                outcome = (record['outcome'][2] if record['outcome'][0] == 'ok'
                           else record['outcome'][1])
                stats['outcomes'][outcome] = stats['outcomes'].get(outcome,
                                                                   0) + 1
            if len(samples) < 2:
                samples.append(describe(scenario, report))
        else:
            if judge.kinds(violations) in (['hang'], ['blocked'],
                                           ['crash']):
                # not decided by the simulator: make sure
                _, violations = execute(scenario, tools, 120.)
                if not violations:
                    continue
            original = scenario
            emit({'found': violations[:5], 'index': index})
            scenario, violations = minimise(scenario, violations, tools)
            emit({'violation': violations[:5], 'scenario': scenario,
                  'original': original, 'index': index})
            break
        if now - last_report > 2:
            last_report = now
            emit({'alive': stats['runs']})
    tools.close()
    stats['solos'] = tools.solos
    stats['bad_solos'] = tools.bad_solos
    stats['reference_steps'] = tools.reference_steps
    emit({'stats': stats, 'digests': sorted(digests), 'samples': samples,
          'next': index + stride})


def digests(prop, seed, indices):
    """For each index what was planned and everything recorded of it."""
    from hashlib import sha256

    def digest(value):
        return sha256(json.dumps(value, sort_keys=True, default=repr).encode()
                      ).hexdigest()[:20]

    start()
    tools = Tools(prop, seed)
    for index in indices:
        tools.clear()
        scenario = gen.plan(prop, seed, index, tools)
        report, violations = ((None, None) if scenario is None
                              else execute(scenario, tools))
        emit([index, digest(scenario), digest(report), len(violations or ())])
    tools.close()


if __name__ == '__main__':
    if sys.argv[1] == '--digests':
        digests(sys.argv[2], int(sys.argv[3]), map(int, sys.argv[4:]))
    elif sys.argv[1] == '--sibling':
        serve_sibling()
    elif sys.argv[1] == '--replay':
        start()
        with open(sys.argv[2]) as file:
            data = json.load(file)
        tools = Tools(data['property'])
        report, violations = execute(data['scenario'], tools, 120.)
        tools.close()
        emit({'violations': violations, 'digest': report.get('digest'),
              'trace': report.get('trace'),
              'steps': report.get('steps')})
    else:
        prop, seed, first, stride, count, budget, minimum = sys.argv[1:8]
        main(prop, int(seed), int(first), int(stride), int(count),
             float(budget), int(minimum))
