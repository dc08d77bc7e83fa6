#!/usr/bin/env python3
"""Plans and executes the same simulated runs several times - in other
processes, other order, with other neighbours (worker counts) and under other
PYTHONHASHSEED - and compares everything recorded.

tools/determinism.py [RUNS per property and seed] [SEEDS]
"""
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check  # noqa: E402


def digests(task):
    prop, seed, indices, hashseed = task
    output = subprocess.run(
            [check.PYTHON, '-m', 'dst.worker', '--digests', prop, str(seed),
             *map(str, indices)], cwd=ROOT, env=check.environment(hashseed),
            stdout=subprocess.PIPE, check=True).stdout
    return prop, seed, [json.loads(line) for line in output.splitlines()]


def main(runs=40, seeds=2):
    tasks = []
    for prop in sorted(check.RUNS):
        for seed in range(1, seeds + 1):
            for workers, hashseed in ((1, '0'), (3, '0'), (2, '77')):
                for number in range(workers):
                    indices = list(range(number, runs, workers))
                    if workers == 3:
                        random.Random(seed).shuffle(indices)
                    tasks.append((prop, seed, indices, hashseed))
    seen, different, count = {}, 0, 0
    with ThreadPoolExecutor(os.cpu_count()) as pool:
        for prop, seed, rows in pool.map(digests, tasks):
            for index, *row in rows:
                count += 1
                first = seen.setdefault((prop, seed, index), row)
                if first != row:
                    different += 1
                    print('DIFFERENT', prop, seed, index, first, row)
    print('%d executions of %d simulated runs, %d differ'
          % (count, len(seen), different))
    return 1 if different else 0


if __name__ == '__main__':
    sys.exit(main(*map(int, sys.argv[1:])))
