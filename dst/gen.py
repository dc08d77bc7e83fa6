"""Seeded scenarios.

A scenario is plain JSON and decides a simulated run completely: the callers'
contexts and geometries, what every caller thread does, and at which numbered
points of which query the scheduler switches threads or a fault is injected.
``plan`` is a pure function of (property, seed, index) and the code under
test: fault points are placed using profiles of undisturbed reference runs.
"""
from bisect import bisect_left, bisect_right
from random import Random

from . import geo

KERNEL_FAULTS = ['Omni', 'OmniAttribute', 'OmniOS', 'Kernel', 'Abort',
                 'ValueError', 'KeyError', 'IndexError', 'TypeError',
                 'AttributeError', 'ZeroDivisionError', 'ArithmeticError',
                 'RuntimeError', 'AssertionError', 'OverflowError',
                 'NotImplementedError', 'LookupError', 'OSError',
                 'MemoryError', 'RecursionError', 'NameError', 'Timeout',
                 'UnicodeError', 'ImportError', 'EOFError', 'BufferError',
                 'StopAsyncIteration']
ASYNC_FAULTS = ['KeyboardInterrupt', 'MemoryError', 'Timeout', 'Omni',
                'Abort', 'SystemExit', 'Kernel', 'OmniOS', 'OmniAttribute',
                'RuntimeError', 'ValueError', 'KeyError', 'RecursionError',
                'Exception', 'BaseException', 'OSError']


def weighted(names):
    """The names, the more often the more there is to them."""
    result = []
    for name in names:
        left, right = name.split('_in_')
        result += [name] * (1 if left == 'point' or right == 'segment'
                            else (5 if name in ('polygon_in_polygon',
                                                'multiregion_in_polygon',
                                                'segment_in_multisegment',
                                                'segment_in_region')
                                  else 2))
    return result


def pick_exception(rng, on):
    names = ASYNC_FAULTS if on == 'instr' else KERNEL_FAULTS
    return (rng.choice(names[:4]) if rng.random() < .5
            else rng.choice(names))


class Builder:
    def __init__(self, rng, tools, small=None, hooked=None, weird=0.,
                 max_steps=90000):
        self.rng, self.tools = rng, tools
        self.pool = geo.Pool(rng, small)
        self.scenario = {'contexts': [], 'geoms': [], 'threads': [],
                         'ambient': 0, 'universe': {}, 'knobs': {}}
        universe = self.scenario['universe']
        universe['hooked'] = (rng.random() < .3 if hooked is None else hooked)
        roll = rng.random()
        if roll < .1:
            universe['sequence'] = 'tuple'
        if rng.random() < .3:
            universe['shared_points'] = True
        if tools.prop == 'C12':
            universe['oplog'] = True
        self.names = weighted(tools.names)
        self.kin = {}
        self.weird = weird
        self.max_steps = max_steps

    # pieces

    def context(self, **spec):
        rng = self.rng
        if rng.random() < .25:
            spec.setdefault('mode', rng.choice(['plain', 'robust']))
        roll = rng.random()
        if roll < .08:
            spec.setdefault('cls', 'falsy')
        elif roll < .16:
            spec.setdefault('cls', 'equal')
        if 'kind' not in spec and rng.random() < self.weird:
            spec.update(self.weird_spec())
        self.scenario['contexts'].append(spec)
        return len(self.scenario['contexts']) - 1

    def weird_spec(self):
        rng = self.rng
        kind = rng.choice(['failing', 'snap', 'snap', 'flip', 'blind', 'wide',
                           'erratic', 'erratic'])
        spec = {'kind': kind}
        if kind == 'snap':
            spec['param'] = rng.choice([7, 20, 50, 200])
        elif kind == 'wide':
            spec['param'] = rng.choice([1, 30, 1000])
        elif kind == 'erratic':
            spec['param'] = rng.randrange(1000)
        return spec

    def geom(self, literal):
        self.scenario['geoms'].append(literal)
        return len(self.scenario['geoms']) - 1

    def find(self, kind, share):
        """Index of an existing geometry of the kind, if it is to be shared."""
        if self.rng.random() < share:
            found = [index
                     for index, literal in enumerate(self.scenario['geoms'])
                     if literal['t'] == kind]
            if found:
                return self.rng.choice(found)
        return None

    def query(self, name=None, context=None, share=.3, attempts=4,
              **parts):
        """Operation whose reference run is known and bounded."""
        rng = self.rng
        for _ in range(attempts):
            size = len(self.scenario['geoms'])
            self.rare, self.fresh_kin = None, []
            fn, pair = name or rng.choice(self.names), None
            if rng.random() < .6:
                fn, pair = self.hot_pair(name) or (fn, None)
            left, right = fn.split('_in_')
            a = b = None
            if pair is None:
                a, b = self.find(left, share), self.find(right, share)
            if b is None and a is None:
                la, lb = pair or self.fresh_pair(fn, left, right)
                a, b = self.geom(la), self.geom(lb)
            elif b is None:
                b = self.geom(self.pool.make(right))
            elif a is None:
                literal = None
                if rng.random() < .3:
                    literal = geo.convert(rng, self.scenario['geoms'][b],
                                          left)
                a = self.geom(literal or self.pool.make(left))
            op = dict(q=fn, a=[a, b], c=context, **parts)
            solo = self.solo(op)
            if solo is not None and solo['steps'] <= self.max_steps:
                if self.rare:
                    solo['rare'] = self.rare
                if self.fresh_kin:
                    self.kin[fn, a, b] = self.fresh_kin
                return op
            del self.scenario['geoms'][size:]
        return None

    def hot_pair(self, name=None, lines=None):
        """Function and arguments leading it to where faults matter most."""
        rng, tools = self.rng, self.tools
        if name is None:
            reaching = tools.hot_functions()
            lines = [line for line in (lines or sorted(reaching))
                     if line in reaching]
            if not lines:
                return None
            line = rng.choice(lines)
            name = rng.choice(reaching[line])
        else:
            corpus = tools.corpus(name)
            lines = [line for line in (lines or sorted(corpus))
                     if line in corpus]
            if not lines:
                return None
            line = rng.choice(lines)
        pair = rng.choice(tools.corpus(name)[line])
        roll = rng.random()
        if roll < .2:
            pair = geo.images(rng, pair)
        elif roll < .4:
            # something similar
            pair = list(pair)
            number = rng.randrange(2)
            pair[number] = edited(rng, pair[number])
        return name, pair

    def hot_steps(self, solo):
        """Numbers of hot instructions of the reference run, by site."""
        result = solo.get('hot')
        if result is None:
            names, hot = solo['site_names'], self.tools.hot
            numbers = {number for number, name in enumerate(names)
                       if name in hot}
            result = solo['hot'] = {}
            if numbers:
                for position, site in enumerate(solo['sites'], start=1):
                    if site in numbers:
                        result.setdefault(site, []).append(position)
            solo['hot_all'] = sorted(position
                                     for positions in result.values()
                                     for position in positions)
        return result

    def hot_lines(self, op):
        solo = self.solo(op)
        if solo is None:
            return []
        return sorted({solo['site_names'][site].rsplit('+', 1)[0]
                       for site in self.hot_steps(solo)})

    def hot_window(self, solo):
        """Steps from a hot instruction up to the next one."""
        rng = self.rng
        by_site = self.hot_steps(solo)
        positions = by_site[rng.choice(sorted(by_site))]
        roll = rng.random()
        first = (positions[0] if roll < .25
                 else (positions[-1] if roll < .4
                       else rng.choice(positions)))
        every = solo['hot_all']
        index = bisect_right(every, first + 1)
        last = every[index] if index < len(every) else len(solo['sites'])
        return first, last

    def fresh_pair(self, fn, left, right):
        rng = self.rng
        if rng.random() < .5:
            return self.pool.pair(left, right)
        pairs = [(self.pool if number < 3
                  else geo.Pool(rng)).pair(left, right)
                 for number in range(12)]
        best, self.rare, kin = self.tools.rarest(fn, pairs)
        self.fresh_kin = [pairs[index] for index in kin]
        return pairs[best]

    def solo(self, op, ambient=None):
        geoms = [self.scenario['geoms'][index] for index in op['a']]
        number = op.get('c')
        if number is None:
            number = ambient if ambient is not None else 0
            if isinstance(number, list):
                number = number[0]
        spec = self.scenario['contexts'][number]
        return self.tools.solo(op['q'], geoms, spec,
                               op.get('c') is not None,
                               self.scenario['universe'], sites=True)

    # fault points

    def step(self, solo):
        """Instruction of a reference run: rare sites are as likely as
        frequent ones."""
        rng, sites = self.rng, solo['sites']
        total = len(sites)
        if total <= 1:
            return 1
        if self.hot_steps(solo) and rng.random() < .5:
            first, last = self.hot_window(solo)
            roll = rng.random()
            return min(total, (first + rng.choice([0, 1, 1, 2, 3, 4])
                               if roll < .5
                               else (rng.randint(first, min(last, first + 40))
                                     if roll < .75
                                     else rng.randint(first, last))))
        roll = rng.random()
        if roll < .15:
            return rng.randint(1, total)
        index = solo.get('index')
        if index is None:
            index = {}
            for position, site in enumerate(sites, start=1):
                index.setdefault(site, []).append(position)
            codes = {}
            for site in index:
                codes.setdefault(
                        solo['site_names'][site].rsplit(':', 1)[0],
                        []).append(site)
            rare = solo.get('rare', ())
            solo['rare_sites'] = [
                site for site in sorted(index)
                if solo['site_names'][site].rsplit('+', 1)[0] in rare]
            solo['index'] = index
            solo['codes'] = [codes[key] for key in sorted(codes)]
            solo['order'] = sorted(index)
        if roll < .45 and solo['rare_sites']:
            # where few similar queries come
            site = rng.choice(solo['rare_sites'])
        elif roll < .65:
            site = rng.choice(solo['order'])
        else:
            site = rng.choice(rng.choice(solo['codes']))
        positions = index[site]
        roll = rng.random()
        if roll < .35:
            return positions[0]
        elif roll < .5:
            return positions[-1]
        return rng.choice(positions)

    def point(self, solo, kinds=('instr', 'prim', 'after', 'read')):
        """A place inside the query: dict with ``on`` and ``n``."""
        rng = self.rng
        kinds = [kind for kind in kinds
                 if kind == 'instr' or kind == 'read' and solo['reads']
                 or kind in ('prim', 'after') and solo['prims']]
        kind = rng.choice(kinds) if kinds else 'instr'
        if kind == 'instr':
            return {'on': 'instr', 'n': self.step(solo)}
        if self.hot_steps(solo) and rng.random() < .5:
            # operations after a hot instruction and before the next one
            first, last = self.hot_window(solo)
            table = solo['read_names' if kind == 'read' else 'prim_steps']
            begin = bisect_left(table, (first, ''))
            end = bisect_left(table, (last + 1, ''))
            if begin < end:
                roll = rng.random()
                return {'on': kind,
                        'n': 1 + (begin if roll < .3
                                  else (end - 1 if roll < .5
                                        else rng.randrange(begin, end)))}
        if kind == 'read':
            names = [name for _, name in solo['read_names']]
        else:
            names = [name for _, name in solo['prim_steps']]
        # rare operations are as likely as frequent ones
        by_name = solo.get('by_' + kind)
        if by_name is None:
            by_name = solo['by_' + kind] = {}
            for number, name in enumerate(names, start=1):
                by_name.setdefault(name, []).append(number)
            rare = solo.get('rare', ())
            solo['rare_' + kind] = sorted(name for name in by_name
                                          if name.rsplit('@', 1)[-1] in rare)
        roll = rng.random()
        if roll < .4 and solo['rare_' + kind]:
            numbers = by_name[rng.choice(solo['rare_' + kind])]
        elif roll < .75:
            numbers = by_name[rng.choice(sorted(by_name))]
        else:
            numbers = range(1, len(names) + 1)
        roll = rng.random()
        n = (numbers[0] if roll < .2
             else (numbers[-1] if roll < .4 else rng.choice(numbers)))
        return {'on': kind, 'n': n}

    def fault(self, solo, kinds=('instr', 'prim', 'after', 'read')):
        place = self.point(solo, kinds)
        place.update({'do': 'raise',
                      'exc': pick_exception(self.rng, place['on'])})
        return place

    def partner(self, victim, context, share=.4, same=.5):
        rng = self.rng
        if rng.random() < .4:
            # another query getting to where the victim gets
            lines = self.hot_lines(victim)
            found = lines and self.hot_pair(victim['q']
                                            if rng.random() < .6 else None,
                                            lines)
            if found:
                fn, (left, right) = found
                op = {'q': fn, 'a': [self.geom(left), self.geom(right)],
                      'c': context}
                solo = self.solo(op)
                if solo is not None and solo['steps'] <= self.max_steps:
                    return op
        name = victim['q'] if rng.random() < same else None
        if name is not None:
            kin = self.kin.get((name, *victim['a']))
            roll = rng.random()
            op = None
            if kin and roll < .3:
                # arguments which take it along the same rare path
                left, right = rng.choice(kin)
                op = {'q': name, 'a': [self.geom(left), self.geom(right)],
                      'c': context}
            elif roll < .52:
                # the very same arguments
                op = {'q': name, 'a': list(victim['a']), 'c': context}
            elif roll < .77:
                # the same way through other coordinates
                literals = geo.images(rng, [self.scenario['geoms'][index]
                                            for index in victim['a']])
                op = {'q': name, 'a': [self.geom(literal)
                                       for literal in literals],
                      'c': context}
            if op is not None:
                solo = self.solo(op)
                if solo is not None and solo['steps'] <= self.max_steps:
                    if (name, *victim['a']) in self.kin and 'rare' in (
                            self.solo(victim) or {}):
                        solo.setdefault('rare', self.solo(victim)['rare'])
                    return op
        if name is None and self.rng.random() < .5:
            left, right = victim['q'].split('_in_')
            related = [candidate for candidate in self.tools.names
                       if candidate.split('_in_')[0] == left
                       or candidate.split('_in_')[1] == right]
            name = self.rng.choice(related)
        return self.query(name, context, share)


def interleaved(builder, victim_context, other_context, writes=False,
                actions=None):
    """Threads under a schedule directed at sites of the victim."""
    rng = builder.rng
    scenario = builder.scenario
    victim = builder.query(context=victim_context)
    if victim is None:
        return None
    solo = builder.solo(victim)
    roll = rng.random()
    if roll < .55:
        # whole queries of another caller at instants of the victim
        count = rng.choice([1, 2, 4, 8, 12])
        triggers, ops = [], []
        kept = []
        for _ in range(count):
            if kept and rng.random() < .6:
                op = dict(rng.choice(kept))
            else:
                op = builder.partner(victim, other_context())
                if op is None:
                    continue
                kept.append(op)
            triggers.append(dict(builder.point(solo), do='switch', to=1))
            ops += [op, {'go': 0}]
        victim['tr'] = triggers
        threads = [[victim], ops]
    elif roll < .8:
        # both are interrupted
        other = builder.partner(victim, other_context())
        if other is None:
            return None
        other_solo = builder.solo(other)
        count = rng.choice([1, 2, 3, 6])
        victim['tr'] = [dict(builder.point(solo), do='switch', to=1)
                        for _ in range(count)]
        other['tr'] = [dict(builder.point(other_solo), do='switch', to=0)
                       for _ in range(count)]
        threads = [[victim], [other]]
        if rng.random() < .3:
            extra = builder.partner(victim, victim_context)
            if extra is not None:
                threads[0].append(extra)
    else:
        total = rng.choice([2, 3, 3, 4])
        threads = [[] for _ in range(total)]
        density = rng.choice([1, 3, 10, 30])
        for number in range(total):
            for _ in range(rng.choice([1, 1, 2])):
                if number == 0 and not threads[0]:
                    op = victim
                else:
                    op = builder.partner(victim, other_context())
                if op is None:
                    continue
                op_solo = builder.solo(op)
                op = dict(op)
                op['tr'] = [dict(builder.point(op_solo), do='switch',
                                 to=rng.choice([t for t in range(total)
                                                if t != number]))
                            for _ in range(rng.randint(0, density))]
                threads[number].append(op)
                if rng.random() < .3:
                    threads[number].append({'go': rng.randrange(total)})
    scenario['threads'] = threads
    return scenario


# properties


def plan_c01(rng, tools):
    builder = Builder(rng, tools, weird=.15)
    first = builder.context()
    builder.scenario['ambient'] = first
    shared = rng.random() < .4
    second = first if shared else builder.context()

    def other():
        return None if rng.random() < .15 else second

    result = interleaved(builder, None if rng.random() < .15 else first,
                         other)
    if result is not None and not shared:
        builder.scenario['ambient'] = ([first] + [second] * 4
                                       )[:len(result['threads'])]
        _drop_ambiguous(result)
    return result


def _drop_ambiguous(scenario):
    """Per-thread ambient contexts change references: nothing to do, since
    references are looked up by the context a query was bound to."""


def plan_c02(rng, tools):
    builder = Builder(rng, tools, hooked=rng.random() < .6)
    context = builder.context()
    builder.scenario['ambient'] = context
    explicit = None if rng.random() < .2 else context
    victim = builder.query(context=explicit)
    if victim is None:
        return None
    solo = builder.solo(victim)
    ops = []
    if rng.random() < .1:
        for _ in range(8):
            ops.append(dict(victim, stack=rng.randint(2, 60)))
    else:
        # cheap while faults come early, hence bounded by total work
        budget = 150000
        while budget > 0 and len(ops) < 24:
            fault = builder.fault(solo)
            ops.append(dict(victim, tr=[fault]))
            budget -= 500 + (fault['n'] if fault['on'] == 'instr'
                             else solo['steps'] * fault['n']
                             // max(1, solo['reads'] if fault['on'] == 'read'
                                    else solo['prims']))
        if rng.random() < .15:
            # second caller in the middle of its own query
            other = builder.partner(victim, context)
            if other is not None:
                other_solo = builder.solo(other)
                other = dict(other, tr=[dict(builder.point(other_solo),
                                             do='switch', to=0)])
                for op in ops:
                    op['tr'] = [dict(builder.point(solo), do='switch', to=1)
                                ] + op['tr']
                builder.scenario['threads'] = [ops, [other]]
                return builder.scenario
    builder.scenario['threads'] = [ops]
    return builder.scenario


def plan_c03(rng, tools):
    builder = Builder(rng, tools, weird=.05)
    context = builder.context()
    builder.scenario['ambient'] = context
    second = context if rng.random() < .6 else builder.context()
    victim = builder.query(context=context)
    if victim is None:
        return None
    solo = builder.solo(victim)
    ops, budget = [], 120000
    others = []
    for _ in range(rng.choice([1, 2, 3])):
        other = builder.partner(victim, rng.choice([context, second]))
        if other is not None:
            others.append(other)
    rounds = rng.choice([1, 2, 3, 6])
    threads = None
    if rng.random() < .12:
        # a storm: many aborted attempts, then all is well
        rounds = 1
        work = 250000
        while work > 0 and len(ops) < 80:
            fault = builder.fault(solo)
            ops.append(dict(victim, tr=[fault]))
            work -= 300 + (fault['n'] if fault['on'] == 'instr'
                           else solo['steps'] // 2)
    for _ in range(rounds):
        if rng.random() < .06:
            ops.append(dict(victim, stack=rng.randint(2, 60)))
        else:
            for _ in range(rng.choice([1, 1, 1, 2])):
                ops.append(dict(victim, tr=[builder.fault(solo)]))
        follow = [dict(victim)] + [dict(other) for other in others]
        if rng.random() < .3:
            rng.shuffle(follow)
        if rng.random() < .15:
            follow.insert(0, {'gc': 1})
        ops += follow[:rng.randint(1, len(follow))]
        budget -= solo['steps'] * 2
        if budget < 0:
            break
    if others and rng.random() < .45:
        # aborts while others' queries are in progress
        other = dict(rng.choice(others))
        other_solo = builder.solo(other)
        other['tr'] = [dict(builder.point(other_solo), do='switch', to=1)
                       for _ in range(rng.choice([1, 2, 4]))]
        faulty = []
        for op in ops:
            faulty.append(op)
            if rng.random() < .4:
                faulty.append({'go': 0})
        if rng.random() < .4:
            for op in faulty:
                if 'q' in op and 'stack' not in op and rng.random() < .5:
                    op['tr'] = op.get('tr', []) + [
                        dict(builder.point(solo), do='switch', to=0)]
        threads = [[other] + [dict(o) for o in others[:1]], faulty]
    builder.scenario['threads'] = threads or [ops]
    return builder.scenario


def plan_c04(rng, tools):
    builder = Builder(rng, tools, weird=.05, max_steps=80000)
    context = builder.context()
    builder.scenario['ambient'] = context
    universe = builder.scenario['universe']
    if universe.get('sequence') == 'tuple' and rng.random() < .7:
        del universe['sequence']
    universe['writes'] = True
    ops = []
    steps = 0
    for _ in range(rng.choice([1, 2, 4])):
        op = builder.query(context=None if rng.random() < .2 else context,
                           share=.5)
        if op is None:
            continue
        solo = builder.solo(op)
        steps += solo['steps']
        roll = rng.random()
        if roll < .3:
            op['tr'] = [builder.fault(solo)]
        elif roll < .4:
            inner = builder.partner(op, context)
            if inner is not None:
                op['tr'] = [dict(builder.point(solo), do='nested', q=inner)]
        ops.append(op)
        if rng.random() < .2:
            ops.append(dict(op))
    if not ops:
        return None
    universe['stride'] = (1 if steps < 4000
                          else rng.choice([1, 2, 3, 5, 7, 11]))
    builder.scenario['threads'] = [ops]
    return builder.scenario


def plan_c05(rng, tools):
    builder = Builder(rng, tools, weird=.3, max_steps=70000)
    total = rng.choice([1, 1, 2, 2, 3])
    contexts = [builder.context() for _ in range(rng.choice([2, 3, 4]))]
    if rng.random() < .3:
        spec = builder.scenario['contexts'][rng.choice(contexts)]
        spec['cls'] = rng.choice(['falsy', 'equal'])
    ambient = [rng.choice(contexts) for _ in range(total)]
    builder.scenario['ambient'] = ambient
    universe = builder.scenario['universe']
    universe['watch_ambient'] = True
    universe['stride'] = rng.choice([0, 0, 5, 23])
    threads = []
    for number in range(total):
        ops, now = [], ambient[number]
        for _ in range(rng.choice([1, 2, 3, 5])):
            if rng.random() < .3:
                now = rng.choice(contexts)
                ops.append({'set': now})
            number_context = (None if rng.random() < .5
                              else rng.choice(contexts))
            bound = now if number_context is None else number_context
            op = builder.query(context=bound, share=.5)
            if op is None:
                continue
            solo = builder.solo(op)
            op['c'] = number_context
            triggers = []
            cv = rng.random() < .2
            if cv:
                op['cv'] = 1
            for _ in range(rng.choice([0, 1, 2, 4])):
                roll = rng.random()
                if roll < .5 and not cv and solo['prims']:
                    # not before the context has been bound for sure
                    place = builder.point(solo, ('prim', 'after', 'instr'))
                    if (place['on'] == 'instr'
                            and place['n'] <= solo['prim_steps'][0][0]):
                        place = {'on': 'prim', 'n': 1}
                    now = rng.choice(contexts)
                    triggers.append(dict(place, do='setctx', c=now))
                elif roll < .8 and total > 1:
                    triggers.append(dict(
                            builder.point(solo), do='switch',
                            to=rng.choice([t for t in range(total)
                                           if t != number])))
                elif roll < .9:
                    inner_context = rng.choice(contexts)
                    inner = builder.query(context=inner_context, share=.6)
                    if inner is not None:
                        triggers.append(dict(
                                builder.point(solo, ('prim', 'after',
                                                     'instr')),
                                do='nested', q=inner))
                else:
                    triggers.append(builder.fault(solo))
            if triggers:
                op['tr'] = triggers
                if any(t['do'] == 'setctx' for t in triggers):
                    # the last one executed wins
                    ops.append(op)
                    now = rng.choice(contexts)
                    ops.append({'set': now})
                    continue
            ops.append(op)
        if total > 1 and rng.random() < .5:
            ops = [item for op in ops
                   for item in ((op, {'go': rng.randrange(total)})
                                if rng.random() < .4 else (op,))]
        threads.append(ops)
    if not any('q' in op for ops in threads for op in ops):
        return None
    builder.scenario['threads'] = threads
    return builder.scenario


def plan_endurance(rng, tools, long=False):
    """A few queries issued very many times."""
    builder = Builder(rng, tools, hooked=False, max_steps=60000)
    scenario = builder.scenario
    scenario['universe'].pop('sequence', None)
    scenario['universe']['lean'] = True
    contexts = [builder.context(kind='normal')
                for _ in range(rng.choice([1, 1, 2]))]
    scenario['ambient'] = contexts[0]
    queries, forms = [], {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        found = []
        # sweeps rather than early answers
        for _ in range(3):
            op = builder.query(context=contexts[0], share=0., attempts=2)
            if op is not None:
                found.append((builder.solo(op)['steps'], len(found), op))
        if not found:
            continue
        op = dict(max(found)[2], c=rng.choice(contexts + [None]))
        queries.append(op)
        for index in op['a']:
            literal = scenario['geoms'][index]
            forms[index] = [literal]
            if rng.random() < .5:
                forms[index].append(edited(rng, literal))
    if not queries:
        return None
    now = dict(enumerate(scenario['geoms']))
    editing = rng.choice([0., .05, .3])
    ops, left = [], 24000000 if long else 9000000
    while left > 0 and len(ops) < (4000 if long else 1500):
        op = rng.choice(queries)
        if rng.random() < editing:
            index = rng.choice(op['a'])
            now[index] = rng.choice(forms[index])
            ops.append({rng.choice(['edit', 'renew']): index,
                        'v': now[index]['v']})
        solo = tools.solo(op['q'], [now[index] for index in op['a']],
                          scenario['contexts'][op['c'] or 0],
                          op['c'] is not None, scenario['universe'])
        if solo is None or solo['steps'] > 60000:
            return None
        ops.append(op)
        left -= solo['steps'] + 2000
    return scenario if _finish_threads(scenario, [ops]) else None


def plan_c06(rng, tools, long=False):
    if rng.random() < .1:
        return plan_endurance(rng, tools, long)
    small = rng.random() < .7
    builder = Builder(rng, tools, small=small, hooked=False, weird=.25,
                      max_steps=20000)
    scenario = builder.scenario
    scenario['universe'].pop('sequence', None)
    contexts = [builder.context(kind='normal')]
    contexts += [builder.context() for _ in range(rng.choice([0, 1, 2, 3]))]
    scenario['ambient'] = contexts[0]
    names = tools.names
    focus = rng.sample(names, rng.choice([1, 2, 4, len(names)]))
    hot = [builder.hot_pair()] if rng.random() < .6 else [None]
    if hot[0] is not None:
        focus = [hot[0][0]] + focus[:rng.choice([0, 0, 1])]
        hot += [builder.hot_pair(focus[0]) for _ in range(2)]
    kinds = sorted({kind for name in focus for kind in name.split('_in_')})
    per_kind = rng.choice([1, 2, 3])
    by_kind = {}
    for kind in kinds:
        by_kind[kind] = [builder.geom(builder.pool.make(kind))
                         for _ in range(per_kind)]
    if hot[0] is not None:
        for kind in focus[0].split('_in_'):
            by_kind[kind] = []
        for name, pair in hot[:per_kind]:
            for kind, literal in zip(name.split('_in_'), pair):
                by_kind[kind].append(builder.geom(literal))
    now = {index: literal for index, literal in enumerate(scenario['geoms'])}
    seen = {index: [literal] for index, literal in now.items()}
    spec_now = dict(enumerate(map(dict, scenario['contexts'])))
    ambient = contexts[0]
    if rng.random() < .35:
        # addresses of disposed objects are used again at once
        scenario['knobs'] = {'id_salt': rng.randrange(1 << 30), 'recycle': 1}
    length = (rng.choice([300, 600, 1200]) if long
              else rng.choice([6, 10, 16, 30]))

    def outcome(op, index=None, literal=None, spec=None):
        """What the query gives at this point of the history, perhaps after
        a change of one of its arguments or of the context."""
        number = ambient if op['c'] is None else op['c']
        solo = tools.solo(op['q'],
                          [literal if index == other else now[other]
                           for other in op['a']],
                          spec_now[number] if spec is None else spec,
                          op['c'] is not None, scenario['universe'])
        return None if solo is None else solo['outcome']

    threads = [[]]
    ops = threads[0]
    last = None
    while sum('q' in op for op in ops) < length:
        roll = rng.random()
        edit = bool(ops) and ('edit' in ops[-1] or 'renew' in ops[-1]
                              or 'recontext' in ops[-1])
        if roll < (.75 if edit else .5) or last is None:
            if last is not None and rng.random() < (.8 if edit else .3):
                op = dict(last)
                if rng.random() < (.2 if edit else .5):
                    op['c'] = rng.choice(contexts + [None])
            else:
                fn = rng.choice(focus)
                left, right = fn.split('_in_')
                op = {'q': fn, 'a': [rng.choice(by_kind[left]),
                                     rng.choice(by_kind[right])],
                      'c': rng.choice(contexts + [None])}
            number = ambient if op['c'] is None else op['c']
            solo = tools.solo(op['q'], [now[index] for index in op['a']],
                              spec_now[number], op['c'] is not None,
                              scenario['universe'])
            if solo is None or solo['steps'] > 30000:
                if last is None and rng.random() < .1:
                    return None
                last = last if rng.random() < .7 else None
                if rng.random() < .02:
                    return None
                continue
            ops.append(op)
            last = op
        elif roll < .85:
            index = (rng.choice(last['a']) if rng.random() < .7
                     else rng.choice(sorted(now)))
            literal = now[index]
            kind = rng.random()
            # sometimes one which matters for the last query
            guided = index in last['a'] and not long and rng.random() < .5
            before = outcome(last) if guided else None
            for _ in range(4 if guided else 1):
                if kind < .25:
                    fresh = rng.choice(seen[index])
                elif kind < .75:
                    fresh = edited(rng, literal)
                else:
                    fresh = builder.pool.make(literal['t'])
                if guided and outcome(last, index, fresh) != before:
                    break
            now[index] = fresh
            seen[index].append(fresh)
            op = {rng.choice(['edit', 'edit', 'renew']): index,
                  'v': fresh['v']}
            if 'edit' in op:
                how = rng.choice([None, 'keep', 'keep', 'deep'])
                if how is not None:
                    op['how'] = how
            ops.append(op)
        elif roll < .89:
            ambient = rng.choice(contexts)
            ops.append({'set': ambient})
        elif roll < .98:
            number = rng.choice(contexts)
            if rng.random() < .8:
                number = ambient if last['c'] is None else last['c']
            # another context in its place or the same one acting differently
            same = rng.random() < .5
            if same or number != ambient:
                spec = dict(spec_now[number])
                usual = spec.pop('kind', 'normal') == 'normal'
                spec.pop('param', None)
                guided = (number == (ambient if last['c'] is None
                                     else last['c'])
                          and not long and rng.random() < .7)
                before = outcome(last) if guided else None
                weird = rng.random() < (.8 if usual else .3)
                plain = spec
                for _ in range(10 if guided and weird else 1):
                    spec = dict(plain)
                    if weird:
                        spec.update(builder.weird_spec()
                                    if not guided or rng.random() < .2
                                    else {'kind': 'erratic',
                                          'param': rng.randrange(1000)})
                    if guided and outcome(last, spec=spec) not in (before,
                                                                   None):
                        break
                spec_now[number] = spec
                ops.append({'recontext': number, 'spec': spec})
                if same:
                    ops[-1]['same'] = 1
                if (number == (ambient if last['c'] is None else last['c'])
                        and rng.random() < .8 and outcome(last) is not None):
                    ops.append(dict(last))
        else:
            ops.append({'gc': 1})
    return scenario if _finish_threads(scenario, threads) else None


def _finish_threads(scenario, threads):
    scenario['threads'] = threads
    return any('q' in op for ops in threads for op in ops)


def edited(rng, literal):
    """The literal with a part moved, the whole shifted or written anew."""
    roll = rng.random()
    if roll < .45:
        return rewritten(rng, literal)
    elif roll < .6:
        return geo.far_away(literal, rng.choice([(geo.UNIT, 0),
                                                 (0, -geo.UNIT),
                                                 (4 * geo.UNIT, 0),
                                                 (1, 0), (0, 1),
                                                 (60 * geo.UNIT, 0)]))
    import copy
    fresh = copy.deepcopy(literal)
    pairs = []

    def collect(value):
        if value and isinstance(value[0], int):
            pairs.append(value)
        else:
            for item in value:
                collect(item)

    collect(fresh['v'])
    # those furthest to some side decide about boxes and orientations
    extreme = rng.random() < .35
    pair = (rng.choice([min, max])(
        pairs, key=rng.choice([lambda p: p, lambda p: p[::-1]]))
            if extreme else rng.choice(pairs))
    axis, delta = rng.randrange(2), rng.choice([-3, -1, 1, 2, geo.UNIT])
    roll = rng.random() * (.6 if extreme else 1)
    if roll < .25:
        # far away from where it was
        for axis in range(2):
            values = [other[axis] for other in pairs]
            low, high = min(values), max(values)
            pair[axis] = (rng.randint(low, high) if extreme
                          else rng.choice([low - geo.UNIT, high + geo.UNIT,
                                           rng.randint(low, high)]))
    else:
        pair[axis] += delta
    if .25 <= roll < .5:
        # another one to the opposite side
        rng.choice(pairs)[axis] -= delta
    if fresh['t'] == 'segment' and fresh['v'][0] == fresh['v'][1]:
        return literal
    if fresh['t'] == 'multisegment' and any(s[0] == s[1] for s in fresh['v']):
        return literal
    return fresh


def rewritten(rng, literal):
    """The same set of points, its parts in another order or direction."""
    def sequence(items, least):
        items = list(items)
        if len(items) <= least:
            return items
        how = rng.choice(['reverse', 'reverse tail', 'rotate', 'keep'])
        if how == 'reverse':
            items.reverse()
        elif how == 'reverse tail':
            items[1:] = items[:0:-1]
        elif how == 'rotate':
            shift = rng.randrange(1, len(items))
            items = items[shift:] + items[:shift]
        return items

    def segment(ends):
        return list(ends) if rng.random() < .5 else list(ends)[::-1]

    def polygon(parts):
        return [sequence(parts[0], 2),
                [sequence(hole, 2) for hole in sequence(parts[1], 1)]]

    t, v = literal['t'], literal['v']
    fresh = {'point': list, 'segment': lambda v: list(v)[::-1],
             'multisegment': lambda v: [segment(item)
                                        for item in sequence(v, 1)],
             'contour': lambda v: sequence(v, 2),
             'region': lambda v: sequence(v, 2),
             'multiregion': lambda v: [sequence(item, 2)
                                       for item in sequence(v, 1)],
             'polygon': polygon,
             'multipolygon': lambda v: [polygon(item)
                                        for item in sequence(v, 1)]}[t](v)
    return {'t': t, 'v': fresh}


def plan_c07(rng, tools):
    builder = Builder(rng, tools, weird=.05, max_steps=70000)
    scenario = builder.scenario
    scenario['knobs'] = {'rand_salt': rng.randrange(1000)}
    context = builder.context()
    scenario['ambient'] = context
    second = builder.context()
    focus = [rng.choice(tools.names) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < .5:
        found = builder.hot_pair()
        if found is not None:
            focus[0] = found[0]

    editing = rng.random() < .5
    now = {}

    def batch(size, fault_share):
        ops = []
        for number in range(size):
            op = builder.query(focus[number % len(focus)],
                               rng.choice([context, context, second, None]),
                               share=0. if now else .3)
            if op is None:
                continue
            solo = builder.solo(op)
            if rng.random() < fault_share:
                fault = builder.fault(solo)
                fault['exc'] = rng.choice(['Kernel', 'Abort', 'Timeout',
                                           'Omni'])
                op['tr'] = [fault]
            ops.append(op)
            if editing and mode != 'threads' and rng.random() < .6:
                # what has just been used is replaced, the rest stays
                index = rng.choice(op['a'])
                literal = builder.pool.make(scenario['geoms'][index]['t'])
                now[index] = literal
                how = rng.choice([None, 'keep', 'deep', 'renew'])
                ops.append({'renew': index, 'v': literal['v']}
                           if how == 'renew'
                           else {'edit': index, 'v': literal['v'],
                                 'how': how})
        return ops

    mode = rng.choice(['plain', 'faults', 'threads'])
    if mode == 'threads':
        threads = []
        total = rng.choice([2, 3])
        for number in range(total):
            ops = batch(rng.choice([1, 2]), .4)
            for op in ops:
                solo = builder.solo(op)
                others = [t for t in range(total) if t != number]
                op['tr'] = op.get('tr', []) + [
                    dict(builder.point(solo), do='switch',
                         to=rng.choice(others))
                    for _ in range(rng.randint(1, 4))]
            threads.append(ops)
    else:
        share = .6 if mode == 'faults' else 0.
        ops = []
        for mark in range(3):
            part = batch(len(focus) * rng.choice([1, 2]), share)
            if not part:
                return None
            ops += part + [{'mark': mark}]
        threads = [ops]
    if rng.random() < .6:
        order = [['g', number] for number in range(len(scenario['geoms']))]
        order += [['c', number]
                  for number in range(len(scenario['contexts']))]
        rng.shuffle(order)
        scenario['release'] = order[:rng.choice([2, 4, 8])]
    scenario['keep_errors'] = rng.random() < .5
    scenario['process'] = {'collector': rng.choice([0, 1, 7, 100]),
                           'stack': rng.choice([0, 1777, 5003]),
                           'precision': rng.choice([0, 9, 40]),
                           'interval': rng.choice([0, .001, .125])}
    scenario['retention'] = True
    return scenario if _finish_threads(scenario, threads) else None


def plan_c08(rng, tools):
    builder = Builder(rng, tools, weird=.05, max_steps=80000)
    scenario = builder.scenario
    context = builder.context()
    scenario['ambient'] = context
    second = context if rng.random() < .5 else builder.context()
    victim = builder.query(context=context)
    if victim is None:
        return None
    total = rng.choice([2, 2, 3, 4])
    solo = builder.solo(victim)
    if rng.random() < .15:
        # again and again others overtake: no query has to start anew
        others = [builder.partner(victim, rng.choice([context, second, None]),
                                  same=.8) for _ in range(2)]
        others = [op for op in others
                  if op is not None and builder.solo(op)['steps'] < 6000]
        if others:
            count, stride = rng.choice([15, 30, 60]), rng.choice([1, 2, 3, 7])
            first = max(1, builder.step(solo) - rng.choice([0, 0, 5, 20]))
            ops = []
            for _ in range(count):
                ops += [dict(rng.choice(others)), {'go': 0}]
            victim = dict(victim, tr=[
                {'on': 'instr', 'n': first + number * stride, 'do': 'switch',
                 'to': 1} for number in range(count)])
            return (scenario if _finish_threads(scenario, [[victim], ops])
                    else None)
    threads = [[dict(victim, tr=[dict(builder.point(solo), do='stall')])]]
    for number in range(1, total):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = builder.partner(victim, rng.choice([context, second, None]),
                                 same=.6)
            if op is None:
                continue
            op = dict(op)
            if number < total - 1 and not ops:
                op_solo = builder.solo(op)
                op['tr'] = [dict(builder.point(op_solo), do='stall')]
            elif rng.random() < .2:
                op_solo = builder.solo(op)
                op['tr'] = [dict(builder.point(op_solo), do='switch',
                                 to=rng.randrange(total))
                            for _ in range(3)]
            ops.append(op)
        if not ops:
            return None
        threads.append(ops)
    if rng.random() < .3:
        # queries before the stalled one: warm state
        warm = builder.partner(victim, context)
        if warm is not None:
            threads[0].insert(0, warm)
    return scenario if _finish_threads(scenario, threads) else None


def plan_c09(rng, tools):
    builder = Builder(rng, tools, weird=.08, max_steps=80000)
    scenario = builder.scenario
    context = builder.context()
    scenario['ambient'] = context
    second = context if rng.random() < .5 else builder.context()
    victim = builder.query(context=context)
    if victim is None:
        return None

    def nest(op, depth):
        solo = builder.solo(op)
        triggers = []
        count = rng.choice([1, 2, 4, 8]) if depth == 0 else 1
        kept = []
        for _ in range(count):
            if kept and rng.random() < .5:
                inner = dict(rng.choice(kept))
            else:
                inner = builder.partner(op, rng.choice([context, second,
                                                        None]))
                if inner is None:
                    continue
                kept.append(inner)
            inner = dict(inner)
            roll = rng.random()
            if roll < .25:
                inner['tr'] = [builder.fault(builder.solo(inner),
                                             ('prim', 'after', 'instr'))]
            elif roll < .5 and depth < 2:
                nest(inner, depth + 1)
            triggers.append(dict(builder.point(solo), do='nested', q=inner))
        if depth == 0 and rng.random() < .15:
            triggers.append(builder.fault(solo))
        op['tr'] = triggers

    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        op = dict(victim)
        nest(op, 0)
        ops.append(op)
        if rng.random() < .3:
            ops.append(dict(victim))
    return scenario if _finish_threads(scenario, [ops]) else None


def plan_c10(rng, tools, index=0):
    builder = Builder(rng, tools, hooked=False, max_steps=80000)
    scenario = builder.scenario
    context = builder.context()
    scenario['ambient'] = context
    ops, used = [], set()
    for _ in range(rng.choice([2, 3, 4])):
        op = builder.query(context=context, share=.2)
        if op is None:
            continue
        solo = builder.solo(op)
        used.update(solo['uses'])
        if rng.random() < .5:
            op['tr'] = [dict(builder.point(solo), do='gc')
                        for _ in range(rng.choice([1, 2, 4]))]
        ops.append(op)
    universes = []
    # what queries look at is varied more
    for _ in range(24 if 'random' in used else 9 if used else 3):
        universes.append({
            'hash_salt': rng.choice([None, rng.randrange(1 << 30),
                                     rng.choice([-1, -1, -2, -7])]),
            'noise': rng.choice([0, rng.randrange(1, 5000)]),
            'knobs': {
                'clock_start': rng.choice([0., 1e9, -5., 1.7e9 * rng.random()]),
                'clock_steps': rng.choice([[0.], [1e-9], [3600.], [-1., 5.],
                                           [.01, 100.], [-.5]]),
                'rand_salt': rng.randrange(1 << 30),
                'id_salt': rng.choice([None, rng.randrange(1 << 30),
                                       rng.randrange(1 << 30)]),
                'recycle': rng.choice([0, 1, 1, 5]),
                'pid': rng.randrange(2, 1 << 16)},
            'gc': rng.choice(['off', 'on', 'eager'])})
        if rng.random() < .6:
            universes[-1]['process'] = {
                'stack': rng.choice([0, 777, 1500, 20000]),
                'precision': rng.choice([0, 3, 9, 60]),
                'interval': rng.choice([0, 1e-6, .125]),
                'directory': rng.choice([0, 1]),
                'variables': rng.choice([0, 0, 5]),
                'main': rng.choice([0, 1])}
    scenario['universes'] = universes
    scenario['hashseeds'] = tools.hashseeds(rng, index)
    return scenario if _finish_threads(scenario, [ops]) else None


def plan_c11(rng, tools):
    builder = Builder(rng, tools, weird=.05, max_steps=60000)
    scenario = builder.scenario
    context = builder.context()
    scenario['ambient'] = context
    second = context if rng.random() < .5 else builder.context()
    victim = builder.query(context=context)
    if victim is None:
        return None
    total = rng.choice([1, 2, 2, 2, 3])

    def another():
        return builder.partner(victim, rng.choice([context, second, None]),
                               same=.6)

    def queries():
        result = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = dict(victim) if rng.random() < .4 else another()
            if op is not None:
                op = dict(op)
                if rng.random() < .15:
                    op['tr'] = [builder.fault(builder.solo(op))]
                result.append(op)
        return result

    threads = []
    for number in range(total):
        ops = []
        for _ in range(rng.choice([1, 1, 2])):
            op = victim if not ops and number == 0 else another()
            if op is None:
                continue
            op, solo = dict(op), builder.solo(op)
            triggers = []
            for _ in range(rng.choice([0, 1, 2])):
                if total > 1:
                    triggers.append(dict(
                            builder.point(solo), do='switch',
                            to=rng.choice([t for t in range(total)
                                           if t != number])))
            for _ in range(rng.choice([0, 1, 1, 2]) if number
                           else rng.choice([0, 0, 1]) if total > 1
                           else rng.choice([1, 2, 3])):
                triggers.append(dict(builder.point(solo), do='fork',
                                     q=queries()))
            if rng.random() < .1:
                triggers.append(builder.fault(solo))
            if triggers:
                op['tr'] = triggers
            ops.append(op)
            if rng.random() < .25:
                ops.append({'fork': queries()})
        threads.append(ops)
    if total > 1:
        # the victim is in the middle of its query when others go on
        op = threads[0][0]
        op['tr'] = op.get('tr', []) + [
            dict(builder.point(builder.solo(victim)), do='switch', to=1)
            for _ in range(rng.choice([1, 2]))]
    return scenario if _finish_threads(scenario, threads) else None


def plan_c12(rng, tools):
    roll = rng.random()
    if roll < .12:
        return plan_c06(rng, tools)
    return rng.choice([plan_c01, plan_c03, plan_c09, plan_c10,
                       plan_c10])(rng, tools)


PLANS = {'C01': plan_c01, 'C02': plan_c02, 'C03': plan_c03, 'C04': plan_c04,
         'C05': plan_c05, 'C06': plan_c06, 'C07': plan_c07, 'C08': plan_c08,
         'C09': plan_c09, 'C10': plan_c10, 'C11': plan_c11,
         'C12': plan_c12}


def plan(prop, seed, index, tools):
    rng = Random('%s:%s:%s' % (prop, seed, index))
    for _ in range(6):
        if prop == 'C06':
            scenario = plan_c06(rng, tools, index % 41 == 7)
        elif prop == 'C10':
            scenario = plan_c10(rng, tools, index)
        else:
            scenario = PLANS[prop](rng, tools)
        if scenario is not None:
            scenario['prop'] = prop
            scenario['seed'] = [seed, index]
            return scenario
    return None
