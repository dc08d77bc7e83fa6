"""Forked executions: each simulated run and each reference starts from the
same pristine process image, in which the code under test has been imported
but never called."""
import gc
import os
import pickle
import select
import signal
import struct
import sys
from array import array

from . import engine as _engine
from .seams import raw

PRISTINE_CAP = 400000
SCOUT_CAP = 16000


# seconds
QUIET = 8


def activity(pid):
    """How often threads of the process and of its descendants ran so far,
    ``None`` if any of them is doing something at this moment."""
    result, stack = [], [pid]
    while stack:
        number = stack.pop()
        try:
            tasks = sorted(os.listdir('/proc/%d/task' % number))
            for task in tasks:
                base = '/proc/%d/task/%s/' % (number, task)
                with open(base + 'status') as file:
                    fields = dict(line.split(':', 1) for line in file
                                  if ':' in line)
                if fields['State'].split()[0] not in 'SZX':
                    return None
                result.append((number, task,
                               fields['voluntary_ctxt_switches'],
                               fields['nonvoluntary_ctxt_switches']))
                with open(base + 'children') as file:
                    stack += map(int, file.read().split())
        except (OSError, KeyError, IndexError):
            return None
    return result


def family(pid):
    """The process and its descendants."""
    result = [pid]
    for number in result:
        try:
            for task in os.listdir('/proc/%d/task' % number):
                with open('/proc/%d/task/%s/children' % (number, task)) as file:
                    result += map(int, file.read().split())
        except OSError:
            pass
    return result


def fork_call(function, timeout=60.):
    """Result of the function in a forked child, ``{'hang': ..}``,
    ``{'blocked': ..}`` (none of its threads ran for long: all of them wait
    for something outside of the simulation) or ``{'crash': ..}``."""
    reader, writer = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            os.close(reader)
            result = function()
            data = pickle.dumps(result, 4)
            data = struct.pack('<q', len(data)) + data
            while data:
                data = data[os.write(writer, data):]
            status = 0
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
        finally:
            os._exit(status)
    os.close(writer)
    chunks, size, needed = [], 0, None
    deadline = raw.monotonic() + timeout
    hang = blocked = False
    seen, quiet = None, 0
    while True:
        left = deadline - raw.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([reader], [], [], min(left, 1.))
        if not ready:
            now = activity(pid)
            quiet = quiet + 1 if now is not None and now == seen else 0
            seen = now
            if quiet >= QUIET:
                hang = blocked = True
                break
            continue
        chunk = os.read(reader, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
        size += len(chunk)
        if needed is None and size >= 8:
            head = b''.join(chunks)
            needed = struct.unpack('<q', head[:8])[0] + 8
            chunks = [head]
        if needed is not None and size >= needed:
            break
    os.close(reader)
    complete = needed is not None and size >= needed
    if not complete:
        for number in reversed(family(pid)):
            try:
                os.kill(number, signal.SIGKILL)
            except OSError:
                pass
    _, status = os.waitpid(pid, 0)
    if complete:
        return pickle.loads(b''.join(chunks)[8:])
    if blocked:
        return {'blocked': QUIET}
    if hang:
        return {'hang': timeout}
    return {'crash': status}


def run_scenario(scenario, timeout=60.):
    """Executes scenario in a child forked from the pristine process."""
    def child():
        gc.disable()
        if not scenario.get('universe', {}).get('lean'):
            _engine.instrument()
        simulated = _engine.Engine(scenario)
        session = None
        if scenario.get('retention'):
            from . import retention
            session = retention.Session(simulated)
        report = simulated.run()
        if session is not None and not report['deadlocked']:
            report['left'] = session.finish(simulated)
        return report

    return fork_call(child, timeout)


def solo_scenario(scenario, op, geoms, ambient):
    """The query of the operation, alone."""
    query = {'q': op['q'], 'a': list(range(len(op['a']))), 'c': op.get('c'),
             'cap': PRISTINE_CAP}
    contexts = scenario['contexts']
    result = {'contexts': contexts, 'geoms': geoms, 'threads': [[query]],
              'ambient': ambient, 'profile': True,
              'universe': {key: value
                           for key, value in scenario.get('universe',
                                                          {}).items()
                           if key in ('hooked', 'sequence', 'shared_points',
                                      'oplog')}}
    return result


def line_of(code, offset):
    for start, end, line in code.co_lines():
        if start <= offset < end:
            return line or 0
    return 0


def run_solo(scenario, sites=False, timeout=60.):
    """Reference execution: outcome, number of steps, operations and reads.

    With ``sites`` also the instruction executed at each step.
    """
    def child():
        gc.disable()
        table, order, log = {}, [], array('H')
        if sites:
            current = _engine.current

            def callback(code, offset):
                frame = current[0]
                if frame is not None:
                    key = (code, offset)
                    site = table.get(key)
                    if site is None:
                        site = table[key] = len(order)
                        order.append('%s:%d+%d' % (code.co_qualname,
                                                   line_of(code, offset),
                                                   offset))
                    if len(log) < PRISTINE_CAP:
                        log.append(site)
                    left = frame.left - 1
                    frame.left = left
                    if not left:
                        _engine.engine_on_instr(frame, code, offset)
            _engine.instrument(callback)
        else:
            _engine.instrument()
        simulated = _engine.Engine(scenario)
        report = simulated.run()
        record = report['records'][0][1]
        record['events'] = report['events']
        record['uses'] = report['uses']
        if sites:
            record['sites'], record['site_names'] = log, order
        return record

    return fork_call(child, timeout)


def scout(fn, pairs, timeout=30.):
    """For each pair of literals the lines of the code under test an
    undisturbed query executes, in one child; ``None`` if it takes long."""
    def child():
        gc.disable()
        from . import world
        monitoring = sys.monitoring
        lines, count = set(), [0]

        def on_line(code, line):
            lines.add('%s:%d' % (code.co_qualname, line))
            count[0] += 1
            if count[0] > SCOUT_CAP:
                raise _engine.StepCap

        monitoring.use_tool_id(4, 'scout')
        monitoring.register_callback(4, monitoring.events.LINE, on_line)
        for code in _engine.all_codes:
            monitoring.set_local_events(4, code, monitoring.events.LINE)
        family = world.Family(False)
        context = world.make_context({}, 0, family)
        function = getattr(sys.modules['orient.planar'], fn)
        result = []
        for left, right in pairs:
            lines.clear()
            count[0] = 0
            try:
                function(family.build(left), family.build(right),
                         context=context)
            except _engine.StepCap:
                result.append(None)
                continue
            except BaseException:
                pass
            result.append(sorted(lines))
        return result

    return fork_call(child, timeout)
