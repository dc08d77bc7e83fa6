"""The simulator: one forked process, one simulated run, one schedule.

Caller threads are real threads parked on gates; exactly one runs at any time
and which one is decided by the scenario alone.  Every bytecode instruction of
the code under test, every context operation and every geometry read is a
numbered point of the query it belongs to, at which the scenario may switch
threads, raise, collect garbage, issue a nested query, change the ambient
context or suspend the thread.
"""
import contextvars
import gc
import hashlib
import importlib
import os
import pkgutil
import pickle
import re
import select
import signal
import sys
import types
import weakref

from . import seams
from .seams import knobs, raw

TOOL = 3
OUTSIDE = 'outside'


class Kernel(Exception):
    """Custom error of a caller."""


class Abort(BaseException):
    """Custom error of a caller which is not an ``Exception``."""


class Timeout(TimeoutError):
    """What a watchdog raises."""


class Omni(ZeroDivisionError, OverflowError, FloatingPointError, IndexError,
           KeyError, ValueError, TypeError, NotImplementedError,
           RecursionError, AssertionError, BufferError, EOFError,
           ReferenceError, MemoryError, Warning):
    """Error any handler for (almost) any built-in error would catch."""


class OmniAttribute(AttributeError, Omni):
    """The same, being also an attribute error."""


class OmniOS(TimeoutError, ArithmeticError, LookupError, ValueError,
             RuntimeError):
    """Operating system flavoured one."""


class StepCap(BaseException):
    """Query makes no progress: number of steps exceeded any sane bound."""


EXCEPTIONS = {
    cls.__name__: cls
    for cls in (Kernel, Abort, Timeout, Omni, OmniAttribute, OmniOS,
                ArithmeticError, ZeroDivisionError, OverflowError,
                LookupError, IndexError, KeyError, ValueError, TypeError,
                AttributeError, NameError, RuntimeError, NotImplementedError,
                RecursionError, AssertionError, MemoryError, OSError,
                ImportError, UnicodeError, EOFError, BufferError,
                StopAsyncIteration, KeyboardInterrupt, SystemExit,
                Exception, BaseException)}


def make_exception(name):
    return EXCEPTIONS[name]('injected')


class Frame:
    """A query in progress."""
    __slots__ = ('left', 'base', 'key', 'thread', 'op', 'context', 'instr',
                 'prims', 'prim_at', 'prim_after', 'reads', 'read_at',
                 'depth', 'failed', 'injected', 'absorbed', 'snapshots',
                 'stride', 'cap', 'waits', 'parent', 'fired', 'plain',
                 'prim_steps', 'lost', 'sleeps', 'explicit', 'size',
                 'ambient', 'read_names', 'natural', 'oplog')

    def steps(self):
        return self.base - self.left


class Thread:
    __slots__ = ('index', 'gate', 'state', 'frame', 'ops', 'waiting',
                 'ambient', 'deadline', 'helper', 'sentinels')

    def __init__(self, index, ops, helper=False):
        self.index, self.ops, self.helper = index, ops, helper
        self.gate = raw.allocate_lock()
        self.gate.acquire()
        self.state, self.frame, self.waiting = 'ready', None, None
        self.ambient = self.deadline = None
        self.sentinels = []


ORIENT_DIR = None
all_codes = []


def orient_codes():
    """Code objects of the code under test."""
    import orient
    global ORIENT_DIR
    ORIENT_DIR = os.path.dirname(os.path.abspath(orient.__file__)) + os.sep
    found, seen = [], set()

    def add(code):
        if code in seen or not code.co_filename.startswith(ORIENT_DIR):
            return
        seen.add(code)
        found.append(code)
        for const in code.co_consts:
            if isinstance(const, types.CodeType):
                add(const)

    visited = set()

    def visit(obj, depth):
        if raw.id(obj) in visited or depth > 6:
            return
        visited.add(raw.id(obj))
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
            if obj.__closure__:
                for cell in obj.__closure__:
                    try:
                        visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
            wrapped = obj.__dict__.get('__wrapped__')
            if wrapped is not None:
                visit(wrapped, depth + 1)
        elif isinstance(obj, types.MethodType):
            visit(obj.__func__, depth + 1)
        elif isinstance(obj, (staticmethod, classmethod)):
            visit(obj.__func__, depth + 1)
        elif isinstance(obj, property):
            for function in (obj.fget, obj.fset, obj.fdel):
                if function is not None:
                    visit(function, depth + 1)
        elif isinstance(obj, type):
            if (obj.__module__ or '').split('.')[0] == 'orient':
                for value in list(obj.__dict__.values()):
                    visit(value, depth + 1)
        else:
            wrapped = getattr(obj, '__wrapped__', None)
            if isinstance(wrapped, types.FunctionType):
                visit(wrapped, depth + 1)
            function = getattr(obj, 'func', None)
            if isinstance(function, (types.FunctionType, types.MethodType)):
                visit(function, depth + 1)

    for name, module in sorted(sys.modules.items()):
        if name == 'orient' or name.startswith('orient.'):
            for value in list(vars(module).values()):
                visit(value, 0)
    # whatever is reachable only otherwise
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            add(obj.__code__)
    return sorted(found, key=lambda code: (code.co_filename,
                                           code.co_firstlineno,
                                           code.co_qualname))


def query_names():
    import orient.planar
    return sorted(name for name in dir(orient.planar)
                  if re.fullmatch('[a-z]+_in_[a-z]+', name))


def load():
    """Imports the code under test through the seams; queries nothing."""
    seams.install()
    # what is on disk now is what is tested, whatever was compiled before
    prefix, sys.pycache_prefix = sys.pycache_prefix, '/nonexistent'
    flag, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    import orient.planar  # noqa
    # no import of a part of it happens while queries run
    for module in pkgutil.walk_packages(orient.__path__, 'orient.',
                                        onerror=lambda name: None):
        if not module.name.endswith('__main__'):
            try:
                importlib.import_module(module.name)
            except Exception:
                pass
    sys.pycache_prefix, sys.dont_write_bytecode = prefix, flag
    all_codes[:] = orient_codes()
    monitoring = sys.monitoring
    monitoring.use_tool_id(TOOL, 'dst')


current = [None]


def on_instruction(code, offset):
    frame = current[0]
    if frame is not None:
        left = frame.left - 1
        frame.left = left
        if not left:
            engine_on_instr(frame, code, offset)


engine_on_instr = None
known_codes = set()


def on_start(code, offset):
    """Functions made at run time (not found by the walk)."""
    if code.co_filename.startswith(ORIENT_DIR):
        if code not in known_codes:
            known_codes.add(code)
            sys.monitoring.set_local_events(TOOL, code,
                                            sys.monitoring.events.INSTRUCTION)
    return sys.monitoring.DISABLE


def instrument(callback=on_instruction):
    monitoring = sys.monitoring
    monitoring.register_callback(TOOL, monitoring.events.INSTRUCTION,
                                 callback)
    for code in all_codes:
        known_codes.add(code)
        monitoring.set_local_events(TOOL, code, monitoring.events.INSTRUCTION)
    monitoring.register_callback(TOOL, monitoring.events.PY_START, on_start)
    monitoring.set_events(TOOL, monitoring.events.PY_START)


def describe_value(value):
    kind = type(value).__name__
    name = getattr(value, 'name', None)
    return ['ok', kind, name if isinstance(name, str) else repr(value)]


def describe_operand(value, depth=3):
    """Value of an operand or result of a context operation."""
    kind = type(value)
    if isinstance(value, (int, float)) or kind.__module__ == 'fractions':
        return str(value)
    elif isinstance(value, (list, tuple)):
        return '[%s]' % ' '.join(describe_operand(item, depth - 1)
                                 for item in value)
    elif depth:
        for names in (('x', 'y'), ('start', 'end'), ('name',),
                      ('min_x', 'max_x', 'min_y', 'max_y'), ('segments',),
                      ('vertices',), ('border', 'holes'), ('polygons',)):
            if hasattr(kind, names[0]):
                return '(%s)' % ','.join(
                        describe_operand(getattr(value, name), depth - 1)
                        for name in names)
    return value if kind is str else kind.__name__


def describe_error(error):
    try:
        text = repr(error.args)
    except Exception:
        text = '?'
    return ['err', type(error).__name__, text[:300]]


class Engine:
    """Executes one scenario in this (forked) process."""

    def __init__(self, scenario):
        from . import world
        self.world = world
        self.scenario = scenario
        universe = scenario.get('universe', {})
        self.family = world.Family(universe.get('hooked', False),
                                   universe.get('sequence', 'list'))
        self.share_points = universe.get('shared_points', False)
        self.literals = [dict(item) for item in scenario['geoms']]
        self.contexts = [world.make_context(spec, index, self.family)
                         for index, spec in enumerate(scenario['contexts'])]
        self.geoms = [self.family.build(literal, self.share_points)
                      for literal in self.literals]
        self.specs = list(scenario['contexts'])
        self.marks = []
        self.check_writes = universe.get('writes', False)
        self.check_ambient = universe.get('watch_ambient', False)
        self.stride = universe.get('stride', 0)
        self.events = []
        self.records = {}
        self.trace = []
        self.fired = {}
        self.total_steps = 0
        self.switches = 0
        self.threads = []
        self.done_gate = raw.allocate_lock()
        self.done_gate.acquire()
        self.active = None
        self.finished = False
        self.deadlocked = False
        self.get_context = None
        self.salt = universe.get('hash_salt')
        self.injected_alive = []
        knobs.reset(scenario.get('knobs'))
        import random
        random.seed(knobs.rand_salt)
        self.random_state = random.getstate()
        import orient.planar
        self.planar = orient.planar
        import ground.base
        self.ground = ground.base

        self.noise = []
        self.session = None
        self.unused_context = self.ground.get_context()
        # until it is released threads which have finished live on
        self.burial = raw.allocate_lock()
        self.burial.acquire()
        self.parked = 0
        self.replaced = []
        self.keep_oplog = universe.get('oplog', False)
        # set in a process forked in the middle of the run
        self.child_pipe = None
        self.children = 0
        self.disturb(universe)

    on_main, precision = False, None

    def disturb(self, universe):
        """Incidental process state of this universe."""
        noise = universe.get('noise')
        if noise:
            rng = raw.Random(noise)
            junk = [[None] * rng.randint(0, 40) if rng.random() < .5
                    else {'%d' % rng.randint(0, 99): bytes(rng.randint(0,
                                                                       400))}
                    for _ in range(noise)]
            rng.shuffle(junk)
            # half of it is freed again in random order
            self.noise = junk[:len(junk) // 2]
            del junk
        collector = universe.get('collector')
        if collector == 'on':
            gc.enable()
        elif collector == 'eager':
            gc.set_threshold(41, 3, 3)
            gc.enable()
        process = self.scenario.get('process')
        if process:
            if process.get('collector'):
                # enabled, though never due
                gc.set_threshold(10 ** 9 + process['collector'], 10, 10)
                gc.enable()
            if process.get('stack'):
                sys.setrecursionlimit(process['stack'])
            if process.get('interval'):
                sys.setswitchinterval(process['interval'])
            if process.get('directory'):
                os.chdir('/')
            for number in range(process.get('variables', 0)):
                os.environ['SIMULATED_%d' % number] = '1'
            if process.get('variables'):
                for name in ('HOME', 'USER', 'LANG', 'PATH'):
                    os.environ.pop(name, None)
            self.on_main = bool(process.get('main'))
            self.precision = process.get('precision')
        if knobs.id_salt is not None:
            for name, module in sorted(sys.modules.items()):
                if name != 'orient' and not name.startswith('orient.'):
                    continue
                for value in list(vars(module).values()):
                    if (isinstance(value, type)
                            and value.__module__ == name
                            and value.__hash__ is object.__hash__):
                        value.__hash__ = (lambda self:
                                          seams.sim_id(self) >> 4)

    # bookkeeping

    def event(self, kind, detail, frame=None):
        if len(self.events) < 40:
            self.events.append({
                'kind': kind, 'detail': detail,
                'query': frame.key if frame is not None else None,
                'step': frame.steps() if frame is not None else None,
                'prim': frame.prims if frame is not None else None})

    def note(self, *parts):
        self.trace.append(parts)

    def count(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1

    # hooks

    def install(self):
        global engine_on_instr
        world = self.world
        engine_on_instr = self.on_instr
        seams.engine = self
        world.salts['hash'] = self.salt
        hook = world.hook
        hook.prim, hook.prim_end = self.on_prim, self.on_prim_end
        hook.consult, hook.read = self.on_consult, self.on_read
        hook.write = self.on_write
        hook.performed = self.on_performed
        sys.unraisablehook = self.on_unraisable

    def set_frame(self, frame):
        current[0] = frame
        self.world.hook.active = frame is not None

    def on_unraisable(self, info):
        error = info.exc_value
        for thread in self.threads:
            frame = thread.frame
            while frame is not None:
                if frame.injected is error:
                    # died inside a finalizer: nobody to propagate it to
                    frame.absorbed += 1
                    frame.injected = None
                    frame.failed = False
                frame = frame.parent

    def on_write(self, obj, what):
        frame = current[0]
        if frame is None:
            return
        self.event('write', '%s: %s' % (type(obj).__name__, what), frame)

    def on_consult(self, context, name, plain):
        frame = current[0]
        if frame is None or frame.depth:
            return
        if context is not frame.context:
            self.event('context', '%s of context %s used instead of %s of %s'
                       % (name, context.sim_index, name,
                          getattr(frame.context, 'sim_index', None)), frame)
        if frame.failed:
            self.event('after-failure', name, frame)
        if plain:
            self.on_prim_point(frame, 'attribute ' + name)

    def on_prim(self, context, name):
        frame = current[0]
        if frame is None or frame.depth:
            return None
        if context is not frame.context:
            self.event('context', 'operation %s of context %s used instead '
                                  'of one of %s'
                       % (name, context.sim_index,
                          getattr(frame.context, 'sim_index', None)), frame)
        if frame.failed:
            self.event('after-failure', name, frame)
        frame.depth = 1
        try:
            self.on_prim_point(frame, name)
        except BaseException:
            frame.depth = 0
            raise
        return frame

    def on_prim_point(self, frame, name):
        n = frame.prims = frame.prims + 1
        if frame.prim_steps is not None:
            caller = sys._getframe(3)
            frame.prim_steps.append((frame.steps(), '%s@%s:%d' % (
                name, caller.f_code.co_qualname, caller.f_lineno)))
        if self.check_writes:
            self.verify_arguments(frame, False)
        if self.check_ambient:
            self.verify_ambient(frame)
        actions = frame.prim_at.get(n)
        if actions:
            frame.depth += 1
            try:
                for action in actions:
                    self.act(frame, action, 'prim', n, name)
            finally:
                frame.depth -= 1

    def on_prim_end(self, frame, error):
        try:
            if error is not None:
                frame.failed = True
                if frame.injected is None:
                    frame.injected, frame.natural = error, True
            else:
                actions = frame.prim_after.get(frame.prims)
                if actions:
                    for action in actions:
                        self.act(frame, action, 'after', frame.prims, '')
                if self.check_ambient:
                    self.verify_ambient(frame)
        finally:
            frame.depth = 0

    def on_performed(self, frame, name, args, kwargs, result):
        self.set_frame(None)
        operands = [describe_operand(value) for value in args]
        operands += [key + '=' + describe_operand(value)
                     for key, value in sorted(kwargs.items())]
        frame.oplog.append('%s(%s)=%s' % (name, ' '.join(operands),
                                          describe_operand(result)))
        self.set_frame(frame)

    def on_read(self, obj, name):
        frame = current[0]
        if frame is None:
            return
        n = frame.reads = frame.reads + 1
        if frame.read_names is not None:
            caller = sys._getframe(2)
            frame.read_names.append((frame.steps(), '%s.%s@%s:%d' % (
                type(obj).__name__, name, caller.f_code.co_qualname,
                caller.f_lineno)))
        actions = frame.read_at.get(n)
        if actions:
            for action in actions:
                self.act(frame, action, 'read', n,
                         type(obj).__name__ + '.' + name)

    def on_instr(self, frame, code, offset):
        n = frame.steps()
        if n >= frame.cap:
            frame.left = -1
            self.event('no-progress', 'more than %d steps' % frame.cap, frame)
            frame.base = frame.left + n
            frame.failed = True
            raise StepCap()
        actions = frame.instr.get(n)
        self.arm(frame, n)
        if frame.stride and not n % frame.stride:
            if self.check_writes:
                self.verify_arguments(frame, False)
            if self.check_ambient:
                self.verify_ambient(frame)
        if actions:
            for action in actions:
                self.act(frame, action, 'instr', n,
                         '%s+%d' % (code.co_qualname, offset))

    def arm(self, frame, n):
        """Sets the countdown to the next interesting instruction."""
        plain = frame.plain
        while plain and plain[-1] <= n:
            plain.pop()
        target = plain[-1] if plain else frame.cap
        if frame.stride:
            target = min(target, n - n % frame.stride + frame.stride)
        target = min(max(target, n + 1), max(frame.cap, n + 1))
        frame.left = target - n
        frame.base = target

    # actions

    def act(self, frame, action, on, n, where):
        do = action['do']
        thread = self.active
        self.count(do + '@' + on)
        self.note(thread.index, frame.key, on, n, do, where)
        frame.fired += 1
        if do == 'raise':
            error = make_exception(action['exc'])
            frame.injected, frame.failed = error, True
            frame.natural = False
            raise error
        elif do == 'switch':
            self.switch_to(action.get('to'))
        elif do == 'stall':
            self.stall()
        elif do == 'fork':
            depth, frame.depth = frame.depth, 0
            try:
                self.fork(thread, action['q'], frame)
            finally:
                frame.depth = depth
        elif do == 'gc':
            active = self.world.hook.active
            gc.collect()
            self.world.hook.active = active
        elif do == 'setctx':
            self.set_ambient(thread, action['c'])
        elif do == 'nested':
            depth, frame.depth = frame.depth, 0
            try:
                self.run_query(thread, action['q'],
                               frame.key + [len(self.records)])
            finally:
                frame.depth = depth
                self.set_frame(frame)
        else:
            raise AssertionError(do)

    # forking

    def fork(self, thread, queries, frame):
        """The process forks; the child performs queries and goes on with
        whatever the forking thread was doing."""
        if self.child_pipe is not None or thread.helper:
            return
        self.children += 1
        self.set_frame(None)
        reader, writer = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(reader)
            self.child_pipe = writer
            self.threads = [thread]
            knobs.pid += 1
            import random
            random.seed(knobs.rand_salt + 1)
            self.records, self.events, self.trace, self.fired = {}, [], [], {}
            self.total_steps = self.switches = 0
            for number, op in enumerate(queries):
                self.run_query(thread, op, ['first', number])
        else:
            os.close(writer)
            self.adopt(pid, reader, frame)
        self.set_frame(frame)

    def adopt(self, pid, reader, frame, timeout=30.):
        chunks = []
        deadline = raw.monotonic() + timeout
        while True:
            left = deadline - raw.monotonic()
            if left <= 0 or not select.select([reader], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                self.event('deadlock', 'forked process does not finish',
                           frame)
                chunks = None
                break
            chunk = os.read(reader, 1 << 16)
            if not chunk:
                break
            chunks.append(chunk)
        os.close(reader)
        _, status = os.waitpid(pid, 0)
        if chunks is None:
            return
        if status:
            self.event('child', 'forked process died, status %s' % status,
                       frame)
            return
        report = pickle.loads(b''.join(chunks))
        self.note('child', report['digest'])
        self.events += report['events']
        for key, record in report['records']:
            self.records['child', self.children, *key] = record
        for name, count in report['fired'].items():
            self.fired[name] = self.fired.get(name, 0) + count
        self.total_steps += report['steps']
        self.switches += report['switches']

    def finish(self):
        """Nobody is left to run."""
        if self.child_pipe is None:
            self.done_gate.release()
            return
        status = 1
        try:
            self.set_frame(None)
            data = pickle.dumps(self.report(), 4)
            while data:
                data = data[os.write(self.child_pipe, data):]
            status = 0
        finally:
            os._exit(status)

    # verification at an instant

    def verify_arguments(self, frame, full):
        for check in frame.snapshots:
            found = check() if full else check.quick()
            if found:
                self.event('write', found, frame)
                frame.snapshots = ()
                return

    def verify_ambient(self, frame):
        if frame.ambient is None or self.active.helper:
            return
        ambient = frame.thread.ambient
        if self.ground.get_context() is not ambient:
            self.event('ambient', 'ambient context changed during the query',
                       frame)
            frame.ambient = None

    # scheduling

    def owns_current_thread(self):
        return (self.active is not None
                and raw.get_ident() == self.active_ident)

    def current_key(self):
        return (OUTSIDE if not self.owns_current_thread()
                else self.active.index)

    def candidates(self):
        return [thread for thread in self.threads if thread.state == 'ready']

    def resume(self, thread):
        self.active = thread
        thread.gate.release()

    def park(self, me):
        """Current thread waits for its turn."""
        me.gate.acquire()
        self.active = me
        self.active_ident = raw.get_ident()
        self.set_frame(me.frame)

    def switch_to(self, to):
        me = self.active
        target = None
        if to is not None and to < len(self.threads):
            thread = self.threads[to]
            if thread is not me and thread.state == 'ready':
                target = thread
        if target is None:
            return
        self.switches += 1
        self.resume(target)
        self.park(me)

    def next_thread(self):
        ready = self.candidates()
        if not ready:
            return None
        index = self.active.index
        return min(ready, key=lambda thread: ((thread.index - index - 1)
                                              % len(self.threads)))

    def stall(self):
        me = self.active
        target = self.next_other(me)
        if target is None:
            return
        me.state = 'stalled'
        self.switches += 1
        self.resume(target)
        self.park(me)

    def next_other(self, me):
        ready = [thread for thread in self.candidates() if thread is not me]
        if not ready:
            return None
        return min(ready, key=lambda thread: ((thread.index - me.index - 1)
                                              % len(self.threads)))

    def wait_for(self, lock, timeout):
        me = self.active
        frame = me.frame
        if frame is not None and not me.helper:
            frame.waits += 1
        self.note(me.index, 'waits', str(lock._owner))
        other = self.next_other(me)
        if other is None:
            if timeout is not None and timeout >= 0:
                knobs.clock += timeout
                return False
            stalled = [thread for thread in self.threads
                       if thread.state == 'stalled']
            if not stalled:
                timed = [thread for thread in self.threads
                         if thread.state == 'blocked'
                         and thread.deadline is not None]
                if not timed:
                    self.event('deadlock', 'every thread waits (thread %s '
                                           'for a lock of %s)'
                               % (me.index, lock._owner), frame)
                    self.deadlocked = True
                    self.finish()
                    me.gate.acquire()  # forever
                timed[0].state = 'ready'
                other = timed[0]
            else:
                other = stalled[0]
                other.state = 'ready'
                self.starving(me)
        me.state, me.waiting = 'blocked', lock
        if me.helper:
            # for the next to give it work
            me.frame = None
        me.deadline = (timeout if timeout is not None and timeout >= 0
                       else None)
        self.resume(other)
        self.park(me)
        me.state, me.waiting = 'ready', None
        if me.deadline is not None and lock._owner is not None:
            knobs.clock += me.deadline
            return False
        return True

    def starving(self, me=None):
        """Nobody can run but callers which are suspended for good."""
        waiting = [thread for thread in self.threads
                   if not thread.helper
                   and (thread is me or thread.state == 'blocked')]
        if waiting:
            self.event('starved', 'thread(s) %s wait for a suspended caller'
                       % [thread.index for thread in waiting],
                       waiting[0].frame)

    def lock_released(self, lock):
        for thread in self.threads:
            if thread.state == 'blocked' and thread.waiting is lock:
                thread.state = 'ready'
                if thread.helper and self.active is not None:
                    # works on behalf of whoever woke it
                    thread.frame = self.active.frame

    def on_sleep(self, seconds):
        frame = self.active.frame
        if frame is not None:
            frame.sleeps += 1
        self.note(self.active.index, 'sleeps')
        other = self.next_other(self.active)
        if other is not None:
            self.switches += 1
            me = self.active
            self.resume(other)
            self.park(me)
        elif frame is not None and frame.sleeps > 1000:
            stalled = [thread for thread in self.threads
                       if thread.state == 'stalled']
            if stalled:
                stalled[0].state = 'ready'
                self.starving(self.active)
            if frame.sleeps > 3000:
                raise StepCap()

    # operations of callers

    def set_ambient(self, thread, index):
        context = self.contexts[index]
        frame = current[0]
        self.set_frame(None)
        self.ground.set_context(context)
        thread.ambient = context
        self.set_frame(frame)

    def run_op(self, thread, index, op):
        if 'q' in op:
            self.run_query(thread, op, [thread.index, index])
        elif 'set' in op:
            self.set_ambient(thread, op['set'])
        elif 'edit' in op:
            number = op['edit']
            self.literals[number] = {'t': self.literals[number]['t'],
                                     'v': op['v']}
            before = self.watch_replaced(number)
            if isinstance(self.geoms[number], tuple):
                # nothing to edit in place
                self.geoms[number] = self.family.build(self.literals[number],
                                                       self.share_points)
            else:
                self.family.assign(self.geoms[number],
                                   self.literals[number], op.get('how'))
            self.replaced += before
        elif 'renew' in op:
            number = op['renew']
            self.literals[number] = {'t': op.get('t',
                                                 self.literals[number]['t']),
                                     'v': op['v']}
            self.replaced += self.watch_replaced(number)
            # dispose first, so that memory may be reused
            self.geoms[number] = None
            self.geoms[number] = self.family.build(self.literals[number],
                                                   self.share_points)
        elif 'recontext' in op:
            number = op['recontext']
            replaced = self.contexts[number]
            ambient = [other for other in self.threads
                       if other.ambient is replaced]
            if op.get('same'):
                self.world.set_behaviour(replaced, op['spec'])
                self.specs[number] = op['spec']
            elif not ambient:
                if self.session is not None:
                    self.replaced.append(('replaced context %d' % number,
                                          weakref.ref(replaced)))
                del replaced
                self.contexts[number] = None
                self.contexts[number] = self.world.make_context(op['spec'],
                                                                number,
                                                                self.family)
                self.specs[number] = op['spec']
        elif 'gc' in op:
            gc.collect()
        elif 'go' in op:
            self.switch_to(op['go'])
        elif 'fork' in op:
            self.count('fork@rest')
            self.note(thread.index, 'forks')
            self.fork(thread, op['fork'], None)
        elif 'mark' in op:
            from . import retention
            gc.collect()
            self.marks.append(retention.signature())
        else:
            raise AssertionError(op)

    def watch_replaced(self, number):
        """Weak references to what a geometry consists of before an edit."""
        if self.session is None:
            return []
        return self.weakly('replaced in geometry %d' % number,
                           self.geoms[number])

    def weakly(self, name, geom):
        result = []
        for item in self.world.walk(geom):
            try:
                result.append((name + ': ' + type(item).__name__,
                               weakref.ref(item)))
            except TypeError:
                pass
        return result

    def exclusive(self, frame):
        """Whether no other query is in progress."""
        return all(thread.frame is None or thread.frame is frame
                   for thread in self.threads)

    def run_query(self, thread, op, key):
        name = op['q']
        function = getattr(self.planar, name)
        arguments = [self.geoms[index] for index in op['a']]
        number = op.get('c')
        context = None if number is None else self.contexts[number]
        frame = Frame()
        frame.key, frame.thread, frame.op = key, thread, op
        frame.parent = thread.frame
        ambient = self.ground.get_context()
        frame.context = ambient if context is None else context
        frame.explicit = context is not None
        frame.ambient = None if op.get('cv') else ambient
        frame.cap = op.get('cap') or 2000000
        frame.prims = frame.reads = frame.depth = frame.waits = 0
        frame.fired = frame.absorbed = frame.sleeps = 0
        frame.failed, frame.injected = False, None
        frame.natural = False
        frame.oplog = [] if self.keep_oplog else None
        frame.prim_steps = [] if self.scenario.get('profile') else None
        frame.read_names = [] if self.scenario.get('profile') else None
        frame.instr, frame.prim_at = {}, {}
        frame.prim_after, frame.read_at = {}, {}
        for action in op.get('tr', ()):
            {'instr': frame.instr, 'prim': frame.prim_at,
             'after': frame.prim_after,
             'read': frame.read_at}[action['on']].setdefault(
                action['n'], []).append(action)
        frame.plain = sorted(frame.instr, reverse=True)
        frame.stride = self.stride
        frame.snapshots = ()
        if self.check_writes:
            frame.snapshots = [self.world.snapshot(argument)
                               for argument in arguments]
            if isinstance(frame.context, self.world.SimContext):
                context_check = self.world.context_snapshot(frame.context)
                frame.snapshots.append(context_check)
            # classes of everything reachable
            frame.snapshots.append(self.world.classes_snapshot(
                    [frame.context] + [item
                                       for argument in arguments
                                       for item in self.world.walk(argument)]
            ))
        frame.left = frame.base = 0
        before = None
        if self.session is not None and self.exclusive(None):
            before = self.session.before_query()
        self.arm(frame, 0)
        thread.frame = frame
        kwargs = {} if context is None else {'context': context}
        if op.get('stack') is not None:
            call = self.shallow_call(function, op['stack'])
        else:
            call = function
        error = None
        settle = self.set_frame
        try:
            if op.get('cv'):
                settle(frame)
                value = contextvars.copy_context().run(call, *arguments,
                                                       **kwargs)
                settle(None)
            else:
                settle(frame)
                value = call(*arguments, **kwargs)
                settle(None)
            outcome = describe_value(value)
            del value
        except BaseException as caught:
            settle(None)
            error = caught
            outcome = describe_error(error)
        if self.check_writes:
            self.verify_arguments(frame, True)
        if before is not None and self.exclusive(frame):
            self.session.after_query(before, name, outcome)
        steps = frame.steps()
        self.total_steps += steps
        record = {'op': name, 'outcome': outcome, 'steps': steps,
                  'prims': frame.prims, 'reads': frame.reads,
                  'waits': frame.waits, 'sleeps': frame.sleeps,
                  'fired': frame.fired}
        if frame.oplog is not None:
            record['oplog'] = frame.oplog
        if frame.absorbed:
            record['absorbed'] = frame.absorbed
        if frame.injected is not None:
            record['injected'] = type(frame.injected).__name__
            record['same'] = error is frame.injected
            if frame.natural:
                # the operation failed by itself
                record['natural'] = True
        if frame.prim_steps is not None:
            record['prim_steps'] = frame.prim_steps
            record['read_names'] = frame.read_names
        if not op.get('cv') and self.ground.get_context() is not thread.ambient:
            self.event('ambient', 'ambient context differs after the query',
                       frame)
            thread.ambient = self.ground.get_context()
        record['lits'] = [self.literals[index] for index in op['a']]
        number = getattr(frame.context, 'sim_index', None)
        record['spec'] = None if number is None else self.specs[number]
        record['explicit'] = frame.explicit
        if op.get('stack') is not None:
            record['stack'] = op['stack']
        self.records[tuple(key)] = record
        thread.frame = frame.parent
        for other in self.threads:
            if other.frame is frame:
                other.frame = None
        self.note(thread.index, key, 'done', outcome)
        frame.injected = None
        if self.scenario.get('keep_errors') and error is not None:
            self.injected_alive.append(error)
        self.set_frame(frame.parent)

    def shallow_call(self, function, depth):
        """Call with ``depth`` more stack frames available at most."""
        def call(*args, **kwargs):
            self.set_frame(None)
            limit = sys.getrecursionlimit()
            here, frame = 0, sys._getframe()
            while frame is not None:
                here, frame = here + 1, frame.f_back
            del frame
            sys.setrecursionlimit(here + depth)
            try:
                return function(*args, **kwargs)
            finally:
                sys.setrecursionlimit(limit)
        return call

    def thread_main(self, me):
        me.gate.acquire()
        self.active, self.active_ident = me, raw.get_ident()
        if self.precision:
            # each thread has its own
            import decimal
            decimal.getcontext().prec = self.precision
        try:
            self.ground.set_context(self.contexts[
                                        me_ambient(self.scenario, me.index)])
            me.ambient = self.ground.get_context()
            for index, op in enumerate(me.ops):
                self.run_op(me, index, op)
        except BaseException as error:
            import traceback
            self.events.append({'kind': 'harness',
                                'detail': traceback.format_exc()[-3000:],
                                'query': None})
            del error
        if self.session is None or self.on_main and not me.index:
            self.leave(me)
            return
        # thread lives on, serving other callers
        self.set_frame(None)
        self.ground.set_context(self.unused_context)
        self.parked += 1
        self.leave(me)
        self.burial.acquire()
        self.burial.release()

    def start_helper(self, function, args, kwargs=None):
        """A thread started by the code under test."""
        thread = Thread(1 + max(thread.index for thread in self.threads), (),
                        True)
        thread.frame = self.active.frame
        self.threads.append(thread)
        self.note(self.active.index, 'starts', thread.index)
        return raw.start_new_thread(self.helper_main, (thread, function, args,
                                                       kwargs or {}))

    def helper_main(self, me, function, args, kwargs):
        me.gate.acquire()
        self.active, self.active_ident = me, raw.get_ident()
        me.ambient = self.ground.get_context()
        self.set_frame(me.frame)
        try:
            function(*args, **kwargs)
        except BaseException as error:
            self.note(me.index, 'dies', type(error).__name__)
            del error
        me.frame = None
        for lock in me.sentinels:
            if lock.locked():
                lock.release()
        self.leave(me)

    def leave(self, me):
        """The thread has finished."""
        me.state = 'done'
        me.ambient = None
        self.set_frame(None)
        if all(thread.state == 'done' for thread in self.threads
               if not thread.helper):
            self.finish()
            return
        target = self.next_other(me)
        if target is None:
            stalled = [thread for thread in self.threads
                       if thread.state == 'stalled']
            blocked = [thread for thread in self.threads
                       if thread.state == 'blocked']
            if stalled:
                target = stalled[0]
                target.state = 'ready'
                self.starving()
            elif blocked:
                timed = [thread for thread in blocked
                         if thread.deadline is not None]
                if timed:
                    target = timed[0]
                    target.state = 'ready'
                else:
                    self.event('deadlock', 'thread(s) %s wait for a lock '
                                           'nobody will release'
                               % [thread.index for thread in blocked
                                  if not thread.helper])
                    self.deadlocked = True
        if target is None:
            self.finish()
        else:
            self.resume(target)

    def run(self):
        for index, ops in enumerate(self.scenario['threads']):
            self.threads.append(Thread(index, ops))
        self.install()
        knobs.uses.clear()
        main = self.threads[0] if self.on_main else None
        for thread in self.threads:
            if thread is not main:
                raw.start_new_thread(self.thread_main, (thread,))
        self.active = self.threads[0]
        self.active_ident = None
        self.threads[0].gate.release()
        if main is not None:
            self.thread_main(main)
        self.done_gate.acquire()
        self.active = None
        seams.engine = None
        self.world.hook.active = False
        import random
        if random.getstate() != self.random_state:
            knobs.uses.add('random')
        return self.report()

    def drop(self):
        """Callers forget everything they own."""
        self.geoms = self.contexts = ()
        self.active = None
        for thread in self.threads:
            thread.frame = thread.ambient = thread.waiting = None
        self.threads = []
        seams.engine = None
        self.set_frame(None)
        hook = self.world.hook
        for name in ('prim', 'prim_end', 'consult', 'read', 'write'):
            hook.__dict__.pop(name, None)
        knobs.ids.clear()

    def report(self):
        digest = hashlib.sha256(repr(self.trace).encode()).hexdigest()[:16]
        return {'records': [[list(key), record]
                            for key, record in self.records.items()],
                'events': self.events, 'digest': digest,
                'trace': self.trace[-60:], 'fired': self.fired,
                'steps': self.total_steps, 'switches': self.switches,
                'deadlocked': self.deadlocked, 'uses': sorted(knobs.uses)}


def me_ambient(scenario, index):
    ambient = scenario.get('ambient', 0)
    return ambient[index] if isinstance(ambient, list) else ambient
