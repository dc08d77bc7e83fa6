"""What is left of queries: objects, module state, interpreter settings."""
import decimal
import gc
import os
import sys
import types
import weakref

from . import engine as _engine
from .seams import raw

PACKAGES = ('orient', 'ground', 'prioq', 'dendroid')


def _own_modules():
    return [(name, module) for name, module in sorted(sys.modules.items())
            if name.split('.')[0] in PACKAGES and module is not None]


def signature():
    """Value of everything reachable from the state of the modules.

    Equal whenever no state changed; containers, counters and caches of any
    kind (module globals, class attributes, default arguments, closures,
    function attributes, memoizing wrappers) take part by value.
    """
    seen, result = {}, []
    modules = _own_modules()
    own = {raw.id(vars(module)) for _, module in modules}

    def visit(path, value, depth):
        kind = type(value)
        if value is None or kind in (bool, int, float, str, bytes, complex):
            result.append((path, repr(value)[:200]))
            return
        if isinstance(value, types.ModuleType):
            return
        key = raw.id(value)
        if key in seen:
            result.append((path, 'seen'))
            return
        if depth > 40 or len(result) > 200000:
            return
        seen[key] = value
        if isinstance(value, types.FunctionType):
            if (value.__module__ or '').split('.')[0] not in PACKAGES:
                return
            visit(path + '.defaults', value.__defaults__, depth + 1)
            visit(path + '.kwdefaults', value.__kwdefaults__, depth + 1)
            for number, cell in enumerate(value.__closure__ or ()):
                try:
                    visit(path + '.cell%d' % number, cell.cell_contents,
                          depth + 1)
                except ValueError:
                    pass
            for name, item in list(vars(value).items()):
                visit(path + '.' + name, item, depth + 1)
        elif isinstance(value, type):
            if (value.__module__ or '').split('.')[0] not in PACKAGES:
                return
            for name, item in sorted(vars(value).items()):
                if name in ('_abc_impl', '__dict__', '__weakref__',
                            '__doc__', '__annotations__'):
                    continue
                visit(path + '.' + name, item, depth + 1)
        elif isinstance(value, types.CodeType):
            return
        elif isinstance(value, dict):
            result.append((path, 'dict', len(value)))
            for number, (k, v) in enumerate(list(value.items())):
                visit('%s[%d].key' % (path, number), k, depth + 1)
                visit('%s[%d]' % (path, number), v, depth + 1)
        elif isinstance(value, (list, tuple)):
            result.append((path, kind.__name__, len(value)))
            for number, item in enumerate(list(value)):
                visit('%s[%d]' % (path, number), item, depth + 1)
        elif isinstance(value, (set, frozenset)):
            result.append((path, kind.__name__, len(value)))
            for number, item in enumerate(list(value)):
                visit('%s{%d}' % (path, number), item, depth + 1)
        else:
            if (kind.__module__ or '').split('.')[0] in ('typing', 'abc'):
                return
            info = getattr(value, 'cache_info', None)
            if callable(info):
                try:
                    result.append((path, repr(info())))
                except Exception:
                    pass
            result.append((path, kind.__name__))
            try:
                attributes = vars(value)
            except TypeError:
                attributes = None
            if isinstance(attributes, dict):
                visit(path + '.__dict__', attributes, depth + 1)
            for cls in kind.__mro__:
                for name in vars(cls).get('__slots__', ()) or ():
                    if isinstance(name, str) and len(name) > 1:
                        try:
                            item = getattr(value, name)
                        except AttributeError:
                            continue
                        visit(path + '.' + name, item, depth + 1)
            for number, item in enumerate(gc.get_referents(value)):
                if item is not attributes and item is not kind:
                    visit('%s->%d' % (path, number), item, depth + 1)

    for name, module in modules:
        for attribute, value in sorted(vars(module).items()):
            if attribute in ('__builtins__', '__doc__', '__spec__',
                             '__loader__', '__annotations__', '__cached__'):
                continue
            visit(name + '.' + attribute, value, 0)
    del own
    return result


def settings():
    """Interpreter-wide settings."""
    import atexit
    import contextvars
    import os
    import random
    import signal
    import threading
    import warnings
    context = decimal.getcontext()
    result = {
        'recursion limit': sys.getrecursionlimit(),
        'gc enabled': gc.isenabled(),
        'gc threshold': gc.get_threshold(),
        'gc debug': gc.get_debug(),
        'gc callbacks': len(gc.callbacks),
        'gc garbage': len(gc.garbage),
        'random state': random.getstate(),
        'warning filters': list(warnings.filters),
        'decimal': (context.prec, context.rounding, context.Emin,
                    context.Emax, context.capitals, context.clamp,
                    tuple(sorted(flag.__name__ for flag, value
                                 in context.flags.items() if value)),
                    tuple(sorted(trap.__name__ for trap, value
                                 in context.traps.items() if value))),
        'excepthook': sys.excepthook, 'displayhook': sys.displayhook,
        'threading excepthook': threading.excepthook,
        'trace': sys.gettrace(), 'profile': sys.getprofile(),
        'switch interval': sys.getswitchinterval(),
        'int digits': sys.get_int_max_str_digits(),
        'threads': sum(not isinstance(thread, threading._DummyThread)
                       for thread in threading.enumerate()),
        'asyncgen hooks': tuple(sys.get_asyncgen_hooks()),
        'origin tracking': sys.get_coroutine_origin_tracking_depth(),
        'signals': tuple(signal.getsignal(number)
                         for number in sorted(signal.valid_signals())),
        'itimer': signal.getitimer(signal.ITIMER_REAL)[1],
        'environment': dict(os.environ), 'directory': os.getcwd(),
        'umask': _umask(os), 'stdout': sys.stdout, 'stderr': sys.stderr,
        'path': list(sys.path), 'path hooks': len(sys.path_hooks),
        'meta path': len(sys.meta_path),
        'atexit': atexit._ncallbacks(),
        'descriptors': sorted(os.listdir('/proc/self/fd')),
        'children': _children(),
        'ambient variables': _variables(contextvars),
        'last error': getattr(sys, 'last_exc', None),
    }
    return result


def main_settings():
    context = decimal.getcontext()
    return {'recursion limit': sys.getrecursionlimit(),
            'gc enabled': gc.isenabled(),
            'gc threshold': gc.get_threshold(),
            'decimal': (context.prec, context.rounding, context.Emin,
                        context.Emax),
            'switch interval': sys.getswitchinterval(),
            'trace': sys.gettrace(), 'profile': sys.getprofile()}


def _umask(os):
    value = os.umask(0o22)
    os.umask(value)
    return value


def _children():
    try:
        with open('/proc/self/task/%d/children' % raw.getpid()) as file:
            return file.read().split()
    except OSError:
        return []


def _variables(contextvars):
    return sorted(((variable.name, raw.id(value)) for variable, value
                   in contextvars.copy_context().items()), key=str)


def differences(before, after):
    result = []
    for name, value in before.items():
        if name == 'descriptors':
            if len(value) != len(after[name]):
                result.append('%s: %r -> %r' % (name, value, after[name]))
        elif after[name] != value:
            result.append('%s: %s -> %s' % (name, str(value)[:120],
                                            str(after[name])[:120]))
    return result


def survivors():
    """Live objects made by code under test, after a collection."""
    gc.collect()
    found = {}
    for obj in gc.get_objects():
        kind = type(obj)
        if (kind.__module__ or '').split('.')[0] == 'orient':
            name = kind.__module__ + '.' + kind.__qualname__
        elif isinstance(obj, types.GeneratorType):
            if not obj.gi_code.co_filename.startswith(_engine.ORIENT_DIR):
                continue
            name = 'generator ' + obj.gi_code.co_qualname
        elif isinstance(obj, types.FrameType):
            if not obj.f_code.co_filename.startswith(_engine.ORIENT_DIR):
                continue
            name = 'frame ' + obj.f_code.co_qualname
        elif isinstance(obj, types.FunctionType):
            if not obj.__code__.co_filename.startswith(_engine.ORIENT_DIR):
                continue
            name = 'function ' + obj.__code__.co_qualname
        elif kind.__module__ in ('prioq.base', 'dendroid.red_black',
                                 'dendroid._core.sets'):
            name = kind.__module__ + '.' + kind.__qualname__
        else:
            continue
        found[name] = found.get(name, 0) + 1
    return found


class Watch:
    """Weak references to whatever the callers own."""

    def __init__(self, engine):
        self.references = []
        for number, geom in enumerate(engine.geoms):
            for item in engine.world.walk(geom):
                try:
                    reference = weakref.ref(item)
                except TypeError:
                    continue
                self.references.append(('geometry %d: %s'
                                        % (number, type(item).__name__),
                                        reference))
        for number, context in enumerate(engine.contexts):
            self.references.append(('context %d' % number,
                                    weakref.ref(context)))

    def watch_errors(self, errors):
        for error in errors:
            try:
                self.references.append(('error ' + type(error).__name__,
                                        weakref.ref(error)))
            except TypeError:
                pass

    def alive(self):
        return sorted({name for name, reference in self.references
                       if reference() is not None})


class Session:
    """Brackets a simulated run."""

    def __init__(self, engine):
        self.before = survivors()
        self.settings = settings()
        self.watch = Watch(engine)
        self.tasks = len(os.listdir('/proc/self/task'))
        self.early = []
        self.precision = engine.scenario.get('process', {}).get('precision')
        engine.session = self

    def before_query(self):
        """No other query is in progress."""
        if self.precision:
            # each thread has its own
            decimal.getcontext().prec = self.precision
        return main_settings()

    def after_query(self, before, name, outcome):
        """No other query is in progress."""
        self.early += ['setting changed by %s (%s): %s'
                       % (name, outcome[1], item)
                       for item in differences(before, main_settings())]

    def staged(self, engine):
        """Callers dispose of parts while they keep the rest."""
        order = engine.scenario.get('release')
        if order is None:
            return []
        result = []
        for thread in engine.threads:
            thread.frame = thread.waiting = None
        engine.set_frame(None)
        for attempt in range(60):
            gc.collect()
            if (len(os.listdir('/proc/self/task'))
                    == self.tasks + engine.parked):
                break
            raw.sleep(.01)

        def owned():
            return {raw.id(item) for geom in engine.geoms if geom is not None
                    for item in engine.world.walk(geom)}

        current = owned()
        result += ['still alive: ' + name
                   for name, reference in engine.replaced
                   if reference() is not None
                   and raw.id(reference()) not in current]
        ambient = [raw.id(thread.ambient) for thread in engine.threads]
        ambient.append(raw.id(engine.ground.get_context()))
        for kind, number in order:
            if number >= len(engine.geoms if kind == 'g'
                             else engine.contexts):
                continue
            elif kind == 'g':
                references = engine.weakly('geometry %d dropped, others kept'
                                           % number, engine.geoms[number])
                engine.geoms[number] = None
            elif raw.id(engine.contexts[number]) in ambient:
                continue
            else:
                references = [('context %d dropped, geometries kept' % number,
                               weakref.ref(engine.contexts[number]))]
                engine.contexts[number] = None
            gc.collect()
            current = owned()
            result += ['still alive: ' + name
                       for name, reference in references
                       if reference() is not None
                       and raw.id(reference()) not in current]
            if result:
                break
        return result

    def finish(self, engine):
        result = list(self.early[:3])
        self.watch.watch_errors(engine.injected_alive)
        engine.injected_alive = []
        result += self.staged(engine)[:3]
        engine.drop()
        after = settings()
        result += ['setting changed: ' + item
                   for item in differences(self.settings, after)]
        alive, tasks = (), 1
        for attempt in range(60):
            gc.collect()
            # threads which made the queries are still there
            alive = self.watch.alive()
            if not alive:
                break
            # they may still be unwinding
            raw.sleep(.01)
        engine.burial.release()
        for attempt in range(60):
            tasks = len(os.listdir('/proc/self/task'))
            if tasks == self.tasks:
                break
            raw.sleep(.01)
        if tasks != self.tasks:
            result.append('threads: %d -> %d' % (self.tasks, tasks))
        if alive:
            result.append('still alive: ' + ', '.join(alive)[:400])
        for name, count in sorted(survivors().items()):
            if count > self.before.get(name, 0):
                result.append('left behind: %d x %s'
                              % (count - self.before.get(name, 0), name))
        if gc.garbage:
            result.append('uncollectable garbage')
        marks = engine.marks
        if len(marks) == 3:
            first, second, third = marks
            if first != second and second != third and first != third:
                changed = sorted({str(entry)[:160]
                                  for entry in set(third) ^ set(second)})
                result.append('module state depends on queries: '
                              + '; '.join(changed[:3]))
        return result
