"""Caller-owned objects of a simulated universe: contexts, geometries, points.

They implement the interfaces ``orient`` documents for its arguments on top of
the real ``ground`` classes, and are the seams through which a simulated
deployment reaches into a running query: every context operation, geometry
read, comparison and hash may be observed, delayed, failed or made to call
back.  ``hook`` is installed by the engine; it is a no-op outside of runs.
"""
from types import FunctionType, MethodType, BuiltinFunctionType

from ground.base import (Context,
                         Location,
                         Mode,
                         Orientation,
                         Relation)
from ground.core import geometries as _g

from .seams import raw

MODES = {'exact': Mode.EXACT, 'plain': Mode.PLAIN, 'robust': Mode.ROBUST}


class Hook:
    """What the engine overrides."""

    active = False

    def prim(self, context, name):
        """Before a context operation; returns a token, if it is observed."""

    def prim_end(self, token, failed):
        """After an observed context operation."""

    def performed(self, token, name, args, kwargs, result):
        """What was computed, of which operands."""

    def consult(self, context, name, plain):
        """Code under test (or the context itself) reads a context attribute;
        ``plain`` attributes are classes and values rather than operations."""

    def read(self, obj, name):
        """Geometry attribute read, comparison or hashing."""

    def write(self, obj, what):
        """Something tried to modify an argument."""


hook = Hook()
salts = {'hash': None}


class Guard:
    """Mixin reporting attempts to write attributes."""
    __slots__ = ()

    def __setattr__(self, name, value):
        if hook.active:
            hook.write(self, 'set attribute ' + name)
        object.__setattr__(self, name, value)

    def __delattr__(self, name):
        if hook.active:
            hook.write(self, 'delete attribute ' + name)
        object.__delattr__(self, name)


class SimPoint(Guard, _g.Point):
    def __init__(self, x, y):
        object.__setattr__(self, '_x', x)
        object.__setattr__(self, '_y', y)

    def __hash__(self):
        salt = salts['hash']
        value = hash((self._x, self._y))
        if salt is None:
            return value
        # negative: nearly everything collides
        return hash((salt, value, salt)) if salt >= 0 else value % -salt

    def __reduce__(self):
        return SimPoint, (self._x, self._y)


class SimSegment(Guard, _g.Segment):
    def __init__(self, start, end):
        object.__setattr__(self, '_start', start)
        object.__setattr__(self, '_end', end)


class SimMultisegment(Guard, _g.Multisegment):
    def __init__(self, segments):
        object.__setattr__(self, '_segments', segments)


class SimContour(Guard, _g.Contour):
    def __init__(self, vertices):
        object.__setattr__(self, '_vertices', vertices)


class SimPolygon(Guard, _g.Polygon):
    def __init__(self, border, holes):
        object.__setattr__(self, '_border', border)
        object.__setattr__(self, '_holes', holes)


class SimMultipolygon(Guard, _g.Multipolygon):
    def __init__(self, polygons):
        object.__setattr__(self, '_polygons', polygons)


def _hooked(cls, properties, comparisons=()):
    """Variant of the class whose reads go through the hook."""
    def make_property(name):
        slot = '_' + name

        def getter(self):
            if hook.active:
                hook.read(self, name)
            return getattr(self, slot)
        return property(getter)

    def make_comparison(name):
        base = getattr(cls, name)

        def method(self, *args):
            if hook.active:
                hook.read(self, name)
            return base(self, *args)
        return method

    namespace = {name: make_property(name) for name in properties}
    namespace.update({name: make_comparison(name) for name in comparisons})
    return type('Hooked' + cls.__name__, (cls,), namespace)


HookedPoint = _hooked(SimPoint, ('x', 'y'),
                      ('__eq__', '__hash__', '__lt__', '__le__'))
HookedSegment = _hooked(SimSegment, ('start', 'end'), ('__eq__',))
HookedMultisegment = _hooked(SimMultisegment, ('segments',), ('__eq__',))
HookedContour = _hooked(SimContour, ('vertices',), ('__eq__',))
HookedPolygon = _hooked(SimPolygon, ('border', 'holes'), ('__eq__',))
HookedMultipolygon = _hooked(SimMultipolygon, ('polygons',), ('__eq__',))
for _cls in (HookedSegment, HookedMultisegment, HookedContour, HookedPolygon,
             HookedMultipolygon):
    _cls.__hash__ = None


def _guarded_list_method(name):
    base = getattr(list, name)

    def method(self, *args, **kwargs):
        if hook.active:
            hook.write(self, 'list.' + name)
        return base(self, *args, **kwargs)
    method.__name__ = name
    return method


class SimList(list):
    """Sequence of a caller: reports attempts to modify it."""

    def __setattr__(self, name, value):
        if hook.active:
            hook.write(self, 'set attribute ' + name)
        object.__setattr__(self, name, value)


for _name in ('append', 'clear', 'extend', 'insert', 'pop', 'remove',
              'reverse', 'sort', '__setitem__', '__delitem__', '__iadd__',
              '__imul__'):
    setattr(SimList, _name, _guarded_list_method(_name))


class HookedList(SimList):
    def __getitem__(self, index):
        if hook.active:
            hook.read(self, '__getitem__')
        return list.__getitem__(self, index)

    def __iter__(self):
        if hook.active:
            hook.read(self, '__iter__')
        return list.__iter__(self)


class Family:
    """A consistent set of classes to build literals with."""

    def __init__(self, hooked=False, sequence='list'):
        prefix = 'Hooked' if hooked else 'Sim'
        scope = globals()
        self.point = scope[prefix + 'Point']
        self.segment = scope[prefix + 'Segment']
        self.multisegment = scope[prefix + 'Multisegment']
        self.contour = scope[prefix + 'Contour']
        self.polygon = scope[prefix + 'Polygon']
        self.multipolygon = scope[prefix + 'Multipolygon']
        self.sequence = (tuple if sequence == 'tuple'
                         else scope[prefix + 'List'])

    def build(self, literal, shared=None):
        """Object of a literal; equal points may be one shared object."""
        t, v = literal['t'], literal['v']
        points = {} if shared else None

        def point(p):
            if points is None:
                return self.point(p[0], p[1])
            key = tuple(p)
            if key not in points:
                points[key] = self.point(p[0], p[1])
            return points[key]

        def contour(vertices):
            return self.contour(self.sequence(point(p) for p in vertices))

        def segment(ends):
            return self.segment(point(ends[0]), point(ends[1]))

        def polygon(parts):
            return self.polygon(contour(parts[0]),
                                self.sequence(contour(h) for h in parts[1]))

        if t == 'point':
            return point(v)
        elif t == 'segment':
            return segment(v)
        elif t == 'multisegment':
            return self.multisegment(self.sequence(map(segment, v)))
        elif t in ('contour', 'region'):
            return contour(v)
        elif t == 'multiregion':
            return self.sequence(map(contour, v))
        elif t == 'polygon':
            return polygon(v)
        elif t == 'multipolygon':
            return self.multipolygon(self.sequence(map(polygon, v)))
        raise ValueError(t)

    def assign(self, obj, literal, how=None):
        """In-place edit by the owner: the object now denotes the literal."""
        fresh = self.build(literal)
        if how is not None and literal['t'] != 'point':
            # as many of the objects as possible stay in place
            counts = {}
            for item in walk(obj):
                counts[raw.id(item)] = counts.get(raw.id(item), 0) + 1
            self.merge(obj, fresh, how == 'deep', counts)
            return
        t = literal['t']
        if t == 'multiregion':
            obj[:] = fresh
            return
        for slot in {'point': ('_x', '_y'), 'segment': ('_start', '_end'),
                     'multisegment': ('_segments',),
                     'contour': ('_vertices',), 'region': ('_vertices',),
                     'polygon': ('_border', '_holes'),
                     'multipolygon': ('_polygons',)}[t]:
            old, new = getattr(obj, slot), getattr(fresh, slot)
            if isinstance(old, list):
                old[:] = new
            elif t == 'polygon' and slot == '_border':
                old_vertices = old._vertices
                if isinstance(old_vertices, list):
                    old_vertices[:] = new._vertices
                else:
                    object.__setattr__(old, '_vertices', new._vertices)
            else:
                object.__setattr__(obj, slot, new)

    def merge(self, old, new, deep, counts):
        if isinstance(old, _g.Point):
            if old._x == new._x and old._y == new._y:
                return old
            elif not deep or counts.get(raw.id(old)) != 1:
                return new
            object.__setattr__(old, '_x', new._x)
            object.__setattr__(old, '_y', new._y)
            return old
        elif isinstance(old, (list, tuple)):
            merged = [self.merge(first, second, deep, counts)
                      for first, second in zip(tuple(old), tuple(new))]
            merged += tuple(new)[len(merged):]
            if isinstance(old, tuple):
                return tuple(merged)
            list.__setitem__(old, slice(None), merged)
            return old
        for slot in SLOTS:
            if hasattr(old, slot):
                object.__setattr__(old, slot,
                                   self.merge(getattr(old, slot),
                                              getattr(new, slot), deep,
                                              counts))
        return old


SLOTS = ('_x', '_y', '_start', '_end', '_segments', '_vertices', '_border',
         '_holes', '_polygons')


def walk(obj):
    """All caller-owned objects an argument consists of, itself included."""
    stack, result = [obj], []
    while stack:
        item = stack.pop()
        result.append(item)
        if isinstance(item, _g.Point):
            continue
        elif isinstance(item, (list, tuple)):
            stack.extend(tuple.__iter__(item) if isinstance(item, tuple)
                         else list.__iter__(item))
        elif isinstance(item, _g.Segment):
            stack += (item._start, item._end)
        elif isinstance(item, _g.Multisegment):
            stack.append(item._segments)
        elif isinstance(item, _g.Contour):
            stack.append(item._vertices)
        elif isinstance(item, _g.Polygon):
            stack += (item._border, item._holes)
        elif isinstance(item, _g.Multipolygon):
            stack.append(item._polygons)
    return result


def snapshot(obj):
    """Everything an argument consists of, down to identities and values.

    Returns a function telling whether all of it is still the same.
    """
    lists, attributes, points = [], [], []
    for item in walk(obj):
        if isinstance(item, list):
            lists.append((item, list(list.__iter__(item))))
        elif isinstance(item, tuple):
            continue
        elif isinstance(item, _g.Point):
            points.append((item, item._x, item._y))
        else:
            attributes.append((item, [(slot, getattr(item, slot))
                                      for slot in sorted(SLOTS)
                                      if hasattr(item, slot)]))
    dicts = [item.__dict__ for item in walk(obj)
             if hasattr(item, '__dict__')]

    def check_quick():
        for items, content in lists:
            if len(items) != len(content):
                return 'length of a sequence changed'
            for first, second in zip(list.__iter__(items), content):
                if first is not second:
                    return 'content or order of a sequence changed'
        return None

    def check():
        found = check_quick()
        if found:
            return found
        for item, x, y in points:
            if item._x is not x or item._y is not y:
                return 'coordinates of a point changed'
        for item, slots in attributes:
            for slot, value in slots:
                if getattr(item, slot) is not value:
                    return 'attribute %s changed' % slot
        for dictionary in dicts:
            if dictionary:
                return 'attributes added: ' + ', '.join(sorted(dictionary))
        return None

    check.quick = check_quick
    check.size = sum(len(content) for _, content in lists)
    return check


class KernelError(Exception):
    """What a failing simulated context raises."""


def _snap(grid, point):
    return SimPoint(round(point.x / grid) * grid, round(point.y / grid) * grid)


class SimContext(Context):
    """Context of a simulated caller, built on the real one."""

    sim_index = None
    sim_kind = 'normal'
    sim_param = None

    def __getattribute__(self, name):
        value = Context.__getattribute__(self, name)
        if name[0] == '_' or name.startswith('sim_'):
            return value
        plain = isinstance(value, type) or not callable(value)
        if hook.active:
            hook.consult(self, name, plain)
        elif (plain or Context.__getattribute__(self, 'sim_kind')
              == 'normal'):
            return value
        return value if plain else Operation(self, name, value)

    def __setattr__(self, name, value):
        if hook.active:
            hook.write(self, 'set context attribute ' + name)
        object.__setattr__(self, name, value)


class FalsyContext(SimContext):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqualContext(SimContext):
    """All instances compare equal, though they are different callers'."""

    def __eq__(self, other):
        return isinstance(other, EqualContext)

    def __hash__(self):
        return 7


class Operation:
    """A context operation as handed out to the code under test."""
    __slots__ = 'context', 'name', 'function', '__weakref__'

    def __init__(self, context, name, function):
        self.context, self.name, self.function = context, name, function

    def __call__(self, *args, **kwargs):
        if not hook.active:
            return self.call(args, kwargs)
        token = hook.prim(self.context, self.name)
        if token is None:
            return self.call(args, kwargs)
        try:
            result = self.call(args, kwargs)
        except BaseException as error:
            hook.prim_end(token, error)
            raise
        hook.prim_end(token, None)
        if token.oplog is not None:
            hook.performed(token, self.name, args, kwargs, result)
        return result

    def call(self, args, kwargs):
        context, name = self.context, self.name
        kind = context.sim_kind
        if kind != 'normal':
            if kind == 'failing':
                raise KernelError(name)
            elif kind == 'snap' and name in ('angle_orientation',):
                args = [_snap(context.sim_param, point) for point in args]
            elif kind == 'flip' and name == 'angle_orientation':
                return Orientation(-int(self.function(*args, **kwargs).value))
            elif kind == 'erratic' and name == 'angle_orientation':
                # another answer for some of the arguments, always the same
                number = context.sim_param
                for point in args:
                    number = (number * 31 + hash(point.x)) * 31 + hash(point.y)
                result = self.function(*args, **kwargs)
                return (Orientation((int(result.value) + 2) % 3 - 1)
                        if not (number * 2654435761 >> 13
                                & (3 if context.sim_param % 3 else 15))
                        else result)
            elif kind == 'blind' and name == 'segments_relation':
                return Relation.DISJOINT
            elif kind == 'blind' and name == 'segment_contains_point':
                return False
            elif kind == 'wide' and name.endswith('box'):
                box = self.function(*args, **kwargs)
                pad = context.sim_param
                return context._box_cls(box.min_x - pad, box.max_x + pad,
                                        box.min_y - pad, box.max_y + pad)
        return self.function(*args, **kwargs)


def make_context(spec, index, family):
    cls = {'falsy': FalsyContext,
           'equal': EqualContext}.get(spec.get('cls'), SimContext)
    result = cls(mode=MODES[spec.get('mode', 'exact')],
                 point_cls=family.point, segment_cls=family.segment,
                 contour_cls=family.contour, polygon_cls=family.polygon,
                 multisegment_cls=family.multisegment,
                 multipolygon_cls=family.multipolygon)
    object.__setattr__(result, 'sim_index', index)
    set_behaviour(result, spec)
    return result


def set_behaviour(context, spec):
    object.__setattr__(context, 'sim_kind', spec.get('kind', 'normal'))
    object.__setattr__(context, 'sim_param', spec.get('param'))


def context_snapshot(context):
    state = {slot: getattr(context, slot) for slot in Context.__slots__}
    attributes = dict(context.__dict__)

    def check():
        for slot, value in state.items():
            if Context.__getattribute__(context, slot) is not value:
                return 'context attribute %s changed' % slot
        if context.__dict__ != attributes:
            return 'context attributes changed'
        return None

    def check_quick():
        if context.__dict__ != attributes:
            return 'context attributes changed'
        return None

    check.quick = check_quick
    return check


def classes_snapshot(objects):
    """Attributes which the objects get from their classes.

    Returns a function telling whether all of them are still the same.
    """
    state = []
    for cls in {base: None
                for obj in objects
                for base in type(obj).__mro__ if base is not object}:
        if cls.__module__ != 'builtins':
            state.append([cls, dict(vars(cls))])

    def check():
        for item in state:
            cls, content = item
            current = vars(cls)
            if len(current) == len(content) and current == content:
                continue
            names = sorted(name
                           for name in current.keys() | content.keys()
                           if (current.get(name, check)
                               is not content.get(name, check)))
            item[1] = dict(current)
            # interpreter may add special ones by itself
            names = [name for name in names
                     if not name.startswith(('__', '_abc_'))]
            if names:
                return 'class %s changed: %s' % (cls.__name__,
                                                 ', '.join(names))
        return None

    check.quick = lambda: None
    return check
