"""Where faults and switches are worth most.

Instructions of the code under test which touch anything that outlives a
query, handle errors, write to something not made by the query, look up the
ambient context, or depend on hash order.  This is guidance for the search
only: nothing is ever judged by it.
"""
import dis
import enum
import functools
import os
import re
import sys
import types
import typing

HARMLESS_MODULES = ('orient', 'ground', 'dendroid', 'prioq', 'reprit',
                    'itertools', 'functools', 'typing', 'math', 'operator',
                    'abc', 'enum', 'fractions', 'numbers', 'collections')
BUILTINS = {'setattr': 'state', 'delattr': 'state', 'vars': 'state',
            'globals': 'state', '__import__': 'state', 'hasattr': 'handler',
            'getattr': 'handler', 'id': 'order', 'hash': 'order',
            'set': 'order', 'frozenset': 'order', 'object': 'attr',
            'exec': 'state', 'eval': 'state', 'dir': 'order'}
WRITING = {'reverse', 'sort', 'insert', 'extend', 'clear', 'update', 'setdefault', 'popitem',
           '__setitem__', '__delitem__', '__iadd__'}


ENTRY = os.sep + 'planar.py'
TAGS = {'C01': ('state', 'attr'), 'C02': ('handler', 'state'),
        'C03': ('state', 'attr', 'handler'), 'C04': ('write', 'attr',
                                                     'state'),
        'C05': ('context', 'state', 'attr'), 'C06': ('state', 'attr'),
        'C07': ('state', 'attr', 'handler'), 'C08': ('state', 'attr'),
        'C09': ('state', 'attr'), 'C10': ('order', 'state', 'attr'),
        'C11': ('state', 'attr'), 'C12': ('order', 'state', 'attr')}


def stateful(value, depth=0):
    if value is None or isinstance(value, (int, float, complex, str, bytes,
                                           bool, enum.Enum, property,
                                           re.Pattern, range, slice,
                                           staticmethod, classmethod,
                                           types.GetSetDescriptorType,
                                           types.MemberDescriptorType,
                                           types.WrapperDescriptorType,
                                           types.MethodDescriptorType,
                                           typing.TypeVar)):
        return False
    if isinstance(value, (tuple, frozenset)):
        return depth < 4 and any(stateful(item, depth + 1) for item in value)
    if isinstance(value, types.FunctionType):
        return ('__wrapped__' in vars(value)
                and not value.__code__.co_filename.startswith(_directory()))
    if isinstance(value, (types.BuiltinFunctionType, type)):
        return False
    if isinstance(value, types.MethodType):
        return stateful(value.__self__, depth + 1)
    if isinstance(value, functools.partial):
        return stateful(value.func, depth + 1)
    if isinstance(value, types.ModuleType):
        return value.__name__.split('.')[0] not in HARMLESS_MODULES
    if getattr(type(value), '__module__', '') in ('typing', 'types',
                                                  '__future__'):
        return False
    return True


def _directory():
    from . import engine
    return engine.ORIENT_DIR


def find(codes):
    """{instruction: tags} with instructions named as in profiles."""
    directory = _directory()
    modules = {}
    for name, module in sorted(sys.modules.items()):
        if name == 'orient' or name.startswith('orient.'):
            modules[getattr(module, '__file__', None)] = module
    cells, parameters, attributes, slots = {}, {}, set(), set()
    functions = {}

    def visit_function(function):
        code = function.__code__
        if not code.co_filename.startswith(directory):
            return
        functions[code] = function
        for name, cell in zip(code.co_freevars, function.__closure__ or ()):
            try:
                value = cell.cell_contents
            except ValueError:
                continue
            if stateful(value) or isinstance(value, types.FunctionType):
                if stateful(value):
                    cells.setdefault(code, set()).add(name)
        values = function.__defaults__ or ()
        names = code.co_varnames[:code.co_argcount]
        named = dict(zip(names[len(names) - len(values):], values))
        named.update(function.__kwdefaults__ or {})
        for name, value in named.items():
            if stateful(value):
                parameters.setdefault(code, set()).add(name)
        for name in vars(function):
            if name != '__wrapped__' and not name.startswith('__'):
                attributes.add(name)

    def visit_class(cls):
        for name, value in vars(cls).items():
            if isinstance(value, types.MemberDescriptorType):
                slots.add(name)
            inner = value
            if isinstance(inner, (staticmethod, classmethod)):
                inner = inner.__func__
            if isinstance(inner, property):
                for part in (inner.fget, inner.fset):
                    if isinstance(part, types.FunctionType):
                        visit_function(part)
            elif isinstance(inner, types.FunctionType):
                visit_function(inner)
            elif (not name.startswith('__') and name != '_abc_impl'
                  and not isinstance(inner, types.MemberDescriptorType)):
                if stateful(inner):
                    attributes.add(name)

    for module in modules.values():
        for value in list(vars(module).values()):
            function = value
            for _ in range(5):
                if isinstance(function, types.FunctionType):
                    visit_function(function)
                function = getattr(function, '__wrapped__', None)
                if function is None:
                    break
            if (isinstance(value, type)
                    and (value.__module__ or '').split('.')[0] == 'orient'
                    and not issubclass(value, enum.Enum)):
                visit_class(value)
    assigned = {}
    for code in codes:
        previous = None
        for instruction in dis.get_instructions(code):
            if instruction.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                assigned.setdefault(code.co_filename,
                                    set()).add(instruction.argval)
            elif (instruction.opname == 'STORE_ATTR'
                  and previous is not None
                  and previous.opname == 'LOAD_GLOBAL'):
                attributes.add(instruction.argval)
            previous = instruction
    attributes -= slots
    result = {}

    def add(code, instruction, line, tag):
        key = '%s:%d+%d' % (code.co_qualname, line, instruction.offset)
        result.setdefault(key, set()).add(tag)

    for code in codes:
        module = modules.get(code.co_filename)
        names = vars(module) if module is not None else {}
        lines = {}
        for start, end, line in code.co_lines():
            for offset in range(start, end, 2):
                lines[offset] = line or 0
        instructions = list(dis.get_instructions(code))
        at = {instruction.offset: instruction for instruction in instructions}
        guarded = []
        for entry in dis._parse_exception_table(code):
            target = at.get(entry.target)
            if target is not None and target.opname == 'PUSH_EXC_INFO':
                guarded.append((entry.start, entry.end))
        previous = None
        for instruction in instructions:
            offset, name = instruction.offset, instruction.opname
            value = instruction.argval
            line = lines.get(offset, 0)
            if any(start <= offset < end for start, end in guarded):
                add(code, instruction, line, 'handler')
            if name in ('LOAD_GLOBAL', 'LOAD_NAME'):
                if value in assigned.get(code.co_filename, ()):
                    add(code, instruction, line, 'state')
                elif value in names:
                    found = names[value]
                    if 'get_context' in value or 'set_context' in value:
                        if not code.co_filename.endswith(ENTRY):
                            add(code, instruction, line, 'context')
                    elif stateful(found):
                        add(code, instruction, line, 'state')
                    elif found is set or found is frozenset:
                        add(code, instruction, line, 'order')
                elif value in BUILTINS:
                    add(code, instruction, line, BUILTINS[value])
            elif name in ('STORE_GLOBAL', 'DELETE_GLOBAL', 'IMPORT_NAME',
                          'BEFORE_WITH', 'IMPORT_FROM'):
                add(code, instruction, line, 'state')
            elif name in ('LOAD_DEREF', 'STORE_DEREF', 'LOAD_CLOSURE'):
                if value in cells.get(code, ()) or (name == 'STORE_DEREF'
                                                    and value
                                                    in code.co_freevars):
                    add(code, instruction, line, 'state')
            elif name.startswith('LOAD_FAST') or name == 'STORE_FAST':
                if value in parameters.get(code, ()):
                    add(code, instruction, line, 'state')
            elif name in ('LOAD_ATTR', 'LOAD_METHOD', 'STORE_ATTR',
                          'DELETE_ATTR'):
                if value in attributes:
                    add(code, instruction, line, 'state')
                elif value in ('__dict__', '__setattr__', '__delattr__'):
                    add(code, instruction, line, 'attr')
                elif value in WRITING:
                    add(code, instruction, line, 'write')
                elif name == 'DELETE_ATTR' or (name == 'STORE_ATTR'
                                               and value not in slots):
                    add(code, instruction, line, 'attr')
                if (name == 'STORE_ATTR' and previous is not None
                        and previous.opname == 'LOAD_GLOBAL'):
                    add(code, instruction, line, 'state')
            elif name in ('STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_SLICE'):
                add(code, instruction, line, 'write')
            elif name == 'BINARY_OP' and '=' in (instruction.argrepr or ''):
                add(code, instruction, line, 'write')
            elif name in ('BUILD_SET', 'SET_ADD', 'SET_UPDATE'):
                add(code, instruction, line, 'order')
            previous = instruction
        # locals which got something of what outlives the query
        kept = {lines.get(instruction.offset, 0)
                for instruction in instructions
                if 'state' in result.get('%s:%d+%d' % (
                    code.co_qualname, lines.get(instruction.offset, 0),
                    instruction.offset), ())}
        aliases = {instruction.argval for instruction in instructions
                   if instruction.opname == 'STORE_FAST'
                   and lines.get(instruction.offset, 0) in kept}
        for instruction in instructions:
            if (instruction.opname.startswith('LOAD_FAST')
                    and instruction.argval in aliases):
                add(code, instruction, lines.get(instruction.offset, 0),
                    'state')
    return result
