"""Canonical form of signatures: a string that is equal exactly when two answers
describe the same signature, whatever process, cache or history they come from.

Classes synthesised for stub-only types are compared by structure (name, bases, members,
annotations), other objects by where they live.  Members of unions are sorted, since `typing`
itself reuses the first spelling of equal unions it has seen.
"""
import enum
import re
import sys
import types
import typing as t

_ADDRESS = re.compile(r'0x[0-9a-fA-F]+')


def outcome(function, *args):
    """Result or exception of a call, canonically."""
    try:
        result = function(*args)
    except BaseException as error:  # noqa
        if getattr(error, '__sim_abort__', False):
            raise
        return None, 'EXC ' + exception(error)
    return result, signature(result)


def exception(error):
    try:
        text = str(error)
    except BaseException as e:  # noqa
        if getattr(e, '__sim_abort__', False):
            raise
        text = '<no text>'
    return type(error).__name__ + ': ' + _ADDRESS.sub('0x', text)[:300]


def signature(value):
    canon = Canon()
    text = canon.signature(value)
    for key in sorted(canon.defs):
        for definition in sorted(set(canon.defs[key].values())):
            text += f' where {key} = {definition}'
    return text


class Canon:
    def __init__(self):
        self.defs = {}
        self.keep = []

    def signature(self, s):
        try:
            subs = s.signatures
        except AttributeError:
            pass
        else:
            return (type(s).__name__ + '('
                    + ', '.join(self.signature(x) for x in subs) + ')')
        try:
            parameters, returns = s.parameters, s.returns
        except AttributeError:
            return 'NOT-A-SIGNATURE ' + self.any(s)
        return (type(s).__name__ + '('
                + ', '.join(self.parameter(p) for p in parameters)
                + ') -> ' + self.any(returns))

    def parameter(self, p):
        default = '-'
        if getattr(p, 'has_default', False):
            default = self.any(p.default)
        return (f'{type(p).__name__}<{p.name}:{int(p.kind)}:'
                f'{self.any(p.annotation)}={default}>')

    def seq(self, values):
        return ', '.join([self.any(v) for v in values])

    def any(self, v):
        if v is None or v is Ellipsis or v is NotImplemented:
            return repr(v)
        tv = type(v)
        if tv in (int, float, complex, bool, str, bytes):
            return f'{tv.__name__}!{v!r}'
        if tv is tuple or tv is list:
            return f'{tv.__name__}[{self.seq(v)}]'
        if tv is dict:
            return 'dict{' + ', '.join(
                    f'{self.any(k)}: {self.any(x)}' for k, x in v.items()) + '}'
        if tv in (set, frozenset):
            return tv.__name__ + '{' + ', '.join(
                    sorted(self.any(x) for x in v)) + '}'
        origin = t.get_origin(v)
        if origin is not None and not isinstance(v, type):
            args = t.get_args(v)
            if origin is t.Union or tv is types.UnionType:
                return 'Union[' + ', '.join(
                        sorted({self.any(a) for a in args})) + ']'
            if origin is t.Literal:
                return 'Literal[' + ', '.join(
                        sorted({self.any(a) for a in args})) + ']'
            meta = getattr(v, '__metadata__', None)
            name = getattr(v, '_name', None)
            return (f'{tv.__module__}.{tv.__name__}:{name}:{self.any(origin)}'
                    f'[{self.seq(args)}]'
                    + (f'@{self.any(meta)}' if meta is not None else ''))
        if isinstance(v, types.GenericAlias):
            return (f'alias:{self.any(v.__origin__)}[{self.seq(v.__args__)}]')
        if isinstance(v, t.ForwardRef):
            return f'ForwardRef({v.__forward_arg__!r})'
        if isinstance(v, t.TypeVar):
            return self.once(v, lambda: (
                f'TypeVar({v.__name__}, {v.__covariant__:d}'
                f'{v.__contravariant__:d}, {self.any(v.__bound__)},'
                f' {self.seq(v.__constraints__)})'), v.__name__)
        if isinstance(v, t.ParamSpec):
            return f'ParamSpec({v.__name__})'
        if isinstance(v, (t.ParamSpecArgs, t.ParamSpecKwargs)):
            return f'{tv.__name__}({self.any(v.__origin__)})'
        if isinstance(v, t.NewType):
            return (f'NewType({v.__module__}.{v.__qualname__},'
                    f' {self.any(v.__supertype__)})')
        if isinstance(v, enum.Enum):
            return f'enum!{self.any(tv)}.{v.name}'
        if isinstance(v, type):
            return self.cls(v)
        if isinstance(v, types.ModuleType):
            return self.module(v)
        if isinstance(v, (classmethod, staticmethod)):
            return f'{tv.__name__}({self.any(v.__func__)})'
        if isinstance(v, property):
            return f'property({self.any(v.fget)},{self.any(v.fset)})'
        if isinstance(v, types.FunctionType):
            module = v.__module__ or ''
            if synthetic(module):
                return self.once(v, lambda: self.function(v), v.__qualname__)
            return f'function!{module}.{v.__qualname__}'
        module = getattr(v, '__module__', None)
        try:
            text = repr(v)
        except Exception as error:
            text = 'REPR ' + exception(error)
        return (f'obj!{tv.__module__}.{tv.__qualname__}!'
                + _ADDRESS.sub('0x', text)[:300]
                + (f'!{module}' if isinstance(module, str) else ''))

    def once(self, v, build, name):
        key = f'<{type(v).__name__} {name}>'
        texts = self.defs.setdefault(key, {})
        if id(v) not in texts:
            self.keep.append(v)
            texts[id(v)] = ''
            texts[id(v)] = build()
        return key

    def function(self, v):
        code = v.__code__
        names = code.co_varnames[:code.co_argcount + code.co_kwonlyargcount
                                 + bool(code.co_flags & 4)
                                 + bool(code.co_flags & 8)]
        return (f'def {v.__qualname__}({", ".join(names)};'
                f'{self.any(v.__defaults__)};'
                f'{self.any(v.__kwdefaults__)};'
                + ', '.join(f'{k}:{self.any(x)}' for k, x in
                            sorted(v.__annotations__.items()))
                + ')')

    def module(self, v):
        if sys.modules.get(v.__name__) is v:
            return f'module!{v.__name__}'
        return self.once(v, lambda: (
            f'stub module {v.__name__}' + '{' + ', '.join(
                    f'{k}={self.any(x)}'
                    for k, x in sorted(vars(v).items())
                    if not k.startswith('__')) + '}'), v.__name__)

    def cls(self, v):
        module, qualname = v.__module__, v.__qualname__
        if not isinstance(module, str) or not isinstance(qualname, str):
            return f'class?{module!r}.{qualname!r}'
        if synthetic(module):
            return self.once(v, lambda: self.stub_class(v), v.__name__)
        return f'class!{module}.{qualname}'

    def stub_class(self, v):
        skip = {'__module__', '__dict__', '__weakref__', '__doc__',
                '__annotations__', '__parameters__', '__orig_bases__',
                '__abstractmethods__', '_abc_impl', '__subclasshook__',
                '__init__' if getattr(v, '_is_protocol', False) else '',
                '__static_attributes__', '__firstlineno__',
                '__non_callable_proto_members__', '__protocol_attrs__',
                '__callable_proto_members_only__'}
        members = []
        for name, value in sorted(vars(v).items()):
            if name in skip:
                continue
            members.append(f'{name}={self.any(value)}')
        annotations = vars(v).get('__annotations__', {})
        return (f'stub class {v.__qualname__}<{type(v).__name__}>('
                + self.seq(v.__bases__) + '){'
                + '; '.join(members) + ' | '
                + '; '.join(f'{k}: {self.any(x)}'
                            for k, x in sorted(annotations.items())) + '}')


def synthetic(module):
    return module == 'paradigm' or module.startswith('paradigm.')
