"""User-defined callables of simulated histories, built from short specifications."""
import collections
import dataclasses
import enum
import functools
import inspect
import types
import typing as t
import weakref

KINDS = ('fn', 'lambda', 'cls', 'cls_new', 'dataclass', 'namedtuple', 'partial', 'partial_user',
         'method', 'classmethod', 'staticmethod', 'bound_builtin', 'wrapper', 'meta_equal',
         'wrapped', 'impostor_fn', 'impostor_cls', 'local_fn', 'generic_cls', 'callable_default',
         'nested_partial', 'method_of_subclass', 'overridden', 'twin_fn', 'twin_cls',
         'twin_partial', 'equal_instance', 'subclass_builtin', 'coroutine', 'enum', 'protocol',
         'typed_namedtuple', 'exception', 'meta_call', 'partialmethod', 'singledispatch',
         'cached', 'typed_dict', 'own_signature', 'slots_instance', 'bound_new', 'deep_wrapped',
         'asking')

# values that are equal, yet not the same
TWINS = [1, True, 1.0, 0, False, 0.0, -0.0, (1, 'x'), (True, 'x'), frozenset([2]),
         frozenset([2.0]), (0,), (-0.0,)]

ANNOTATIONS = [int, str, bytes, t.List[int], t.Optional[str], t.Union[int, str], t.Any,
               t.Callable[[int], str], t.Dict[str, t.Tuple[int, ...]], 'int', None, list[int],
               t.Literal['a', 'b'], t.Type[int]]


class _EqualMeta(type):
    """Classes with this metaclass all compare equal and hash alike."""

    def __eq__(cls, other):
        return isinstance(other, _EqualMeta)

    def __hash__(cls):
        return 1


def make(kind, n):
    """Builds a fresh callable; equal arguments give callables with equal signatures."""
    ann = ANNOTATIONS[n % len(ANNOTATIONS)]
    ann2 = ANNOTATIONS[(n // 3 + 5) % len(ANNOTATIONS)]

    if kind == 'fn':
        def function(a, b=n, *args, c, d=None, **kwargs):
            pass

        function.__annotations__ = {'a': ann, 'c': ann2, 'return': ann}
        return function
    if kind == 'local_fn':
        def function(x, *, y=n):
            pass

        function.__qualname__ = 'function'
        function.__annotations__ = {'x': ann2}
        return function
    if kind == 'lambda':
        return [lambda x, y=n: x, lambda *a: a, lambda k, **kw: k][n % 3]
    if kind == 'callable_default':
        def function(key=len, default=(n, 'x')):
            pass

        return function
    if kind == 'cls':
        class Plain:
            def __init__(self, a: ann, *, b: ann2 = n):
                pass

        return Plain
    if kind == 'cls_new':
        class WithNew:
            def __new__(cls, first: ann, second: int = n):
                return super().__new__(cls)

        return WithNew
    if kind == 'generic_cls':
        T = t.TypeVar('T')

        class Box(t.Generic[T]):
            def __init__(self, value: T, tag: ann = None):
                pass

        return Box
    if kind == 'dataclass':
        return dataclasses.make_dataclass(
                'Data', [('a', int), ('b', str, dataclasses.field(default=str(n)))])
    if kind == 'namedtuple':
        return collections.namedtuple('Pair', 'a b c', defaults=[n])
    if kind == 'partial':
        return functools.partial([int, sorted, print, open, max][n % 5],
                                 *[['7'], [[3, 1]], ['x'], ['f'], [1, 2]][n % 5])
    if kind == 'partial_user':
        def function(a: ann, b: int, c: str = 'c', *, d: ann2 = None):
            pass

        return functools.partial(function, 1, d=2)
    if kind == 'nested_partial':
        def function(a: ann, b: int, c: str, d: int = n):
            pass

        return functools.partial(functools.partial(function, 1), c='x')
    if kind in ('method', 'method_of_subclass', 'overridden'):
        class Owner:
            def run(self, a: ann, b: ann2 = None) -> str:
                pass

        if kind == 'method':
            return Owner().run

        class Child(Owner):
            pass

        if kind == 'overridden':
            def run(self, other: ann2, *rest: int) -> bytes:
                pass

            Child.run = run
        return Child().run
    if kind == 'classmethod':
        class Owner:
            @classmethod
            def build(cls, a: ann, n=n):
                pass

        return Owner.build
    if kind == 'staticmethod':
        class Owner:
            @staticmethod
            def build(a: ann, n=n):
                pass

        return Owner.build
    if kind == 'bound_builtin':
        return [[].append, 'x'.join, {}.get, b'x'.find, set().add, (1).__add__, 'a'.__eq__,
                dict.fromkeys, int.from_bytes, [1].sort, 1.5.hex, {}.setdefault][n % 12]
    if kind == 'wrapper':
        return [int.__add__, str.join, list.append, object.__eq__, dict.get,
                bytes.fromhex, type.__call__, str.__len__][n % 8]
    if kind == 'meta_equal':
        def __init__(self, **kw):
            pass

        def __init__two(self, a: ann, b=n):
            pass

        return _EqualMeta('Equal', (), {'__init__': [__init__, __init__two][n % 2]})
    if kind == 'wrapped':
        def inner(a: ann, b: int = n) -> ann2:
            pass

        @functools.wraps(inner)
        def outer(*args, **kwargs):
            pass

        return outer
    if kind == 'impostor_fn':
        def impostor(only: ann):
            pass

        module, name = [('os', 'getcwd'), ('os.path', 'join'), ('shutil', 'copy'),
                        ('nowhere', 'f'), ('builtins', 'len'), ('json', 'dumps')][n % 6]
        impostor.__module__, impostor.__qualname__ = module, name
        impostor.__name__ = name
        return impostor
    if kind == 'impostor_cls':
        name = ['OrderedDict', 'Counter', 'UserDict'][n % 3]
        return type(name, (), {'__module__': 'collections',
                               '__init__': lambda self, imposed: None})
    if kind in ('twin_fn', 'twin_partial', 'twin_cls'):
        twin = TWINS[n % len(TWINS)]

        def function(first, value: int = twin, *, flag: t.Optional[int] = twin):
            pass

        if kind == 'twin_fn':
            return function
        if kind == 'twin_partial':
            return functools.partial(function, flag=twin)
        return type('Twin', (), {'__init__': function})
    if kind == 'equal_instance':
        def called(self, a: ann, b=n):
            pass

        def called_two(self, *args: ann2):
            pass

        return type('Callable', (), {
            '__call__': [called, called_two][n % 2], '__eq__': lambda self, other: True,
            '__hash__': lambda self: 1})()
    if kind == 'subclass_builtin':
        return type('Sub', ([dict, list, str, int, BaseException, collections.OrderedDict,
                             collections.deque, object][n % 8],), {})
    if kind == 'coroutine':
        async def function(a: ann, *, b=n) -> ann2:
            pass

        async def generator(a: ann2, b=n):
            yield a

        return [function, generator][n % 2]
    if kind == 'enum':
        return [enum.Enum, enum.Flag][n % 2]('Colour', ['RED', 'GREEN'])
    if kind == 'protocol':
        class Proto(t.Protocol):
            def run(self, a: ann) -> ann2:
                pass

        class Implementation(Proto):
            def __init__(self, a: ann, b=n):
                pass

        return [Proto, Implementation][n % 2]
    if kind == 'typed_namedtuple':
        return t.NamedTuple('Pair', [('a', int), ('b', ann2)])
    if kind == 'exception':
        class Failure([Exception, OSError, KeyError][n % 3]):
            def __init__(self, a: ann, b=n):
                pass

        return Failure
    if kind == 'meta_call':
        class Meta(type):
            def __call__(cls, first: ann, *rest: ann2):
                pass

        class WithMeta(metaclass=Meta):
            def __init__(self, a):
                pass

        return WithMeta
    if kind == 'partialmethod':
        class Owner:
            def run(self, a: ann, b: ann2, c=n):
                pass

            run_one = functools.partialmethod(run, 1)

        return [Owner.run_one, Owner().run_one][n % 2]
    if kind == 'singledispatch':
        @functools.singledispatch
        def function(a: ann, b=n):
            pass

        return function
    if kind == 'cached':
        @functools.lru_cache(maxsize=None)
        def function(a: ann, b=n):
            pass

        return function
    if kind == 'typed_dict':
        return t.TypedDict('Movie', {'name': str, 'year': int}, total=bool(n % 2))
    if kind == 'own_signature':
        def function(*args):
            pass

        function.__signature__ = inspect.Signature(
                [inspect.Parameter('a', inspect.Parameter.POSITIONAL_ONLY, annotation=ann)])
        return function
    if kind == 'slots_instance':
        class Slotted:
            __slots__ = ()

            def __call__(self, a: ann, b=n):
                pass

        return Slotted()
    if kind == 'bound_new':
        class WithNew:
            def __new__(cls, a: ann, b=n):
                return super().__new__(cls)

        return [WithNew.__new__, WithNew.__init__, WithNew.__call__ if n < 0 else WithNew][n % 3]
    if kind == 'deep_wrapped':
        def function(a: ann, b=n):
            pass

        for _ in range(n % 4 + 1):
            @functools.wraps(function)
            def function(*args, __inner=function, **kwargs):
                pass

        return function
    if kind == 'asking':
        class Asking(type):
            @property
            def __signature__(cls):
                # made of signatures of others
                import paradigm.base
                other = paradigm.base.signature_from_callable([len, print, dict.get][n % 3])
                return inspect.Signature(
                        [inspect.Parameter('a', inspect.Parameter.POSITIONAL_ONLY,
                                           annotation=int if other else str),
                         inspect.Parameter('b', inspect.Parameter.KEYWORD_ONLY, annotation=ann)])

        return Asking('Asked', (), {})
    raise ValueError(kind)


SHARED = ('bound_builtin', 'wrapper')  # kinds that do not make everything anew


def references(kind, value):
    """Weak references to what was made for a callable."""
    if kind in SHARED:
        return []
    made = [value]
    for name in ('__func__', '__self__', 'func'):
        part = getattr(value, name, None)
        if (isinstance(part, (types.FunctionType, functools.partial))
                or getattr(type(part), '__module__', '') == __name__
                or getattr(part, '__module__', '') == __name__):
            made.append(part)
    found = []
    for part in made:
        try:
            found.append(weakref.ref(part))
        except TypeError:
            pass
    return found
