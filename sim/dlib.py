"""Generated installations: a small stub library with the runtime modules it describes.

The runtime functions take (*args, **kwargs), so that an answer that does not come from the stubs
is never mistaken for one that does.
"""
import os
import random
import re
import shutil

BUILTINS = '''\
import sys
from typing import (Any, Callable, Dict, Generic, Iterable, Iterator, List, Mapping,
                    Optional, Protocol, Sequence, Tuple, Type, TypeVar, Union, overload)

_T = TypeVar("_T")
_T_co = TypeVar("_T_co", covariant=True)
_KT = TypeVar("_KT")
_VT = TypeVar("_VT")

class object:
    def __init__(self) -> None: ...
    def __new__(cls) -> Any: ...
    def __setattr__(self, __name: str, __value: Any) -> None: ...
    def __delattr__(self, __name: str) -> None: ...
    def __eq__(self, __value: object) -> bool: ...
    def __ne__(self, __value: object) -> bool: ...
    def __str__(self) -> str: ...
    def __repr__(self) -> str: ...
    def __hash__(self) -> int: ...
    def __format__(self, __format_spec: str) -> str: ...
    def __sizeof__(self) -> int: ...
    @classmethod
    def __init_subclass__(cls) -> None: ...

class type:
    @overload
    def __init__(self, __o: object) -> None: ...
    @overload
    def __init__(self, __name: str, __bases: Tuple[type, ...], __dict: Dict[str, Any], **kwds: Any) -> None: ...
    def mro(self) -> List[type]: ...

class int:
    def bit_length(self) -> int: ...
    def conjugate(self) -> int: ...
    if sys.version_info >= (3, 8):
        def as_integer_ratio(self) -> Tuple[int, int]: ...

class float:
    def hex(self) -> str: ...
    @classmethod
    def fromhex(cls, __string: str) -> float: ...

class bool(int): ...

class str(Sequence[str]):
    def join(self, __iterable: Iterable[str]) -> str: ...
    def split(self, sep: Optional[str] = None, maxsplit: int = -1) -> List[str]: ...

class bytes(Sequence[int]):
    def hex(self, sep: Union[str, bytes] = ..., bytes_per_sep: int = ...) -> str: ...

class tuple(Sequence[_T_co], Generic[_T_co]):
    def count(self, __value: Any) -> int: ...

class list(Sequence[_T], Generic[_T]):
    def append(self, __object: _T) -> None: ...
    def extend(self, __iterable: Iterable[_T]) -> None: ...
    def sort(self, *, key: Optional[Callable[[_T], Any]] = None, reverse: bool = False) -> None: ...

class dict(Mapping[_KT, _VT], Generic[_KT, _VT]):
    def popitem(self) -> Tuple[_KT, _VT]: ...
    @overload
    def pop(self, __key: _KT) -> _VT: ...
    @overload
    def pop(self, __key: _KT, __default: Union[_VT, _T]) -> Union[_VT, _T]: ...

class staticmethod:
    def __init__(self, __f: Callable[..., Any]) -> None: ...

class classmethod:
    def __init__(self, __f: Callable[..., Any]) -> None: ...

class BaseException:
    def with_traceback(self, __tb: Any) -> BaseException: ...

class Exception(BaseException): ...
class ValueError(Exception): ...

def len(__obj: object) -> int: ...
def divmod(__x: int, __y: int) -> Tuple[int, int]: ...
@overload
def sum(__iterable: Iterable[int]) -> int: ...
@overload
def sum(__iterable: Iterable[_T], start: _T) -> _T: ...
def callable(__obj: object) -> bool: ...
'''

TYPING = '''\
import sys

class TypeVar:
    def __init__(self, name: str, *constraints: Any, bound: Any = None, covariant: bool = False,
                 contravariant: bool = False) -> None: ...

Any = object()
class _SpecialForm:
    def __getitem__(self, parameters: Any) -> object: ...

def overload(func: object) -> object: ...

Union: _SpecialForm
Generic: _SpecialForm
Protocol: _SpecialForm
Callable: _SpecialForm
Type: _SpecialForm
Optional: _SpecialForm
Tuple: _SpecialForm
Literal: _SpecialForm

_T = TypeVar("_T")
_T_co = TypeVar("_T_co", covariant=True)
_KT = TypeVar("_KT")
_VT_co = TypeVar("_VT_co", covariant=True)
AnyStr = TypeVar("AnyStr", str, bytes)

List = list
Dict = dict

class NamedTuple(tuple[Any, ...]):
    @classmethod
    def _make(cls, iterable: Iterable[Any]) -> Any: ...

class Iterable(Protocol[_T_co]):
    def __iter__(self) -> Iterator[_T_co]: ...

class Iterator(Iterable[_T_co], Protocol[_T_co]):
    def __next__(self) -> _T_co: ...

class Sequence(Iterable[_T_co], Generic[_T_co]):
    def index(self, value: Any, start: int = 0, stop: int = ...) -> int: ...
    def count(self, value: Any) -> int: ...

class Mapping(Iterable[_KT], Generic[_KT, _VT_co]):
    def items(self) -> Iterable[Tuple[_KT, _VT_co]]: ...
    def keys(self) -> Iterable[_KT]: ...

class MutableMapping(Mapping[_KT, _VT_co], Generic[_KT, _VT_co]):
    def clear(self) -> None: ...
'''

SYS = '''\
from typing import Any, Tuple
platform: str
version_info: Tuple[Any, ...]
def intern(__string: str) -> str: ...
'''

FIXED = {
    'builtins.pyi': BUILTINS,
    'typing.pyi': TYPING,
    'sys.pyi': SYS,
    'types.pyi': 'from typing import Any\nclass ModuleType:\n    def __init__(self, name: str,'
                 ' doc: Any = ...) -> None: ...\n',
}
BUILTIN_MODULES = ('builtins', 'sys')
FIXED_CALLABLES = ['builtins:len', 'builtins:divmod', 'builtins:sum', 'builtins:int.bit_length',
                   'builtins:list.append', 'builtins:list.sort', 'builtins:dict.pop',
                   'builtins:str.split', 'sys:intern']

TYPES = ['int', 'str', 'bytes', 'Any', 'bool', 'float', 'List[int]', 'Dict[str, int]',
         'Optional[str]', 'Union[int, str]', 'Tuple[int, ...]', 'Callable[[int], str]',
         'Type[int]', 'Sequence[str]', 'Mapping[str, bytes]', 'Iterable[int]', 'object',
         'Literal["a b", "c,d", 3]', 'Literal[True]', 'Literal["it\'s", \'"\']', 'Literal[b"\\x00"]',
         'Literal["\\n\\\\", "\u2603"]']
DEFAULTS = ['...', '0', 'None', "'x'", '-1', '1.5', 'True', '"it\'s"', "'say \"no\"'", "'a\\\\b'",
            "'two\\nlines'", "'na\u00efve \u2603'", "b'\\x00\\xff'", "''", '-1.5', '1e300', "'  '",
            '0x1F', "'{} %s #'", '"\'\'\'"']
HEAD = ('import sys\nfrom typing import (Any, AnyStr, Callable, Dict, Generic, Iterable, List,'
        ' Literal, Mapping,\n    MutableMapping, NamedTuple, Optional, Protocol, Sequence, Tuple,'
        ' Type, TypeVar, Union, overload)\n\n')


def base_of(name):
    return 'simpkg/__init__' if name == 'simpkg' else name.replace('.', '/')


def hidden(name, tag):
    # versions of the library differ in their private modules
    return f'_{name.replace(".", "_").strip("_")}_{tag}c'


class Module:
    def __init__(self, name):
        self.name, self.stub, self.code, self.callables = name, [HEAD], ['import sys\n'], []
        self.twins = []  # callables of classes with namesakes
        self.hidden = []  # code of a private runtime module without a stub
        self.functions, self.generics, self.aliases, self.classes = [], [], [], []


class Generator:
    def __init__(self, seed, tag='p', modules=None):
        self.rng = random.Random(f'lib:{seed}')
        self.tag = tag  # begins every parameter name: tells versions of the library apart
        self.n = 0
        self.modules = []
        for i in range(modules or self.rng.randint(3, 5)):
            self.modules.append(self.module(f'sim{i}'))
        self.package()

    def name(self, prefix):
        self.n += 1
        return f'{prefix}{self.n}'

    def type(self, m):
        r = self.rng.random()
        if r < 0.2 and m.aliases:
            return self.rng.choice(m.aliases)
        if r < 0.3 and m.classes:
            return self.rng.choice(m.classes)
        return self.rng.choice(TYPES)

    def parameters(self, m, first=None):
        rng = self.rng
        parts = [first] if first else []
        optional = False
        for i in range(rng.randint(0, 4)):
            optional = optional or rng.random() < 0.3
            parts.append(f'{self.name(self.tag)}: {self.type(m)}'
                         + (' = ' + rng.choice(DEFAULTS)
                            if optional else ''))
        if rng.random() < 0.2:
            parts.append(f'*{self.name(self.tag)}: {self.type(m)}')
        elif rng.random() < 0.3:
            parts.append('*')
            parts += [f'{self.name(self.tag)}: {self.type(m)} = ...'
                      for _ in range(rng.randint(1, 2))]
        if rng.random() < 0.15:
            parts.append(f'**{self.name(self.tag)}: {self.type(m)}')
        return ', '.join(parts)

    def signature(self, m, name, first=None, indent='', decorators=()):
        return ''.join(f'{indent}@{d}\n' for d in decorators) + (
            f'{indent}def {name}({self.parameters(m, first)}) -> {self.type(m)}: ...\n')

    def module(self, name):
        rng = self.rng
        m = Module(name)
        earlier = list(self.modules)
        if earlier and rng.random() < 0.7:
            # names taken from another module
            source = rng.choice(earlier)
            if source.functions:
                f = rng.choice(source.functions)
                alias = self.name('g')
                m.stub.append(f'from {source.name} import {f} as {alias}\n')
                m.code.append(f'from {source.name} import {f} as {alias}\n')
        for source in earlier:
            if source.generics and rng.random() < 0.6:
                g = rng.choice(source.generics)
                if g not in m.generics and source.name != name:
                    m.stub.append(f'from {source.name} import {g[0]}\n')
                    m.code.append(f'from {source.name} import {g[0]}\n')
                    m.generics.append(g)
        m.stub.append('_T = TypeVar("_T")\n_S = TypeVar("_S")\n')
        for _ in range(rng.randint(1, 2)):
            alias = self.name('_Alias')
            m.stub.append(f'{alias} = Union[{rng.choice(TYPES[:6])}, {rng.choice(TYPES[6:])}]\n')
            m.aliases.append(alias)
        if rng.random() < 0.6:
            cls = self.name('_Supports')
            m.stub.append(f'class {cls}(Protocol):\n' + self.signature(m, 'run', 'self', '    '))
            m.classes.append(cls)
        makers = [self.function, self.function, self.overloads, self.conditional, self.cls,
                  self.cls, self.generic, self.specialised, self.specialised, self.named_tuple,
                  self.alias, self.foreign, self.foreign, self.foreign_class, self.renamed]
        makers = [rng.choice(makers) for _ in range(rng.randint(3, 6))] + [
            self.function, self.cls, rng.choice([self.foreign, self.foreign_class, self.renamed])]
        for make in makers:
            make(m)
        if rng.random() < 0.4:
            self.twins(m)
        if rng.random() < 0.5:
            self.diamond(m)
        return m

    def function(self, m):
        f = self.name('f')
        m.stub.append(self.signature(m, f))
        m.code.append(f'def {f}(*args, **kwargs): pass\n')
        m.functions.append(f)
        m.callables.append(f)

    def overloads(self, m):
        f = self.name('f')
        for _ in range(self.rng.randint(2, 3)):
            m.stub.append(self.signature(m, f, decorators=['overload']))
        m.code.append(f'def {f}(*args, **kwargs): pass\n')
        m.functions.append(f)
        m.callables.append(f)

    def conditional(self, m):
        f = self.name('f')
        test = self.rng.choice(['sys.version_info >= (3, 8)', 'sys.version_info < (3, 8)',
                                'sys.platform == "linux"', 'sys.platform != "win32"'])
        m.stub.append(f'if {test}:\n' + self.signature(m, f, indent='    ') + 'else:\n'
                      + self.signature(m, f, indent='    '))
        m.code.append(f'def {f}(*args, **kwargs): pass\n')
        m.functions.append(f)
        m.callables.append(f)

    def members(self, m, cls, extra=()):
        stub, code = [], []
        for _ in range(self.rng.randint(1, 3)):
            f = self.name('m')
            kind = self.rng.choice(['', '', 'classmethod', 'staticmethod'])
            first = {'': 'self', 'classmethod': 'cls', 'staticmethod': None}[kind]
            stub.append(self.signature(m, f, first, '    ', [kind] if kind else []))
            code.append((f'    @{kind}\n' if kind else '') + f'    def {f}(*args, **kwargs): pass\n')
            m.callables.append(f'{cls}.{f}')
        for first, f in extra:
            stub.append(f)
            code.append(f'    def {first}(*args, **kwargs): pass\n')
            m.callables.append(f'{cls}.{first}')
        if self.rng.random() < 0.5:
            stub.append(self.signature(m, '__init__', 'self', '    ')
                        .rpartition(' -> ')[0] + ' -> None: ...\n')
            code.append('    def __init__(*args, **kwargs): pass\n')
            m.callables += [cls, f'{cls}.__init__']
        return stub, code

    def cls(self, m):
        c = self.name('C')
        stub, code = self.members(m, c)
        m.stub += [f'class {c}:\n'] + stub
        m.code += [f'class {c}:\n'] + code
        if self.rng.random() < 0.3:
            inner, f = self.name('N'), self.name('m')
            m.stub += [f'    class {inner}:\n', self.signature(m, f, 'self', '        ')]
            m.code += [f'    class {inner}:\n        def {f}(*args, **kwargs): pass\n']
            m.callables.append(f'{c}.{inner}.{f}')
        m.classes.append(c)

    def generic(self, m):
        rng = self.rng
        g = self.name('G')
        variables = rng.choice([['_T'], ['_T', '_S']])
        own = [x for x in m.generics if x[3] == m.name or True]
        bases, inherited = '', []
        if own and rng.random() < 0.5:
            b = rng.choice(own)
            bases = f'{b[0]}[{", ".join(rng.choice(variables) for _ in b[1])}], '
            inherited = [b[0]]
        elif rng.random() < 0.4:
            bases = rng.choice(['Sequence[_T], ', 'Mapping[_T, int], ', 'MutableMapping[_T, _T], '])
        f = self.name('m')
        first = variables[-1]
        method = (f, f'    def {f}(self, {self.name(self.tag)}: {first}, {self.name(self.tag)}:'
                     f' List[_T] = ...) -> Dict[str, {first}]: ...\n')
        stub, code = self.members(m, g, [method])
        m.stub += [f'class {g}({bases}Generic[{", ".join(variables)}]):\n'] + stub
        m.code += [f'class {g}({", ".join(inherited)}):\n'] + code
        m.generics.append((g, variables, [f], m.name))

    def specialised(self, m):
        rng = self.rng
        if not m.generics or rng.random() < 0.25:
            base = rng.choice(['MutableMapping[AnyStr, AnyStr]', 'Mapping[str, int]',
                               'Sequence[AnyStr]', 'MutableMapping[str, List[int]]'])
            runtime, methods = '', []
        else:
            g = rng.choice(m.generics)
            arguments = [rng.choice(['int', 'str', 'bytes', 'AnyStr', 'List[int]', 'Optional[str]',
                                     *m.classes[:2]]) for _ in g[1]]
            base, runtime, methods = f'{g[0]}[{", ".join(arguments)}]', g[0], g[2]
        c = self.name('S')
        stub, code = self.members(m, c)
        m.stub += [f'class {c}({base}):\n'] + stub
        m.code += [f'class {c}({runtime}):\n'] + code
        if not runtime:
            for f in ('clear', 'keys', 'items', 'index', 'count'):
                if rng.random() < 0.3:
                    m.code.append(f'    def {f}(*args, **kwargs): pass\n')
                    m.callables.append(f'{c}.{f}')
        else:
            m.callables += [f'{c}.{f}' for f in methods]
            if rng.random() < 0.5:
                f = rng.choice(methods)
                m.code.append(f'    def {f}(*args, **kwargs): pass\n')

    def named_tuple(self, m):
        c = self.name('R')
        fields = [f'{self.name(self.tag)}: {self.type(m)}' for _ in range(self.rng.randint(1, 3))]
        m.stub.append(f'class {c}(NamedTuple):\n' + ''.join(f'    {f}\n' for f in fields))
        m.code.append(f'class {c}(tuple):\n    def __new__(cls, *args, **kwargs):'
                      f' return tuple.__new__(cls)\n')
        m.callables.append(c)

    def alias(self, m):
        if m.functions:
            alias = self.name('h')
            f = self.rng.choice(m.functions)
            m.stub.append(f'{alias} = {f}\n')
            m.code.append(f'{alias} = {f}\n')

    def foreign(self, m):
        """A function that a private module without a stub defines."""
        f = self.name('f')
        m.stub.append(self.signature(m, f))
        m.hidden.append(f'def {f}(*args, **kwargs): pass\n')
        m.code.append(f'from {hidden(m.name, self.tag)} import {f}\n')
        m.functions.append(f)
        m.callables.append(f)

    def foreign_class(self, m):
        c = self.name('C')
        stub, code = self.members(m, c)
        m.stub += [f'class {c}:\n'] + stub
        m.hidden += [f'class {c}:\n'] + code
        m.code.append(f'from {hidden(m.name, self.tag)} import {c}\n')
        m.classes.append(c)

    def renamed(self, m):
        """A function that does not know the name under which it is public."""
        f = self.name('f')
        m.stub.append(self.signature(m, f))
        m.code.append(f'def _{self.tag}{f}(*args, **kwargs): pass\n{f} = _{self.tag}{f}\n')
        m.functions.append(f)
        m.callables.append(f)

    def twins(self, m):
        """A generic class that has namesakes in other modules, and a specialisation of it."""
        twin, (a, b) = 'Twin', ('_get', '_put')
        m.stub.append('class Twin(Generic[_T]):\n')
        m.code.append('class Twin:\n')
        for f in (a, b):
            m.stub.append(f'    def {f}(self, {self.name(self.tag)}: _T, {self.parameters(m)})'
                          f' -> {self.type(m)}: ...\n')
            m.code.append(f'    def {f}(*args, **kwargs): pass\n')
        c = self.name('K')
        m.stub.append(f'class {c}({twin}[{self.rng.choice(["_T", "int"])}]): ...\n')
        m.code.append(f'class {c}(Twin):\n    def {a}(*args, **kwargs): pass\n'
                      f'    def {b}(*args, **kwargs): pass\n')
        m.callables += [f'{c}.{a}', f'{c}.{b}', f'Twin.{a}']
        m.twins += [f'{m.name}:{x}' for x in m.callables[-3:]]

    def diamond(self, m):
        """A class that leaves to its bases how a method is described."""
        bases = [self.name('B'), self.name('B'), self.name('B')]
        names = [self.name('m'), self.name('m')]
        for b in bases:
            m.stub.append(f'class {b}:\n')
            m.code.append(f'class {b}:\n')
            for f in names:
                m.stub.append(self.signature(m, f, 'self', '    '))
                m.code.append(f'    def {f}(*args, **kwargs): pass\n')
        c = self.name('M')
        m.stub.append(f'class {c}({", ".join(bases)}): ...\n')
        m.code.append(f'class {c}({", ".join(bases)}):\n' + ''.join(
                f'    def {f}(*args, **kwargs): pass\n' for f in names))
        m.callables += [f'{c}.{f}' for f in names]

    def package(self):
        """A package whose callables are defined in a private module."""
        rng = self.rng
        inner = self.module('_simimpl')
        self.modules.append(inner)
        p = Module('simpkg')
        p.stub = ['from _simimpl import *\n']
        p.code = ['from _simimpl import *\n']
        self.modules.append(p)
        self.modules.append(self.module('simpkg.part'))
        # a stub that refers to nothing but builtins
        bare = Module('simbare')
        bare.stub, bare.code = [], []
        for _ in range(2):
            f = self.name('f')
            bare.stub.append(f'def {f}({self.name(self.tag)}: {rng.choice(["int", "str"])},'
                             f' {self.name(self.tag)}: bytes = ...) -> str: ...\n')
            bare.code.append(f'def {f}(*args, **kwargs): pass\n')
            bare.callables.append(f)
        self.modules.append(bare)
        # added last, with few callables
        q = self.last = Module('simpkg.rest')
        q.stub.append('_T = TypeVar("_T")\n_S = TypeVar("_S")\n')
        for make in rng.sample([self.function, self.cls, self.foreign, self.foreign_class], 2):
            make(q)
        self.modules.append(q)

    def callables(self):
        found = list(FIXED_CALLABLES)
        for m in self.modules:
            found += [f'{m.name}:{c}' for c in m.callables]
        return found

    def files(self):
        """relative path -> text, for the stub library and for the runtime library"""
        stubs = dict(FIXED)
        code = {}
        for m in self.modules:
            base = base_of(m.name)
            if self.tag.endswith('o'):
                # every module has type variables with names of their own (finding K6)
                own = m.name.replace('.', '_').strip('_')
                m.stub = [re.sub(r'\b_(T|S)\b', rf'_\1{own}', x) for x in m.stub]
            stubs[base + '.pyi'] = ''.join(m.stub)
            code[base + '.py'] = ''.join(m.code)
            if m.hidden:
                code[hidden(m.name, self.tag) + '.py'] = ''.join(m.hidden)
        return stubs, code


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as file:
        file.write(text)


def install(site, generator, mypy_version='9.9'):
    """site: directory that gets `mypy` (with the stub library) and `stdlib`."""
    stubs, code = generator.files()
    shutil.rmtree(os.path.join(site, 'mypy'), ignore_errors=True)
    shutil.rmtree(os.path.join(site, 'stdlib'), ignore_errors=True)
    write(os.path.join(site, 'mypy', '__init__.py'), '')
    write(os.path.join(site, 'mypy', 'version.py'), f'__version__ = {mypy_version!r}\n')
    write(os.path.join(site, 'plain.py'), 'value = 1\n')
    write(os.path.join(site, 'guarded.py'), 'import paradigm.base\nif __name__ == "__main__":\n'
                                            '    raise SystemExit(1)\n')
    for path, text in stubs.items():
        write(os.path.join(site, 'mypy', 'typeshed', 'stdlib', path), text)
    for path, text in code.items():
        write(os.path.join(site, 'stdlib', path), text)
