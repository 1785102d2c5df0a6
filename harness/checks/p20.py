"""P20: nothing done with a proxy takes it off or changes it.

The attacker holds a proxy (or several) and things of its own; all that the
language and the standard library offer is tried with it, alone and in chains.
After each attempt the proxy must have the object and the checker it had, and
neither of these (nor another checker or object of the world) may be reachable
from what came out, except through proxies.  Operands of the attacker's own
note what they are given.
"""
import asyncio
import collections
import collections.abc
import contextlib
import copy
import copyreg
import decimal
import enum
import fractions
import functools
import gc
import inspect
import io
import itertools
import json
import marshal
import math
import operator
import os
import pickle
import pprint
import reprlib
import statistics
import string
import struct
import sys
import types
import typing
import warnings
import weakref
import zlib

import zope.interface
import zope.interface.interface
from common import *  # noqa
import common
from zope.interface import Interface

warnings.simplefilter('ignore')


class IAny(Interface):
    def method():
        """..."""


# -- what is protected --------------------------------------------------------

SOURCE = '''
class Plain:
    pass

class Target:
    attribute = 1

    def __init__(self):
        self.secret = Plain()
        self.left = 3

    def method(self, *args):
        return Plain()

    def __private(self):
        return self.secret

    @property
    def prop(self):
        return self.secret

    @classmethod
    def cm(cls):
        return Plain()

    @staticmethod
    def sm():
        return 5


class Slots:
    __slots__ = ('a', 'b', '__weakref__')

    def __init__(self):
        self.a = Plain()
        self.b = 2

    def method(self):
        return self.a


class Dynamic:
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return name


class Derived(list):
    def method(self):
        return Plain()


class Number(int):
    pass


class Text(str):
    pass


class Error(Exception):
    pass


class Selfish:
    left = 5

    def method(self, *args, **kw):
        return self

    def __next__(self):
        self.left -= 1
        if self.left < 0:
            raise StopIteration
        return self

    def __getitem__(self, k):
        if k == 3:
            raise IndexError
        return self

    def __hash__(self):
        return 7

    @property
    def secret(self):
        return self

    _wrapped = object_ = wrapped = a = x = secret

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return self


for _n in OPERATORS + ['__call__', '__iter__', '__enter__', '__eq__',
                       '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
                       '__round__', '__floor__', '__ceil__', '__trunc__',
                       '__reversed__', '__missing__', '__get__', '__copy__',
                       '__deepcopy__', '__await__', '__aiter__']:
    setattr(Selfish, _n, Selfish.method)


class Meta(type):
    def method(cls):
        return Plain()


class WithMeta(metaclass=Meta):
    x = 1


def function(*args, **kw):
    return Plain()


def generator():
    yield Plain()
    yield Plain()


async def coroutine():
    return Plain()
'''

SPECIAL = '''
def make(names, NAMES, Plain):
    ns = {}
    def add(name, f):
        if name in names:
            ns[name] = f

    add('__call__', lambda self, *a, **k: Plain())
    add('__len__', lambda self: 3)
    add('__hash__', lambda self: 7)
    add('__bool__', lambda self: True)
    add('__contains__', lambda self, x: False)
    def getitem(self, k):
        if isinstance(k, int) and 0 <= k < 3:
            return Plain()
        raise IndexError(k)
    add('__getitem__', getitem)
    add('__setitem__', lambda self, k, v: None)
    add('__delitem__', lambda self, k: None)
    add('__iter__', lambda self: iter([Plain(), Plain()]))
    def next_(self):
        self.left -= 1
        if self.left < 0:
            raise StopIteration
        return Plain()
    add('__next__', next_)
    add('__reversed__', lambda self: iter([Plain()]))
    add('__int__', lambda self: 5)
    add('__index__', lambda self: 5)
    add('__float__', lambda self: 5.0)
    add('__complex__', lambda self: 5j)
    add('__str__', lambda self: 'str')
    add('__repr__', lambda self: 'repr')
    add('__bytes__', lambda self: b'bytes')
    add('__format__', lambda self, spec: 'format')
    add('__enter__', lambda self: Plain())
    add('__exit__', lambda self, *a: None)
    add('__length_hint__', lambda self: 3)
    add('__fspath__', lambda self: '/nonexistent-p20')
    add('__round__', lambda self, n=0: 5)
    add('__trunc__', lambda self: 5)
    add('__floor__', lambda self: 5)
    add('__ceil__', lambda self: 5)
    add('__dir__', lambda self: ['x'])
    add('__instancecheck__', lambda self, x: False)
    add('__subclasscheck__', lambda self, x: False)
    add('__mro_entries__', lambda self, bases: ())
    add('__set_name__', lambda self, owner, name: None)
    add('__get__', lambda self, obj, cls=None: Plain())
    add('__missing__', lambda self, k: Plain())
    add('keys', lambda self: ['a', 'b'])
    add('__eq__', lambda self, other: NotImplemented)
    add('__lt__', lambda self, other: NotImplemented)
    add('__del__', lambda self: None)
    add('__await__', lambda self: iter([]))
    add('__copy__', lambda self: Plain())
    add('__deepcopy__', lambda self, memo: Plain())
    add('__reduce__', lambda self: 'text')
    add('__getstate__', lambda self: {'a': 1})
    add('__setstate__', lambda self, state: None)
    add('__sizeof__', lambda self: 100)
    add('__conform__', lambda self, iface: None)
    for name in NAMES:
        if name in names:
            ns[name] = lambda self, *a: NotImplemented
    return ns
'''
_sp = {}
exec(SPECIAL, _sp)
OPERATORS = (['__%s__' % n for n in list(BINARY) + list(UNARY)]
             + ['__r%s__' % n for n in BINARY]
             + ['__i%s__' % n for n in INPLACE] + ['__matmul__'])
SPECIALS = ['__call__', '__len__', '__hash__', '__bool__', '__contains__',
            '__getitem__', '__setitem__', '__delitem__', '__iter__',
            '__next__', '__reversed__', '__int__', '__index__', '__float__',
            '__complex__', '__str__', '__repr__', '__bytes__', '__format__',
            '__enter__', '__exit__', '__length_hint__', '__fspath__',
            '__round__', '__trunc__', '__floor__', '__ceil__', '__dir__',
            '__instancecheck__', '__subclasscheck__', '__mro_entries__',
            '__set_name__', '__get__', '__missing__', 'keys', '__eq__',
            '__lt__', '__del__', '__await__', '__copy__', '__deepcopy__',
            '__reduce__', '__getstate__', '__setstate__', '__sizeof__',
            '__conform__'] + OPERATORS

# Never granted: what leads out of the world.
NEVER = {'__globals__', '__builtins__', '__subclasses__', '__mro__',
         '__bases__', '__base__', 'mro', 'f_globals', 'f_builtins', 'f_back',
         'gi_frame', 'cr_frame', 'gi_code', '__code__', '__loader__',
         '__spec__', '__import__', '__init_subclass__'}
SAFE_BUILTINS = {k: getattr(__builtins__, k, None) or __builtins__[k]
                 for k in ('__build_class__', 'iter', 'property',
                           'classmethod', 'staticmethod', 'isinstance',
                           'int', 'str', 'list', 'type', 'object', 'super',
                           'Exception', 'AttributeError', 'IndexError',
                           'StopIteration', 'NotImplemented')} \
    if isinstance(__builtins__, dict) else None
if SAFE_BUILTINS is None:
    import builtins
    SAFE_BUILTINS = {k: getattr(builtins, k) for k in (
        '__build_class__', 'iter', 'property', 'classmethod', 'staticmethod',
        'isinstance', 'int', 'str', 'list', 'type', 'object', 'super',
        'Exception', 'AttributeError', 'IndexError', 'StopIteration',
        'NotImplemented')}


class Rules:
    """A checker that grants all names, or none, or only some."""

    left = 0

    def __init__(self, grants):
        self.grants = grants

    def check(self, object, name):
        if not self.grants(name) or name in NEVER:
            raise ForbiddenAttribute(name)
        Rules.left -= 1
        if Rules.left < 0:
            # l.extend(l) would not end
            raise ForbiddenAttribute(name)

    check_getattr = check_setattr = check

    def proxy(self, value):
        if type(value) in BASIC or is_proxy(value):
            return value
        return Proxy(value, self)


class FastRules(Rules):
    __setitem__ = Rules.check
    __getitem__ = Rules.proxy


BASIC = {int, float, complex, str, bytes, bool, type(None),
         type(NotImplemented)}
for _n in dir(zope.interface.declarations):
    # as by default
    pass


# -- the attacker's things ------------------------------------------------------

CAUGHT = []


class Evil:
    """An operand that notes what it is given."""
    a = 1

    def __call__(self, *args, **kw):
        CAUGHT.append(('__call__', args + tuple(kw.values())))
        return self


def _evil(name):
    def f(self, *args):
        CAUGHT.append((name, args))
        if name in ('__hash__', '__len__', '__index__', '__int__',
                    '__bool__', '__length_hint__'):
            return 1
        if name in ('__eq__', '__ne__', '__lt__', '__gt__', '__le__',
                    '__ge__', '__contains__'):
            return len(CAUGHT) % 2 == 0
        if name == '__iter__':
            return iter([1])
        if name == '__next__':
            raise StopIteration
        return self
    f.__name__ = name
    setattr(Evil, name, f)


for _name in (OPERATORS + ['__%s__' % n for n in COMPARE] + [
        '__hash__', '__contains__', '__getitem__', '__setitem__', '__get__',
        '__set__', '__enter__', '__exit__', '__instancecheck__',
        '__subclasscheck__', '__iter__', '__next__', '__len__', '__index__',
        '__rmatmul__', '__conform__', '__set_name__', '__missing__',
        '__mro_entries__']):
    _evil(_name)


class EvilName(str):
    """A name that changes what it is while it is looked at."""

    def __new__(cls, shown, real):
        self = str.__new__(cls, real)
        self.shown = shown
        self.looks = 0
        return self

    def __hash__(self):
        self.looks += 1
        return hash(self.shown if self.looks <= EvilName.when
                    else str.__str__(self))

    def __eq__(self, other):
        return other == (self.shown if self.looks <= EvilName.when
                         else str.__str__(self))

    when = 1


class Mine:
    """A class of the attacker."""

    def method(self):
        return self


class MyChecker:
    def check(self, ob, name):
        pass
    check_getattr = check_setattr = check

    def proxy(self, value):
        return value


def plain_function(x=None, *args, **kw):
    return x


# -- attacks -----------------------------------------------------------------------

def _with(p, a, b):
    with p as x:
        return x


def _with2(p, a, b):
    with contextlib.ExitStack() as s:
        return s.enter_context(p)


def _for(p, a, b):
    return [x for x in itertools.islice(p, 5)]


def _unpack(p, a, b):
    x, *y = p
    return x, y


def _star(p, a, b):
    return (lambda *x: x)(*p)


def _starstar(p, a, b):
    return (lambda **x: x)(**p)


def _set(p, a, b):
    p[a] = b


def _del(p, a, b):
    del p[a]


def _slice(p, a, b):
    return p[a:b]


def _slots(p, a, b):
    return [object.__reduce_ex__(p, 0)]


def _match(p, a, b):
    r = []
    match p:
        case {'a': x, **rest}:
            r.append((x, rest))
    match p:
        case [x, *rest]:
            r.append((x, rest))
    match p:
        case Mine(method=x):
            r.append(x)
    match p:
        case object(__class__=x):
            r.append(x)
    match p:
        case object(_wrapped=x) | object(_checker=x):
            r.append(x)
    match p:
        case str(x) | int(x) | list(x) | dict(x):
            r.append(x)
    return r


def _raise(p, a, b):
    try:
        raise p
    except TypeError:
        return None


def _raise_from(p, a, b):
    try:
        raise ValueError from p
    except ValueError as e:
        return e.__cause__


def _except(p, a, b):
    try:
        raise ValueError
    except p:
        return 1
    except ValueError:
        return 2


def _class(p, a, b):
    class X(p):
        pass
    return X


def _meta(p, a, b):
    class X(metaclass=p):
        pass
    return X


def _descriptor(p, a, b):
    class X:
        x = p
    i = X()
    r = [X.x, i.x]
    with contextlib.suppress(AttributeError):
        i.x = 1
    with contextlib.suppress(AttributeError):
        del i.x
    return r


def _subclass(p, a, b):
    class Sub(type(p)):
        def peek(self):
            return self._wrapped, self._checker
    s = Sub(p, b if b is not None else MyChecker())
    return s


def _classassign(p, a, b):
    class Sub(type(p)):
        __slots__ = ()

        def __getattribute__(self, name):
            return 1
    p.__class__ = Sub


def _objclass(p, a, b):
    class Sub(type(p)):
        __slots__ = ()
    object.__setattr__(p, '__class__', Sub)


def _typenew(p, a, b):
    return type(p).__new__(type(p), p, MyChecker())


def _init(p, a, b):
    type(p).__init__(p, a, MyChecker())


def _init2(p, a, b):
    type(p).__init__(p, a, None)


def _init3(p, a, b):
    p.__init__(a, MyChecker())


def _known(init, kw=False):
    """What it wraps may be no secret: that lends nobody its checker."""
    def f(p, a, b):
        raw = removeSecurityProxy(p)
        checker = getChecker(p)
        got = []
        for args in ((raw, MyChecker()), (raw, None), (a, checker),
                     (p, MyChecker()), (p, checker), (raw, b),
                     (MyChecker(), raw), (raw,), (raw, MyChecker(), a), ()):
            if kw:
                args = [(), dict(zip(['object', 'checker', 'x'], args))]
            else:
                args = [args, {}]
            got.append(outcome(init, p, *args[0], **args[1])[0])
        return got
    return f


def _frame(p, a, b):
    self = p        # noqa
    return [outcome(getattr, self, '_wrapped')[1],
            getattr(self, '_wrapped'), getattr(self, '_checker')]


def _frame2(p, a, b):
    def f(self):
        return self._checker
    return f(p)


def _yield_from(p, a, b):
    def g():
        yield from p
    return list(itertools.islice(g(), 5))


def _await(p, a, b):
    async def f():
        return await p
    c = f()
    try:
        return c.send(None)
    except StopIteration as e:
        return e.value
    finally:
        c.close()


def _async_for(p, a, b):
    async def f():
        async for x in p:
            return x
    c = f()
    try:
        return c.send(None)
    except StopIteration as e:
        return e.value
    finally:
        c.close()


def _async_with(p, a, b):
    async def f():
        async with p as x:
            return x
    c = f()
    try:
        return c.send(None)
    except StopIteration as e:
        return e.value
    finally:
        c.close()


def _exec(p, a, b):
    ns = {}
    exec('x = y', ns, p)
    return ns


def _weak(p, a, b):
    return weakref.ref(p)()


def _weakproxy(p, a, b):
    return weakref.proxy(p)._wrapped


def _singledispatch(p, a, b):
    f = functools.singledispatch(lambda x: x)
    f.register(int, lambda x: x)
    return f(p)


def _partial(p, a, b):
    f = functools.partial(p, a)
    return f, f.func, f()


def _getattr_static(name):
    return lambda p, a, b: inspect.getattr_static(p, name)


def _pickle(protocol):
    def f(p, a, b):
        return pickle.loads(pickle.dumps(p, protocol))
    return f


def _reduce_ex(cls, n):
    if cls is object:
        return lambda p, a, b: object.__reduce_ex__(p, n)
    return lambda p, a, b: type(p).__reduce_ex__(p, n)


def _pickler_id(p, a, b):
    got = []

    class P(pickle.Pickler):
        def persistent_id(self, x):
            got.append(x)

        def reducer_override(self, x):
            got.append(x)
            return NotImplemented
    try:
        P(io.BytesIO(), 2).dump([p])
    except Exception:
        pass
    return got


def _pypickler(p, a, b):
    got = []

    class P(pickle._Pickler):
        def save(self, x, *args, **kw):
            got.append(x)
            if len(got) < 50:
                return super().save(x, *args, **kw)
    try:
        P(io.BytesIO(), 2).dump([p])
    except Exception:
        pass
    return got


def _newobj(p, a, b):
    return [copyreg.__newobj__(type(p), p, MyChecker()),
            copyreg.__reduce_ex__(p, 1)]


def _slotnames(p, a, b):
    return [outcome(getattr, p, n)[1] for n in copyreg._slotnames(type(p))
            if outcome(getattr, p, n)[0] == 'ok']


def _evil_name(p, a, b):
    got = []
    for n in ('_wrapped', '_checker', 'secret', 'a'):
        for shown in ('__class__', '__parent__', 'x', n):
            for EvilName.when in range(6):
                how, x = outcome(getattr, p, EvilName(shown, n))
                if how == 'ok':
                    got.append(x)
    return got


def _evil_set(p, a, b):
    for n in ('_wrapped', '_checker'):
        for shown in ('__class__', 'x', n):
            for EvilName.when in range(6):
                outcome(setattr, p, EvilName(shown, n), MyChecker())
                outcome(delattr, p, EvilName(shown, n))


def _format(p, a, b):
    return [outcome(f)[1] for f in (
        lambda: '{0}'.format(p), lambda: '{0!r}'.format(p),
        lambda: '{0._wrapped}'.format(p), lambda: '{0[0]}'.format(p),
        lambda: '{0.__class__}'.format(p), lambda: '%s %r' % (p, p),
        lambda: '%(a)s' % p, lambda: '%d' % p, lambda: '%c' % p,
        lambda: '{a}'.format_map(p), lambda: f'{p!a:>10}',
        lambda: string.Template('$a').substitute(p),
        lambda: string.Formatter().vformat('{0._checker}', [p], {}),
        lambda: string.Formatter().get_field('0._wrapped', [p], {}),
        lambda: reprlib.repr(p), lambda: pprint.pformat(p))
        if outcome(f)[0] == 'ok']


def _getfield(p, a, b):
    return [string.Formatter().get_field(x, [p], {}) for x in (
        '0', '0.secret', '0.__class__')]


def _attrgetter(name):
    return lambda p, a, b: operator.attrgetter(name)(p)


def _property(p, a, b):
    class X:
        f = property(p)
        g = classmethod(p)
        h = staticmethod(p)
    x = X()
    return [outcome(lambda: x.f), outcome(lambda: x.g), outcome(
        lambda: x.h), X.__dict__['g'].__func__][3:]


def _property2(p, a, b):
    class X:
        g = classmethod(p)
        h = staticmethod(p)
    return X.g, X.h, X().g()


def _method(p, a, b):
    m = types.MethodType(p, a)
    return m, m.__func__, m()


def _method2(p, a, b):
    m = types.MethodType(plain_function, p)
    return m, m.__self__, m()


def _wraps(p, a, b):
    f = functools.wraps(p)(lambda: None)
    return vars(f)


def _update_wrapper(p, a, b):
    return functools.update_wrapper(p, plain_function)


def _lru(p, a, b):
    f = functools.lru_cache(p)
    return f, f.__wrapped__


def _cached(p, a, b):
    return functools.cached_property(p).__get__(Mine(), Mine)


def _cached2(p, a, b):
    c = functools.cached_property(lambda self: self)
    c.__set_name__(Mine, 'secret')
    return c.__get__(p, type(p))


def _cmp(p, a, b):
    k = functools.cmp_to_key(p)
    return k(1) < k(2), k(p).obj


def _super(p, a, b):
    s = super(type(p), p)
    return s.__class__


def _descr(kind):
    """All that is in the type, as descriptors."""
    def f(p, a, b):
        got = []
        for name, d in list(type(p).__dict__.items()):
            if name in SLOTS:
                continue
            if kind == 'get' and hasattr(type(d), '__get__'):
                got.append(outcome(lambda: d.__get__(p, type(p)))[1])
            elif kind == 'set' and hasattr(type(d), '__set__'):
                outcome(lambda: d.__set__(p, MyChecker()))
            elif kind == 'delete' and hasattr(type(d), '__delete__'):
                outcome(lambda: d.__delete__(p))
        return got
    return f


SLOTS = ('_wrapped', '_checker')


def _slot(kind, name):
    def f(p, a, b):
        d = type(p).__dict__.get(name)
        if d is None:
            return
        if kind == 'get':
            return d.__get__(p, type(p))
        if kind == 'set':
            d.__set__(p, MyChecker())
        else:
            d.__delete__(p)
    return f


def _mine(f):
    """Something that is called once for each of several values."""
    return f


def _asyncio_iscoro(p, a, b):
    return [asyncio.iscoroutine(p), asyncio.isfuture(p),
            inspect.isawaitable(p), inspect.isclass(p),
            inspect.isfunction(p), inspect.isabstract(p)]


def _inspect(f):
    return lambda p, a, b: getattr(inspect, f)(p)


def _iface(f):
    return lambda p, a, b: f(p)


def _abc(p, a, b):
    return [isinstance(p, c) for c in (
        collections.abc.Hashable, collections.abc.Iterable,
        collections.abc.Mapping, collections.abc.Callable, os.PathLike,
        typing.SupportsInt)]


def _register(p, a, b):
    class A(metaclass=__import__('abc').ABCMeta):
        pass
    return A.register(p)


def _typing(p, a, b):
    return [outcome(f)[1] for f in (
        lambda: typing.Optional[p], lambda: types.GenericAlias(list, (p,)),
        lambda: p | int, lambda: typing.cast(p, 1),
        lambda: typing.get_type_hints(p),
        lambda: typing.Annotated[int, p].__metadata__)
        if outcome(f)[0] == 'ok']


def _namespace(p, a, b):
    return types.SimpleNamespace(**p)


def _mappingproxy(p, a, b):
    return types.MappingProxyType(p).copy()


def _module(p, a, b):
    return type('M', (types.ModuleType,), {})(p)


def _print(p, a, b):
    print(p, file=io.StringIO())


def _printto(p, a, b):
    print(1, file=p)


def _enum(p, a, b):
    class E(enum.Enum):
        x = p
    return E.x.value


def _chainmap(p, a, b):
    m = collections.ChainMap(p)
    return m.maps, m['a']


def _cmpall(p, a, b):
    return [outcome(f, p, a)[1] for f in COMPARE.values()
            if outcome(f, p, a)[0] == 'ok']


def _cmpallr(p, a, b):
    return [outcome(f, a, p)[1] for f in COMPARE.values()
            if outcome(f, a, p)[0] == 'ok']


def _inlist(p, a, b):
    return [p in [a], a in [p], [a].count(p), [p, a] == [a, p], {p: 1}.get(a)]


def _sort(p, a, b):
    return sorted([p, a, p]), max(p, a), min(a, p)


def _heap(p, a, b):
    h = [p]
    __import__('heapq').heappush(h, a)
    return h


def _setslot(name):
    return lambda p, a, b: object.__setattr__(p, name, MyChecker())


def _delslot(name):
    return lambda p, a, b: object.__delattr__(p, name)


def _getslot(name):
    return lambda p, a, b: object.__getattribute__(p, name)


def _objmeth(name, args):
    return lambda p, a, b: getattr(object, name)(p, *args)


ATTACKS = [
    # the language
    ('with', _with), ('exitstack', _with2), ('for', _for),
    ('unpack', _unpack), ('star', _star), ('starstar', _starstar),
    ('getitem', lambda p, a, b: p[a]), ('setitem', _set), ('delitem', _del),
    ('slice', _slice), ('ellipsis', lambda p, a, b: p[...]),
    ('match', _match), ('raise', _raise), ('raise from', _raise_from),
    ('except', _except), ('class', _class), ('metaclass', _meta),
    ('descriptor', _descriptor), ('yield from', _yield_from),
    ('await', _await), ('async for', _async_for),
    ('async with', _async_with), ('exec', _exec),
    ('call', lambda p, a, b: p()), ('call1', lambda p, a, b: p(a)),
    ('call2', lambda p, a, b: p(a, x=b)), ('not', lambda p, a, b: not p),
    ('is', lambda p, a, b: p is a), ('and', lambda p, a, b: p and p),
    ('in', lambda p, a, b: a in p), ('inlist', _inlist),
    ('compare', _cmpall), ('comparer', _cmpallr), ('sort', _sort),
    ('heap', _heap), ('fstring', lambda p, a, b: f'{p}{p!r}'),
    ('formats', _format), ('get_field', _getfield),
    ('delete', lambda p, a, b: operator.delitem(p, 0)),
    # functions
    ('repr', lambda p, a, b: repr(p)), ('str', lambda p, a, b: str(p)),
    ('ascii', lambda p, a, b: ascii(p)), ('bytes', lambda p, a, b: bytes(p)),
    ('bytearray', lambda p, a, b: bytearray(p)),
    ('memoryview', lambda p, a, b: memoryview(p)),
    ('int', lambda p, a, b: int(p)), ('float', lambda p, a, b: float(p)),
    ('complex', lambda p, a, b: complex(p)),
    ('index', lambda p, a, b: operator.index(p)),
    ('hash', lambda p, a, b: hash(p)),
    ('len', lambda p, a, b: len(p)), ('iter', lambda p, a, b: iter(p)),
    ('iter2', lambda p, a, b: next(iter(p, a))),
    ('next', lambda p, a, b: next(p)),
    ('next2', lambda p, a, b: next(p, b)),
    ('reversed', lambda p, a, b: list(reversed(p))),
    ('enumerate', lambda p, a, b: enumerate(p)),
    ('map', lambda p, a, b: map(p, [1])),
    ('map1', lambda p, a, b: list(map(p, [a, b]))),
    ('map2', lambda p, a, b: map(plain_function, p)),
    ('filter', lambda p, a, b: list(filter(p, [a, b]))),
    ('zip', lambda p, a, b: zip(p, p)), ('abs', lambda p, a, b: abs(p)),
    ('round', lambda p, a, b: round(p)),
    ('round2', lambda p, a, b: round(p, 1)),
    ('divmod', lambda p, a, b: divmod(p, 2)),
    ('pow', lambda p, a, b: pow(p, 2)), ('pow3', lambda p, a, b: pow(2, p, 5)),
    ('sum', lambda p, a, b: sum(p, b)), ('max', lambda p, a, b: max(p)),
    ('any', lambda p, a, b: any(p)),
    ('list', lambda p, a, b: list(itertools.islice(p, 5))),
    ('tuple', lambda p, a, b: tuple(p) if len(p) < 9 else None),
    ('dict', lambda p, a, b: dict(p)), ('set', lambda p, a, b: {*p}),
    ('sorted', lambda p, a, b: sorted(p, key=a)),
    ('vars', lambda p, a, b: vars(p)), ('dir', lambda p, a, b: dir(p)),
    ('id', lambda p, a, b: id(p)), ('type', lambda p, a, b: type(p)),
    ('type3', lambda p, a, b: type(p, (), {})),
    ('type31', lambda p, a, b: type('X', (p,), {})),
    ('callable', lambda p, a, b: callable(p)),
    ('isinstance', lambda p, a, b: isinstance(p, Mine)),
    ('isinstance2', lambda p, a, b: isinstance(a, p)),
    ('issubclass', lambda p, a, b: issubclass(p, object)),
    ('issubclass2', lambda p, a, b: issubclass(int, p)),
    ('getattr3', lambda p, a, b: getattr(p, '_wrapped', None)),
    ('open', lambda p, a, b: open(p)), ('chr', lambda p, a, b: chr(p)),
    ('eval', lambda p, a, b: eval(p, {}, {})),
    ('eval2', lambda p, a, b: eval('a', {}, p)),
    ('compile', lambda p, a, b: compile(p, 'x', 'eval')),
    ('range', lambda p, a, b: range(p)),
    ('print', _print), ('print to', _printto),
    ('super', _super), ('property', _property), ('property2', _property2),
    ('slice()', lambda p, a, b: slice(p).indices(5)),
    ('inlist index', lambda p, a, b: [1, 2, 3, 4, 5, 6][p]),
    ('insert', lambda p, a, b: 'x'.join(p)),
    ('startswith', lambda p, a, b: 'x'.startswith(p)),
    ('extend', lambda p, a, b: [].extend(p)),
    ('update', lambda p, a, b: {}.update(p)),
    ('union', lambda p, a, b: {1}.union(p)),
    ('fromkeys', lambda p, a, b: dict.fromkeys(p)),
    ('str.translate', lambda p, a, b: 'x'.translate(p)),
    # the standard library
    ('copy', lambda p, a, b: copy.copy(p)),
    ('deepcopy', lambda p, a, b: copy.deepcopy(p)),
    ('deepcopy2', lambda p, a, b: copy.deepcopy([p])),
    ('pickle0', _pickle(0)), ('pickle1', _pickle(1)), ('pickle2', _pickle(2)),
    ('pickle5', _pickle(5)), ('pickler', _pickler_id),
    ('pypickler', _pypickler),
    ('marshal', lambda p, a, b: marshal.dumps(p)),
    ('json', lambda p, a, b: json.dumps(p)),
    ('json2', lambda p, a, b: json.dumps([p], default=lambda x: 1)),
    ('newobj', _newobj), ('slotnames', _slotnames),
    ('weakref', _weak), ('weak proxy', _weakproxy),
    ('weakset', lambda p, a, b: weakref.WeakSet([p])),
    ('finalize', lambda p, a, b: weakref.finalize(p, id).peek()),
    ('singledispatch', _singledispatch), ('partial', _partial),
    ('wraps', _wraps), ('update_wrapper', _update_wrapper), ('lru', _lru),
    ('cached_property', _cached), ('cached_property2', _cached2),
    ('cmp_to_key', _cmp), ('method', _method), ('method2', _method2),
    ('fspath', lambda p, a, b: os.fspath(p)),
    ('floor', lambda p, a, b: math.floor(p)),
    ('ceil', lambda p, a, b: math.ceil(p)),
    ('trunc', lambda p, a, b: math.trunc(p)),
    ('sqrt', lambda p, a, b: math.sqrt(p)),
    ('fraction', lambda p, a, b: fractions.Fraction(p)),
    ('decimal', lambda p, a, b: decimal.Decimal(p)),
    ('statistics', lambda p, a, b: statistics.mean(p)),
    ('struct', lambda p, a, b: struct.pack('i', p)),
    ('getsizeof', lambda p, a, b: sys.getsizeof(p)),
    ('intern', lambda p, a, b: sys.intern(p)),
    ('closing', lambda p, a, b: contextlib.closing(p).thing),
    ('namespace', _namespace), ('mappingproxy', _mappingproxy),
    ('module', _module), ('enum', _enum), ('chainmap', _chainmap),
    ('counter', lambda p, a, b: collections.Counter(p)),
    ('deque', lambda p, a, b: collections.deque(p, 3)),
    ('userdict', lambda p, a, b: collections.UserDict(p)),
    ('userlist', lambda p, a, b: collections.UserList(p).data),
    ('userstring', lambda p, a, b: collections.UserString(p).data),
    ('userlist data', lambda p, a, b: collections.UserList.copy(p)),
    ('itemgetter', lambda p, a, b: operator.itemgetter('a', 0)(p)),
    ('methodcaller', lambda p, a, b: operator.methodcaller('method')(p)),
    ('length_hint', lambda p, a, b: operator.length_hint(p)),
    ('tee', lambda p, a, b: itertools.tee(p)),
    ('cycle', lambda p, a, b: itertools.cycle(p)),
    ('chain', lambda p, a, b: itertools.chain(p)),
    ('groupby', lambda p, a, b: itertools.groupby(p)),
    ('repeat', lambda p, a, b: itertools.repeat(p, 2)),
    ('starmap', lambda p, a, b: list(itertools.starmap(p, [(a,)]))),
    ('starmap2', lambda p, a, b: list(itertools.starmap(
        plain_function, p))),
    ('accumulate', lambda p, a, b: list(itertools.accumulate([1, 2], p))),
    ('reduce', lambda p, a, b: functools.reduce(a, p)),
    ('reduce2', lambda p, a, b: functools.reduce(p, [a, b])),
    ('isabc', _abc), ('register', _register), ('typing', _typing),
    ('is...', _asyncio_iscoro), ('unwrap', _inspect('unwrap')),
    ('signature', _inspect('signature')),
    ('getmembers', _inspect('getmembers')),
    ('getmembers_static', _inspect('getmembers_static')),
    ('getfile', _inspect('getfile')), ('getdoc', _inspect('getdoc')),
    ('getmro', _inspect('getmro')), ('getsource', _inspect('getsource')),
    ('getclosurevars', _inspect('getclosurevars')),
    ('getgeneratorlocals', _inspect('getgeneratorlocals')),
    ('getgeneratorstate', _inspect('getgeneratorstate')),
    ('getmodule', _inspect('getmodule')),
    ('get_annotations', _inspect('get_annotations')),
    ('static class', _getattr_static('__class__')),
    ('static secret', _getattr_static('secret')),
    ('static dict', _getattr_static('__dict__')),
    # interfaces
    ('providedBy', _iface(zope.interface.providedBy)),
    ('implementedBy', _iface(zope.interface.implementedBy)),
    ('directlyProvidedBy', _iface(zope.interface.directlyProvidedBy)),
    ('alsoProvides', lambda p, a, b: zope.interface.alsoProvides(p, IAny)),
    ('directlyProvides', lambda p, a, b:
        zope.interface.directlyProvides(p, IAny)),
    ('classImplements', lambda p, a, b:
        zope.interface.classImplements(p, IAny)),
    ('implementer', lambda p, a, b: zope.interface.implementer(IAny)(p)),
    ('IAny()', lambda p, a, b: IAny(p, None)),
    ('IAny.providedBy', lambda p, a, b: IAny.providedBy(p)),
    ('IAny.implementedBy', lambda p, a, b: IAny.implementedBy(p)),
    ('verify', lambda p, a, b:
        zope.interface.verify.verifyObject(IAny, p)),
    # the type
    ('subclass', _subclass), ('class assignment', _classassign),
    ('new', _typenew), ('init', _init), ('init None', _init2),
    ('p.init', _init3),
    ('init known', _known(lambda p, *args, **kw:
                          type(p).__init__(p, *args, **kw))),
    ('init known keywords', _known(lambda p, *args, **kw:
                                   type(p).__init__(p, *args, **kw), True)),
    ('p.init known', _known(lambda p, *args, **kw: p.__init__(*args, **kw))),
    ('new known', _known(lambda p, *args, **kw:
                         type(p).__new__(type(p), *args, **kw))),
    ('call known', _known(lambda p, *args, **kw: type(p)(*args, **kw))),
    ('call known keywords', _known(lambda p, *args, **kw:
                                   type(p)(*args, **kw), True)),
    ('base init known', _known(lambda p, *args, **kw: [
        c.__init__(p, *args, **kw) for c in type(p).__mro__])),
    ('setstate known', _known(lambda p, *args, **kw:
                              type(p).__setstate__(p, args))),
 ('descriptors get', _descr('get')),
    ('descriptors set', _descr('set')),
    ('descriptors delete', _descr('delete')),
    ('evil name', _evil_name), ('evil set', _evil_set),
    ('object class assignment', _objclass),
    ('frame', _frame), ('frame2', _frame2),
    ('object.__init__', lambda p, a, b: object.__init__(p)),
    ('object.__new__', lambda p, a, b: object.__new__(type(p))),
    ('object.__repr__', lambda p, a, b: object.__repr__(p)),
    ('object.__dir__', lambda p, a, b: object.__dir__(p)),
    ('object.__getstate__', lambda p, a, b: object.__getstate__(p)),
    ('object.__reduce__', lambda p, a, b: object.__reduce__(p)),
    ('object.__sizeof__', lambda p, a, b: object.__sizeof__(p)),
    ('object.__format__', lambda p, a, b: object.__format__(p, '')),
    ('object.__eq__', lambda p, a, b: object.__eq__(p, a)),
    ('object.__hash__', lambda p, a, b: object.__hash__(p)),
    ('object.__subclasshook__', lambda p, a, b:
        type(p).__subclasshook__(p)),
    ('object.__init_subclass__', lambda p, a, b:
        type(p).__init_subclass__()),
    ('type.__call__', lambda p, a, b: type.__call__(type(p), p, b)),
    ('type.__getattribute__', lambda p, a, b:
        type.__getattribute__(p, '_wrapped')),
    ('type.__subclasses__', lambda p, a, b: type.__subclasses__(p)),
    ('module.__getattribute__', lambda p, a, b:
        types.ModuleType.__getattribute__(p, 'x')),
    ('super.__getattribute__', lambda p, a, b:
        super.__getattribute__(super(type(p), p), '__self__')),
]
for _i in range(6):
    ATTACKS.append(('object.__reduce_ex__%d' % _i, _reduce_ex(object, _i)))
    ATTACKS.append(('type.__reduce_ex__%d' % _i, _reduce_ex(type, _i)))
for _name in SLOTS + ('proxy_object', 'proxy_checker', '__dict__', 'secret',
                      '__class__', 'a', '__weakref__'):
    ATTACKS.append(('object get ' + _name, _getslot(_name)))
    ATTACKS.append(('attrgetter ' + _name, _attrgetter(_name)))
    if _name != '__class__':
        ATTACKS.append(('object set ' + _name, _setslot(_name)))
        ATTACKS.append(('object del ' + _name, _delslot(_name)))
for _name in SLOTS:
    for _kind in ('get', 'set', 'delete'):
        ATTACKS.append(('slot %s %s' % (_kind, _name), _slot(_kind, _name)))
for _group in (BINARY, INPLACE):
    for _name, _f in _group.items():
        _tag = 'op ' + ('i' if _group is INPLACE else '') + _name
        ATTACKS.append((_tag, lambda p, a, b, f=_f: f(p, a)))
        ATTACKS.append(('r' + _tag, lambda p, a, b, f=_f: f(a, p)))
for _name, _f in UNARY.items():
    ATTACKS.append(('op ' + _name, lambda p, a, b, f=_f: f(p)))
ATTACKS.append(('matmul', lambda p, a, b: p @ a))
ATTACKS.append(('rmatmul', lambda p, a, b: a @ p))

_all = collections.Counter(k for k, f in ATTACKS)
assert len(_all) == len(ATTACKS), _all.most_common(9)
OPS = dict(ATTACKS)


def _verify_module():
    import zope.interface.verify        # noqa


_verify_module()


# -- the world ----------------------------------------------------------------------

NEVER_IN = (types.ModuleType, types.FrameType)


class World:

    def __init__(self, ctx, rng, kind=None, grants=None, special=None):
        self.ctx = ctx
        self.rng = rng
        self.log = []
        self.ns = {'__builtins__': dict(SAFE_BUILTINS), '__name__': 'world'}
        self.ns['OPERATORS'] = OPERATORS
        self.ns['setattr'] = setattr
        exec(SOURCE, self.ns)
        self.protected = {}
        self.proxies = []
        self.kept = []
        self.given = {}         # what is the attacker's own
        self.kind = kind or rng.choice(KINDS)
        self.grants = grants or rng.choice(['none', 'all', 'all', 'default',
                                            'some'])
        self.target = self.make(self.kind, special)
        self.proxy = self.wrap(self.target)
        # something else, with other rules
        self.wrap(self.make(rng.choice(KINDS), None))

    def make(self, kind, special):
        rng = self.rng
        ns = self.ns
        if kind == 'special':
            names = special or rng.sample(SPECIALS, rng.choice(
                [1, 3, 10, len(SPECIALS)]))
            extra = _sp['make'](set(names), OPERATORS, ns['Plain'])
            cls = type('Special', (ns['Target'],), extra)
            return cls()
        return MAKERS[kind](ns)

    def wrap(self, raw):
        grants = self.grants
        rng = self.rng
        if grants == 'default':
            if rng.random() < .3:
                p = ProxyFactory(raw)
                if not is_proxy(p) or p is raw:
                    p = Proxy(raw, Z.Checker({}))
            else:
                p = Proxy(raw, rng.choice([
                    Z.Checker({}), Z.NamesChecker(['method', '__call__'])]))
        else:
            if grants == 'none':
                def f(name):
                    return False
            elif grants == 'all':
                def f(name):
                    return True
            else:
                mask = rng.getrandbits(32)

                def f(name):
                    return (zlib.crc32(name.encode('utf-8', 'ignore')) ^ mask) % 3 == 0
            p = Proxy(raw, rng.choice([Rules, FastRules])(f))
        checker = getChecker(p)
        for x in (raw, checker):
            self.protected[id(x)] = x
        self.proxies.append((p, raw, checker, type(p)))
        return p

    def bad(self, key, msg, name=None):
        if self.ctx.pure and name in PURE:
            # See known_findings.json.
            key = PURE[name]
        self.ctx.fail(key, '%s; %s, %s; after %r' % (
            msg, self.kind, self.grants, self.log[-4:]))

    # -- the oracle -----------------------------------------------------------
    def tainted(self, result):
        """What of the protected is reachable, without a proxy between?"""
        seen = set()
        todo = [result]
        skip = self.skip
        while todo and len(seen) < 3000:
            x = todo.pop()
            i = id(x)
            if i in seen or i in skip:
                continue
            seen.add(i)
            if is_proxy(x):
                continue
            if i in self.protected:
                return x
            t = type(x)
            if t in BASIC or issubclass(t, (type,) + NEVER_IN):
                continue
            if t is types.FunctionType or t is types.CodeType:
                if t is types.FunctionType:
                    todo.extend(c for c in x.__closure__ or ())
                    todo.extend(x.__defaults__ or ())
                continue
            if t is weakref.ref:
                todo.append(x())
            todo.extend(gc.get_referents(x))
        return None

    def fine(self, name, status, result):
        """Check what the attack did."""
        for p, raw, checker, cls in self.proxies:
            how, x = outcome(getObject, p)
            if how != 'ok' or x is not raw:
                self.bad('object-' + name, 'the object was replaced', name)
                return False
            how, x = outcome(getChecker, p)
            if how != 'ok' or x is not checker:
                self.bad('checker-' + name, 'the checker was replaced', name)
                return False
            if type(p) is not cls:
                self.bad('class-' + name, 'the type was replaced', name)
                return False
        if status == 'ok':
            x = self.tainted(result)
            if x is not None:
                self.bad(('checker-revealed-' if isinstance(
                    x, (Rules, Z.Checker)) else 'revealed-') + name,
                    'it leads to a %s' % type(x).__name__, name)
                return False
        for method, args in CAUGHT:
            for x in args:
                if id(x) in self.protected and not is_proxy(x):
                    if method in COMPARES:
                        self.bad('operand-compare',
                                 '%s got a bare %s' % (
                                     method, type(x).__name__))
                    elif self.grants == 'none':
                        self.bad('operand-' + method,
                                 '%s got a bare %s' % (
                                     method, type(x).__name__))
                    elif method in OPERATORS:
                        self.bad('operand-arithmetic',
                                 '%s got a bare %s' % (
                                     method, type(x).__name__))
                    else:
                        # that was up to the operation granted
                        self.ctx.count('operands_granted')
        self.ctx.count('caught', len(CAUGHT))
        del CAUGHT[:]
        return True

    def attempt(self, name, f, p, a, b):
        self.log.append((name, type(removeSecurityProxy(p)).__name__))
        del CAUGHT[:]
        self.given[id(a)] = a
        self.given[id(b)] = b
        self.skip = {id(self), id(CAUGHT), id(self.proxies),
                     id(self.protected), id(self.log), id(self.given),
                     id(self.kept), id(self.__dict__)}
        Rules.left = 3000
        status, result = outcome(f, p, a, b)
        self.ctx.count('attempts')
        self.ctx.count('attempt_' + status)
        ok = self.fine(name, status, result)
        self.ctx.seen((self.kind, self.grants, name, status,
                       is_proxy(result)), status == 'ok')
        if not ok:
            return None, None, False
        return status, result, True

    def argument(self):
        rng = self.rng
        r = rng.randrange(10)
        if r == 0:
            return rng.choice(self.proxies)[0]
        if r == 1:
            return Mine
        if r == 2:
            return plain_function
        if r <= 5:
            return Evil()
        if r == 6:
            return Mine()
        return rng.choice([0, 1, 'a', '', None, 2.5, (), [1], {'a': 1}, 'x'])

    def names(self):
        return sorted(set(dir(type(self.proxy))) | set(dir(self.target))
                      | set(mined_names()) | EXTRA)

    def chain(self):
        """Attacks on what came out of attacks."""
        rng = self.rng
        names = self.names()
        pool = [self.proxy]
        keep = []
        for i in range(rng.choice([5, 20, 60])):
            p = rng.choice(pool)
            a = rng.choice(keep) if keep and rng.random() < .2 \
                else self.argument()
            b = self.argument()
            if rng.random() < .5:
                name, f = rng.choice(CHAINED)
            else:
                name, f = rng.choice(BYNAME)
                n = rng.choice(names)
                if n in SLOTS or (name in SKIPPED and n in SKIPPED[name]):
                    continue
                f = functools.partial(f, n)
            status, result, ok = self.attempt(name, f, p, a, b)
            if not ok:
                return
            if status == 'ok':
                if is_proxy(result):
                    if not any(result is x for x in pool):
                        how, raw = outcome(getObject, result)
                        if how != 'ok':
                            continue        # made by object.__new__
                        checker = getChecker(result)
                        if id(checker) not in self.protected or \
                                id(raw) in self.given:
                            # The attacker's own.
                            continue
                        if type(raw) not in BASIC and not is_proxy(raw) \
                                and not isinstance(raw, SHARED):
                            self.protected[id(raw)] = raw
                        self.kept.append((raw, checker))
                        self.proxies.append((result, raw, checker,
                                             type(result)))
                        pool.append(result)
                        self.ctx.count('chained')
                elif type(result) not in BASIC:
                    keep.append(result)


# What others have, too, and is no secret.
SHARED = (type, types.BuiltinFunctionType, types.ModuleType, tuple,
          frozenset, types.FunctionType, type(str.join), type(object.__eq__),
          type(type.__dict__['__mro__']), Evil, Mine, Rules)
COMPARES = {'__%s__' % n for n in COMPARE}
EXTRA = {'_wrapped', '_checker', 'proxy_object', 'proxy_checker',
         '__wrapped__', '__Security_checker__', '_Proxy__wrapped',
         '__slots__', '__dict__', '__weakref__', '__self__', '__func__',
         '__class__', '__reduce__', '__reduce_ex__', '__getstate__',
         '__closure__', '__parent__', '__objclass__', '__original__',
         'secret', 'object', 'checker', '__thisclass__', '__init__',
         '__new__', '__getattribute__', '__setattr__', '__getnewargs__',
         '__getnewargs_ex__', '__provides__', '__providedBy__', 'a', 'x',
         '__annotations__', '__type_params__', '__set_name__', '__get__'}


def _unbound(name, p, a, b):
    """The method of the type."""
    return getattr(type(p), name)(p)


def _unbound1(name, p, a, b):
    return getattr(type(p), name)(p, a)


def _unbound2(name, p, a, b):
    return getattr(type(p), name)(p, a, b)


def _bound(name, p, a, b):
    return getattr(p, name)()


def _bound1(name, p, a, b):
    return getattr(p, name)(a)


BYNAME = [
    ('getattr', lambda name, p, a, b: getattr(p, name)),
    ('getattr default', lambda name, p, a, b: getattr(p, name, b)),
    ('hasattr', lambda name, p, a, b: hasattr(p, name)),
    ('setattr', lambda name, p, a, b: setattr(p, name, a)),
    ('delattr', lambda name, p, a, b: delattr(p, name)),
    ('unbound', _unbound), ('unbound1', _unbound1), ('unbound2', _unbound2),
    ('bound', _bound), ('bound1', _bound1),
    ('type getattribute', lambda name, p, a, b:
        type(p).__getattribute__(p, name)),
    ('type setattr', lambda name, p, a, b:
        type(p).__setattr__(p, name, a)),
    ('type delattr', lambda name, p, a, b: type(p).__delattr__(p, name)),
    ('attrgetter', lambda name, p, a, b: operator.attrgetter(name)(p)),
    ('methodcaller', lambda name, p, a, b:
        operator.methodcaller(name, a)(p)),
]
# Calling these on the type is something else.
_CLASSY = {'__init_subclass__', '__subclasshook__', '__new__', '__class__',
           'mro', '__subclasses__', '__init__'}
# Changing these of an object is the business of those who permit it.
_CHANGES = {'__class__', '__bases__', '__dict__', '__code__', '__del__'}
SKIPPED = {'unbound': _CLASSY | set(SLOTS), 'unbound1': _CLASSY | set(SLOTS),
           'unbound2': _CLASSY | set(SLOTS),
           'setattr': _CHANGES, 'type setattr': _CHANGES}

CHAINED = [(k, f) for k, f in ATTACKS
           if not k.startswith(('object ', 'slot ', 'frame'))]

KINDS = ['special', 'special', 'special', 'Target', 'Slots', 'Dynamic',
         'Selfish', 'Selfish', 'Derived', 'Error', 'class', 'WithMeta', 'function', 'method',
         'generator', 'list', 'dict', 'set', 'tuple', 'module', 'partial',
         'weakref', 'property', 'StringIO', 'bytearray', 'iterator',
         'slice', 'Number', 'Text', 'namespace', 'deque', 'view', 'super',
         'proxied']
MAKERS = {
    'Selfish': lambda ns: ns['Selfish'](),
    'Target': lambda ns: ns['Target'](), 'Slots': lambda ns: ns['Slots'](),
    'Dynamic': lambda ns: ns['Dynamic'](),
    'Derived': lambda ns: ns['Derived']([1, 2]),
    'Error': lambda ns: ns['Error']('x'),
    'class': lambda ns: type('Made', (ns['Target'],), {}),
    'WithMeta': lambda ns: ns['WithMeta'],
    'function': lambda ns: ns['function'],
    'method': lambda ns: ns['Target']().method,
    'generator': lambda ns: ns['generator'](),
    'list': lambda ns: [ns['Plain'](), 1],
    'dict': lambda ns: {'a': ns['Plain'](), 0: 1},
    'set': lambda ns: {ns['Plain'](), 1},
    'tuple': lambda ns: (ns['Plain'](), 1),
    'module': lambda ns: types.ModuleType('m'),
    'partial': lambda ns: functools.partial(ns['function'], 1),
    'weakref': lambda ns: weakref.ref(ns['Target']),
    'property': lambda ns: property(ns['function']),
    'StringIO': lambda ns: io.StringIO('text'),
    'bytearray': lambda ns: bytearray(b'text'),
    'iterator': lambda ns: iter([ns['Plain'](), 2]),
    'slice': lambda ns: slice(1, ns['Plain']()),
    'Number': lambda ns: ns['Number'](5), 'Text': lambda ns: ns['Text']('t'),
    'namespace': lambda ns: types.SimpleNamespace(a=ns['Plain']()),
    'deque': lambda ns: collections.deque([ns['Plain'](), 3]),
    'view': lambda ns: {'a': ns['Plain']()}.items(),
    'super': lambda ns: super(ns['Target'], ns['Target']()),
    # a proxy in a proxy
    'proxied': lambda ns: Proxy(ns['Target'](), Rules(lambda name: True)),
}


# What cannot be prevented in Python.
PURE = {'frame': 'pure-frame', 'frame2': 'pure-frame',
        'object class assignment': 'pure-class'}
for _name in SLOTS:
    for _how in ('object get', 'object set', 'object del', 'slot get',
                 'slot set', 'slot delete'):
        PURE['%s %s' % (_how, _name)] = 'pure-slots'


def systematic(ctx, rng, kind, grants, special):
    """All attacks on one kind of object."""
    w = World(ctx, rng, kind, grants, special)
    todo = [(name, f, None) for name, f in ATTACKS for twice in (0, 1)]
    todo += [(how, f, name) for name in w.names() for how, f in BYNAME
             if name not in SKIPPED.get(how, ())]
    if grants == 'none' and kind != 'proxied':
        # not even the type shows
        if outcome(lambda: w.proxy.__class__)[0] == 'ok' \
                or isinstance(w.proxy, type(w.target)):
            w.bad('type', 'the type shows through __class__')
    last = None
    for how, f, name in todo:
        a = Evil() if name is None and how != last else w.argument()
        last = how
        if name is not None:
            f = functools.partial(f, name)
            if name in SLOTS:
                how = how + ' ' + name
        b = rng.choice([None, Mine(), 1, 'a'])
        if not w.attempt(how, f, w.proxy, a, b)[2]:
            # that one is spoilt
            ctx.count('spoilt')
            w = World(ctx, rng, kind, grants, special)
    ctx.count('worlds')


def run(ctx):
    gc.disable()
    kinds = sorted(set(KINDS))
    plans = [(k, g) for k in kinds for g in ('none', 'all', 'default')]
    for i, rng in ctx.cases('systematic', len(plans), len(plans) * 20, 60):
        kind, grants = plans[i % len(plans)]
        with ctx.case():
            special = SPECIALS if kind == 'special' and i < len(plans) \
                else None
            systematic(ctx, rng, kind, grants, special)
        if i % 50 == 0:
            gc.collect()
    for i, rng in ctx.cases('chains', 3000, 60000, 60):
        with ctx.case():
            w = World(ctx, rng)
            w.chain()
            ctx.count('worlds')
            if i < 3:
                ctx.sample(w.log)
        if i % 50 == 0:
            gc.collect()
