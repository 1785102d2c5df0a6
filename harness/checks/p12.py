"""P12: the C extensions are memory safe.

Hostile programs over all entry points of the C extensions.  The judges are
AddressSanitizer, UBSan, memcheck, the debugging allocator, and the
interpreter itself: SystemError stands for a result with an exception or none
with neither, PyErr_Occurred() for an exception left behind, a signal for a
crash.
"""
import copy
import ctypes
import functools
import gc
import itertools
import math
import operator
import pickle
import sys
import threading
import weakref

import _testcapi

from common import *  # noqa
from zope.security import management as M
import p11

CFUNCS = Z.selectChecker if hasattr(Z, 'selectChecker') else None
PyErr_Occurred = ctypes.pythonapi.PyErr_Occurred
PyErr_Occurred.restype = ctypes.c_void_p
PyErr_Occurred.argtypes = []


class Boom(Exception):
    pass


class World:
    """A pool of objects that hostile methods use and change."""

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.pool = []
        self.depth = 0
        self.acts = 0
        self.ops = 0
        self.types = []
        self.quiet = False

    def pick(self):
        rng = self.rng
        if self.pool and rng.random() < .7:
            return self.pool[rng.randrange(len(self.pool))]
        return rng.choice(CONSTANTS)

    def put(self, x):
        if len(self.pool) < 24:
            self.pool.append(x)
        else:
            self.pool[self.rng.randrange(len(self.pool))] = x

    # -- what hostile methods do --------------------------------------------

    def act(self, name):
        """Called by hostile methods; gives a result or raises."""
        if self.quiet:
            return None
        rng = self.rng
        self.acts += 1
        if self.depth < 4 and rng.random() < .4:
            self.depth += 1
            try:
                for i in range(rng.randrange(1, 4)):
                    self.disturb()
            finally:
                self.depth -= 1
        r = rng.random()
        if r < .12:
            raise rng.choice(EXCEPTIONS)(name)
        if r < .5 and name in GOOD:
            return rng.choice(GOOD[name])
        if name in ('__init__',):
            return None
        return self.pick()

    def disturb(self):
        rng = self.rng
        k = rng.randrange(16)
        if k == 0:
            gc.collect()
        elif k < 4 and self.pool:
            # drop a reference, perhaps the last one
            self.pool[rng.randrange(len(self.pool))] = None
        elif k < 6:
            c = self.pick()
            if isinstance(c, Z.Checker) and not is_proxy(c):
                c.__init__(self.table())
        elif k < 8:
            c = self.pick()
            if type(c) is dict and c is not Z._checkers:
                self.change(c)
            elif isinstance(c, Z.Checker) and not is_proxy(c):
                self.change(c.get_permissions)
                self.change(c.set_permissions)
        elif k == 8 and self.types:
            t = rng.choice(self.types)
            outcome(Z.defineChecker, t, self.checker_like())
        elif k == 9 and self.types:
            outcome(Z.undefineChecker, rng.choice(self.types))
        elif k == 10:
            M.endInteraction()
            if rng.random() < .7:
                set_interaction(Hostile.make(self, ['checkPermission'])
                                if rng.random() < .5 else
                                Interaction(lambda p, o: self.act('__bool__')))
        elif k == 11:
            p = self.pick()
            outcome(Proxy, p, self.pick())
        elif k == 12 and rng.random() < .1:
            threading.Thread(target=gc.collect).start()
        else:
            self.operation()

    def change(self, d):
        rng = self.rng
        k = rng.randrange(5)
        if k == 0:
            d.clear()
        elif k == 1:
            for i in range(rng.choice([1, 40])):
                d['n%d' % i] = object()
        elif k == 2 and d:
            d.pop(next(iter(d)), None)
        else:
            try:
                d[rng.choice(NAMES)] = rng.choice(
                    [CheckerPublic, None, object(), 'p', self.pick()])
            except Exception:
                pass

    def table(self):
        rng = self.rng
        return {n: rng.choice([CheckerPublic, CheckerPublic, CheckerPublic,
                               'p%d' % i, None, object()])
                for i, n in enumerate(NAMES) if rng.random() < .6}

    def checker_like(self):
        rng = self.rng
        k = rng.randrange(12)
        if k < 3:
            return Z.Checker(self.table(), self.table())
        if k == 3:
            return rng.choice(SUBCHECKERS)(self)
        if k == 4:
            return Hostile.make(self, CHECK)
        if k == 5:
            return Hostile.make(self, CHECK + ['__setitem__', '__getitem__'])
        if k == 6:
            return rng.choice([NoProxy, {}, [], bytearray(3), 5, Proxy,
                               Z.Checker, Z._defaultChecker, object])
        if k == 7:
            return rng.choice(UNINITIALISED)()
        if k == 8:
            return Proxy(self.checker_like(), ALLOW)
        if k == 9:
            return Z.CombinedChecker(Z.Checker(self.table()),
                                     Z.Checker(self.table()))
        if k == 10:
            return lambda o: self.act('factory')
        return ALLOW

    def new(self):
        rng = self.rng
        k = rng.randrange(16)
        if k < 5:
            return Hostile.make(self, rng.sample(
                METHODS, rng.choice([2, 10, 30, len(METHODS)])))
        if k < 9:
            return Proxy(self.pick(), self.checker_like())
        if k == 9:
            c = rng.choice(SUBPROXIES)
            p = c(self.pick(), self.checker_like())
            return p
        if k == 10:
            return p11.builtin_value(rng)
        if k == 11:
            return self.checker_like()
        if k == 12:
            return {n: self.pick() for n in 'abc'}
        if k == 13:
            x = self.pick()
            return [x, (x, self.pick())]
        if k == 14:
            return outcome(Z.ProxyFactory, self.pick(), ALLOW)[1]
        return self.cycle()

    def cycle(self):
        """A loop through proxies and checkers, left for the collector."""
        rng = self.rng
        d = {}
        c = Z.Checker(d, self.table())
        o = Hostile.make(self, rng.sample(METHODS, 8))
        p = Proxy(o, c)
        d['a'] = p
        d['b'] = self.pick()
        object.__setattr__(o, 'attr', [p, c])
        if rng.random() < .3:
            q = SUBPROXIES[0](p, c)
            d['q'] = q
        return rng.choice([p, c, d, o])

    # -- operations -----------------------------------------------------------

    def operation(self):
        """One operation; anything may be raised but SystemError."""
        rng = self.rng
        self.ops += 1
        name, f, n = rng.choice(OPS)
        args = [self.pick() for i in range(n)]
        if name in PROXY_FIRST and not is_proxy(args[0]):
            proxies = [x for x in self.pool if is_proxy(x)]
            if proxies:
                args[0] = rng.choice(proxies)
        if name in SIZED and any(huge(x) for x in args):
            return
        if self.ctx.only is not None:
            trace(self, name, args)
        try:
            r = f(*args)
        except SystemError as e:
            self.bad(name, args, e)
            raise
        except BaseException as e:
            what = type(e).__name__
            e = None
        else:
            what = 'ok'
            self.put(r)
        try:
            PyErr_Occurred()
        except BaseException as e:
            self.ctx.fail('stale-exception-' + name, 'exception left '
                          'behind by %s of %s: %r' % (
                              name, names(args), e))
        if self.depth == 0:
            self.ctx.seen((name, what, names(args)))
        return what

    def bad(self, name, args, e):
        self.ctx.fail('system-error-' + name, '%s of %s: %s' % (
            name, names(args), e))


def names(args):
    return [type.__dict__['__name__'].__get__(type(a)) for a in args]


def huge(x):
    while is_proxy(x):
        x = getObject(x)
    if isinstance(x, int):
        return abs(x) > 64
    if isinstance(x, (str, bytes, bytearray, list, tuple)):
        return len(x) > 500
    return False


def trace(w, name, args):
    """When replaying, say what is about to be done."""
    print(w.depth, name, names(args), file=sys.stderr,
          flush=True)


class Hostile:
    """Its classes have methods that do anything."""
    world = None

    @classmethod
    def make(cls, world, names):
        ns = {}
        for n in names:
            ns[n] = method(n)
        if '__eq__' in ns and '__hash__' not in ns:
            ns['__hash__'] = lambda self: 5
        ns['world'] = world
        if world.rng.random() < .15:
            ns['__class__'] = property(lambda s: world.act('__class__'))
        if world.rng.random() < .1:
            ns['__Security_checker__'] = property(
                lambda s: world.act('__Security_checker__'))
        elif world.rng.random() < .15:
            ns['__Security_checker__'] = world.checker_like()
        if world.rng.random() < .1:
            ns['__module__'] = world.rng.choice(
                ['m', '\ud800', property(lambda s: world.act('x'))])
        if world.rng.random() < .1:
            meta = type('Meta', (type,), {
                n: method(n) for n in world.rng.sample(
                    ['__eq__', '__hash__', '__instancecheck__', '__repr__',
                     '__subclasscheck__', '__getattribute__', '__call__'], 2)
                if n != '__eq__'})
        else:
            meta = type
        if meta is not type:
            world.quiet = True
        try:
            meta.world = world
        except TypeError:
            pass
        try:
            t = type.__new__(meta, 'Hostile', (Hostile,), ns)
            o = object.__new__(t)
        finally:
            world.quiet = False
        if meta is type:
            world.types.append(t)
            del world.types[:-8]
        return o

    def __del__(self):
        w = Hostile.current
        if w is not None and not w.quiet and w.rng.random() < .05 and w.depth < 3:
            w.depth += 1
            try:
                w.disturb()
            except Exception:
                pass
            finally:
                w.depth -= 1


Hostile.current = None


def method(name):
    def m(self, *args, **kw):
        w = Hostile.current
        if w is None:
            return None
        return w.act(name)
    m.__name__ = name
    return m


class _Sub(Z.Checker):
    def __init__(self, world):
        self.world = world
        super().__init__(world.table(), world.table())


class CheckSub(_Sub):
    def check(self, o, n):
        self.world.act('check')

    check_getattr = check_setattr = check

    def proxy(self, v):
        return self.world.act('proxy')


class ItemSub(_Sub):
    def __setitem__(self, o, n):
        self.world.act('check')

    def __getitem__(self, v):
        if self.world.rng.random() < .5:
            return super().__getitem__(v)
        return self.world.act('proxy')


class SlotSub(_Sub):
    __slots__ = ('world', 'extra')


class DelSub(_Sub):
    def __delitem__(self, o):
        self.world.act('del')

    def __len__(self):
        return 0


SUBCHECKERS = [CheckSub, ItemSub, SlotSub, DelSub]


class P1(Proxy):
    pass


class P2(Proxy):
    __slots__ = ('__weakref__',)


class P3(Proxy):
    def __del__(self):
        w = Hostile.current
        if w is not None and w.rng.random() < .1 and w.depth < 3:
            w.put(self)         # comes back


class P4(Proxy):
    def __getattribute__(self, name):
        w = Hostile.current
        if w is not None and w.rng.random() < .1:
            w.act(name)
        return Proxy.__getattribute__(self, name)

    def __hash__(self):
        return 3

    def __eq__(self, other):
        return Proxy.__eq__(self, other)


SUBPROXIES = [P1, P2, P3, P4]
UNINITIALISED = [
    lambda: Z.Checker.__new__(Z.Checker),
    lambda: Z.Checker.__new__(CheckSub) if 0 else Z.Checker.__new__(P_Bare),
    lambda: Z.Checker.__new__(Z.Checker, 1, 2, x=3),
]


class P_Bare(Z.Checker):
    pass


class StrSub(str):
    def __hash__(self):
        w = Hostile.current
        if w is not None and w.rng.random() < .5:
            try:
                w.act('__hash__')
            except RecursionError:
                pass
        return str.__hash__(self)

    def __eq__(self, other):
        w = Hostile.current
        if w is not None and w.rng.random() < .5:
            w.act('__eq__')
        return str.__eq__(self, other)


CHECK = ['check', 'check_getattr', 'check_setattr', 'proxy']
NAMES = ['a', 'attr', '__iter__', '__next__', '__call__', '__len__',
         '__getitem__', '__setitem__', '__delitem__', '__contains__',
         '__str__', '__repr__', '__int__', '__float__', '__index__',
         '__name__', '__class__', '__dict__', '__doc__', '__module__',
         '__length_hint__', '__3pow__', '__reduce_ex__', '__format__'] + \
    ['__%s__' % n for n in UNARY] + \
    ['__%s%s__' % (k, n) for n in BINARY for k in ('', 'r', 'i')]
METHODS = (['__%s__' % n for n in UNARY]
           + ['__%s%s__' % (k, n) for n in BINARY for k in ('', 'r', 'i')]
           + ['__%s__' % n for n in COMPARE]
           + ['__call__', '__getitem__', '__setitem__', '__delitem__',
              '__contains__', '__len__', '__iter__', '__next__', '__int__',
              '__float__', '__index__', '__complex__', '__str__', '__repr__',
              '__bool__', '__hash__', '__length_hint__', '__getattr__',
              '__setattr__', '__delattr__', '__format__', '__dir__',
              '__get__', '__set__', '__instancecheck__', '__reduce_ex__',
              '__round__', '__trunc__', '__bytes__', '__fspath__',
              '__missing__', '__set_name__', '__enter__', '__exit__',
              'checkPermission', 'keys', 'items', '__conform__']
           + CHECK)
GOOD = {
    '__len__': [0, 1, 3, sys.maxsize, sys.maxsize + 1, -1],
    '__length_hint__': [0, 3, -1, sys.maxsize, NotImplemented, 10 ** 30],
    '__hash__': [0, -1, -2, 2 ** 61, 2 ** 61 - 1, 2 ** 63, -2 ** 63, 10 ** 30],
    '__bool__': [True, False, 1],
    '__str__': ['x', '\ud800', StrSub('sub')],
    '__repr__': ['x', '\ud800', StrSub('sub'), ''],
    '__int__': [0, 7, 10 ** 30, True],
    '__index__': [0, 2, -1, 10 ** 30, sys.maxsize, -sys.maxsize - 1, True],
    '__float__': [1.5, float('nan'), float('inf')],
    '__iter__': [iter(()), iter([1, 2]), iter('ab')],
    '__contains__': [True, False],
    '__format__': ['f'], '__complex__': [1j], '__bytes__': [b'x'],
    '__getitem__': [1, 'x'],
    '__next__': [1, 'x'],
    '__class__': [int, str, Exception, type, Proxy, Z.Checker],
    '__dir__': [['a']], 'keys': [['a'], []], 'items': [[(1, 2)], []],
    '__hash__ ': [1], '__eq__': [True, False, NotImplemented],
    'checkPermission': [True, False, True, 1, 'x'],
    'check': [None], 'check_getattr': [None], 'check_setattr': [None],
    '__setitem__': [None], '__setattr__': [None], '__delitem__': [None],
    '__reduce_ex__': ['x', (int, ())], '__fspath__': ['/nonexistent'],
    '__Security_checker__': [None, Z.Checker({}), 5],
    'factory': [None, NoProxy, Z.Checker({}), 5, lambda o: None],
}
for _n in list(BINARY):
    for _k in ('', 'r', 'i'):
        GOOD['__%s%s__' % (_k, _n)] = [NotImplemented, 1, 'x', None]
for _n in ('lt', 'le', 'ne', 'gt', 'ge'):
    GOOD['__%s__' % _n] = [True, False, NotImplemented, 'x']

EXCEPTIONS = [Boom, ValueError, TypeError, AttributeError, KeyError,
              IndexError, StopIteration, MemoryError, RecursionError,
              KeyboardInterrupt, OverflowError, ZeroDivisionError,
              Unauthorized, ForbiddenAttribute, GeneratorExit,
              lambda n: UnicodeDecodeError('ascii', b'x', 0, 1, n)]
ALLOW = None


def allow_all():
    return p11.AllChecker()


CONSTANTS = [None, 0, 1, -1, 2, 3, 2.5, 1j, '', 'a', 'attr', '__iter__',
             '__class__', '__len__', '\ud800', '__\ud800__', 'x' * 300, b'ab',
             (), (1, 2), True, Ellipsis, NotImplemented, int, str, object,
             type, Proxy, Z.Checker, 10 ** 30, -10 ** 30, sys.maxsize,
             -sys.maxsize - 1, float('nan'), slice(0, 2), slice(None), range(3),
             len, StrSub('a'), StrSub('__iter__'), StrSub('__x'), '_', '__',
             NoProxy, CheckerPublic, Exception, ValueError('v'),
             frozenset([1]), memoryview(b'abc'), '__name__', '\x00', '__\x00',
             '\u1234', '__\U0001f600__', getattr(Z, '_available_by_default', ())]


def type_call(t, name):
    f = getattr(t, name, None)

    def call(*args):
        return f(*args)
    return call


def _for(x):
    r = None
    for r in itertools.islice(x, 4):
        pass
    return r


def _star(x):
    return [*itertools.islice(iter(x), 5)]


def _unpack(x):
    a, b = x
    return b


def _ctx(x):
    with x as y:
        return y


def _setitem(x, k, v):
    x[k] = v


def _delitem(x, k):
    del x[k]


def _kw(x, y):
    return x(y, a=y, b=1)


def _dstar(x):
    return len(dict(**x))


def _match(x):
    match x:
        case [a, *b]:
            return a
        case {'a': b}:
            return b
        case int():
            return 1
        case object(attr=a):
            return a
    return None


def _subclass(x):
    return type('Sub', (x,), {})


def _setclass(x, y):
    x.__class__ = y


def _weak(x):
    r = weakref.ref(x)
    return r()


def _weakcb(x):
    w = Hostile.current
    return weakref.ref(x, lambda r: w.act('weak'))


def _raise(x):
    raise x


def _inplace(op):
    def f(x, y):
        x = op(x, y)
        return x
    return f


def _thread(x):
    t = threading.Thread(target=lambda: outcome(lambda: x + x))
    t.start()
    t.join()


def _islice_list(x):
    return list(itertools.islice(x, 6))


def _limited(f):
    """f consumes an iterable: bound it."""
    def g(x, *a):
        return f(itertools.islice(x, 6), *a)
    return g


def _nan(x, y):
    return [x == y, x != y, x < y]


def _getset(c, x):
    c.get_permissions = x


def _getdel(c):
    del c.set_permissions


def _perms(c):
    return c.get_permissions


def _perms2(c):
    return c.set_permissions


def _fstring(x):
    return f'{x}{x!r}{x:>3}'


def _annotate(x):
    class K:
        a: x
        b = x
    return K


def capi(name):
    """A function of the C API; it takes None for NULL, which crashes."""
    f = getattr(_testcapi, name, None)
    if f is None:
        return None

    def call(*args):
        return f(*[0 if a is None else a for a in args])
    return call


def build_ops():
    ops = []

    def add(name, f, n, *groups):
        ops.append((name, f, n))
        for g in groups:
            g.add(name)
    for n, f in BINARY.items():
        g = [SIZED] if n in ('mul', 'pow', 'lshift') else []
        add(n, f, 2, PROXY_FIRST, *g)
        add('r' + n, lambda y, x, f=f: f(x, y), 2, PROXY_FIRST, *g)
    for n, f in INPLACE.items():
        g = [SIZED] if n in ('mul', 'pow', 'lshift') else []
        add('i' + n, _inplace(f), 2, PROXY_FIRST, *g)
    for n, f in list(UNARY.items()) + list(COMPARE.items()):
        add(n, f, 1 if n in UNARY else 2, PROXY_FIRST)
        if n not in UNARY:
            add('r' + n, lambda y, x, f=f: f(x, y), 2, PROXY_FIRST)
    add('pow3', pow, 3, PROXY_FIRST, SIZED)
    add('pow3b', lambda p, x, y: pow(x, p, y), 3, PROXY_FIRST, SIZED)
    add('pow3c', lambda p, x, y: pow(x, y, p), 3, PROXY_FIRST, SIZED)
    for i in range(3):          # the most usual ones, more often
        for n, f, k in [
                ('call0', lambda x: x(), 1), ('call1', lambda x, y: x(y), 2),
                ('callkw', _kw, 2), ('getattr', getattr, 2),
                ('setattr', setattr, 3), ('delattr', delattr, 2),
                ('getitem', operator.getitem, 2), ('setitem', _setitem, 3),
                ('delitem', _delitem, 2),
                ('contains', operator.contains, 2),
                ('next', next, 1), ('iter', iter, 1),
                ('len', len, 1), ('hash', hash, 1), ('bool', bool, 1),
                ('int', int, 1), ('float', float, 1), ('str', str, 1),
                ('repr', repr, 1), ('index', operator.index, 1)]:
            add(n, f, k, PROXY_FIRST)
    for n, f, k in [
            ('getattr_name', lambda p: p.attr, 1),
            ('method', lambda p, x: p.check(x, 'a'), 2),
            ('complex', complex, 1), ('ascii', ascii, 1), ('dir', dir, 1),
            ('vars', vars, 1), ('round', round, 1), ('id', id, 1),
            ('callable', callable, 1), ('format', format, 1),
            ('fstring', _fstring, 1), ('percent', lambda x: '%s%r' % (x, x), 1),
            ('isinstance', isinstance, 2), ('issubclass', issubclass, 2),
            ('for', _for, 1), ('star', _star, 1), ('unpack', _unpack, 1),
            ('length_hint', operator.length_hint, 1), ('match', _match, 1),
            ('with', _ctx, 1), ('dstar', _dstar, 1), ('raise', _raise, 1),
            ('subclass', _subclass, 1), ('setclass', _setclass, 2),
            ('weak', _weak, 1), ('weakcb', _weakcb, 1), ('copy', copy.copy, 1),
            ('deepcopy', copy.deepcopy, 1),
            ('pickle', pickle.dumps, 1), ('sizeof', sys.getsizeof, 1),
            ('key', lambda x: {x: x}, 1), ('dictget', lambda x, y: {x: 1}.get(y), 2),
            ('memoryview', memoryview, 1), ('floor', math.floor, 1),
            ('trunc', math.trunc, 1), ('ceil', math.ceil, 1),
            ('sqrt', math.sqrt, 1), ('slice', lambda x: [1, 2][x:], 1),
            ('index_list', lambda x: [1, 2, 3][x], 1),
            ('islice', _islice_list, 1), ('map', lambda f, x: list(
                itertools.islice(map(f, x), 4)), 2),
            ('sorted', _limited(sorted), 1), ('sum', _limited(sum), 1),
            ('zip', lambda x, y: list(itertools.islice(zip(x, y), 3)), 2),
            ('set', _limited(set), 1), ('join', _limited(''.join), 1),
            ('min', _limited(min), 1), ('nan', _nan, 2),
            ('partial', lambda f, x: functools.partial(f, x)(), 2),
            ('getslice', lambda x: x[1:2], 1), ('chr', chr, 1),
            ('divmod', divmod, 2), ('reversed', reversed, 1),
            ('annotate', _annotate, 1), ('thread', _thread, 1),
            ('super', lambda x: super(Proxy, x).__repr__(), 1),
            ('range', range, 1), ('property', lambda x, y: property(x).__get__(
                y), 2)]:
        add(n, f, k, PROXY_FIRST)
    seqs = [
        ('sequence_getitem', 2), ('sequence_setitem', 3),
        ('sequence_delitem', 2)]
    for n, k in seqs:
        f = capi(n)
        for i in (0, 1, -1, -5, sys.maxsize, -sys.maxsize - 1, 2 ** 31):
            if n == 'sequence_setitem':
                add(n, lambda p, v, f=f, i=i: f(p, i, v), 2, PROXY_FIRST)
            else:
                add(n, lambda p, f=f, i=i: f(p, i), 1, PROXY_FIRST)
    for n, k in [('sequence_getslice', 1), ('sequence_contains', 2),
                 ('sequence_length', 1), ('sequence_repeat', 1),
                 ('sequence_concat', 2), ('sequence_inplaceconcat', 2),
                 ('mapping_length', 1), ('mapping_keys', 1),
                 ('mapping_values', 1), ('mapping_items', 1),
                 ('mapping_check', 1), ('sequence_check', 1),
                 ('object_bytes', 1), ('object_hasattr', 2),
                 ('mapping_haskey', 2), ('sequence_count', 2),
                 ('sequence_index', 2), ('object_getattr', 2)]:
        f = capi(n)
        if f is None:
            continue
        if n == 'sequence_repeat':
            f = lambda x, f=f: f(x, 2)      # noqa
        if n in ('sequence_count', 'sequence_index', 'sequence_contains'):
            # might be endless
            f0 = f
            f = lambda x, y, f=f0: f(x, y) if finite(x) else None  # noqa
        add(n, f, k, PROXY_FIRST)
    for t, names in ((Proxy, sorted(vars(Proxy))),
                     (Z.Checker, sorted(vars(Z.Checker)))):
        for n in names:
            f = getattr(t, n)
            if not callable(f):
                continue
            big = 'pow' in n or 'mul' in n or 'shift' in n
            for k in range(0, 4):
                # with any number of arguments, mostly wrong
                if t is Proxy:
                    add('Proxy.%s/%d' % (n, k), f, k,
                        PROXY_FIRST if k else set(), SIZED if big else set())
                else:
                    add('Checker.%s/%d' % (n, k),
                        lambda *a, f=f: f(ready_checker(), *a[1:])
                        if len(a) and not isinstance(a[0], Z.Checker)
                        else f(*a), k)
    for n in ('check', 'check_getattr', 'check_setattr', 'proxy',
              'permission_id', 'setattr_permission_id', '__init__',
              '__getitem__', '__setitem__', '__delitem__'):
        for k in range(0, 4):
            add('checker.%s/%d' % (n, k), lambda c, *a, n=n: getattr(
                c if isinstance(c, Z.Checker) else ready_checker(), n)(*a),
                k + 1)
    for n, f, k in [
            ('Checker', Z.Checker, 1), ('Checker2', Z.Checker, 2),
            ('Checkerkw', lambda x, y: Z.Checker(
                set_permissions=x, get_permissions=y), 2),
            ('Checkerdict', lambda x: Z.Checker({'a': x}, {'a': x}), 1),
            ('perms', _perms, 1), ('perms2', _perms2, 1),
            ('getset', _getset, 2), ('getdel', _getdel, 1),
            ('Proxy', Proxy, 2), ('Proxy1', Proxy, 1), ('Proxy3', Proxy, 3),
            ('Proxykw', lambda x, y: Proxy(object=x, checker=y), 2),
            ('Proxykw2', lambda x, y: Proxy(checker=x, object=y), 2),
            ('Proxynew', Proxy.__new__, 3), ('Proxyinit', Proxy.__init__, 1),
            ('getObject', getObject, 1), ('getChecker', getChecker, 1),
            ('selectChecker', Z.selectChecker, 1),
            ('ProxyFactory', Z.ProxyFactory, 1),
            ('ProxyFactory2', Z.ProxyFactory, 2),
            ('P1', P1, 2), ('P2', P2, 2), ('P3', P3, 2), ('P4', P4, 2),
            ('canAccess', Z.canAccess, 2), ('canWrite', Z.canWrite, 2),
            ('referents', gc.get_referents, 1),
            ('tracked', gc.is_tracked, 1),
            ('available', lambda x: x in getattr(Z, '_available_by_default', ()), 1)]:
        add(n, f, k)
        add(n, f, k)
    return ops


_ready = []


def ready_checker():
    w = Hostile.current
    return Z.Checker(w.table(), w.table())


def finite(x):
    while is_proxy(x):
        x = getObject(x)
    return isinstance(x, (list, tuple, dict, str, bytes, set))


PROXY_FIRST = set()
SIZED = set()
OPS = None


def one(ctx, rng):
    w = World(ctx, rng)
    Hostile.current = w
    w.quiet = True
    set_interaction(Interaction(lambda p, o: w.rng.random() < .7))
    w.quiet = False
    try:
        while len(w.pool) < 12:
            try:
                w.put(w.new())
            except (Exception, KeyboardInterrupt, GeneratorExit):
                w.put(1)
        for i in range(rng.choice([10, 30, 60])):
            try:
                if rng.random() < .2:
                    w.put(w.new())
                w.operation()
            except SystemError:
                break
            except (Exception, KeyboardInterrupt, GeneratorExit):
                pass
        ctx.count('operations', w.ops)
        ctx.count('hostile_acts', w.acts)
    finally:
        w.quiet = True
        clear_interaction()
        for t in list(Z._checkers):
            if issubclass(t, Hostile):
                del Z._checkers[t]
        Hostile.current = None
        del w.pool[:]
        if rng.random() < .02:
            gc.collect()


# -- specific disturbances -------------------------------------------------------

class Self:
    """Drops the last outside references to itself while it is used."""

    def __init__(self, box, how):
        self.box = box
        self.how = how


def drop_method(name, result):
    def m(self, *args):
        d = object.__getattribute__(self, '__dict__')
        d['box'].clear()
        for i in range(3):
            [object() for i in range(20)]
        DROPS.append(1)
        del DROPS[:-5]
        if d['how'] == 'raise':
            raise Boom
        if callable(result):
            return result()
        return result
    m.__name__ = name
    return m


DROPS = []
RESULTS = {
    '__len__': 3, '__contains__': True, '__bool__': True, '__hash__': 7,
    '__int__': 5, '__float__': 2.5, '__index__': 4, '__str__': 's',
    '__repr__': 'r', '__setitem__': None, '__delitem__': None,
    '__iter__': lambda: iter([1, 2]), '__length_hint__': 2,
}


def dropping_class():
    ns = {}
    for n in METHODS:
        if n in CHECK or n in ('__getattr__', '__setattr__', '__delattr__',
                               '__get__', '__set__', 'checkPermission'):
            continue
        ns[n] = drop_method(n, RESULTS.get(n, lambda: ['fresh']))
    return type('Dropping', (Self,), ns)


class DropChecker:
    """Drops the proxy while it is asked."""

    def __init__(self, box, when):
        self.box, self.when = box, when

    def check(self, o, n):
        if self.when == 'check':
            self.box.clear()
            [object() for i in range(30)]
        elif self.when == 'raise':
            self.box.clear()
            raise ForbiddenAttribute(n, o)

    check_getattr = check_setattr = check

    def proxy(self, v):
        if self.when == 'proxy':
            self.box.clear()
            [object() for i in range(30)]
        return v


class FastDropChecker(DropChecker):
    def __setitem__(self, o, n):
        self.check(o, n)

    def __getitem__(self, v):
        return self.proxy(v)


class TableDrop(Z.Checker):
    """A table of permissions which the interaction replaces."""


DROPPING = None
SLOTS = None


def slot_calls():
    """Call slots with references that a container alone holds."""
    calls = []
    for n, f in list(BINARY.items()) + list(INPLACE.items()):
        calls.append((n, lambda p, f=f: f(p, 2)))
        calls.append(('r' + n, lambda p, f=f: f(2, p)))
    for n, f in COMPARE.items():
        calls.append((n, lambda p, f=f: f(p, 2)))
    for n, f in UNARY.items():
        calls.append((n, lambda p, f=f: f(p)))
    calls += [
        ('pow3', lambda p: pow(p, 2, 3)), ('pow3b', lambda p: pow(2, p, 3)),
        ('pow3c', lambda p: pow(2, 3, p)),
        ('call', lambda p: p(1, 2)), ('callkw', lambda p: p(a=1)),
        ('getattr', lambda p: p.attr), ('getattr2', lambda p: p.box),
        ('setattr', lambda p: setattr(p, 'attr', 1)),
        ('delattr', lambda p: delattr(p, 'attr')),
        ('getitem', lambda p: p[1]), ('setitem', lambda p: operator.setitem(p, 1, 2)),
        ('delitem', lambda p: operator.delitem(p, 1)), ('in', lambda p: 1 in p),
        ('next', next), ('iter', iter), ('len', len), ('hash', hash),
        ('bool', bool), ('int', int), ('float', float), ('str', str),
        ('repr', repr), ('index', operator.index), ('list', list),
        ('hint', operator.length_hint), ('format', format),
        ('isinstance', lambda p: isinstance(p, int)),
        ('key', lambda p: {p: 1}), ('class', lambda p: p.__class__),
        ('seqget', lambda p: _testcapi.sequence_getitem(p, 1)),
        ('seqget2', lambda p: _testcapi.sequence_getitem(p, 9999)),
        ('seqset2', lambda p: _testcapi.sequence_setitem(p, 9999, 2)),
        ('seqset', lambda p: _testcapi.sequence_setitem(p, 1, 2)),
        ('seqdel', lambda p: _testcapi.sequence_delitem(p, 1)),
    ]
    return calls


def by_map(f, box, key):
    """Call f with the only reference in a container."""
    return list(map(f, _pops(box, key)))


def _pops(box, key):
    yield box.pop(key)


def dropping(ctx, rng):
    """The object, checker and proxy are dropped during each operation."""
    how = rng.choice(['return', 'raise'])
    when = rng.choice(['never', 'check', 'proxy', 'raise'])
    fast = rng.random() < .5
    for name, call in SLOTS:
        box = {}
        o = DROPPING(box, how)
        c = (FastDropChecker if fast else DropChecker)(box, when)
        box['o'] = o
        box['p'] = Proxy(o, c)
        del o, c
        n = len(DROPS)
        what = None
        try:
            if rng.random() < .5:
                r = call(box['p'])
            else:
                r = by_map(call, box, 'p')
        except SystemError as e:
            ctx.fail('system-error-' + name, str(e))
        except Exception as e:
            what = type(e).__name__
        r = None
        try:
            PyErr_Occurred()
        except BaseException as e:
            ctx.fail('stale-exception-' + name, repr(e))
        ctx.count('dropping')
        ctx.seen(('drop', name, how, when, fast, what, n))
    # tables of real checkers
    for name, call in SLOTS:
        box = {}
        table = {n: object() for n in NAMES}
        c = Z.Checker(table, dict(table))
        kind = rng.randrange(3)

        def decide(permission, obj):
            if kind == 0:
                c.__init__({})
            elif kind == 1:
                table.clear()
                c.set_permissions.clear()
            else:
                box.clear()
                c.get_permissions.update(dict.fromkeys(NAMES))
            [object() for i in range(30)]
            ctx.count('tables_dropped')
            return rng.random() < .8
        set_interaction(Interaction(decide))
        o = DROPPING(box, how)
        box['p'] = Proxy(o, c)
        del o
        try:
            r = call(box['p'])
        except SystemError as e:
            ctx.fail('system-error-' + name, str(e))
        except Exception:
            pass
        r = None
    clear_interaction()


# -- tables and factories that go while they are used ---------------------------

class Perm:
    """A permission that only a table refers to."""

    def __init__(self, what=None):
        self.what = what
        self.fill = 'x' * 40

    def __del__(self):
        if self.what is not None:
            self.what()


class EvilStr(str):
    def __hash__(self):
        EVIL[0]('hash')
        return str.__hash__(self)

    def __eq__(self, other):
        EVIL[0]('eq')
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other


class EvilName:
    def __init__(self, s):
        self.s = s

    def __hash__(self):
        EVIL[0]('hash')
        return hash(self.s)

    def __eq__(self, other):
        EVIL[0]('eq')
        return self.s == other


EVIL = [lambda how: None]


class Truth:
    """An answer of an interaction that nobody else refers to."""

    def __init__(self, value):
        self.value = value
        self.fill = [1, 2, 3]

    def __bool__(self):
        if self.value is None:
            raise Boom
        return self.value


class TruthList(list):
    pass


def lookups(ctx, rng):
    """Names, permissions and finalizers that replace the tables."""
    names = rng.sample(NAMES, 6)
    c = rng.choice([Z.Checker, P_Bare])({}, {})
    when = rng.choice(['hash', 'eq', 'both'])
    what = rng.choice(['init', 'init', 'clear', 'grow', 'pop', 'none'])
    busy = [0]

    def fresh():
        return {n: Perm(touch if rng.random() < .5 else None)
                for n in names}

    def touch():
        """A permission goes: look at the checker."""
        if busy[0] > 3:
            return
        busy[0] += 1
        try:
            ctx.count('finalized_permissions')
            n = rng.choice(names)
            k = rng.randrange(5)
            if k == 0:
                c.permission_id(n)
                c.setattr_permission_id(n)
            elif k == 1:
                outcome(c.check, 1, n)
                outcome(c.check_setattr, 1, n)
            elif k == 2:
                len(c.get_permissions)
                len(c.set_permissions)
            elif k == 3:
                c.__init__(fresh(), fresh())
            else:
                c.get_permissions['zz'] = 1
                gc.get_referents(c)
        finally:
            busy[0] -= 1

    def evil(how):
        if when != 'both' and how != when or busy[0] > 3:
            return
        busy[0] += 1
        try:
            ctx.count('replaced_in_lookup')
            if what == 'init':
                c.__init__(fresh(), fresh())
            elif what == 'clear':
                c.get_permissions.clear()
                c.set_permissions.clear()
            elif what == 'grow':
                for i in range(30):
                    c.get_permissions['x%d' % i] = Perm()
                    c.set_permissions['x%d' % i] = Perm()
            elif what == 'pop':
                for t in (c.get_permissions, c.set_permissions):
                    if t:
                        t.popitem()
            [Perm() for i in range(5)]
            [dict.fromkeys(range(20)) for i in range(3)]
        finally:
            busy[0] -= 1

    def decide(permission, obj):
        # still there, and what it was?
        getattr(permission, 'fill', None)
        k = rng.randrange(6)
        if k == 0:
            evil(when)
        return rng.choice([
            lambda: True, lambda: False, lambda: Truth(True),
            lambda: Truth(False), lambda: Truth(None),
            lambda: TruthList([1]), lambda: TruthList()])()
    set_interaction(Granting())
    M.endInteraction()
    inter = Interaction(decide)
    inter.asked = Forget()
    set_interaction(inter)
    EVIL[0] = evil
    o = Fat()
    p = Proxy(o, c)
    try:
        for i in range(12):
            c.__init__(fresh(), fresh()) if rng.random() < .5 else None
            cls = rng.choice([EvilStr, EvilStr, EvilName])
            n = rng.choice(names + ['nope', '__nope__', '__iter__'])
            name = cls(n)
            f = rng.choice([
                lambda: c.check(o, name), lambda: c.check_getattr(o, name),
                lambda: c.check_setattr(o, name),
                lambda: c.permission_id(name),
                lambda: c.setattr_permission_id(name),
                lambda: operator.setitem(c, o, name),
                lambda: getattr(p, name), lambda: setattr(p, name, 1),
                lambda: delattr(p, name), lambda: Z.canAccess(p, name),
                lambda: Z.canWrite(o, name), lambda: c.__init__(
                    c.get_permissions), lambda: c.__init__({}),
                lambda: c.__init__(fresh(), fresh())])
            try:
                r = f()
            except SystemError as e:
                ctx.fail('system-error-lookup', repr(e))
            except Exception as e:
                r = type(e).__name__
            if isinstance(r, Perm):
                r.fill
            r = None
            try:
                PyErr_Occurred()
            except BaseException as e:
                ctx.fail('stale-exception-lookup', repr(e))
            ctx.count('lookups')
        ctx.seen(('lookups', when, what, tuple(names)))
    finally:
        EVIL[0] = lambda how: None
        busy[0] = 9
        clear_interaction()


class Forget:
    def append(self, x):
        pass


class Factory:
    """Nobody but the caller refers to it."""

    def __init__(self, cls, rest, what):
        self.cls = cls
        self.rest = rest
        self.what = what
        self.fill = [1] * 20

    def __call__(self, o):
        k = self.what
        if k == 'undefine':
            Z._checkers.pop(self.cls, None)
        elif k == 'replace':
            Z._checkers[self.cls] = NoProxy
        elif k == 'clear':
            saved = dict(Z._checkers)
            Z._checkers.clear()
            Z._checkers.update(saved)
        elif k == 'raise':
            raise Boom
        [dict.fromkeys(range(9)) for i in range(5)]
        self.fill.append(o)
        return self.rest.pop() if self.rest else None


def factories(ctx, rng):
    class K:
        pass
    if rng.random() < .4:
        K.__Security_checker__ = property(lambda self: rng.choice(
            [lambda: Z.Checker({}), lambda: None, lambda: 1 / 0,
             lambda: Factory(K, [], 'x'), lambda: getattr(self, 'nope')])())
    for i in range(6):
        rest = [rng.choice([Z.Checker({}), None, NoProxy, P_Bare({}), 5, 'x'])]
        for j in range(rng.randrange(3)):
            rest.append(Factory(K, rest if rng.random() < .8 else [],
                                rng.choice(['undefine', 'replace', 'clear',
                                            'raise', 'x', 'x'])))
        Z._checkers[K] = rest.pop() if not isinstance(rest[-1], str) \
            else Factory(K, [], 'undefine')
        if rng.random() < .2:
            class M2(type):
                def __hash__(self):
                    if EVIL2:
                        Z._checkers.pop(K, None)
                        [dict.fromkeys(range(9)) for i in range(5)]
                    return 5

                def __eq__(self, other):
                    if EVIL2:
                        saved = dict(Z._checkers)
                        Z._checkers.clear()
                        Z._checkers.update(saved)
                    return self is other

            class K2(metaclass=M2):
                pass
            Z._checkers[K2] = Factory(K2, [Z.Checker({})], 'x')
            EVIL2.append(1)
            o = K2()
        else:
            o = K()
        c = Z.Checker({}, {})
        f = rng.choice([
            lambda: Z.selectChecker(o), lambda: c.proxy(o), lambda: c[o],
            lambda: Z.ProxyFactory(o), lambda: Proxy([o], p11_all())[0]])
        try:
            r = f()
            repr(r)
            r = None
        except SystemError as e:
            ctx.fail('system-error-factory', repr(e))
        except Exception:
            pass
        finally:
            del EVIL2[:]
        try:
            PyErr_Occurred()
        except BaseException as e:
            ctx.fail('stale-exception-factory', repr(e))
        ctx.count('factories')
        ctx.seen(('factories', type(o).__name__, len(rest)))
        Z._checkers.pop(K, None)
        for t in list(Z._checkers):
            if t.__name__ == 'K2':
                del Z._checkers[t]


EVIL2 = []


def p11_all():
    return p11.AllChecker()


# -- when memory runs out -----------------------------------------------------------

class Fat:
    """Does a little in C, and gives results that need memory."""

    def __init__(self):
        self.a = [1, 2]
        self.attr = 'x'


def system_errors(call, arg, depth):
    """1 if any failing allocation leads to SystemError at this depth."""
    if depth:
        return system_errors(call, arg, depth - 1)
    found = 0
    for start in range(40):
        for stop in (0, start + 1):
            _testcapi.set_nomemory(start, stop)
            try:
                call(arg)
            except SystemError:
                _testcapi.remove_mem_hooks()
                found = 1
            except BaseException:
                _testcapi.remove_mem_hooks()
            else:
                _testcapi.remove_mem_hooks()
    return found


def nomem(ctx, rng):
    """Fail the allocations of an operation one after another."""
    table = {n: 'perm' for n in NAMES} if rng.random() < .5 else \
        dict.fromkeys(NAMES, CheckerPublic)
    if rng.random() < .3:
        table = {}
    kinds = [lambda: Z.Checker(table, table)]
    set_interaction(Granting() if rng.random() < .7 else Refusing())
    values = [Fat(), [1, 2, 3], {'a': 1}, 5, 2.5, 'text', (1, 2), iter([1]),
              {1, 2}, Fat, len, 70, frozenset([1]), range(3), b'x',
              iter({1: 2}.items())]
    checker = rng.choice(kinds)()
    o = rng.choice(values)
    p = Proxy(o, checker)
    name, call = rng.choice(SLOTS + EXTRA)
    arg = p if (name, call) in SLOTS else [p, o, checker]
    bare = outcome(call, arg)
    failed = 0
    set_nomemory, remove = _testcapi.set_nomemory, _testcapi.remove_mem_hooks
    for start in range(0, 40):
        bad = None
        r = None
        gc.collect()        # and so no free lists
        set_nomemory(start, rng.choice([0, 0, start + 1]))
        try:
            r = call(arg)
        except MemoryError:
            remove()
            failed += 1
        except SystemError as e:
            remove()
            bad = str(e)
        except BaseException as e:
            remove()
        else:
            remove()
        if bad is not None:
            # The interpreter itself gives this when it cannot get memory for
            # a frame, which depends on how deep the stack is.
            again = 0
            for depth in (1, 4, 9, 15, 22):
                again += system_errors(call, Proxy(o, checker)
                                       if (name, call) in SLOTS else arg,
                                       depth)
            if again < 4:
                ctx.count('interpreter_frames')
                continue
            ctx.fail('nomem-' + name, '%s of a %s, allocation %d failing: '
                     '%s (%d, %r)' % (name, type(o).__name__, start, bad,
                                      len(table), M.queryInteraction()))
            break
        try:
            PyErr_Occurred()
        except BaseException as e:
            ctx.fail('nomem-stale-' + name, repr(e))
        if start > 4 and failed == 0:
            break
        # and afterwards all is well
        if start % 8 == 7:
            again = outcome(call, Proxy(o, checker)
                            if (name, call) in SLOTS else arg)
            if not isinstance(o, type(iter([]))) and again[0] != bare[0] \
                    and name not in ('next', 'setattr', 'delattr', 'delitem',
                                     'seqdel'):
                ctx.count('changed_after')
    ctx.count('allocations_failed', failed)
    ctx.seen(('nomem', name, type(o).__name__, failed))
    clear_interaction()


class Granting:
    participations = ()
    checkPermission = staticmethod(lambda p, o: True)


class Refusing:
    participations = ()
    checkPermission = staticmethod(lambda p, o: False)


class NeedsFactory:
    pass


class NoneDeclared:
    __Security_checker__ = None


EXTRA = [
    ('proxy4', lambda x: x[2].proxy(NONE_DECLARED)),
    ('get_permissions', lambda x: Z.Checker.__new__(
        Z.Checker).get_permissions),
    ('iter', lambda x: x[2].check(5, '__iter__')),
    ('hint', lambda x: operator.length_hint(x[0])),
    ('Proxy', lambda x: Proxy(x[1], x[2])),
    ('P1', lambda x: P1(x[1], x[2])),
    ('Checker', lambda x: Z.Checker({}, {})),
    ('init', lambda x: x[2].__init__(x[2].get_permissions)),
    ('uninit', lambda x: Z.Checker.__new__(Z.Checker).get_permissions),
    ('uninit2', lambda x: Z.Checker.__new__(Z.Checker).set_permissions),
    ('check', lambda x: x[2].check(x[1], '__foo__')),
    ('check2', lambda x: x[2].check(x[1], '\ud800')),
    ('check3', lambda x: x[2].check_setattr(x[1], 'a')),
    ('check4', lambda x: x[2].check(x[1], '__iter__')),
    ('check5', lambda x: Z.Checker.__new__(Z.Checker).check(x[1], '__iter__')),
    ('proxy', lambda x: x[2].proxy(x[1])),
    ('proxy2', lambda x: x[2].proxy(Fat)),
    ('proxy3', lambda x: x[2].proxy(NeedsFactory())),
    ('select', lambda x: Z.selectChecker(x[1])),
    ('select2', lambda x: Z.selectChecker(NeedsFactory())),
    ('getObject', lambda x: getObject(x[0])),
    ('getChecker', lambda x: getChecker(x[0])),
    ('repr', lambda x: repr(Proxy(x[1], Z._defaultChecker))),
    ('str', lambda x: str(Proxy(x[1], Z._defaultChecker))),
]


# -- depth and threads ---------------------------------------------------------------

class Deep:
    """Every operation leads back to the proxy."""
    p = None


def deep_method(op):
    def m(self, *args):
        DEEP[0] += 1
        return op(self.p)
    return m


DEEP = [0]


def deep(ctx, rng):
    name, call = rng.choice(SLOTS)
    ns = {}
    for n in METHODS:
        if n not in CHECK and n not in ('__getattr__', '__setattr__', '__get__',
                                        '__set__', '__delattr__'):
            ns[n] = deep_method(call)
    if rng.random() < .3:
        ns['__getattr__'] = lambda self, n: call(self.p)
    t = type('DeepSub', (Deep,), ns)
    o = t()
    checker = rng.choice([ALLOW, FastAllow(), Z.Checker(
        dict.fromkeys(NAMES, CheckerPublic), dict.fromkeys(
            NAMES, CheckerPublic))])
    layers = rng.choice([1, 1, 2, 20])
    p = o
    for i in range(layers):
        p = Proxy(p, checker)
    t.p = p
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(rng.choice([200, 1000]))
    try:
        how, r = outcome(call, p)
    finally:
        sys.setrecursionlimit(limit)
    ctx.count('deep')
    ctx.count('deep_steps', DEEP[0])
    if how == 'raise':
        ctx.count('deep_' + type(r).__name__)
        if isinstance(r, SystemError):
            ctx.fail('system-error-' + name, 'recursion: %s' % r)
    ctx.seen(('deep', name, how, layers, type(r).__name__))
    DEEP[0] = 0
    t.p = None
    # a checker that uses the proxy it is checking for
    box = []

    class Again:
        def check(self, o, n):
            call(box[0])
        check_getattr = check_setattr = check

        def proxy(self, v):
            return v
    sub = rng.random() < .5
    if sub:
        Again.__setitem__ = Again.check
        Again.__getitem__ = Again.proxy
    box.append(Proxy([1, 2], Again()))
    how, r = outcome(call, box[0])
    if how == 'raise' and isinstance(r, SystemError):
        ctx.fail('system-error-' + name, 'recursion: %s' % r)
    ctx.count('deep')
    # many layers
    p = rng.choice([[1, 2], 5, 'x', {'a': 1}, len])
    for i in range(rng.choice([50, 300])):
        p = Proxy(p, checker)
    outcome(call, p)
    del p
    # long chains of containers are freed without recursion
    x = None
    for i in range(30000 if ctx.base == 'c' else 3000):
        x = Proxy([x], checker)
    del x


class FastAllow(p11.AllChecker):
    def __setitem__(self, o, n):
        pass

    def __getitem__(self, v):
        return self.proxy(v)


def threads(ctx, rng):
    """Threads change the tables that other threads are using."""
    table = {n: object() for n in NAMES}
    checker = Z.Checker(table, dict(table))
    other = Z.Checker(table)
    objs = [[1, 2], {'a': 1}, 5, Fat(), 'x']
    proxies = [Proxy(o, checker) for o in objs]
    stop = threading.Event()
    errors = []
    seeds = [rng.random() for i in range(6)]

    class K:
        pass

    def worker(seed):
        r = __import__('random').Random(seed)
        M.newInteraction()
        M.thread_local.interaction = Interaction(
            lambda p, o: bool(r.randrange(4)))
        n = 0
        while not stop.is_set() and n < 400:
            n += 1
            name, call = r.choice(SLOTS)
            try:
                call(r.choice(proxies))
            except SystemError as e:
                errors.append((name, e))
            except Exception:
                pass
            outcome(checker.proxy, K())
        M.endInteraction()
        counts.append(n)

    def changer(seed):
        r = __import__('random').Random(seed)
        n = 0
        while not stop.is_set() and n < 600:
            n += 1
            k = r.randrange(7)
            if k == 0:
                checker.__init__({m: object() for m in NAMES})
            elif k == 1:
                checker.get_permissions.clear()
            elif k == 2:
                checker.get_permissions.update(
                    {m: r.choice([object(), CheckerPublic]) for m in NAMES})
            elif k == 3:
                checker.set_permissions.clear()
            elif k == 4:
                outcome(Z.defineChecker, K, r.choice(
                    [other, lambda o: other, NoProxy]))
            elif k == 5:
                Z.undefineChecker(K)
            else:
                proxies[r.randrange(len(proxies))] = Proxy(
                    r.choice(objs), checker)
        counts.append(n)
    counts = []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ts = [threading.Thread(target=worker, args=(s,)) for s in seeds[:4]]
    ts += [threading.Thread(target=changer, args=(s,)) for s in seeds[4:]]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        stop.set()
        sys.setswitchinterval(old)
        for t in ts:
            t.join()
        Z._checkers.pop(K, None)
    ctx.count('threaded_operations', sum(counts))
    ctx.seen(('threads', tuple(counts), tuple(seeds)))
    for name, e in errors[:3]:
        ctx.fail('system-error-' + name, str(e))


def direct(ctx, rng):
    """Exact values at the borders."""
    class Len:
        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n

        def __hash__(self):
            return self.n

        def __getitem__(self, k):
            return k

        def __setitem__(self, k, v):
            self.got = k

        def __delitem__(self, k):
            self.got = k
    for n in [0, 1, -1, -2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5,
              2 ** 61 - 2, 2 ** 61 - 1, 2 ** 61, sys.maxsize, sys.maxsize - 1,
              -2 ** 31, -2 ** 32, -sys.maxsize, rng.randrange(2 ** 63)]:
        o = Len(n)
        p = Proxy(o, ALLOW)
        for f in (hash, len):
            a, b = outcome(f, o), outcome(f, p)
            if a[0] != b[0] or a[0] == 'ok' and a[1] != b[1]:
                ctx.fail('overflow-' + f.__name__, '%s(%d): bare %r, '
                         'proxied %r' % (f.__name__, n, a, b))
        ctx.count('borders')
        i = n
        o = Len(0)
        p = Proxy(o, ALLOW)
        if 0 <= i <= sys.maxsize:
            # the C API counts negative ones from the end
            r = outcome(_testcapi.sequence_getitem, p, i)
            if r != ('ok', i):
                ctx.fail('overflow-sequence', 'item %d: %r' % (i, r))
            for f in (lambda: _testcapi.sequence_setitem(p, i, 1),
                      lambda: _testcapi.sequence_delitem(p, i)):
                o.got = None
                outcome(f)
                if o.got != i:
                    ctx.fail('overflow-sequence', 'item %d became %r' % (
                        i, o.got))
        ctx.seen(('border', n))


NONE_DECLARED = NoneDeclared()


def run(ctx):
    global ALLOW, OPS, DROPPING, SLOTS
    p11.NAMES.names.update(NAMES)
    ALLOW = p11.AllChecker()
    OPS = build_ops()
    DROPPING = dropping_class()
    SLOTS = slot_calls()
    Z.defineChecker(NeedsFactory, lambda o: Z.Checker({}))
    sys.setrecursionlimit(1500)
    gc.collect()
    gc.freeze()     # makes collecting later on quick
    vg = ctx.base == 'vg'
    asan = ctx.base == 'asan'
    sys.unraisablehook = lambda u: None
    threading.excepthook = lambda a: None
    scale = 20 if vg else 3 if asan else 1

    def n(x):
        return max(4, x // scale)
    for i, rng in ctx.cases('direct', n(40), n(400)):
        with ctx.case():
            direct(ctx, rng)
    for i, rng in ctx.cases('dropping', n(120), n(3000)):
        ctx.mark()
        with ctx.case():
            dropping(ctx, rng)
    for i, rng in ctx.cases('lookups', n(900), n(30000)):
        ctx.mark()
        with ctx.case():
            lookups(ctx, rng)
    for i, rng in ctx.cases('factories', n(900), n(30000)):
        ctx.mark()
        with ctx.case():
            factories(ctx, rng)
    for i, rng in ctx.cases('nomem', n(1200), n(60000)):
        ctx.mark()
        with ctx.case():
            nomem(ctx, rng)
    for i, rng in ctx.cases('deep', n(120), n(3000)):
        ctx.mark()
        with ctx.case():
            deep(ctx, rng)
    for i, rng in ctx.cases('threads', n(12), n(300)):
        ctx.mark()
        with ctx.case():
            threads(ctx, rng)
    for i, rng in ctx.cases('fuzz', n(6000), n(400000)):
        ctx.mark()
        with ctx.case():
            one(ctx, rng)
    Z.undefineChecker(NeedsFactory)
    leave_things(ctx)


def leave_things(ctx):
    """For the end of the interpreter to cope with."""
    import atexit
    w = World(ctx, ctx.rng('end'))
    d = {}
    c = Z.Checker(d, {})
    d['p'] = Proxy(d, c)
    d['q'] = P3(Proxy(sys, c), c)
    d['m'] = Proxy(sys.modules[__name__], CheckSub(w))
    sys.verif_left = d
    atexit.register(Proxy(len, ALLOW), ())
    t = threading.local()
    t.p = d['p']
    d['t'] = t
    Z.defineChecker(P_Left, c)
    P_Left.it = d


class P_Left:
    def __del__(self):
        try:
            repr(P_Left.it)
        except Exception:
            pass
