"""Random programs over protected worlds, with a transcript of everything that
can be observed.  The same seed gives the same program in every configuration,
so the transcripts can be compared."""
import collections
import datetime
import hashlib
import itertools
import operator
import decimal
import re
import types

from common import *  # noqa
from zope.security import adapter as ZA
from zope.security import decorator as ZD
from zope.security import management as M
from zope.security import protectclass as ZP
import zope.interface
import zope.location.location
import zope.proxy

ADDRESS = re.compile(r'0x[0-9a-f]+|0x\(nil\)|(?<= at )[0-9A-F]{8,}')
QUESTION = re.compile(r'  (ask |lc\d+\.check)')
ATTRS = ['a', 'b', 'c', 'm', 'prop', 'none', '_private']
PERMS = [CheckerPublic, CheckerPublic, 'p1', 'p2', 'p3', None, 'zope.Public']


def function():
    def f(x=1):
        return [x]
    return f


class Sample:
    """With a method."""

    def method(self, *args):
        return list(args)


class Boom(Exception):
    pass


class Denied(Exception):
    pass


_LATER = object()


class Thing(object):
    """Says what is done to it."""

    def __init__(self, world, label, plan):
        d = self.__dict__
        d['_world'] = world
        d['_plan'] = plan
        d['_label'] = label
        d['_left'] = 6

    @property
    def prop(self):
        return perform(self, 'prop', ())

    def m(self, *args, **kw):
        return perform(self, 'm', args + tuple(sorted(kw.items())))

    def __setattr__(self, name, value):
        perform(self, 'set ' + name, (value,))
        self.__dict__[name] = value

    def __delattr__(self, name):
        perform(self, 'del ' + name, ())
        try:
            del self.__dict__[name]
        except KeyError:
            raise AttributeError(name)


def perform(self, name, args):
    world = self.__dict__['_world']
    plan = self.__dict__['_plan'].get(name, ('value', None))
    if not (world.quiet and name in (
            '__repr__', '__str__', '__hash__', '__eq__')):
        world.say('  %s.%s(%s)' % (
            self.__dict__['_label'], name, ', '.join(
                world.describe(a) for a in args)))
    if name in ('__next__', '__getitem__'):
        self.__dict__['_left'] -= 1
        if self.__dict__['_left'] < 0:
            raise StopIteration if name == '__next__' else IndexError
    kind, value = plan
    if kind == 'raise':
        raise value('planned')
    if kind == 'self':
        return self
    if kind == 'first':
        return args[0] if args else self
    if kind == 'fresh':
        return world.fresh_of(value)
    return value


DUNDERS = (['__len__', '__contains__', '__bool__', '__hash__', '__int__',
            '__float__', '__index__', '__str__', '__repr__', '__setitem__',
            '__delitem__', '__iter__', '__next__', '__getitem__', '__call__',
            '__getattr__']
           + ['__%s__' % n for n in UNARY]
           + ['__%s__' % n for n in COMPARE]
           + ['__%s%s__' % (k, n) for n in BINARY for k in ('', 'r', 'i')
              if (k, n) != ('i', 'divmod')])
FIXED = {'__len__': 3, '__hash__': 11, '__int__': 2, '__float__': 2.5,
         '__index__': 1, '__str__': 'thing-str', '__repr__': 'thing-repr',
         '__bool__': False}


def dunder(name):
    if name == '__getattr__':
        def f(self, n):
            if n.startswith('__') or n in ATTRS:
                raise AttributeError(n)
            return perform(self, '__getattr__ ' + n, ())
    elif name == '__call__':
        def f(self, *args, **kw):
            return perform(self, name, args + tuple(sorted(kw.items())))
    else:
        def f(self, *args):
            return perform(self, name, args)
    f.__name__ = name
    return f


METHODS = {n: dunder(n) for n in DUNDERS}


class I1(zope.interface.Interface):
    a = zope.interface.Attribute('a')

    def m(x):
        'm'


class I2(I1):
    b = zope.interface.Attribute('b')


class World:
    """The objects of one program, and what is known of them."""

    def __init__(self, rng, options=()):
        self.rng = rng
        self.options = set(options)
        # watched checkers take the repr() of the objects whenever they like
        self.quiet = 'quiet' in self.options
        self.lines = []
        self.labels = {}
        self.keep = []
        self.things = []
        self.classes = []
        self.defined = []
        self.asked = 0
        self.checker_log = False
        self.answers = {p: rng.choice([True, True, False]) for p in
                        ('p1', 'p2', 'p3')}
        self.answers['zope.Public'] = rng.random() < .5
        self.by_object = {}
        self.n = 0
        self.ended = False

    # -- what is written down --------------------------------------------------

    def say(self, line):
        self.lines.append(line)

    def name(self, obj, label):
        self.labels[id(obj)] = label
        self.keep.append(obj)
        return obj

    def describe(self, value, depth=3):
        if value is CheckerPublic:
            return 'Public'
        if is_proxy(value):
            raw = getObject(value)
            return 'proxy(%s by %s)' % (self.describe(raw, depth),
                                        self.describe_checker(
                                            getChecker(value)))
        label = self.labels.get(id(value))
        if label is not None:
            return label
        if value is NotImplemented:
            return 'NotImplemented'
        t = type(value)
        if t in (int, float, complex, bool, type(None), str, bytes,
                 datetime.date, datetime.timedelta):
            text = ADDRESS.sub('0x', repr(value)).replace(
                'CheckerPy', 'Checker').replace('ProxyPy', 'Proxy')
            return text if len(text) < 90 else '%s%d#%s' % (
                text[:30], len(text), digest(text))
        if depth <= 0:
            return t.__name__ + '...'
        if t in (list, tuple, collections.deque):
            return '%s(%s)' % (t.__name__, ', '.join(
                self.describe(v, depth - 1) for v in
                itertools.islice(list(value), 12)))
        if t in (set, frozenset):
            return '%s(%s)' % (t.__name__, ', '.join(sorted(
                self.describe(v, depth - 1) for v in value)))
        if t in (dict, collections.OrderedDict, collections.Counter,
                 collections.defaultdict):
            return '%s(%s)' % (t.__name__, ', '.join(
                '%s: %s' % (self.describe(k, depth - 1),
                            self.describe(v, depth - 1))
                for k, v in itertools.islice(list(value.items()), 12)))
        if isinstance(value, type):
            return 'class %s' % value.__name__
        if isinstance(value, BaseException):
            return self.describe_exc(value)
        if has_tables(value) or hasattr(t, 'check_getattr'):
            return self.describe_checker(value)
        if t.__name__ in ('builtin_function_or_method', 'method',
                          'method-wrapper', 'function'):
            return '%s %s' % (t.__name__, value.__name__)
        if t in (ZD.DecoratorBase, zope.location.location.LocationProxy):
            return t.__name__
        return t.__name__

    def describe_checker(self, c):
        label = self.labels.get(id(c))
        if label is not None:
            return label
        if c is None:
            return 'None'
        if is_proxy(c):
            return 'proxied checker'
        if isinstance(c, Z.CombinedChecker):
            # two tables, which only its decisions show
            was, self.asked = self.asked, None
            try:
                return 'combined'
            finally:
                self.asked = was
        if has_tables(c):
            text = '%s/%s' % (self.table(c.get_permissions),
                              self.table(c.set_permissions))
            return 'checker#' + (digest(text) if len(text) > 80 else text)
        return type(c).__name__

    def table(self, t):
        return ' '.join('%s=%s' % (n, 'Public' if p is CheckerPublic else
                                   self.describe(p))
                        for n, p in sorted(t.items(), key=lambda i: str(i)
                                           .replace(' at 0x', '')
                                           if not isinstance(i[0], str)
                                           else i[0]))

    def describe_exc(self, e):
        name = type(e).__name__
        if isinstance(e, (Forbidden, Unauthorized)):
            # Forbidden carries name and object; Unauthorized object, name
            # and permission
            return '%s(%s)' % (name, ', '.join(
                self.describe(a, 2) for a in e.args))
        if isinstance(e, (Boom, Denied)):
            return '%s(%s)' % (name, ', '.join(map(str, e.args)))
        if isinstance(e, StopIteration):
            return '%s(%s)' % (name, self.describe(e.value))
        return name

    # -- making things -------------------------------------------------------------

    def fresh_of(self, kind):
        self.n += 1
        if kind == 'list':
            return [self.n, 'x']
        if kind == 'tuple':
            return (self.n, [1])
        if kind == 'dict':
            return {'a': [self.n], 1: 'b'}
        if kind == 'iter':
            return iter([self.n, [self.n]])
        if kind == 'object':
            return self.new_thing()
        if kind == 'generator':
            return (i for i in [self.n, [self.n]])
        return self.n

    def new_class(self):
        rng = self.rng
        share = rng.choice([.2, .5, .9, 1])
        d = {n: f for n, f in METHODS.items() if rng.random() < share
             and (n != '__getattr__' or rng.random() < .2)}
        if '__eq__' in d and '__hash__' not in d:
            d['__hash__'] = METHODS['__hash__']
        label = 'K%d' % len(self.classes)
        r = rng.random()
        if r < .15 and 'simple' not in self.options:
            d['__Security_checker__'] = self.new_checker()
        cls = type(label, (Thing,), d)
        if rng.random() < .2:
            zope.interface.classImplements(cls, rng.choice([I1, I2]))
        self.classes.append(cls)
        self.name(cls, 'class ' + label)
        if .15 <= r < .7:
            self.define(cls)
        return cls

    def new_factory(self, depth=0):
        """What gives the checker of an object, or the next of its kind."""
        rng = self.rng
        r = rng.random()
        kind = 'plain'
        if r < .5:
            inner = self.new_checker(plain=True)
        elif r < .6:
            inner = NoProxy
        elif r < .7:
            inner = None
        elif r < .9 and depth < 3:
            inner = self.new_factory(depth + 1)
        else:
            inner = None
            kind = rng.choice(['raise', 'wrong'])

        def c(obj):
            self.say('  factory%d(%s)' % (depth, self.describe(obj)))
            if kind == 'raise':
                raise Boom('factory')
            if kind == 'wrong':
                return 5
            return inner
        if rng.random() < .4:
            how = c
            bases = (object,) if rng.random() < .7 else (dict,)
            c = odd_class(rng, type('Factory', bases, {
                '__call__': lambda self, obj: how(obj)}))()
        return c

    def define(self, cls):
        rng = self.rng
        r = rng.random()
        if r < .6:
            c = self.new_checker(plain=True)
        elif r < .9:
            c = self.new_factory()
        else:
            c = NoProxy
        if cls not in self.defined:
            Z.defineChecker(cls, c)
            self.defined.append(cls)

    def new_plan(self):
        rng = self.rng
        plan = {}
        for n in DUNDERS + ['m', 'prop']:
            if n in ('__str__', '__repr__'):
                plan[n] = ('value', FIXED[n])
                continue
            r = rng.random()
            if r < .08:
                plan[n] = ('raise', rng.choice(
                    [Boom, Boom, KeyError, TypeError, ValueError,
                     ZeroDivisionError]))
            elif n in FIXED:
                plan[n] = ('value', FIXED[n])
            elif n.strip('_') in COMPARE:
                plan[n] = ('value', rng.choice(
                    [True, False, NotImplemented, NotImplemented]))
            elif r < .25 and n.strip('_').lstrip('ri') in BINARY:
                plan[n] = ('value', NotImplemented)
            elif r < .35:
                plan[n] = ('self', None)
            elif r < .45:
                plan[n] = ('first', None)
            elif n == '__contains__':
                plan[n] = ('value', rng.random() < .5)
            elif n == '__iter__':
                plan[n] = ('fresh', rng.choice(['iter', 'generator']))
            elif r < .85:
                plan[n] = ('fresh', rng.choice(
                    ['list', 'tuple', 'dict', 'iter', 'object', 'int',
                     'generator']))
            elif self.things:
                plan[n] = ('value', rng.choice(self.things))
        for n in ('set a', 'set b', 'del a'):
            if rng.random() < .1:
                plan[n] = ('raise', Boom)
        return plan

    def new_thing(self):
        rng = self.rng
        cls = rng.choice(self.classes) if self.classes and rng.random() < .8 \
            else self.new_class()
        self.n += 1
        label = 'o%d' % self.n
        plan = self.new_plan()
        o = cls(self, label, plan)
        o.__dict__['a'] = [1, 'a']
        o.__dict__['b'] = rng.choice([5, 'b', None, (1, [2])])
        if rng.random() < .1:
            # names of special methods that only the instance has
            # (not __next__, for which zope.proxy's Python implementation
            # asks the instance)
            for n in rng.sample(['__iter__', '__getitem__', '__len__',
                                 '__call__'], 2):
                o.__dict__[n] = rng.choice([1, function])
        self.things.append(self.name(o, label))
        return o

    def new_value(self):
        rng = self.rng
        k = rng.randrange(30)
        pick = lambda: rng.choice(self.things) if self.things else 1  # noqa
        if k < 6:
            return self.new_thing()
        self.n += 1
        v = [
            lambda: [1, 'x', pick()], lambda: (1, pick(), [2]),
            lambda: {'a': pick(), 1: [3], 'b': 2}, lambda: {1, 2, 3},
            lambda: frozenset([1, 2]), lambda: 'text', lambda: 3,
            lambda: iter([1, [2], pick()]),
            lambda: (x for x in [1, pick()]), lambda: {'k': [1]}.items(),
            lambda: len, lambda: [1].append,
            lambda: collections.OrderedDict([('a', [1]), ('b', 2)]),
            lambda: collections.deque([1, [2]]),
            lambda: datetime.date(2020, 1, 2), lambda: bytearray(b'xyz'),
            lambda: type('Klass', (), {'a': [1], 'm': lambda self: [2]}),
            lambda: types.ModuleType('mod'), lambda: function(),
            lambda: Sample().method, lambda: decimal.Decimal('1.5'),
            lambda: memoryview(b'abc'), lambda: 1.5 + 2j,
            lambda: Ellipsis,
        ][k - 6]()
        if type(v) not in (str, int, datetime.date, type(len)):
            self.things.append(self.name(v, 'v%d:%s' % (
                self.n, type(v).__name__)))
        return v

    def names(self):
        rng = self.rng
        n = rng.random()
        if n < .3:
            pool = ATTRS
        elif n < .5:
            pool = ['__call__', '__getitem__', '__iter__', '__len__',
                    '__next__', '__setitem__', '__contains__', '__int__',
                    '__str__', '__repr__', '__add__', '__radd__'] + ATTRS
        else:
            pool = DUNDERS + ATTRS + [
                'append', 'pop', 'keys', 'items', 'get', 'copy', 'missing',
                'extend', '__3pow__', '__rpow__', '__doc__', '__slots__',
                '__module__']
        return [x for x in pool if rng.random() < .7 and not (
            self.quiet and x in ('__repr__', '__str__'))]

    def new_checker(self, plain=False):
        rng = self.rng
        self.n += 1
        r = rng.random()
        style = rng.random()

        def table():
            if style < .3:
                return {n: CheckerPublic for n in self.names()}
            if style < .4:
                return {}
            return {n: rng.choice(PERMS) for n in self.names()}
        if r < .65 or plain:
            if rng.random() < .8:
                c = Z.Checker(table(), table())
            else:
                c = odd_checker(rng, table(), table())
            if not plain or rng.random() < .5:
                self.name(c, 'c%d' % self.n)
        elif r < .72:
            c = Z.NamesChecker([n for n in self.names()],
                               rng.choice(['p1', 'p2', CheckerPublic]))
        elif r < .85:
            c = Z.CombinedChecker(Z.Checker(table(), table()),
                                  Z.Checker(table(), table()))
            self.name(c, 'cc%d' % self.n)
        else:
            c = LoggingChecker(self, 'lc%d' % self.n, table(), table())
            self.name(c, c.label)
        return c

    def close(self):
        for cls in self.defined:
            Z.undefineChecker(cls)
        self.defined = []
        M.endInteraction()
        M.endInteraction()

    # -- the interaction -------------------------------------------------------------

    def checkPermission(self, permission, obj):
        if self.asked is not None:
            self.say('  ask %s of %s' % (self.describe(permission),
                                         self.describe(obj)))
            self.asked += 1
        a = self.by_object.get((permission, id(obj)))
        if a is None:
            a = self.answers.get(permission, False)
        if a == 'raise':
            raise Denied('interaction')
        return a

    participations = ()


class LoggingChecker:
    """A checker in Python, with decisions of its own."""

    def __init__(self, world, label, reads, writes):
        self.world = world
        self.label = label
        self.reads = reads
        self.writes = writes

    def _decide(self, what, table, obj, name):
        if name == '__class__' or self.world.quiet and name in (
                '__repr__', '__str__'):
            # (isinstance() and others ask for it as often as they like)
            return
        self.world.say('  %s.%s(%s, %s)' % (
            self.label, what, self.world.describe(obj), name))
        p = table.get(name)
        if p is None:
            if name in ALWAYS_READABLE and what != 'check_setattr':
                return
            raise ForbiddenAttribute(name, obj)
        if p == 'p3':
            raise Denied(name)
        if p == 'p2':
            raise Unauthorized(obj, name, p)

    def check(self, obj, name):
        self._decide('check', self.reads, obj, name)

    def check_getattr(self, obj, name):
        # (one word for both: which of them is asked for an attribute is not
        # laid down)
        self._decide('check', self.reads, obj, name)

    def check_setattr(self, obj, name):
        self._decide('check_setattr', self.writes, obj, name)

    def proxy(self, value):
        if is_proxy(value):
            return value
        if type(value) in (int, str, float, bool, type(None), type(len)):
            return value
        return Proxy(value, self)


def digest(text):
    return hashlib.blake2b(text.encode('utf-8', 'replace'),
                           digest_size=5).hexdigest()


# -- the agent ------------------------------------------------------------------

def _setitem(p, k, v):
    p[k] = v


def _delitem(p, k):
    del p[k]


# Names that the Python implementation uses itself, and the special methods
# that its proxies have, if their objects have them or not.
RESERVED = ('_wrapped', '_checker')
# Names which the Python implementation does not ask about, since it does not
# for comparisons; a checker may well refuse them in the other.
UNCHECKED = {'__%s__' % n for n in COMPARE} | {
    '__hash__', '__bool__', '__cmp__'}
SPECIAL = set(dir(PX.ProxyPy)) - {'__doc__', '__slots__', '__module__'}
ISLICE = lambda p: list(itertools.islice(p, 5))  # noqa

SIMPLE = [
    ('len', len), ('iter', iter), ('hash', lambda p: hash(p) == hash(getObject(p))), ('bool', bool),
    ('int', int), ('float', float), ('index', operator.index), ('str', str),
    ('repr', repr), ('islice', ISLICE), ('list', ISLICE),
    ('format', lambda p: '%s %r' % (p, p)), ('callable', callable),
    ('call', lambda p: p()), ('class', lambda p: p.__class__),
    ('type', lambda p: issubclass(type(p), Proxy)),
    ('round', round), ('reversed', lambda p: ISLICE(reversed(p))),
    ('slice', lambda p: p[1:3]), ('slice2', lambda p: p[::2]),
    ('slice3', lambda p: p[-2:]),
    ('delslice', lambda p: _delitem(p, slice(0, 1))),
    ('isinstance', lambda p: PX.isinstance(p, Thing)),
    ('isinstance2', lambda p: isinstance(p, Thing)),
    ('isinstance3', lambda p: PX.isinstance(p, (list, dict))),
    ('dict', lambda p: dict(p)), ('tuple', lambda p: tuple(ISLICE(p))),
    ('min', lambda p: min(ISLICE(p))), ('fstring', lambda p: f'{p!s}'),
] + [(n, f) for n, f in UNARY.items()]
BIN = ([(n, f) for n, f in BINARY.items()]
       + [('i' + n, f) for n, f in INPLACE.items()]
       + [(n, f) for n, f in COMPARE.items()]
       + [('getitem', operator.getitem), ('delitem', _delitem),
          ('contains', operator.contains),
          ('call1', lambda p, a: p(a)),
          ('callkw', lambda p, a: p(a, x=a)),
          ('setslice', lambda p, a: _setitem(p, slice(0, 1), a))])


GROW = (list, collections.deque, bytearray)
BASIC = (int, float, str, bytes, bool, list, tuple, dict, set, frozenset,
         datetime.date, slice, type(None))


def layered(value):
    """A proxy of something that is a proxy of some kind, too."""
    return is_proxy(value) and issubclass(
        type(getObject(value)), (Proxy, zope.proxy.ProxyBase))


class Agent:
    """Runs a random program and writes down what comes of it."""

    def __init__(self, ctx, rng, options=()):
        self.ctx = ctx
        self.rng = rng
        self.world = w = World(rng, options)
        self.options = w.options
        self.steps = 0
        self.stopped = False
        self.proxies = []
        self.values = [1, 2, 0, -1, 'x', 2.5, None, 'a', slice(0, 2)]
        for i in range(rng.randrange(2, 6)):
            self.wrap(w.new_value())

    def wrap(self, value):
        w, rng = self.world, self.rng
        if is_proxy(value):
            self.add(value)
            return
        if rng.random() < .35:
            p = self.do('make', ProxyFactory, value)
        else:
            p = Proxy(value, w.new_checker())
        if p is not None:
            self.add(p)

    def add(self, value):
        """Keep a value for later operations."""
        raw = getObject(value) if is_proxy(value) else value
        t = type(raw)
        if t is int and abs(raw) > 4 or t is float and abs(raw) > 1e9:
            return
        if t in (str, bytes, bytearray, list, tuple, collections.deque) \
                and len(raw) > 40:
            return
        if issubclass(t, str) and ADDRESS.search(raw):
            return
        if issubclass(t, BaseException) or (
                issubclass(t, type) and raw.__name__ != 'Klass'):
            return
        if layered(value) or t.__name__ in ('Implements', 'Provides'):
            # (these two differ by themselves)
            return
        if is_proxy(value):
            self.proxies.append(value)
            if len(self.proxies) > 14:
                self.proxies.pop(self.rng.randrange(14))
        elif t in BASIC:
            self.values.append(value)
            if len(self.values) > 16:
                self.values.pop(self.rng.randrange(16))

    def any(self):
        if self.rng.random() < .3 and self.proxies:
            return self.rng.choice(self.proxies)
        return self.rng.choice(self.values)

    def operand(self, p):
        """Something to use with p: no list is extended by itself or by an
        iterator, which may be one of its own, for that never ends."""
        a = self.any()
        if type(getObject(p)) in GROW + (type(len),):
            while is_proxy(a) and (type(getObject(a)) in GROW or hasattr(
                    type(getObject(a)), '__next__')):
                a = self.rng.choice(self.values)
        return a

    def attr_name(self):
        while True:
            n = self._attr_name()
            if n not in RESERVED:
                return n

    def readable(self, p):
        """A name, but no special one that only the proxy has."""
        n = self.attr_name()
        raw = getObject(p)
        while n in UNCHECKED or n in SPECIAL and not any(
                n in vars(k) for k in type(raw).__mro__):
            n = self.attr_name()
        return n

    def settable(self, p):
        """A name, but no special one: Python looks these up in the class,
        the Python proxy does in the object."""
        n = self.attr_name()
        t = type(getObject(p))
        while n in SPECIAL or not issubclass(t, Thing) and hasattr(t, n):
            n = self.attr_name()
        return n

    def _attr_name(self):
        rng = self.rng
        r = rng.random()
        if r < .5:
            return rng.choice(ATTRS)
        if r < .7:
            return rng.choice(['append', 'items', 'keys', 'get', 'copy',
                               'pop', 'missing', 'a', 'm', 'values', 'index',
                               'popleft', 'count', '__class__', '__name__',
                               '__parent__', '__providedBy__', '__doc__',
                               '__slots__', '__module__'])
        if r < .85:
            return rng.choice(DUNDERS)
        return random_name(rng)

    def do(self, name, func, *args):
        """One step."""
        start = len(self.world.lines)
        r = self._do(name, func, *args)
        if any(map(layered, args)):
            # Several layers, and each may ask twice: see once().
            lines, seen = self.world.lines, set()
            rest = lines[start:]
            del lines[start:]
            for x in rest:
                if not QUESTION.match(x) or x not in seen:
                    lines.append(x)
                seen.add(x)
        return r

    def _do(self, name, func, *args):
        w = self.world
        w.say('%d %s(%s)' % (self.steps, name, ', '.join(
            w.describe(a) for a in args)))
        try:
            r = func(*args)
        except RecursionError:
            # How deep is too deep is not the same everywhere.
            self.stopped = True
            return None
        except Exception as e:
            text = w.describe_exc(e)
            if isinstance(e, AttributeError) and any(map(layered, args)):
                # The Python proxy puts an AttributeError of its own in the
                # place of one that the object raises.
                text = 'AttributeError'
            w.say('= raise ' + text)
            self.ctx.count('outcome_' + (
                type(e).__name__ if isinstance(e, (Forbidden, Unauthorized))
                else 'other'))
            return None
        w.say('= ' + w.describe(r))
        self.ctx.count('outcome_ok')
        self.trim()
        return r

    def trim(self):
        for x in self.world.keep:
            if type(x) in (list, bytearray) and len(x) > 40:
                del x[20:]
            elif type(x) is collections.deque:
                while len(x) > 40:
                    x.pop()

    def step(self):
        start = len(self.world.lines)
        try:
            self._step()
        finally:
            self.once(start)

    def once(self, start):
        """Python asks for an attribute twice if the first time ends with an
        AttributeError: what is asked twice in a row is written down once."""
        lines = self.world.lines
        i = start
        while i < len(lines):
            for n in range(1, 8):
                block = lines[i:i + n]
                if not all(QUESTION.match(x) for x in block):
                    break
                while len(block) == n and lines[i + n:i + 2 * n] == block:
                    del lines[i + n:i + 2 * n]
            i += 1

    def _step(self):
        rng, w = self.rng, self.world
        self.steps += 1
        self.ctx.count('steps')
        while not self.proxies:
            self.wrap(w.new_value())
        p = rng.choice(self.proxies)
        r = rng.random()
        if r < .2:
            name, f = rng.choice(SIMPLE)
            x = self.do(name, f, p)
        elif r < .25 and self.is_iterator(p):
            x = self.do('next', next, p)
        elif r < .5:
            name, f = rng.choice(BIN)
            a = self.operand(p)
            if rng.random() < .3 and not (
                    is_proxy(a) and self.is_iterator(p)):
                x = self.do(name, f, a, p)
            else:
                x = self.do(name, f, p, a)
        elif r < .55:
            x = self.do('setitem', _setitem, p, self.any(), self.any())
        elif r < .7:
            x = self.do('getattr', getattr, p, self.readable(p))
        elif r < .76:
            x = self.do('setattr', setattr, p, self.settable(p), self.any())
        elif r < .79:
            x = self.do('delattr', delattr, p, self.settable(p))
        elif r < .84:
            n = rng.choice(['m', 'append', 'get', 'pop', 'items', 'copy',
                            'keys', 'index', 'extend', 'values'])
            args = [self.operand(p) for i in range(rng.choice([0, 0, 1, 1, 2]))]
            x = self.do('method ' + n, lambda p, *a: getattr(p, n)(*a), p,
                        *args)
        elif r < .94:
            x = self.trusted(p)
        else:
            self.change()
            return
        if x is not None and rng.random() < .8:
            self.add(x)
        x = None

    def is_iterator(self, p):
        return hasattr(type(getObject(p)), '__next__') and not layered(p)

    def trusted(self, p):
        """The functions meant for trusted code."""
        rng, w = self.rng, self.world
        raw, c = getObject(p), getChecker(p)
        n = self.attr_name()
        k = rng.randrange(17)
        if k == 0:
            return self.do('ProxyFactory', ProxyFactory, raw)
        if k == 1:
            return self.do('ProxyFactory2', ProxyFactory, p, rng.choice(
                [c, w.new_checker()]))
        if k == 2:
            return self.do('canAccess', Z.canAccess, rng.choice([p, raw]), n)
        if k == 3:
            return self.do('canWrite', Z.canWrite, rng.choice([p, raw]), n)
        if k == 4:
            self.do('selectChecker', Z.selectChecker, raw)
        elif k == 5:
            return self.do('proxy', c.proxy, rng.choice([raw, p, [1], 5]))
        elif k == 6:
            self.do('check', c.check, raw, n)
        elif k == 7:
            self.do('check_getattr', c.check_getattr, raw, n)
        elif k == 8:
            self.do('check_setattr', c.check_setattr, raw, n)
        elif k == 9 and has_tables(c):
            self.do('permission_id', c.permission_id, n)
            self.do('setattr_permission_id', c.setattr_permission_id, n)
        elif k == 10:
            self.do('checkPermission', M.checkPermission, rng.choice(
                ['p1', 'p2', 'zope.Public', CheckerPublic, None]), raw)
        elif k == 11:
            def factory(*args):
                w.say('  adapt(%s)' % ', '.join(map(w.describe, args)))
                return w.name(Adapted(), 'adapted')
            kind = rng.choice([ZA.TrustedAdapterFactory,
                               ZA.LocatingTrustedAdapterFactory,
                               ZA.LocatingUntrustedAdapterFactory])
            return self.do(kind.__name__, kind(factory), rng.choice([p, raw]),
                           self.any())
        elif k == 12:
            # what the parts of it decide
            ds = rng.choice([ZD.DecoratorBase,
                             zope.location.location.LocationProxy])
            d = ds(rng.choice([p, raw]))
            w.name(d, 'decorator')
            d = self.do('decorate', ProxyFactory, d)
            if not n.startswith('__') and not hasattr(
                    zope.proxy.PyProxyBase, n):
                self.do('getattr', getattr, d, n)
                if isinstance(raw, Thing) or not hasattr(type(raw), n):
                    self.do('setattr', setattr, d, n, 1)
            self.do('call', lambda d: d(), d)
            return None
        elif k == 13 and w.classes:
            cls = rng.choice(w.classes)
            if rng.random() < .5 and cls in w.defined and not has_tables(
                    Z.getCheckerForInstancesOf(cls)):
                return None
            perm = rng.choice(['p1', 'p2', 'zope.Public'])
            f = rng.choice([ZP.protectName, ZP.protectSetAttribute])
            if cls not in w.defined:
                w.defined.append(cls)
            was = Z.getCheckerForInstancesOf(cls)
            if was is None or has_tables(was):
                self.do(f.__name__, f, cls, n, perm)
            elif was is None:
                w.defined.remove(cls)
        elif k == 14 and w.classes:
            self.do('getCheckerForInstancesOf', Z.getCheckerForInstancesOf,
                    rng.choice(w.classes))
        elif k == 15:
            kind = rng.randrange(3)
            perm = rng.choice(['p1', CheckerPublic])
            if kind == 0:
                self.do('NamesChecker', lambda: Z.NamesChecker(
                    ['a', 'b'], perm, m='p2'))
            elif kind == 1:
                self.do('InterfaceChecker', lambda: Z.InterfaceChecker(
                    I2, perm, {'z': 'p3'}, y='p1'))
            else:
                self.do('MultiChecker', lambda: Z.MultiChecker(
                    [(I1, perm), (['a', 'y'], rng.choice(['p1', 'p2']))],
                    {'q': 'p3'}))
        elif k == 16:
            return self.do('Proxy', Proxy, rng.choice([raw, p]),
                           w.new_checker())
        return None

    def change(self):
        """Something else happens."""
        rng, w = self.rng, self.world
        k = rng.randrange(7)
        if k == 0:
            w.answers[rng.choice(['p1', 'p2', 'p3'])] = rng.choice(
                [True, False, True, False, 'raise', [], [1], None])
        elif k == 1 and self.proxies:
            raw = getObject(rng.choice(self.proxies))
            w.name(raw, w.labels.get(id(raw), 'x%d' % w.n))
            w.by_object[rng.choice(['p1', 'p2']), id(raw)] = rng.choice(
                [True, False])
        elif k == 2 and self.proxies:
            c = getChecker(rng.choice(self.proxies))
            if has_tables(c) and id(c) in w.labels:
                t = rng.choice([c.get_permissions, c.set_permissions])
                n = self.attr_name()
                if w.quiet and n in ('__repr__', '__str__'):
                    pass
                elif isinstance(n, str) and rng.random() < .7:
                    t[n] = rng.choice(PERMS)
                elif n in t:
                    del t[n]
        elif k == 3:
            self.wrap(w.new_value())
        elif k == 4 and w.classes:
            cls = rng.choice(w.classes)
            if cls in w.defined:
                Z.undefineChecker(cls)
                w.defined.remove(cls)
            else:
                w.define(cls)
        elif k == 5 and w.classes:
            self.wrap(w.new_thing())
        elif k == 6 and 'interactions' in self.options:
            if M.queryInteraction() is None:
                set_interaction(w)
            elif rng.random() < .3:
                M.endInteraction()

    def run(self, steps):
        set_interaction(self.world)
        try:
            for i in range(steps):
                self.step()
                if self.stopped:
                    self.world.lines.append('STOPPED')
                    break
        finally:
            self.world.close()
        return self.world.lines


def has_tables(c):
    """Some Checker, of whichever class that is at the moment."""
    return hasattr(type(c), 'permission_id')


class Adapted:
    """What an adapter factory makes."""


# zope.interface notes what it finds on the classes: not in one program to be
# seen in the next.
for _cls in (Thing, Sample, Adapted, Boom, Denied, LoggingChecker, World):
    zope.interface.implementedBy(_cls)
