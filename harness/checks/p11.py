"""P11: granted operations work as on the bare object."""
import bisect
import collections
import copy
import datetime
import decimal
import fractions
import functools
import heapq
import itertools
import operator
import random
import re
import types

from common import *  # noqa


# -- checkers that permit everything ---------------------------------------------

class AllChecker:
    """Permits everything, and so do the proxies of results."""

    def check(self, object, name):
        pass

    check_getattr = check_setattr = check

    def proxy(self, value):
        if is_proxy(value) or bare(value):
            return value
        return Proxy(value, self)


class FastAllChecker(AllChecker):
    """With the aliases that the C implementation prefers."""

    __setitem__ = AllChecker.check
    __getitem__ = AllChecker.proxy


BARE = {int, float, complex, str, bytes, bool, type(None)}


def bare(value):
    # Classes are bare, so that the builtin isinstance works.
    return type(value) in BARE or isinstance(value, type)


class NameSource:
    """Grants by real tables: every name there is."""

    def __init__(self):
        self.names = {'missing', 'x', 'y', 'z', 'attr', '_private',
                      '__len__', '__3pow__', '__rpow__', '__setitem__'}
        for t in TYPES:
            self.names.update(dir(t))
        for n in BINARY:
            self.names.update(['__%s__' % n, '__r%s__' % n, '__i%s__' % n])
        for n in UNARY:
            self.names.add('__%s__' % n)
        for n in ('int', 'float', 'index', 'complex', 'str', 'repr', 'iter',
                  'next', 'getitem', 'setitem', 'delitem', 'contains',
                  'call', 'bool', 'hash', 'len', 'dict', 'class'):
            self.names.add('__%s__' % n)


TYPES = [int, float, complex, str, bytes, bytearray, list, tuple, dict, set,
         frozenset, range, slice, collections.deque,
         collections.OrderedDict, collections.defaultdict,
         collections.Counter, collections.UserDict, collections.UserList,
         collections.UserString, decimal.Decimal, fractions.Fraction,
         datetime.datetime, datetime.timedelta, datetime.date,
         types.GeneratorType, type(iter([])), type({}.items()),
         types.SimpleNamespace, memoryview]


def table_checker():
    table = {n: CheckerPublic for n in NAMES.names}

    class Sub(Z.Checker):
        """Results are granted everything, too."""

        def proxy(self, value):
            if is_proxy(value) or bare(value):
                return value
            return Proxy(value, self)
        __getitem__ = proxy
    return Sub(table, dict(table))


NAMES = NameSource()


# -- a class with every operator ---------------------------------------------------

class Rec:
    """Says what is done to it, and behaves as planned."""

    def __init__(self, world, plan):
        d = self.__dict__
        d['_world'], d['_plan'] = world, plan
        d['count'] = 0

    def __setattr__(self, name, value):
        self._world.log.append(('setattr', name, self._world.mark(value)))
        plan = self._plan.get('setattr')
        if plan is not None:
            raise plan
        self.__dict__[name] = value

    def __delattr__(self, name):
        self._world.log.append(('delattr', name))
        plan = self._plan.get('setattr')
        if plan is not None:
            raise plan
        if name not in self.__dict__:
            raise AttributeError(name)
        del self.__dict__[name]

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        self._world.log.append(('getattr', name))
        if name == 'broken':
            raise KeyError(name)
        raise AttributeError(name)

    def method(self, *args, **kw):
        world = self._world
        world.log.append(('method', [world.mark(a) for a in args],
                          {k: world.mark(v) for k, v in kw.items()}))
        self.__dict__['count'] += 1
        return self._plan.get('method', (args, kw))

    def gen(self, n=3):
        for i in range(n):
            got = yield i
            self._world.log.append(('sent', self._world.mark(got)))

    @property
    def prop(self):
        self._world.log.append(('prop',))
        if 'prop' in self._plan:
            raise self._plan['prop']
        return [self.count]


def rec_method(name):
    def method(self, *args):
        world = self._world
        world.log.append((name, [world.mark(a) for a in args]))
        self.__dict__['count'] += 1
        what = self._plan.get(name, 'new')
        if name in ('__next__', '__getitem__') and self.count > 30:
            raise StopIteration if name == '__next__' else IndexError
        if isinstance(what, BaseException):
            raise what
        if what == 'self':
            return self
        if what == 'other':
            return args[0] if args else self
        if what == 'notimpl':
            return NotImplemented
        if what == 'new':
            return [name, len(args)]
        return what
    method.__name__ = name
    return method


FIXED = {'__len__': 3, '__contains__': True, '__int__': 5, '__float__': 2.5,
         '__index__': 1, '__str__': 'rec-str', '__repr__': 'rec-repr',
         '__bool__': False, '__hash__': 99, '__setitem__': None,
         '__delitem__': None, '__complex__': 3j, '__lt__': True,
         '__eq__': False}
ALL = (['__getitem__', '__iter__', '__next__', '__call__'] + list(FIXED)
       + ['__%s__' % n for n in UNARY]
       + ['__%s__' % n for n in BINARY] + ['__r%s__' % n for n in BINARY]
       + ['__i%s__' % n for n in INPLACE])


def rec_class(names):
    ns = {n: rec_method(n) for n in names}
    if '__eq__' in ns:
        ns.setdefault('__hash__', rec_method('__hash__'))
    return type('RecX', (Rec,), ns)


def random_plan(rng, names):
    plan = {}
    for n in sorted(names):
        if n in FIXED:
            plan[n] = FIXED[n]
            if rng.random() < .1:
                plan[n] = rng.choice([
                    ValueError('p'), TypeError('p'), KeyError('p'),
                    ZeroDivisionError('p'), AttributeError('p'), 'text', -1])
                if n == '__bool__':
                    plan[n] = True
                if n == '__hash__':
                    plan[n] = 7
            continue
        if n == '__iter__':
            plan[n] = 'self' if '__next__' in names else iter(())
            continue
        plan[n] = rng.choice(['new', 'new', 'self', 'other', 'notimpl', 1,
                              ValueError('p'), TypeError('p'),
                              AttributeError('p'), IndexError('p'),
                              KeyError('p'), ArithmeticError('p')])
        if n == '__next__':
            plan[n] = rng.choice(['new', 1, 'self', StopIteration(),
                                  ValueError('p')])
    if rng.random() < .1:
        plan['setattr'] = rng.choice([TypeError('s'), AttributeError('s')])
    if rng.random() < .2:
        plan['prop'] = rng.choice([ValueError('s'), AttributeError('s')])
    return plan


class World:
    """A set of objects; two of the same seed are alike."""

    def __init__(self, seed):
        rng = random.Random(seed)
        self.log = []
        self.index = {}
        self.objects = []
        for i in range(4):
            names = [n for n in ALL if rng.random() < .75]
            cls = rec_class(names)
            self.add(cls(self, random_plan(rng, names)))
        for i in range(6):
            self.add(builtin_value(rng))
        checker = Z.Checker(
            {n: CheckerPublic for n in NAMES.names}, {})
        self.args = [
            0, 1, 2, -1, 3, 2.5, 'x', 'attr', None, True, 1j, b'ab',
            slice(0, 2), slice(None, None, -1), slice(1), (1, 2), [1, 2],
            {'x': 1}, frozenset([1]), {1, 2}, 'k0', 'k1', 10 ** 30,
            fractions.Fraction(1, 3), NotImplemented, Ellipsis, int,
            Sentinel(),
            Proxy(3, checker), Proxy([1, 2], checker), Proxy('x', checker),
            Proxy(2.5, checker), Proxy(fractions.Fraction(1, 2), checker)]
        for a in self.args:
            if isinstance(a, Sentinel) or is_proxy(a):
                self.add(a, False)
        for o in self.objects[:3]:
            self.args.append(Proxy(o, checker))
        self.args.extend(self.objects)

    def add(self, obj, target=True):
        self.index.setdefault(id(obj), len(self.index))
        if target:
            self.objects.append(obj)

    def mark(self, value):
        """What value is, exactly: for arguments."""
        if is_proxy(value):
            return ('proxy', self.mark(getObject(value)))
        if id(value) in self.index:
            return ('object', self.index[id(value)])
        return self.canon(value)

    def canon(self, value, depth=0):
        """What value is, but for proxies."""
        while is_proxy(value):
            value = getObject(value)
        if isinstance(value, Rec):
            return ('rec', self.index.get(id(value)))
        if depth > 6:
            return '...'
        t = type(value)
        if t in (collections.UserList, collections.UserDict):
            # whose data may have become anything
            return (t.__name__, self.canon(
                value.__dict__.get('data'), depth + 1))
        if t in (list, tuple, collections.deque):
            return (t.__name__, [self.canon(v, depth + 1)
                                 for v in list(value)])
        if t in (set, frozenset):
            return (t.__name__, sorted(
                repr(self.canon(v, depth + 1)) for v in value))
        if issubclass(t, dict):
            return (t.__name__, [(self.canon(k, depth + 1),
                                  self.canon(v, depth + 1))
                                 for k, v in list(value.items())])
        if t in (int, float, complex, str, bytes, bool, type(None),
                 bytearray, range, fractions.Fraction,
                 decimal.Decimal, datetime.datetime, datetime.date,
                 datetime.timedelta, collections.UserString):
            return (t.__name__, ADDRESS.sub('0x', repr(value)))
        if t is types.SimpleNamespace:
            return ('ns', self.canon(value.__dict__, depth + 1))
        if t is slice:
            return ('slice', [self.canon(v, depth + 1) for v in (
                value.start, value.stop, value.step)])
        if t in VIEWS:
            return (t.__name__, [self.canon(v, depth + 1)
                                 for v in list(value)])
        if isinstance(value, (types.MethodType, types.BuiltinMethodType)):
            return (t.__name__, value.__name__,
                    self.canon(value.__self__, depth + 1)
                    if value.__self__ is not None else None)
        if isinstance(value, type):
            return ('type', value.__name__)
        if isinstance(value, BaseException):
            return ('exception', t.__name__)
        return ('a', t.__name__)

    def state(self):
        return [self.canon(o.__dict__ if isinstance(o, Rec) and 0 else o)
                if not isinstance(o, Rec) else
                [(k, self.canon(v)) for k, v in sorted(o.__dict__.items())
                 if k not in ('_world', '_plan')]
                for o in self.objects]


ADDRESS = re.compile('0x[0-9a-f]+')
VIEWS = {type({}.keys()), type({}.values()), type({}.items())}


class Sentinel:
    pass


def builtin_value(rng):
    def item():
        return rng.choice([0, 1, 2, 'a', 'b', 2.5, None, (1, 'x'), b'q',
                           -7, 10 ** 20])

    def items(n=6):
        return [item() for i in range(rng.randrange(n))]

    def nums():
        return [rng.randrange(9) for i in range(rng.randrange(6))]
    k = rng.randrange(30)
    if k < 4:
        return items()
    if k < 6:
        return tuple(items())
    if k < 9:
        return {'k%d' % i: v for i, v in enumerate(items())}
    if k < 11:
        return set(items())
    if k == 11:
        return frozenset(items())
    if k == 12:
        return rng.choice([0, 1, -5, 7, 10 ** 40, True])
    if k == 13:
        return rng.choice([0.0, 1.5, -2.25, float('inf'), 1e300])
    if k == 14:
        return rng.choice(['', 'abc', '12', 'k0', '%s-%s', '{}'])
    if k == 15:
        return rng.choice([b'', b'abc', b'12'])
    if k == 16:
        return bytearray(b'xyz')
    if k == 17:
        return collections.deque(items(), maxlen=rng.choice([None, 4]))
    if k == 18:
        return collections.OrderedDict(
            ('k%d' % i, v) for i, v in enumerate(items()))
    if k == 19:
        d = collections.defaultdict(list)
        d['k0'] = [1]
        return d
    if k == 20:
        return collections.Counter(nums())
    if k == 21:
        return collections.UserList(items())
    if k == 22:
        return collections.UserDict(
            {'k%d' % i: v for i, v in enumerate(items())})
    if k == 23:
        return decimal.Decimal(rng.choice(['1.5', '-3', '0', '1E+10']))
    if k == 24:
        return fractions.Fraction(rng.randrange(-5, 6), rng.randrange(1, 5))
    if k == 25:
        return rng.choice([datetime.timedelta(3, 5),
                           datetime.datetime(2020, 1, 2, 3),
                           datetime.date(2020, 5, 6)])
    if k == 26:
        return range(rng.randrange(6))
    if k == 27:
        return rng.choice([1j, 2 + 3j])
    if k == 28:
        return types.SimpleNamespace(x=item(), y=item())
    return iter(items(9))


# -- operations -----------------------------------------------------------------

def op_list(x, *a):
    return list(itertools.islice(x, 8))


def op_for(x, *a):
    got = []
    for y in x:
        got.append(y)
        if len(got) > 7:
            break
    return got


def op_iter_type(x, *a):
    return iter(x)


def op_next(x, *a):
    return next(x)


def op_star(x, *a):
    return (lambda *args: args)(*itertools.islice(x, 8))


def op_dstar(x, *a):
    return (lambda **kw: kw)(**x)


def op_unpack(x, *a):
    p, *q = itertools.islice(x, 5)
    return p, q


def op_setitem(x, k, v):
    x[k] = v


def op_delitem(x, k):
    del x[k]


def op_inplace(name):
    f = INPLACE[name]

    def op(x, y):
        r = f(x, y)
        return r
    return op


def build_ops():
    ops = []    # (name, function, number of arguments)
    for n, f in BINARY.items():
        ops.append((n, f, 1))
        ops.append(('r' + n, lambda x, y, f=f: f(y, x), 1))
    for n in INPLACE:
        ops.append(('i' + n, op_inplace(n), 1))
    for n, f in UNARY.items():
        ops.append((n, f, 0))
    for n, f in COMPARE.items():
        ops.append((n, f, 1))
        ops.append(('r' + n, lambda x, y, f=f: f(y, x), 1))
    ops += [
        ('pow3', pow, 2), ('pow3b', lambda x, y, z: pow(y, x, z), 2),
        ('pow3c', lambda x, y, z: pow(y, z, x), 2),
        ('len', len, 0), ('hash', hash, 0),
        ('bool', bool, 0), ('not', operator.not_, 0),
        ('int', int, 0), ('float', float, 0), ('index', operator.index, 0),
        ('str', str, 0), ('repr', repr, 0), ('fstring', '{}'.format, 0),
        ('percent', lambda x: '%s' % (x,), 0),
        ('contains', lambda x, y: y in x, 1),
        ('contains', lambda x, y: y in x, 1),
        ('getitem', operator.getitem, 1), ('getitem', operator.getitem, 1),
        ('getitem', operator.getitem, 1),
        ('setitem', op_setitem, 2), ('setitem', op_setitem, 2),
        ('delitem', op_delitem, 1),
        ('getslice', lambda x, i, j: x[i:j], 2),
        ('setslice', lambda x, v: operator.setitem(x, slice(0, 2), v), 1),
        ('delslice', lambda x: operator.delitem(x, slice(1, 2)), 0),
        ('list', op_list, 0), ('for', op_for, 0), ('iter', op_iter_type, 0),
        ('next', op_next, 0), ('next', op_next, 0), ('star', op_star, 0),
        ('dstar', op_dstar, 0), ('unpack', op_unpack, 0),
        ('range', lambda x: list(range(x))[:3] if not isinstance(
            x, (int, fractions.Fraction)) or x < 100 else 0, 0),
        ('index_list', lambda x: [5, 6, 7][x], 0),
        ('call0', lambda x: x(), 0), ('call1', lambda x, a: x(a), 1),
        ('callkw', lambda x, a: x(a, key=a), 1),
        ('isinstance', lambda x: [isinstance(x, t) for t in (
            int, list, dict, str, set, tuple, Rec, float)], 0),
        ('sorted', lambda x: sorted(itertools.islice(x, 9)), 0),
        ('dict', lambda x: dict(x), 0),
        ('set', lambda x: set(itertools.islice(x, 9)), 0),
        ('class', lambda x: x.__class__, 0),
        ('hex', hex, 0), ('enumerate', lambda x: list(
            enumerate(itertools.islice(x, 9))), 0),
        ('join', lambda x: ','.join(itertools.islice(x, 9)), 0),
        ('copy', lambda x: x.copy(), 0),
    ]
    return ops


OPS = build_ops()
METHODS = {}


def methods_of(t):
    if t not in METHODS:
        METHODS[t] = sorted(n for n in dir(t)
                            if not n.startswith('_') and not
                            isinstance(getattr(t, n, None), type))
    return METHODS[t]


SKIP_NAMES = {'method', 'clear_', 'gi_frame', 'gi_code'}


def random_op(rng, bare):
    """(name, function, argument indexes)"""
    r = rng.random()
    if r < .62:
        name, f, n = rng.choice(OPS)
        return name, f, n
    if r < .68:
        name = rng.choice(['x', 'y', 'attr', 'broken', 'missing', 'count',
                           'prop', 'real', 'imag', 'data', 'maxlen'])
        k = rng.randrange(4)
        if k == 0:
            return 'getattr:' + name, (lambda x: getattr(x, name)), 0
        if k == 1:
            return 'hasattr:' + name, (lambda x: hasattr(x, name)), 0
        if name in ('data', 'count'):
            return 'getattr:' + name, (lambda x: getattr(x, name)), 0
        if k == 2:
            return 'setattr:' + name, (lambda x, v: setattr(x, name, v)), 1
        return 'delattr:' + name, (lambda x: delattr(x, name)), 0
    names = methods_of(type(bare)) if not isinstance(bare, Rec) else [
        'method', 'gen', 'prop', 'method']
    if not names:
        return rng.choice(OPS)
    name = rng.choice(names)
    n = rng.choice([0, 0, 1, 1, 1, 2])

    def call(x, *a):
        m = getattr(x, name)
        return m(*a)
    return 'method:' + name, call, n


def skip(ctx, opname, bare, args):
    """Operations which proxies do not support, or cannot."""
    if opname in REFLECTED:
        # The left operand decides, and sees a proxy as its argument.
        y = removeSecurityProxy(args[0])
        if isinstance(y, (Rec, str, bytes, bytearray,
                          collections.UserString)):
            return True
    if opname in ('pow3b', 'pow3c'):
        # Python classes cannot define these, so only proxies in C support
        # them, and an argument in Python sees a proxy.
        if PURE or any(isinstance(removeSecurityProxy(y), Rec)
                       for y in [bare] + args):
            return True
    if opname == 'index_list' and type(bare) is slice:
        return True
    if opname == 'hash' and type(bare).__hash__ is object.__hash__:
        return True
    if opname in ('set', 'sorted') and isinstance(bare, Rec):
        # goes by identity, and each proxy is another object
        return True
    if opname.split(':')[-1] in ('now', 'utcnow', 'today', 'data'):
        return opname != 'getattr:data'
    return False


REFLECTED = {'r' + n for n in BINARY} | {'r' + n for n in COMPARE}


def sized(x):
    """Guard against results of astronomic size."""
    x = removeSecurityProxy(x)
    if isinstance(x, int):
        return abs(x) < 50
    if isinstance(x, (fractions.Fraction, decimal.Decimal, float)):
        return True
    return True


def unordered(x):
    """Does the order of x go by the addresses of its items?"""
    x = removeSecurityProxy(x)
    return type(x) in (set, frozenset) and not all(
        by_value(removeSecurityProxy(y)) for y in x)


def by_value(y):
    if type(y) in (tuple, frozenset):
        return all(by_value(removeSecurityProxy(z)) for z in y)
    return type(y) in (int, bool, float, complex, str, bytes, type(None),
                       fractions.Fraction, decimal.Decimal)


def twin(ctx, rng):
    seed = rng.random()
    A, B = World(seed), World(seed)
    kind = rng.randrange(3)
    checker = [AllChecker(), FastAllChecker(), CHECKER][kind]
    pairs = []
    for a, b in zip(A.objects, B.objects):
        pairs.append((a, Proxy(b, checker)))
    history = []
    for step in range(rng.randrange(10, 40)):
        i = rng.randrange(len(pairs))
        a, b = pairs[i]
        opname, f, n = random_op(rng, a)
        idx = [rng.randrange(len(A.args)) for j in range(n)]
        argsa = [A.args[j] for j in idx]
        argsb = [B.args[j] for j in idx]
        base = opname.lstrip('ri')
        if base in ('pow', 'pow3', 'pow3b', 'pow3c', 'lshift', 'mul',
                    'ow') or \
                opname.startswith('method:'):
            if not all(sized(x) for x in [a] + argsa):
                continue
        if skip(ctx, opname, a, argsa) or any(
                unordered(x) for x in [a] + argsa):
            continue
        del A.log[:], B.log[:]
        howa, ra = outcome(f, a, *argsa)
        howb, rb = outcome(f, b, *argsb)
        desc = '%s of a %s with %s' % (opname, type(a).__name__, [
            A.mark(x) for x in argsa])
        history.append(desc)
        ctx.count('operations')
        ctx.count(howa)
        ctx.seen((kind, opname, type(a).__name__, howa, [
            type(x).__name__ for x in argsa],
            type(ra).__name__), True)

        def bad(key, msg):
            ctx.fail('%s-%s' % (key, opname.split(':')[0]),
                     '%s: %s' % (desc, msg), history[-6:])
        if opname in ('dict', 'dstar', 'sorted', 'set') and (A.log or B.log):
            return              # Python has shortcuts for real dictionaries
        if ctx.pure and howa == 'raise' and howb == 'ok' and opname in (
                'str', 'repr', 'fstring', 'percent'):
            return              # the Python implementation hides errors here
        if howa != howb:
            bad('outcome', 'bare %s %r, proxied %s %r' % (
                howa, A.canon(ra), howb, B.canon(rb)
                if howb == 'ok' else rb))
            return
        if howa == 'raise':
            if type(ra) is not type(rb) and not (
                    # The Python implementation calls the method by name.
                    ctx.pure and opname == 'next'
                    and type(rb) is AttributeError):
                bad('exception', 'bare %r, proxied %r' % (ra, rb))
                return
        else:
            ca, cb = A.canon(ra), B.canon(rb)
            if ca != cb:
                bad('result', 'bare %r, proxied %r' % (ca, cb))
                return
        if A.log != B.log:
            bad('effects', 'bare %r, proxied %r' % (A.log, B.log))
            return
        ctx.count('effects_compared', len(A.log))
        sa, sb = A.state(), B.state()
        if sa != sb:
            bad('state', 'bare %r, proxied %r' % (
                [x for x, y in zip(sa, sb) if x != y],
                [y for x, y in zip(sa, sb) if x != y]))
            return
        if howa == 'ok' and is_proxy(rb) and not is_proxy(ra) \
                and type(ra) not in BARE and len(pairs) < 30 \
                and type(ra) is type(getObject(rb)) \
                and (type(ra) in TYPES or isinstance(ra, Rec)) and not isinstance(ra, (types.MethodType, type)):
            pairs.append((ra, rb))
        if opname.startswith('i') and howa == 'ok' and ra is a:
            ctx.count('inplace_self')


# -- whole programs -----------------------------------------------------------------

class Vec:
    def __init__(self, *c):
        self.c = list(c)

    def __add__(self, o):
        if not isinstance(o, Vec):
            return NotImplemented
        return Vec(*[a + b for a, b in zip(self, o)])

    def __iadd__(self, o):
        self.c = [a + b for a, b in zip(self.c, o)]
        return self

    def __sub__(self, o):
        return Vec(*[a - b for a, b in zip(self, o)])

    def __mul__(self, k):
        if isinstance(k, Vec):
            return sum(a * b for a, b in zip(self, k))
        return Vec(*[a * k for a in self])

    __rmul__ = __mul__

    def __truediv__(self, k):
        return Vec(*[a / k for a in self])

    def __neg__(self):
        return self * -1

    def __abs__(self):
        return sum(a * a for a in self) ** .5

    def __iter__(self):
        return iter(self.c)

    def __len__(self):
        return len(self.c)

    def __getitem__(self, i):
        return self.c[i]

    def __setitem__(self, i, v):
        self.c[i] = v

    def __contains__(self, x):
        return x in self.c

    def __eq__(self, o):
        return list(self.c) == list(o.c)

    def __hash__(self):
        return hash(tuple(self.c))

    def __lt__(self, o):
        return abs(self) < abs(o)

    def __repr__(self):
        return 'Vec(%s)' % ', '.join(map(repr, self.c))

    def __call__(self, f):
        return Vec(*[f(x) for x in self])

    def __bool__(self):
        return any(self.c)


class Matrix:
    """Rows of vectors; rows may be proxies."""

    def __init__(self, rows):
        self.rows = list(rows)

    def __mul__(self, o):
        if isinstance(o, Vec):
            return Vec(*[row * o for row in self.rows])
        cols = [Vec(*[r[j] for r in o.rows]) for j in range(len(o.rows[0]))]
        return Matrix([Vec(*[row * c for c in cols]) for row in self.rows])

    def __pow__(self, n, mod=None):
        r = self
        for i in range(n - 1):
            r = r * self
        if mod is not None:
            r = Matrix([row(lambda x: x % mod) for row in r.rows])
        return r

    def __getitem__(self, ij):
        if isinstance(ij, tuple):
            i, j = ij
            return self.rows[i][j]
        return self.rows[ij]

    def __len__(self):
        return len(self.rows)

    def __repr__(self):
        return repr([repr(r) for r in self.rows])


class Node:
    def __init__(self, key):
        self.key, self.left, self.right, self.n = key, None, None, 1

    def insert(self, key):
        if key == self.key:
            self.n += 1
        elif key < self.key:
            if self.left is None:
                self.left = Node(key)
            else:
                self.left.insert(key)
        elif self.right is None:
            self.right = Node(key)
        else:
            self.right.insert(key)
        return self

    def __iter__(self):
        if self.left is not None:
            yield from self.left
        for i in range(self.n):
            yield self.key
        if self.right is not None:
            yield from self.right

    def __contains__(self, key):
        node = self
        while node is not None:
            if key == node.key:
                return True
            node = node.left if key < node.key else node.right
        return False

    def __len__(self):
        return sum(1 for x in self)


class Account:
    def __init__(self, n):
        self.balance = n
        self.log = []

    def __ior__(self, entry):
        self.log.append(entry)
        self.balance += entry[1]
        return self

    def __lshift__(self, o):
        self.balance += o.balance
        o.balance = 0
        return self

    def __int__(self):
        return int(self.balance)

    def __index__(self):
        return int(self.balance)

    def __float__(self):
        return float(self.balance)

    def __str__(self):
        return 'Account with %d' % self.balance

    def __divmod__(self, k):
        return divmod(self.balance, k)

    def __rsub__(self, o):
        return o - self.balance

    def __invert__(self):
        return Account(-self.balance)


def prog_vectors(rng, w):
    vs = [w(Vec(*[rng.randrange(-5, 6) for i in range(3)]))
          for i in range(5)]
    acc = vs[0] + vs[1]
    for v in vs[2:]:
        acc = acc - v * 2 + 3 * v
        acc += v
    top = sorted(vs)
    groups = {}
    for v in vs:
        groups.setdefault(v, []).append(abs(v))
    v = vs[1]
    v[0] = 99
    v[1] += 2
    return [repr(acc), [repr(x) for x in top], len(groups), max(vs)[0],
            [bool(x) for x in vs], vs[1] * vs[2], (vs[0] / 2)[1],
            3 in vs[0], list(-vs[2]), vs[3](lambda x: x * x)[2]]


def prog_matrix(rng, w):
    m = w(Matrix([w(Vec(*[rng.randrange(4) for i in range(3)]))
                  for j in range(3)]))
    p = m ** 3
    q = m * p
    return [repr(p), repr(q), m[1, 2], q[0][1], len(p),
            repr(m * w(Vec(1, 2, 3))), repr(pow(m, 2, 5))]


def prog_tree(rng, w):
    keys = [rng.randrange(20) for i in range(12)]
    t = w(Node(keys[0]))
    for k in keys[1:]:
        t.insert(k)
    it = iter(t)
    first = next(it)
    return [list(t), first, next(it), len(t), [k in t for k in range(5)],
            sum(t), max(t), sorted(t, reverse=True)[:3],
            list(zip(t, t.left or [])), [x for x in it][:2]]


def prog_accounts(rng, w):
    a, b = w(Account(5)), w(Account(rng.randrange(100)))
    c = a
    for i in range(4):
        a |= ('in%d' % i, rng.randrange(10))
    d = a << b
    return [a is c, d.balance, b.balance, int(a), float(a), str(a),
            divmod(a, 7), 1000 - a, (~a).balance, list(range(100))[a]
            if int(a) < 100 else None, hex(a), [e[0] for e in a.log],
            len(a.log), d.log[0][1]]


def prog_containers(rng, w):
    data = w({'a': [3, 1, 2], 'b': {'x': (1, 2), 'y': 'text'},
              'c': set(range(rng.randrange(5)))})
    out = []
    for k, v in sorted(data.items()):
        out.append((k, len(v)))
        for x in v:
            out.append(str(x))
    data['a'].append(7)
    data['a'].sort()
    data['b']['z'] = 5
    del data['b']['x']
    out += [data['a'][1:3], data['a'][-1], 'z' in data['b'],
            sorted(data['b']), data['c'] | {99}, {1} & data['c'],
            data['a'] + [4], data['a'] * 2, [0] + data['a'],
            data.get('nope', 3), data['a'].index(7), data['a'] == [1],
            dict(data['b']), list(reversed(data['a']))]
    a = data['a']
    a += [8]
    a *= 2
    c = data['c']
    c |= {55}
    c -= {0}
    out += [a, c, len(data['a']), data['a'] is a or data['a'] == a]
    return out


def prog_numbers(rng, w):
    kinds = [lambda: rng.randrange(1, 30), lambda: rng.random() * 9 + 1,
             lambda: fractions.Fraction(rng.randrange(1, 9), 3)]
    ns = [w(rng.choice(kinds)()) for i in range(6)]
    out = []
    x = ns[0]
    for y in ns[1:]:
        for f in rng.sample([operator.add, operator.sub, operator.mul,
                             operator.truediv], 2):
            x = f(x, y)
        x = -x if rng.random() < .3 else +x
    out += [float(x), repr(sorted(ns)[0]), bool(x), abs(x) > 3,
            sum(ns) == sum(reversed(ns)) or abs(sum(ns)) > 0, int(ns[1]),
            ns[2] // 2, ns[2] % 2, divmod(ns[3], 2), 7 - ns[4], 7 // ns[4],
            2 ** int(ns[1]) > 4, max(ns) == sorted(ns)[-1], hash(ns[0])
            == hash(removeSecurityProxy(ns[0])), str(ns[5]),
            '%s' % ns[5], '{}'.format(ns[0]), ns[1] < ns[2], ns[1] == ns[1]]
    i = w(rng.randrange(1, 9))
    if not PURE:
        out += [pow(3, i, 7), pow(3, 5, i), pow(i, i, i), pow(i, 3, 7)]
    out += [i << 2, 100 >> i, i & 5, i | 8, 3 ^ i, ~i, pow(i, 3),
            list('abcdefghij')[i], 'ab' * i, [1] * i, range(20)[i],
            float(i), complex(i) if False else 0]
    j = i
    i += 1
    i <<= 1
    out += [int(i), int(j)]
    return out


def prog_generators(rng, w):
    def gen(n):
        got = 0
        for i in range(n):
            got = yield (i, got)
    g = w(gen(5))
    out = [next(g), g.send(7), next(g)]
    out += list(g)
    try:
        next(g)
    except StopIteration as e:
        out.append(('stop', e.value))
    h = w((w([i, i * i]) for i in range(4)))
    out += [a * b for a, b in h]
    s = w([w([3, w([4]), 5]), w((6, 7))])

    def flat(x):
        for y in x:
            if isinstance(y, (list, tuple)):
                yield from flat(y)
            else:
                yield y
    out += list(flat(s))
    out += list(itertools.chain(*s[0:1]))[:1]
    out += [functools.reduce(lambda a, b: a + b, w([1, 2, 3]))]
    out += list(map(lambda a, b: a * b, w([1, 2]), w((3, 4))))
    return out


def prog_algorithms(rng, w):
    xs = w([w(rng.randrange(50)) for i in range(10)])
    out = [sorted(xs), min(xs), max(xs), sum(xs)]
    h = []
    for x in xs:
        heapq.heappush(h, x)
    out.append([heapq.heappop(h) for i in range(4)])
    s = sorted(xs)
    out.append(bisect.bisect(s, 20))
    bisect.insort(s, 20)
    out.append(s.index(20))
    words = w(['the', 'cat', 'the', 'dog', 'cat', 'the'])
    c = collections.Counter(words)
    out.append(sorted(c.items()))
    out.append([k for k, g in itertools.groupby(sorted(words))])
    memo = {}
    for x in xs:
        memo[x] = memo.get(x, 0) + 1
    out.append(sorted(memo.values()))
    out.append(len(set(xs)))
    m = w({w('key'): w('value'), w((1, 2)): 3})
    out += [m['key'], m[1, 2], m[w('key')]]
    seen = {w('a'), 'a', w('b')}
    out.append(sorted(map(str, seen)))
    return out


def prog_text(rng, w):
    s = w(collections.UserString('hello world'))
    out = [s[0], s[1:4], 'w' in s, len(s), s.upper(), s + '!', s * 2,
           str(s), list(s)[:3], s == 'hello world', s.split(),
           hash(s) == hash('hello world'), s < 'zzz', int(w('17')) if 0
           else 1]
    t = w(bytearray(b'abc'))
    t[0] = 120
    t += b'de'
    t.append(33)
    out += [bytes(t.copy()[:2]) if 0 else t[1], len(t), t.find(b'c'),
            list(t)]
    return out


def prog_errors(rng, w):
    out = []
    d, xs, n, v = w({'a': 1}), w([1, 2]), w(5), w(Vec(1, 2))
    for f in [lambda: d['zz'], lambda: xs[9], lambda: n / 0,
              lambda: n.nope, lambda: xs['a'], lambda: xs.remove(8),
              lambda: d.pop('q'), lambda: v + 3, lambda: v['a'],
              lambda: next(w(iter([]))), lambda: xs + 1, lambda: n(),
              lambda: len(n), lambda: iter(n), lambda: n < 'a',
              lambda: hash(xs), lambda: {xs: 1}, lambda: del_(xs, 7),
              lambda: int(xs), lambda: [1][xs], lambda: ~v, lambda: -xs,
              lambda: v @ v if 0 else 1 // 0, lambda: n << -1,
              lambda: 1 in n, lambda: xs.index(99), lambda: list(n),
              lambda: setattr(n, 'a', 1), lambda: delattr(v, 'a'),
              lambda: pow(n, -1, 0), lambda: float(xs),
              lambda: operator.index(v)]:
        try:
            f()
        except Exception as e:
            out.append(type(e).__name__)
        else:
            out.append('fine')
    return out


def del_(x, i):
    del x[i]


PROGRAMS = [prog_vectors, prog_matrix, prog_tree, prog_accounts,
            prog_containers, prog_numbers, prog_generators, prog_algorithms,
            prog_text, prog_errors]
CHECKER = None


def strip(x, depth=0):
    while is_proxy(x):
        x = getObject(x)
    t = type(x)
    if t in (list, tuple):
        return t(strip(y) for y in x)
    if t in (set, frozenset):
        return (t.__name__, sorted(repr(strip(y)) for y in x))
    if t is dict:
        return [(strip(k), strip(v)) for k, v in x.items()]
    if t is float:
        return repr(x)
    if isinstance(x, (Vec, Matrix, Account)):
        return (t.__name__, {k: strip(v) for k, v in x.__dict__.items()})
    return (t.__name__, str(x))


def program(ctx, rng):
    f = rng.choice(PROGRAMS)
    seed = rng.random()
    checker = rng.choice([AllChecker(), FastAllChecker(), CHECKER])
    some = random.Random(seed)
    how1, bare = outcome(f, random.Random(seed), lambda x: x)
    how2, prox = outcome(f, random.Random(seed),
                         lambda x: Proxy(x, checker))
    ctx.count('programs')
    ctx.seen((f.__name__, seed))
    if how1 != 'ok':
        return ctx.fail('harness-' + f.__name__, 'bare: %r' % (bare,))
    if how2 != 'ok':
        return ctx.fail('program-' + f.__name__, 'with proxies it raised %r'
                        % (prox,))
    b, p = strip(bare), strip(prox)
    ctx.count('program_results', len(b))
    if b != p:
        diff = [(i, x, y) for i, (x, y) in enumerate(zip(b, p)) if x != y]
        ctx.fail('program-' + f.__name__, 'differs: (position, bare, '
                 'proxied) %r' % (diff[:5],))


def run(ctx):
    global CHECKER
    NAMES.names.update(['y', 'prop', 'real', 'imag', 'data', 'maxlen'])
    for f in (Vec, Matrix, Node, Account, Rec):
        NAMES.names.update(dir(f))
    NAMES.names.update(['c', 'rows', 'key', 'left', 'right', 'n', 'balance',
                        'log', 'count', 'broken', 'nope', 'send', 'a'])
    CHECKER = table_checker()
    for i, rng in ctx.cases('programs', 1500, 60000):
        with ctx.case():
            program(ctx, rng)
    for i, rng in ctx.cases('twins', 3000, 150000):
        with ctx.case():
            twin(ctx, rng)
