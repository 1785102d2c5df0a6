"""P23: built-in containers are read-only and protect their contents."""
import abc
import bisect
import collections
import copy
import datetime
import decimal
import functools
import heapq
import itertools
import json
import operator
import pickle
import random
import types
import weakref

from common import *  # noqa
import zope.component.testing
from zope.i18nmessageid import Message
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import directlyProvides
from zope.interface import implementedBy
from zope.interface import implementer
from zope.interface import providedBy
from zope.interface.interface import InterfaceClass

try:
    from BTrees.IOBTree import IOBTree
    from BTrees.OOBTree import OOBTree
except ImportError:     # pragma: no cover
    IOBTree = OOBTree = None


class Secret:
    """Something that must stay as it is."""

    def __init__(self, n):
        self.n = n

    def method(self):
        return self.n


class Held(dict):
    """Not a built-in type: nothing is declared for it."""


class HeldList(list):
    pass


class MyInt(int):
    pass


class ISample(Interface):
    def method(x):
        """..."""


class IOther(Interface):
    pass


@implementer(ISample)
class Provider:
    pass


def gen(items, received):
    for x in items:
        try:
            got = yield x
        except BaseException as e:
            received.append(e)
            raise
        if got is not None:
            received.append(got)


BASIC = [1, 10 ** 30, 2.5, 1j, None, True, False, 'text', '', b'bytes',
         datetime.timedelta(3), datetime.datetime(2020, 1, 2, 3),
         datetime.date(2020, 1, 2), datetime.time(1, 2), Message('m', 'd')]
BASIC_TYPES = {type(x) for x in BASIC} | {datetime.timezone, object}


def _declarations():
    x = Provider()
    first = type(providedBy(x))
    alsoProvides(x, IOther)
    return {first, type(providedBy(x))}


# Specifications of interfaces are handed out bare, too.
DECLARATIONS = _declarations()
BASIC_TYPES |= DECLARATIONS


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.raws = []          # everything that was built
        self.received = []
        self.iterators = []
        self.log = []
        for i in range(rng.choice([3, 6, 12])):
            self.build(i)

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; after %r' % (msg, self.log[-3:]))

    # -- the containers -------------------------------------------------------

    def item(self):
        if self.raws and self.rng.random() < .6:
            return self.rng.choice(self.raws)
        if self.rng.random() < .5:
            return self.rng.choice(BASIC)
        x = Secret(self.rng.randrange(9))
        self.raws.append(x)
        return x

    def hashable(self):
        for i in range(20):
            x = self.item()
            try:
                hash(x)
            except TypeError:
                continue
            return x
        return 5

    def build(self, i):
        rng = self.rng
        items = [self.item() for j in range(rng.choice([0, 1, 3, 5]))]
        hs = [self.hashable() for j in items]
        k = rng.randrange(24)
        if k <= 1:
            x = list(items)
        elif k == 2:
            x = tuple(items)
        elif k <= 4:
            x = {rng.choice(['k%d' % j, j, hs[j]]): v
                 for j, v in enumerate(items)}
        elif k == 5:
            x = set(hs)
        elif k == 6:
            x = frozenset(hs)
        elif k == 7:
            x = rng.choice([dict.keys, dict.items, dict.values])(
                self.keep(dict(zip(hs, items))))
        elif k == 8:
            x = self.keep_iter(iter(self.keep(list(items))))
        elif k == 9:
            x = self.keep_iter(iter(self.keep(tuple(items))))
        elif k == 10:
            d = self.keep(dict(zip(hs, items)))
            x = iter(rng.choice([d, d.items(), d.values(), d.keys()]))
        elif k == 11:
            x = iter(self.keep(set(hs)))
        elif k == 12:
            x = gen(items, self.received)
        elif k == 13:
            x = collections.OrderedDict(zip(hs, items))
            self.keep(x)
            x = rng.choice([lambda: x, x.items, x.keys, x.values,
                            lambda: iter(x)])()
        elif k == 14 and IOBTree is not None:
            t = self.keep(IOBTree(dict(enumerate(items))))
            x = rng.choice([t.items, t.values, t.keys, lambda: iter(t),
                            t.iteritems])()
        elif k == 15:
            x = collections.defaultdict(list, zip(hs, items))
        elif k == 16:
            x = collections.deque(items)
        elif k == 17:
            x = rng.choice([Held, dict])(zip(hs, items))
        elif k == 18:
            x = HeldList(items)
        elif k == 19:
            x = reversed(self.keep(list(items)))
        elif k == 20:
            x = rng.choice([
                lambda: map(str, items), lambda: zip(items, hs),
                lambda: enumerate(items), lambda: itertools.chain(items),
                lambda: bytearray(b'abc'), lambda: memoryview(b'abc'),
                lambda: range(5), lambda: slice(1, 2),
                lambda: collections.Counter(hs),
                lambda: collections.ChainMap(self.keep({1: 2})),
                lambda: types.MappingProxyType(self.keep({1: items})),
                lambda: types.SimpleNamespace(a=items),
                lambda: decimal.Decimal('1.5'),
                lambda: weakref.WeakValueDictionary()])()
        elif k == 21:
            x = self.callable_()
        else:
            x = [tuple(items), {'in': list(items)}, set(hs)]
            self.keep(x[1]['in'])
            self.keep(x[1])
            self.keep(x[2])
        self.keep(x)

    def keep(self, x):
        self.raws.append(x)
        return x

    def keep_iter(self, x):
        self.iterators.append(x)
        return x

    def callable_(self):
        rng = self.rng
        secret = self.item()

        def function(*a, **k):
            return secret
        function.attribute = [secret]
        function.__kwdefaults__ = {'k': [secret]}
        klass = type('Klass', (rng.choice([object, Provider]),),
                     {'attribute': secret, 'f': function})
        module = types.ModuleType('verif_module')
        module.attribute = secret
        s = Secret(3)
        self.keep(s)
        return rng.choice([
            lambda: function, lambda: klass, lambda: klass().f,
            lambda: module, lambda: weakref.ref(s), lambda: len,
            lambda: self.keep([secret]).count, lambda: s.method,
            lambda: (1).__repr__, lambda: ISample, lambda: ISample['method'],
            lambda: implementedBy(Provider), lambda: providedBy(Provider()),
            lambda: abc.ABCMeta('Abstract', (), {'attribute': secret}),
            lambda: functools.partial(function),
            lambda: self.keep([]).__len__])()

    # -- snapshots ---------------------------------------------------------------

    def snapshot(self):
        result = []
        for x in self.raws:
            result.append(content(x))
        return result

    def positions(self, target):
        """How far the iterators are."""
        if any(x is target for x in self.iterators):
            return operator.length_hint(target)

    # -- attacks --------------------------------------------------------------------

    def one(self):
        rng = self.rng
        proxies = []
        for x in self.raws:
            try:
                p = ProxyFactory(x)
            except Exception as e:
                self.bad('no-proxy', 'no proxy for %s: %r' % (type(x), e))
                continue
            if type(x) in BASIC_TYPES:
                if p is not x:
                    self.bad('basic', 'a %s got a proxy' % type(x))
            elif type(x) in DECLARATIONS:
                if p is not x:
                    self.bad('declaration', 'a declaration got a proxy')
            elif not is_proxy(p):
                self.bad('unprotected', 'a %s is handed out bare' % type(x))
            else:
                proxies.append(p)
        if not proxies:
            return
        own = [ProxyFactory(x) for x in self.raws if type(x) is not Secret]
        self.proxies = [p for p in own if is_proxy(p)] or proxies
        self.before = self.snapshot()
        for i in range(rng.choice([5, 20, 40])):
            p = rng.choice(self.proxies)
            self.attack(p)
            if self.snapshot() != self.before:
                after = self.snapshot()
                for x, b, a in zip(self.raws, self.before, after):
                    if a != b:
                        self.bad('changed-%s' % type(x).__name__,
                                 'a %s changed from %r to %r' % (
                                     type(x).__name__, b, a))
                self.before = after
        for p in rng.sample(self.proxies, min(3, len(self.proxies))):
            self.read(p)

    def argument(self, p):
        rng = self.rng
        r = rng.random()
        if r < .3:
            return rng.choice([0, 1, -1, 'k0', 'k1', 'n', None, 5, 'text'])
        if r < .6:
            return rng.choice(self.proxies)
        if r < .7:
            return rng.choice([[], [1], {}, {'k0': 9}, (1, 2), {1}, (),
                               slice(None), slice(0, 1), [(1, 2)]])
        if r < .75:
            return p
        if r < .85:
            return rng.choice([len, lambda *a: True, int, iter, str])
        return Secret(0)

    def attack(self, p):
        rng = self.rng
        raw = getObject(p)
        position = self.positions(raw)
        r = rng.random()
        advances = False
        if r < .6:
            name = rng.choice(names_of(raw))
            args = [self.argument(p) for i in range(
                rng.choice([0, 0, 1, 1, 2, 3]))]
            how = rng.choice(['getattr', 'getattr', 'type', 'type.proxy'])
            what = (how, type(raw).__name__, name, len(args))
            self.log.append(what)
            if how == 'getattr':
                advances = name in ('next', '__next__', '__iter__') \
                    or any(a is p or is_proxy(a) for a in args)
                ok, f = outcome(getattr, p, name)
                if ok == 'ok':
                    self.obtained(p, name, f)
                    if is_proxy(f) or callable(f) and bound_to(f, p):
                        # some bound methods of the proxy's own class
                        ok, x = outcome(lambda: f(*args))
                        self.judge(p, what, ok, x, args)
            elif name in ('mro', '__class__', '__subclasses__', '__prepare__',
                          '__new__', '__init_subclass__', '__init__',
                          '__subclasshook__', '__set_name__', '__reduce__',
                          '__reduce_ex__', '__getattribute__', '__dir__',
                          '__getstate__', '__instancecheck__',
                          '__subclasscheck__', '__class_getitem__',
                          '_bucket_type', '_next_type'):
                # (P20 has those that belong to the proxy; BTrees' buckets
                # believe in __class__ and crash)
                return
            elif how == 'type':
                # a method of the type of the object, on the proxy
                ok, f = outcome(getattr, type(raw), name, None)
                if callable(f) and type(raw) is not type:
                    advances = True
                    outcome(lambda: f(p, *args))
            else:
                f = getattr(type(p), name, None)
                if callable(f) and name != '__class__':
                    advances = True
                    ok, x = outcome(lambda: f(p, *args))
                    self.judge(p, what, ok, x, args)
        else:
            advances = True
            name, f = rng.choice(LIBRARY)
            a, b = self.argument(p), self.argument(p)
            what = ('library', type(raw).__name__, name)
            self.log.append(what)
            ok, x = outcome(f, p, a, b)
            self.judge(p, what, ok, x, [a, b])
        self.ctx.count('attacks')
        self.ctx.count('attacks_passed' if ok_(locals()) else
                       'attacks_refused')
        self.ctx.seen(what + (ok_(locals()),))
        if self.received:
            self.bad('received', 'a generator got %r' % self.received)
            del self.received[:]
        if position is not None and not advances \
                and self.positions(raw) != position:
            self.bad('moved', 'an iterator moved')

    def obtained(self, p, name, x):
        self.judge(p, ('getattr', name), 'ok', x, ())
        raw = getObject(p)
        for test, allowed in RESTRICTED:
            if test(raw):
                self.ctx.count('restricted')
                if name in allowed or name in ALWAYS_READABLE \
                        or bound_to(x, p) or name == '__iter__':
                    return
                if self.ctx.pure and name in (
                        '__doc__', '__slots__', '__module__'):
                    return
                self.bad('harmful-%s' % type(raw).__name__,
                         '%s of a %s can be read' % (
                             name, type(raw).__name__))
                return

    def judge(self, p, what, ok, x, args):
        """x was obtained through the proxy p."""
        if ok != 'ok' or x is None or is_proxy(x):
            return
        if type(x) in BASIC_TYPES or any(x is a for a in args):
            return
        if isinstance(x, (list, tuple, set, dict, frozenset)) or \
                type(x).__module__ in ('builtins', 'itertools',
                                       'collections', 'types'):
            # something new, made from what was obtained
            self.new(p, what, x)
            return
        if any(x is r for r in self.raws):
            self.bad('bare', '%r gave a %s without a proxy' % (
                what, type(x).__name__))

    def new(self, p, what, x, depth=0):
        for r in self.raws:
            if r is x and type(x) not in BASIC_TYPES and x != () \
                    and x is not len and x is not frozenset():
                self.bad('bare', '%r gave a %s without a proxy' % (
                    what, type(x).__name__))
                return
        if depth < 3 and isinstance(x, (list, tuple, set, frozenset)):
            for y in list(x)[:20]:
                if not is_proxy(y):
                    self.new(p, what, y, depth + 1)
        elif depth < 3 and isinstance(x, dict):
            for k, y in list(x.items())[:20]:
                for z in (k, y):
                    if not is_proxy(z):
                        self.new(p, what, z, depth + 1)

    # -- reading ------------------------------------------------------------------------

    def read(self, p):
        """By default it can be read, and everything in it is protected."""
        raw = getObject(p)
        t = type(raw)
        if t in (list, tuple):
            inside = list(raw)
            self.contents(p, inside, lambda: list(p))
            self.contents(p, inside, lambda: [p[i] for i in range(len(p))])
            self.contents(p, inside, lambda: [x for x in p])
            self.contents(p, inside, lambda: [*p])
            self.contents(p, inside, lambda: p[0:len(p)])
            self.contents(p, inside + inside, lambda: p + p)
        elif t in (set, frozenset):
            inside = list(raw)
            self.contents(p, inside, lambda: list(p))
            self.contents(p, inside, lambda: list(p.copy()), True)
            self.contents(p, inside, lambda: list(p | p), True)
            self.contents(p, inside, lambda: list(p & raw), True)
        elif t is dict:
            keys, values = list(raw), list(raw.values())
            self.contents(p, keys, lambda: list(p))
            self.contents(p, keys, lambda: list(p.keys()))
            self.contents(p, values, lambda: list(p.values()))
            self.contents(p, values, lambda: [p[k] for k in raw])
            self.contents(p, values, lambda: [p.get(k) for k in raw])
            self.contents(p, values, lambda: [v for k, v in p.items()])
            self.contents(p, keys, lambda: [k for k, v in p.items()])
            self.contents(p, values, lambda: [p.copy()[k] for k in raw])
        else:
            return
        self.ctx.count('read')
        if len(p) != len(raw):
            self.bad('len', 'len() is %r' % len(p))
        for x in list(raw)[:5]:
            if outcome(lambda: x in raw) != ('ok', True):
                continue            # items that cannot be compared
            if not x in p:          # noqa
                self.bad('contains', '%r is not in it' % x)
        if type(str(p)) is not str:
            self.bad('str', 'str() is no string')

    def contents(self, p, inside, f, unordered=False):
        how, got = outcome(f)
        if how == 'raise':
            return self.bad('unreadable', 'reading a %s: %r' % (
                type(getObject(p)).__name__, got))
        got = list(got)
        if len(got) != len(inside):
            return self.bad('contents', 'a %s with %d things gave %d' % (
                type(getObject(p)).__name__, len(inside), len(got)))
        if unordered:
            inside = sorted(inside, key=id)
            got = sorted(got, key=lambda x: id(removeSecurityProxy(x)))
        for x, y in zip(inside, got):
            if removeSecurityProxy(y) is not x:
                return self.bad('contents', 'something else is in it: %r %r %r' % (getObject(p), inside, got))
            if (y is x) != (type(x) in BASIC_TYPES):
                return self.bad('inside', 'a %s from a %s is %s' % (
                    type(x).__name__, type(getObject(p)).__name__,
                    'bare' if y is x else 'proxied'))


def ok_(names):
    return names.get('ok') == 'ok'


def bound_to(f, p):
    """Is f a method of the proxy itself?"""
    return not is_proxy(f) and getattr(f, '__self__', None) is p


def content(x):
    """What is in it, by identity."""
    t = type(x)
    if isinstance(x, dict):
        return [(id(k), id(v)) for k, v in dict.items(x)]
    if isinstance(x, (list, tuple, collections.deque)):
        return [id(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(id(v) for v in x)
    if t in VIEWS:
        try:
            return [id(v) if t is not DICT_ITEMS else
                    (id(v[0]), id(v[1])) for v in x]
        except RuntimeError:
            return 'changed'
    if t is types.GeneratorType:
        return None
    if t is bytearray:
        return bytes(x)
    if t in (types.FunctionType, types.ModuleType, Secret,
             types.SimpleNamespace):
        extra = ()
        if t is types.FunctionType:
            extra = (id(x.__code__), id(x.__defaults__),
                     id(x.__kwdefaults__), x.__name__)
        return [(k, id(v)) for k, v in x.__dict__.items()
                if not k.startswith('__')], extra
    if isinstance(x, type):
        return [(k, id(v)) for k, v in x.__dict__.items()
                if not k.startswith(('__', '_abc'))], x.__bases__
    if OOBTree is not None and t is IOBTree:
        return [(k, id(v)) for k, v in x.items()]
    return None


VIEWS = {type({}.keys()), type({}.values()), type({}.items())}
DICT_ITEMS = type({}.items())
CALLABLE = {'__str__', '__name__', '__call__'}
TYPE = {'__str__', '__name__', '__module__', '__bases__', '__mro__',
        '__implemented__'}
RESTRICTED = [
    (lambda x: type(x) in (types.FunctionType, types.MethodType,
                           types.BuiltinFunctionType,
                           type((1).__repr__)), CALLABLE),
    (lambda x: type(x) in (type, abc.ABCMeta), TYPE),
    (lambda x: type(x) is types.ModuleType, {'__name__'}),
    (lambda x: type(x) is weakref.ref, {'__call__'}),
    # iterators only iterate
    (lambda x: type(x) in (types.GeneratorType, type(iter([])),
                           type(iter(())), type(iter({})),
                           type(iter(set())), type(iter({}.items())),
                           type(iter({}.values()))),
     {'next', '__next__', '__iter__', '__len__', '__length_hint__'}),
    # nothing is declared for these
    (lambda x: type(x) in (Secret, Held, HeldList, collections.deque,
                           bytearray, collections.defaultdict, MyInt,
                           collections.Counter), ()),
]


def names_of(x):
    t = type(x)
    if t not in _names:
        _names[t] = sorted(set(dir(x)) | set(dir(t)) | {
            'mapping', 'gi_frame', 'send', '__dict__', '__globals__',
            'func_globals', '__closure__', '__self__', '__func__',
            '__wrapped__', '__setstate__', '__subclasses__', 'mro',
            'attribute', 'n', 'method', 'next', '__length_hint__',
            '__ior__', '__iadd__', '__isub__', '__imul__', '__iand__',
            '__ixor__', '__reversed__', '__copy__', '__deepcopy__'})
    return _names[t]


_names = {}


def _setitem(p, a, b):
    p[a] = b


def _delitem(p, a, b):
    del p[a]


def _setslice(p, a, b):
    p[0:1] = [a]


def _delslice(p, a, b):
    del p[:]


def _unpack(p, a, b):
    x, *rest = p
    return [x] + rest


def _for(p, a, b):
    return [x for x in itertools.islice(p, 5)]


def _del(p, a, b):
    del p.append


def _match(p, a, b):
    match p:
        case [x, *rest]:
            return rest
        case {'k0': x}:
            return x


LIBRARY = [
    ('setitem', _setitem), ('delitem', _delitem), ('setslice', _setslice),
    ('delslice', _delslice), ('unpack', _unpack), ('for', _for),
    ('delattr', _del), ('match', _match),
    ('setattr', lambda p, a, b: setattr(p, 'n', b)),
    ('setattr dict', lambda p, a, b: setattr(p, '__dict__', {})),
    ('setattr class', lambda p, a, b: setattr(p, '__class__', Secret)),
    ('setattr doc', lambda p, a, b: setattr(p, '__name__', 'x')),
    ('setattr code', lambda p, a, b: setattr(
        p, '__code__', _setitem.__code__)),
    ('iadd', lambda p, a, b: operator.iadd(p, a)),
    ('ior', lambda p, a, b: operator.ior(p, a)),
    ('iand', lambda p, a, b: operator.iand(p, a)),
    ('ixor', lambda p, a, b: operator.ixor(p, a)),
    ('isub', lambda p, a, b: operator.isub(p, a)),
    ('imul', lambda p, a, b: operator.imul(p, 2)),
    ('iconcat', lambda p, a, b: operator.iconcat(p, a)),
    ('add', lambda p, a, b: p + a), ('radd', lambda p, a, b: a + p),
    ('mul', lambda p, a, b: p * 2), ('or', lambda p, a, b: p | a),
    ('and', lambda p, a, b: p & a), ('sub', lambda p, a, b: p - a),
    ('xor', lambda p, a, b: p ^ a), ('ror', lambda p, a, b: a | p),
    ('getitem', lambda p, a, b: p[a]), ('slice', lambda p, a, b: p[:]),
    ('call', lambda p, a, b: p()), ('call1', lambda p, a, b: p(a)),
    ('in', lambda p, a, b: a in p), ('len', lambda p, a, b: len(p)),
    ('list', lambda p, a, b: list(itertools.islice(p, 9))),
    ('dict', lambda p, a, b: dict(p)), ('set', lambda p, a, b: set(p)),
    ('tuple', lambda p, a, b: tuple(itertools.islice(p, 9))),
    ('sorted', lambda p, a, b: sorted(itertools.islice(p, 9))),
    ('reversed', lambda p, a, b: list(reversed(p))),
    ('enumerate', lambda p, a, b: list(enumerate(
        itertools.islice(p, 9)))),
    ('copy', lambda p, a, b: copy.copy(p)),
    ('deepcopy', lambda p, a, b: copy.deepcopy(p)),
    ('pickle', lambda p, a, b: pickle.dumps(p, 2)),
    ('json', lambda p, a, b: json.dumps(p)),
    ('shuffle', lambda p, a, b: random.shuffle(p)),
    ('heappush', lambda p, a, b: heapq.heappush(p, a)),
    ('heapify', lambda p, a, b: heapq.heapify(p)),
    ('heappop', lambda p, a, b: heapq.heappop(p)),
    ('insort', lambda p, a, b: bisect.insort(p, 1)),
    ('next', lambda p, a, b: next(p)), ('iter', lambda p, a, b: iter(p)),
    ('star', lambda p, a, b: (lambda *x: x)(*itertools.islice(p, 9))),
    ('starstar', lambda p, a, b: (lambda **k: k)(**p)),
    ('update', lambda p, a, b: {}.update(p)),
    ('extend', lambda p, a, b: [].extend(p)),
    ('itemgetter', lambda p, a, b: operator.itemgetter(0)(p)),
    ('methodcaller', lambda p, a, b: operator.methodcaller(
        'append', 1)(p)),
    ('chain', lambda p, a, b: list(itertools.islice(
        itertools.chain(p, p), 9))),
    ('deque', lambda p, a, b: collections.deque(p, 3)),
    ('ordereddict', lambda p, a, b: collections.OrderedDict(p)),
    ('move_to_end', lambda p, a, b:
        collections.OrderedDict.move_to_end(p, a)),
    ('dict.update', lambda p, a, b: dict.update(p, {1: 2})),
    ('list.append', lambda p, a, b: list.append(p, 1)),
    ('list.sort', lambda p, a, b: list.sort(p)),
    ('set.add', lambda p, a, b: set.add(p, 1)),
    ('type.__setattr__', lambda p, a, b: type.__setattr__(p, 'n', 1)),
    ('object.__setattr__', lambda p, a, b:
        object.__setattr__(p, 'n', 1)),
    ('object.__delattr__', lambda p, a, b: object.__delattr__(p, 'n')),
    ('chainmap', lambda p, a, b: collections.ChainMap(p).__setitem__(
        'k0', 1)),
    ('userlist', lambda p, a, b: collections.UserList.append(p, 1)),
    ('setlist', lambda p, a, b: collections.abc.MutableSequence.append(
        p, 1)),
    ('mutablemapping', lambda p, a, b:
        collections.abc.MutableMapping.clear(p)),
    ('mutableset', lambda p, a, b: collections.abc.MutableSet.clear(p)),
    ('functools', lambda p, a, b: functools.reduce(
        lambda x, y: y, itertools.islice(p, 9))),
    ('str', lambda p, a, b: str(p)), ('repr', lambda p, a, b: repr(p)),
    ('format', lambda p, a, b: '{0}'.format(p)),
    ('format item', lambda p, a, b: '{0[k0]}{0[0]}'.format(p)),
    ('bytes', lambda p, a, b: bytes(p)),
    ('memoryview', lambda p, a, b: memoryview(p)),
    ('max', lambda p, a, b: max(p)), ('sum', lambda p, a, b: sum(p, ())),
    ('map', lambda p, a, b: list(itertools.islice(map(id, p), 9)) and None),
    ('zip', lambda p, a, b: list(zip(itertools.islice(p, 9), 'abc'))),
    ('hash', lambda p, a, b: hash(p)), ('bool', lambda p, a, b: bool(p)),
    ('subclass', lambda p, a, b: type('Sub', (p,), {})),
    ('isinstance', lambda p, a, b: isinstance(1, p)),
]


def containers(ctx, rng):
    w = World(ctx, rng)
    w.one()
    if ctx.where[1] < 9:
        ctx.sample(w.log)


# -- basic types ---------------------------------------------------------------------

class Registry:
    """Random changes to the set of basic types."""

    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.classes = [type('Basic%d' % i, (rng.choice([
            object, int, str, list]),), {}) for i in range(4)]
        self.now = {}
        self.other = {}
        self.log = []

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; after %r' % (msg, self.log[-8:]))

    def run(self):
        try:
            for i in range(self.rng.choice([3, 10, 30])):
                self.step()
                self.verify()
        finally:
            for c in self.classes:
                dict.pop(Z.BasicTypes, c, None)
                Z._checkers.pop(c, None)

    def step(self):
        rng = self.rng
        cls = rng.choice(self.classes)
        b = Z.BasicTypes
        value = NoProxy if rng.random() < .7 else Z.NamesChecker(['x'])
        how = rng.randrange(13)
        self.log.append((how, cls.__name__))
        self.ctx.count('changes')
        if how <= 1:
            b[cls] = value
            self.now[cls] = value
        elif how == 2:
            b.update(self.argument({cls: value}))
            self.now[cls] = value
        elif how == 3:
            if cls in self.now:
                del b[cls]
                del self.now[cls]
            else:
                ok, e = outcome(b.__delitem__, cls)
                if ok == 'ok' or type(e) is not KeyError:
                    self.bad('delete', 'deleting what is not there: %r' % e)
                return
        elif how == 4:
            got = b.setdefault(cls, value)
            if got is not self.now.setdefault(cls, value):
                self.bad('setdefault', 'setdefault gave %r' % got)
        elif how == 5:
            got = b.pop(cls, 'nothing')
            if got is not self.now.pop(cls, 'nothing'):
                self.bad('pop', 'pop gave %r' % got)
        elif how == 6:
            if self.now:
                got = b.popitem()
                if got[0] not in self.now:
                    self.bad('popitem', 'popitem gave %r' % (got,))
                self.now.pop(got[0], None)
                cls = got[0]
        elif how == 7:
            b |= self.argument({cls: value})
            if b is not Z.BasicTypes:
                self.bad('inplace', '|= makes another object')
            self.now[cls] = value
        elif how == 8:
            ok, e = outcome(b.clear)
            if ok == 'ok' or type(e) is not NotImplementedError:
                self.bad('clear', 'clear: %s %r' % (ok, e))
            self.ctx.count('clears')
            return
        elif how == 9:
            # a copy is of no effect
            c = b.copy()
            c[cls] = value
            c.clear() if type(c) is dict else None
            return
        elif how == 10:
            ok, e = outcome(b.pop, cls)
            if cls in self.now:
                self.now.pop(cls)
                if ok != 'ok':
                    self.bad('pop', 'pop raised %r' % e)
            elif ok == 'ok' or type(e) is not KeyError:
                self.bad('pop', 'popping what is not there: %r' % e)
        elif how == 11:
            # several at once
            more = {c: value for c in rng.sample(self.classes, 3)}
            b.update(self.argument(more))
            self.now.update(more)
        elif how == 12:
            # what fails half-way leaves it consistent
            ok, e = outcome(rng.choice([b.update, b.__ior__]), rng.choice([
                [(cls, value), (1, 2, 3)], [(cls, value), ([], value)],
                iter([(cls, value), 5]), self.broken(cls, value)]))
            if ok == 'ok':
                self.bad('update', 'such an update cannot work')
            self.ctx.count('failed_updates')
            if cls in b:
                self.now[cls] = b[cls]
            else:
                self.now.pop(cls, None)
        # what is declared otherwise does not count
        self.other.pop(cls, None)

    @staticmethod
    def broken(cls, value):
        yield cls, value
        raise ZeroDivisionError

    def argument(self, d):
        """A mapping in one of the forms update() takes."""
        k = self.rng.randrange(5)
        if k == 0:
            return list(d.items())
        if k == 1:
            return iter(list(d.items()))
        if k == 2:
            return (list(i) for i in d.items())
        if k == 3:
            return collections.UserDict(d)
        return d

    def verify(self):
        rng = self.rng
        for cls in self.classes:
            x = cls()
            want = self.now.get(cls)
            if (cls in Z.BasicTypes) != (cls in self.now):
                self.bad('listed', '%r is %slisted' % (
                    cls, '' if cls in Z.BasicTypes else 'not '))
            for f in (ProxyFactory, Z.Checker({}).proxy,
                      lambda x: Proxy([x], Z.NamesChecker(
                          ['__getitem__']))[0]):
                got = f(x)
                self.ctx.count('proxied')
                if want is NoProxy:
                    if got is not x:
                        self.bad('effect', 'a basic type gets a proxy')
                elif not is_proxy(got):
                    self.bad('effect', 'not a basic type, but bare')
                elif want is not None and getChecker(got) is not want:
                    self.bad('effect', 'another checker')
            self.ctx.seen((cls.__base__.__name__, want is NoProxy,
                           want is None, len(self.log)))
        for x in rng.sample(BASIC, 4):
            for f in (ProxyFactory, Z.Checker({}).proxy):
                if f(x) is not x:
                    self.bad('basic', '%r gets a proxy' % x)
        for x in (MyInt(3), Held(), collections.deque()):
            if not is_proxy(ProxyFactory(x)):
                self.bad('subclass', 'a %s is bare' % type(x))
        for t, x in Z.BasicTypes_examples.items():
            if ProxyFactory(x) is not x:
                self.bad('examples', 'the example %r gets a proxy' % x)


def basics(ctx, rng):
    Registry(ctx, rng).run()


def specifications(ctx, rng):
    """What an object or class provides or implements comes out bare."""
    faces = [InterfaceClass('I%d' % i, (Interface,), __module__=__name__)
             for i in range(3)]

    class C:
        def face(self):
            return providedBy(self)
    if rng.random() < .6:
        implementer(*rng.sample(faces, rng.randrange(3)))(C)
    o = C()
    how = rng.choice(['none', 'also', 'directly', 'twice'])
    some = rng.sample(faces, rng.randrange(1, 3))
    if how in ('also', 'twice'):
        alsoProvides(o, *some)
    elif how == 'directly':
        directlyProvides(o, *some)
    if how == 'twice':
        alsoProvides(o, *faces)
    o.held = rng.choice([[providedBy(o)], (providedBy(o),),
                         {0: providedBy(o)}])
    p = Proxy(o, Z.NamesChecker(['face', 'held']))
    for route, v in [
            ('ProxyFactory', ProxyFactory(providedBy(o))),
            ('implementedBy', ProxyFactory(implementedBy(C))),
            ('result', p.face()), ('item', p.held[0]),
            ('proxied object', providedBy(p)),
            ('checker', Z.Checker({}).proxy(providedBy(o)))]:
        ctx.count('specifications')
        ctx.seen(('specification', how, route, type(v).__name__))
        if is_proxy(v):
            ctx.fail('specification', 'what a %s %s provides is proxied: %s'
                     % (how, type(v).__name__, route))
    for i in faces:
        if i.providedBy(p) != i.providedBy(o):
            ctx.fail('provided', '%r provided by the proxy: %r' % (
                i, i.providedBy(p)))


def run(ctx):
    for i, rng in ctx.cases('containers', 10000, 150000, 60):
        with ctx.case():
            zope.component.testing.setUp()
            try:
                containers(ctx, rng)
            finally:
                zope.component.testing.tearDown()
    for i, rng in ctx.cases('basic types', 1500, 15000, 20):
        with ctx.case():
            basics(ctx, rng)
    for i, rng in ctx.cases('specifications', 600, 6000, 20):
        with ctx.case():
            specifications(ctx, rng)
