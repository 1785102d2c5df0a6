"""P19: decorators add permissions to those of what they decorate."""
from common import *  # noqa
import zope.component.testing
from zope.interface import Interface
from zope.interface import implementer
from zope.location import LocationProxy
from zope.proxy import ProxyBase
from zope.proxy import getProxiedObject
from zope.security.decorator import DecoratedSecurityCheckerDescriptor
from zope.security.decorator import DecoratorBase
from zope.security.decorator import SecurityCheckerDecoratorBase


class IDec(Interface):
    pass


class Boom(Exception):
    pass


NAMES = ['a', 'b', 'c', 'd', 'own', '__len__', '__call__', '__name__',
         '__hash__', '__getitem__']
WNAMES = ['a', 'b', 'c', 'own']


class Table:
    """A checker with tables; its permissions name it."""
    made = 0

    def __init__(self, rng):
        Table.made += 1
        self.id = Table.made
        self.get, self.set = {}, {}
        for names, table, kind in ((NAMES, self.get, 'g'),
                                   (WNAMES, self.set, 's')):
            p = rng.choice([.2, .5, .8])
            for n in names:
                if rng.random() < p:
                    table[n] = CheckerPublic if rng.random() < .2 else \
                        '%d.%s.%s' % (self.id, kind, n)
        self.checker = Z.Checker(self.get, self.set)

    def decide(self, world, kind, name, asked):
        p = (self.get if kind == 'get' else self.set).get(name)
        if p is None:
            if kind == 'get' and name in ALWAYS_READABLE:
                return 'ok', None
            return 'ForbiddenAttribute', None
        if p is CheckerPublic:
            return 'ok', None
        asked.append(p)
        if p in world.granted:
            return 'ok', None
        return 'Unauthorized', (p,)


class Default(Table):
    def __init__(self):
        self.id = 0
        self.get, self.set = {}, {}
        self.checker = None


class Union:
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.checker = None

    def decide(self, world, kind, name, asked):
        first = self.a.decide(world, kind, name, asked)
        if first[0] == 'ok':
            return first
        second = self.b.decide(world, kind, name, asked)
        if second[0] == 'ok':
            return second
        if first[0] == 'Unauthorized':
            if second[0] == 'Unauthorized':
                return 'Unauthorized', first[1] + second[1]
            return first
        return second


class Any:
    """The checker of a proxy may be any object with the methods."""

    def __init__(self, table):
        self.table = table
        self.real = table.checker

    def check(self, obj, name):
        self.real.check(obj, name)

    def check_getattr(self, obj, name):
        self.real.check_getattr(obj, name)

    def check_setattr(self, obj, name):
        self.real.check_setattr(obj, name)

    def proxy(self, value):
        return self.real.proxy(value)


class SubProxy(Proxy):
    """Proxies may be subclassed."""


class SlotProxy(SubProxy):
    __slots__ = ()


PROXIES = [Proxy, Proxy, Proxy, SubProxy, SlotProxy]


class AnyEq(Any):
    def __eq__(self, other):
        return True
    __hash__ = None

    def __bool__(self):
        return False


class Raw:
    a = b = c = d = 1

    def __len__(self):
        return 2

    def __call__(self, *args):
        return 3

    def __getitem__(self, i):
        return i


class FalsyRaw(Raw):
    def __len__(self):
        return 0

    def __eq__(self, other):
        return True
    __hash__ = None


class SubRaw(Raw):
    pass


class Refuses(Raw):
    """Asking it for its checker fails."""
    @property
    def __Security_checker__(self):
        raise Boom()


class Lacks(Raw):
    @property
    def __Security_checker__(self):
        raise AttributeError('__Security_checker__')


def decorators():
    class Dec(DecoratorBase):
        own = 1

    class SubDec(Dec):
        pass

    @implementer(IDec)
    class IDecorator(DecoratorBase):
        own = 1

    class SecDec(SecurityCheckerDecoratorBase):
        own = 1

    class Loc(LocationProxy):
        own = 1

    class Custom(ProxyBase):
        own = 1
        __Security_checker__ = DecoratedSecurityCheckerDescriptor()

    class Slots(DecoratorBase):
        __slots__ = ('own',)

    return [Dec, SubDec, IDecorator, SecDec, Loc, LocationProxy, Custom,
            DecoratorBase, Slots]


DECS = decorators()
RAWS = [Raw, FalsyRaw, SubRaw, Refuses, Lacks]


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.declared = {}      # class -> Table, None (no proxy)
        self.granted = set()
        self.log = []
        self.inter = Interaction(lambda p, o: p in self.granted)
        self.dunno = False
        for cls in DECS + RAWS + [int, list]:
            if rng.random() < .5:
                self.declare(cls)

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; %r' % (msg, self.log[-1:]))

    def declare(self, cls):
        rng = self.rng
        if cls in Z._checkers:
            Z.undefineChecker(cls)
        r = rng.random()
        if cls is list or cls is int and r < .5:
            # leave those alone that others use, mostly
            table = Table(rng)
            Z.defineChecker(cls, table.checker)
        elif r < .55:
            table = Table(rng)
            Z.defineChecker(cls, table.checker)
        elif r < .75:
            table = Table(rng)
            Z.defineChecker(cls, lambda obj, t=table: t.checker)
        elif r < .85:
            table = None
            Z.defineChecker(cls, NoProxy)
        else:
            table = None
            Z.defineChecker(cls, lambda obj: None)
        self.declared[cls] = table

    def for_type(self, cls):
        """What is declared for instances of exactly this type."""
        if cls in self.declared:
            return self.declared[cls]
        if cls is int:
            return None
        if cls is list:
            self.dunno = True
            return None
        return Default()

    # -- an object and what its checker should be --------------------------------

    def build(self, depth):
        """(description, object, expected checker or None)"""
        rng = self.rng
        if depth and rng.random() < .8:
            what, inner, expected = self.build(depth - 1)
            cls = rng.choice(DECS)
            dec = cls(inner)
            # the decorator's own declarations are considered only when
            # those of the object were found
            if expected == 'boom':
                return '%s(%s)' % (cls.__name__, what), dec, 'boom'
            return ('%s(%s)' % (cls.__name__, what), dec,
                    Lazy(self, cls, expected))
        if rng.random() < .35:
            return self.build_proxy(depth)
        r = rng.random()
        if r < .15:
            return 'int', 3, Lazy(self, int, None)
        if r < .3:
            # an object that declares its checker
            obj = rng.choice([Raw, SubRaw, FalsyRaw])()
            table = Table(rng)
            obj.__Security_checker__ = table.checker
            return 'declares', obj, table
        if r < .35:
            obj = Raw()
            obj.__Security_checker__ = None
            return 'declares None', obj, Lazy(self, Raw, None)
        cls = rng.choice(RAWS)
        if cls is Refuses:
            return 'Refuses', cls(), 'boom'
        return cls.__name__, cls(), Lazy(self, cls, None)

    def build_proxy(self, depth):
        rng = self.rng
        table = Table(rng)
        obj = rng.choice([Raw, SubRaw, Refuses, FalsyRaw])()
        if rng.random() < .2:
            obj.__dict__['__Security_checker__'] = Table(rng).checker
        if rng.random() < .2:
            obj = rng.choice(DECS)(obj)
        if rng.random() < .15:
            obj = 5
        r = rng.random()
        Proxy = rng.choice(PROXIES)
        if r < .6:
            return 'proxy', Proxy(obj, table.checker), table
        if r < .75:
            t2 = Table(rng)
            return ('proxy combined', Proxy(obj, Z.CombinedChecker(
                table.checker, t2.checker)), Union(table, t2))
        cls = rng.choice([Any, AnyEq])
        checker = cls(table)
        return 'proxy ' + cls.__name__, Proxy(obj, checker), Holder(
            table, checker)

    # -- one case -----------------------------------------------------------------

    def one(self):
        rng = self.rng
        what, dec, expected = self.build(rng.choice([1, 1, 2, 2, 3, 5]))
        if is_proxy(dec) or not issubclass(type(dec), ProxyBase):
            return
        for i in range(rng.choice([1, 1, 2, 3])):
            self.log.append(what)
            self.judge(what, dec, expected)
            # the declarations may change at any time
            self.declare(rng.choice(DECS + RAWS + [int]))

    def judge(self, what, dec, expected):
        rng = self.rng
        ctx = self.ctx
        inner = getProxiedObject(dec)
        how, checker = outcome(lambda: dec.__Security_checker__)
        how2, proxy = outcome(ProxyFactory, dec)
        if expected == 'boom':
            ctx.count('errors')
            if how != 'raise' or type(checker) is not Boom \
                    or how2 != 'raise' or type(proxy) is not Boom:
                self.bad('error', 'the error of the object is gone: %s %r'
                         % (how, checker))
            return
        model = resolve(expected)
        ctx.count('decorators')
        if model is None:
            ctx.count('unprotected')
            # (the Python proxies of zope.proxy then ask the object, too)
            if (how != 'raise' or type(checker) is not AttributeError) and (
                    how != 'ok' or checker is not None or not ctx.pure):
                self.bad('protected', 'neither is protected, but: %s %r'
                         % (how, checker))
            if how2 != 'ok' or proxy is not dec:
                self.bad('proxied', 'neither is protected, but: %s %r'
                         % (how2, type(proxy)))
            return
        if how != 'ok' or how2 != 'ok' or not is_proxy(proxy):
            return self.bad('unprotected', '%s %r, %s %r' % (
                how, checker, how2, type(proxy)))
        if model.checker is not None:
            ctx.count('alone')
            if checker is not model.checker or \
                    getChecker(proxy) is not model.checker:
                self.bad('alone', 'the only checker does not decide alone')
        elif isinstance(model, Union):
            ctx.count('combined')
        if getObject(proxy) is not dec:
            self.bad('object', 'the proxy is for another object')
        self.granted = self.grants(model)
        for i in range(8):
            kind = rng.choice(['get', 'get', 'set'])
            name = rng.choice(NAMES if kind == 'get' else WNAMES)
            self.decision(checker, model, kind, name, dec, what)
            self.decision(getChecker(proxy), model, kind, name, dec, what)
        for i in range(4):
            self.through(proxy, inner, model, rng.choice(WNAMES), what)
        # the checker cannot be replaced
        for func in (lambda: setattr(dec, '__Security_checker__',
                                     Z.NamesChecker(NAMES)),
                     lambda: setattr(proxy, '__Security_checker__',
                                     Z.NamesChecker(NAMES)),
                     lambda: delattr(proxy, '__Security_checker__')):
            how, e = outcome(func)
            if how != 'raise':
                self.bad('replaced', 'the checker could be replaced')
        how, e = outcome(setattr, dec, '__Security_checker__', None)
        if how != 'raise':
            self.bad('replace', 'assigning a checker: %s %r' % (how, e))
        after = outcome(lambda: dec.__Security_checker__)
        if after[0] != 'ok' or \
                model.checker is not None and after[1] is not model.checker:
            self.bad('replaced', 'there is another checker: %r' % (after,))

    def grants(self, model):
        perms = set()

        def collect(m):
            if isinstance(m, Union):
                collect(m.a)
                collect(m.b)
            elif isinstance(m, Holder):
                collect(m.table)
            else:
                for t in (m.get, m.set):
                    perms.update(p for p in t.values()
                                 if p is not CheckerPublic)
        collect(model)
        p = self.rng.choice([0, .3, .3, .6, 1])
        return {x for x in sorted(perms) if self.rng.random() < p}

    def decision(self, checker, model, kind, name, dec, what):
        asked = []
        want = model.decide(self, kind, name, asked)
        del self.inter.asked[:]
        if kind == 'get':
            f = self.rng.choice([checker.check, checker.check_getattr])
        else:
            f = checker.check_setattr
        how, e = outcome(f, dec, name)
        got = 'ok' if how == 'ok' else type(e).__name__
        self.ctx.count('decision_' + want[0])
        if got != want[0]:
            return self.bad('decision', '%s %s: %s, should be %s' % (
                kind, name, got, want))
        # (asking the same checker twice is of no use, and of no harm)
        if once(p for p, o in self.inter.asked) != once(asked):
            self.bad('asked', '%s %s: asked for %r, should ask for %r' % (
                kind, name, self.inter.asked, asked))
        if any(o is not dec for p, o in self.inter.asked):
            self.bad('asked-object', '%s %s: asked about another object'
                     % (kind, name))
        if got == 'Unauthorized':
            if e.args[1] != name or e.args[2] not in want[1]:
                self.bad('unauthorized', '%s %s: %r, should name %r' % (
                    kind, name, e.args, want[1]))
        self.ctx.seen((what, kind, name, want[0], len(asked)))

    def through(self, proxy, inner, model, name, what):
        """Use it through the proxy."""
        want = model.decide(self, 'get', name, [])[0]
        how, value = outcome(getattr, proxy, name)
        got = 'ok' if how == 'ok' else type(value).__name__
        self.ctx.count('through')
        if want != 'ok':
            if got != want:
                self.bad('through', 'reading %s: %s, should be %s' % (
                    name, got, want))
        elif is_proxy(inner) and name != 'own':
            # the inner proxy has its own say
            how2, value2 = outcome(getattr, inner, name)
            got2 = 'ok' if how2 == 'ok' else type(value2).__name__
            if got != got2 and not (got == 'AttributeError' and how2 != 'ok'):
                self.bad('through-inner', 'reading %s: %s, but %s '
                         'without the decorator' % (name, got, got2))
        elif got in ('Unauthorized', 'ForbiddenAttribute'):
            if not has_proxy(inner):
                self.bad('through', 'reading %s: %s' % (name, got))


def once(permissions):
    result = []
    for p in permissions:
        if p not in result:
            result.append(p)
    return result


def has_proxy(obj):
    while not is_proxy(obj):
        if not issubclass(type(obj), ProxyBase):
            return False
        obj = getProxiedObject(obj)
    return True


class Holder:
    """Another kind of checker for the same decisions."""

    def __init__(self, table, checker):
        self.table = table
        self.checker = checker

    def decide(self, *args):
        return self.table.decide(*args)


class Lazy:
    """What is declared for a class and what it decorates, when asked."""

    def __init__(self, world, cls, inner):
        self.world, self.cls, self.inner = world, cls, inner


def resolve(expected):
    if not isinstance(expected, Lazy):
        return expected
    own = expected.world.for_type(expected.cls)
    inner = expected.inner
    if inner is None and not issubclass(expected.cls, ProxyBase):
        return own
    inner = resolve(inner)
    if own is None:
        return inner
    if inner is None:
        return own
    return Union(own, inner)


def one(ctx, rng):
    zope.component.testing.setUp()
    int_checker = Z._checkers.get(int)
    w = World.__new__(World)
    try:
        w.__init__(ctx, rng)
        set_interaction(w.inter)
        for i in range(rng.choice([1, 3, 8])):
            w.one()
        ctx.sample(w.log)
    finally:
        clear_interaction()
        for cls in list(w.declared):
            Z._checkers.pop(cls, None)
        zope.component.testing.tearDown()
        Z._checkers[int] = int_checker


def run(ctx):
    for i, rng in ctx.cases('decorators', 4000, 100000):
        with ctx.case():
            one(ctx, rng)
