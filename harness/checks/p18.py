"""P18: adapter factories keep trust and location."""
from common import *  # noqa
import zope.component.testing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import implementer
from zope.location import ILocation
from zope.location import LocationProxy
from zope.proxy import ProxyBase
from zope.proxy import getProxiedObject
from zope.security import adapter as A


class IPlace(ILocation):
    pass


class IOther(Interface):
    pass


class Boom(Exception):
    pass


class Plain:
    pass


class Equal:
    """Equal to everything, and false."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Claims:
    """Claims to be something else."""
    @property
    def __class__(self):
        return Plain


@implementer(ILocation)
class Located:
    __name__ = None

    def __init__(self, parent=None):
        self.__dict__['__parent__'] = parent

    def __setattr__(self, name, value):
        SETS.append((self, name, value))
        self.__dict__[name] = value


@implementer(ILocation)
class FalsyLocated(Located):
    def __bool__(self):
        return False

    def __eq__(self, other):
        return True
    __hash__ = None


@implementer(IPlace)
class Placed(Located):
    pass


class SubLocated(Located):
    pass


@implementer(ILocation)
class SlotLocated:
    __slots__ = ('_p', '__name__')

    def __init__(self, parent=None):
        self._p = parent

    @property
    def __parent__(self):
        return self._p

    @__parent__.setter
    def __parent__(self, value):
        SETS.append((self, '__parent__', value))
        self._p = value


@implementer(ILocation)
class Fixed:
    """Cannot be given a parent."""
    __name__ = None
    __parent__ = property(lambda self: None)


class Parented:
    """Has a parent, but is not located."""
    __parent__ = None
    __name__ = None


@implementer(IOther)
class Wrapper(ProxyBase):
    pass


SETS = []
NAMES = ['a', 'b', 'c', 'd']


class World:
    def __init__(self, ctx, rng):
        self.ctx = ctx
        self.rng = rng
        self.log = []
        self.calls = []
        self.depth = 0
        self.checkers = {}
        classes = [Plain, Equal, Located, FalsyLocated, Placed, SlotLocated,
                   Parented, Claims]
        for cls in classes:
            r = rng.random()
            if r < .4:
                checker = Z.NamesChecker(
                    [n for n in NAMES if rng.random() < .5])
                Z.defineChecker(cls, checker)
                self.checkers[cls] = checker
            elif r < .5:
                Z.defineChecker(cls, NoProxy)
                self.checkers[cls] = NoProxy

    def bad(self, key, msg):
        self.ctx.fail(key, '%s; in %r' % (msg, self.log[-3:]))

    # -- things ---------------------------------------------------------------

    def thing(self):
        rng = self.rng
        r = rng.randrange(11)
        if r == 0:
            return Plain()
        if r == 1:
            return Equal()
        if r == 2:
            return Located(rng.choice([None, Plain()]))
        if r == 3:
            return rng.choice([None, 0, 1, '', 'x', (), [1], {}, 3.5])
        if r == 4:
            return LocationProxy(Plain())
        if r == 5:
            return Wrapper(Plain())
        if r == 6:
            # its own proxy is not a security proxy
            return LocationProxy(Proxy(Plain(), Z.NamesChecker(['a'])))
        if r == 7:
            return Claims()
        if r == 8:
            return rng.choice([Plain, int, len, Plain().__init__])
        if r == 9:
            return FalsyLocated()
        x = Plain()
        x.__Security_checker__ = Z.NamesChecker(['b'])
        return x

    def argument(self, p):
        x = self.thing()
        if self.rng.random() < p:
            if self.rng.random() < .5:
                return Proxy(x, Z.NamesChecker(self.rng.sample(NAMES, 2)))
            return ProxyFactory(x)
        return x

    def adapter(self, args):
        """(kind, adapter)"""
        rng = self.rng
        r = rng.randrange(16)
        if r == 0:
            return 'plain', Plain()
        if r == 1:
            return 'falsy', Equal()
        if r == 2:
            cls = rng.choice([Located, FalsyLocated, Placed, SubLocated,
                              SlotLocated])
            return 'parentless', cls()
        if r in (3, 4):
            cls = rng.choice([Located, FalsyLocated, Placed, SubLocated,
                              SlotLocated])
            parent = rng.choice([
                Plain(), 0, '', (), Equal(), False, Located(),
                Proxy(Plain(), Z.NamesChecker([])), LocationProxy(Plain())])
            return 'parented', cls(parent)
        if r == 5:
            x = Plain()
            x.__parent__ = rng.choice([None, None, Plain()])
            x.__name__ = None
            alsoProvides(x, ILocation)
            return 'instance', x
        if r == 6:
            return 'not located', Parented()
        if r == 7:
            return 'basic', rng.choice([1, 'text', 2.5, None, True, b'x'])
        if r == 8:
            return 'container', rng.choice([[], {}, (), [Plain()], {1: 2}])
        if r == 9:
            return 'argument', rng.choice(args)
        if r == 10:
            return 'proxied', Proxy(Plain(), Z.NamesChecker(['a', 'c']))
        if r == 11:
            return 'proxied parented', Proxy(Located(Plain()),
                                             Z.NamesChecker(['a']))
        if r == 12:
            x = rng.choice([Plain, Located])()
            object.__setattr__(x, '__Security_checker__',
                               Z.NamesChecker(['d']))
            return 'declares', x
        if r == 13:
            x = LocationProxy(rng.choice([Plain(), Equal(), 3]))
            if rng.random() < .5:
                x.__parent__ = Plain()
            return 'location proxy', x
        if r == 14:
            return 'wrapper', Wrapper(Plain())
        return 'fixed', Fixed()

    # -- one call ---------------------------------------------------------------

    def make_factory(self):
        """The factory to be wrapped, as a function, a class or an object."""
        world = self

        class Callable:
            def __init__(self):
                self.__name__ = 'callable'
                self.__module__ = 'somewhere'

            def __call__(self, *args):
                return world.called(args)

        class Factory:
            def __new__(cls, *args):
                return world.called(args)

        def function(*args):
            return world.called(args)

        f = self.rng.choice([Callable(), Factory, function, lambda *args:
                             world.called(args), world.bound])
        if self.rng.random() < .1 and f is function:
            f.__name__ = 'renamed'
            f.__module__ = None
        return f

    def bound(self, *args):
        return self.called(args)

    def called(self, args):
        self.calls.append(args)
        plan = self.plan
        if plan[0] == 'raise':
            raise plan[1]
        if plan[0] == 'nest' and self.depth < 2:
            # an adapter that adapts in turn
            self.depth += 1
            saved = self.calls
            try:
                self.one_call()
            finally:
                self.depth -= 1
                self.calls = saved
            self.plan = plan
        kind, adapter = self.adapter(args)
        self.made = (kind, adapter)
        self.parent_before = parent_of(adapter)
        del SETS[:]
        return adapter

    def one_call(self):
        rng = self.rng
        cls = rng.choice([A.LocatingTrustedAdapterFactory,
                          A.TrustedAdapterFactory,
                          A.LocatingUntrustedAdapterFactory])
        factory = self.make_factory()
        wrapped = cls(factory)
        if wrapped.factory is not factory:
            self.bad('factory', 'the factory is not kept')
        for name in ('__name__', '__module__'):
            if getattr(wrapped, name) is not getattr(factory, name) and \
                    getattr(wrapped, name) != getattr(factory, name):
                self.bad('name', '%s became %r' % (
                    name, getattr(wrapped, name)))
        for i in range(rng.choice([1, 1, 2])):
            self.call(cls, wrapped)

    def call(self, cls, wrapped):
        rng = self.rng
        n = rng.choice([1, 1, 2, 2, 3, 5])
        p = rng.choice([0, .3, .5, 1])
        args = [self.argument(p) for i in range(n)]
        if rng.random() < .1:
            args.append(args[0])
        self.plan = rng.choice([('raise', Boom()), ('raise', ValueError()),
                                ('raise', KeyboardInterrupt())]) \
            if rng.random() < .08 else \
            ('nest',) if rng.random() < .1 else ('make',)
        plan = self.plan
        self.calls = []
        self.made = None
        trusted = cls is not A.LocatingUntrustedAdapterFactory
        any_proxied = any(is_proxy(a) for a in args)
        seen = [getObject(a) if trusted and is_proxy(a) else a for a in args]
        self.log.append((cls.__name__, [type(a).__name__ for a in args]))
        try:
            result = wrapped(*args)
            how = 'ok'
        except BaseException as e:
            how, result = 'raise', e
        if len(self.calls) != 1:
            return self.bad('calls', 'the factory was called %d times'
                            % len(self.calls))
        got = self.calls[0]
        if len(got) != len(seen) or any(
                a is not b for a, b in zip(got, seen)):
            return self.bad('arguments', 'the factory was called with %r, '
                            'not %r' % ([type(x) for x in got],
                                        [type(x) for x in seen]))
        self.ctx.count('calls')
        if plan[0] == 'raise':
            if how != 'raise' or result is not plan[1]:
                self.bad('exception', 'the factory raised %r, but: %s %r' % (
                    plan[1], how, result))
            self.ctx.count('exceptions')
            return
        kind, adapter = self.made
        protect = trusted and any_proxied
        located = ILocation.providedBy(adapter)
        locate = not located and (
            cls is A.LocatingUntrustedAdapterFactory
            or cls is A.LocatingTrustedAdapterFactory and protect)
        sig = (cls.__name__, kind, n, any_proxied, is_proxy(args[0]), located)
        self.log.append((kind, type(adapter).__name__))
        self.ctx.seen(sig)
        self.ctx.count('protected' if protect else 'unprotected')
        if kind == 'fixed':
            if how != 'raise' or type(result) is not AttributeError:
                self.bad('fixed', 'a parent that cannot be set: %s %r'
                         % (how, result))
            return
        if located and kind in ('argument', 'proxied parented') \
                and is_proxy(adapter):
            if parent_of(adapter) is None:
                # setting the parent is refused by the proxy
                if how != 'raise' or type(result) is not ForbiddenAttribute:
                    self.bad('refused', 'parent of a proxy: %s %r'
                             % (how, result))
                return
        if how == 'raise':
            return self.bad('raised', 'raised %r' % result)
        inner = result
        if protect:
            self.judge_proxy(result, adapter, locate)
            if is_proxy(result) and result is not adapter:
                inner = getObject(result)
        if locate:
            self.ctx.count('located')
            if inner is adapter or type(inner) is not LocationProxy:
                return self.bad('not-located', 'adapter not in a location '
                                'proxy: %r' % type(inner))
            if getProxiedObject(inner) is not adapter:
                return self.bad('wrong-adapter', 'the location proxy is for '
                                'another object')
            if inner.__parent__ is not seen[0]:
                self.bad('proxy-parent', 'the parent of the location proxy '
                         'is %r' % type(inner.__parent__))
            if inner.__name__ is not None:
                self.bad('proxy-name', 'the location proxy has a name')
            if SETS:
                self.bad('touched', 'the adapter was changed: %r' % SETS)
            return
        if inner is not adapter:
            return self.bad('wrong-result', 'the result is %r, should be '
                            'the adapter' % type(inner))
        after = parent_of(adapter)
        if located and self.parent_before is None:
            self.ctx.count('parent_given')
            if after is not seen[0]:
                self.bad('parent', 'the parent is %r, should be %r'
                         % (after, seen[0]))
            if len(SETS) > 1:
                self.bad('touched', 'the adapter was changed: %r' % SETS)
        else:
            if located:
                self.ctx.count('parent_kept')
            if after is not self.parent_before:
                self.bad('parent-changed', 'the parent became %r' % after)
            if SETS:
                self.bad('touched', 'the adapter was changed: %r' % SETS)

    def judge_proxy(self, result, adapter, locate):
        if is_proxy(adapter) and not locate:
            if result is not adapter:
                self.bad('proxied-adapter', 'a proxied adapter was changed')
            return
        if not locate:
            checker = getattr(adapter, '__Security_checker__', None)
            if checker is None:
                checker = Z.selectChecker(adapter)
            if checker is None:
                if is_proxy(result):
                    self.bad('proxied', 'proxied without a checker')
                self.ctx.count('bare')
                return
            if not is_proxy(result):
                self.bad('unprotected', 'the adapter for proxied arguments '
                         'is not protected')
                return
            if type(adapter) in self.checkers and not hasattr(
                    adapter, '__Security_checker__') and getChecker(
                        result) is not self.checkers[type(adapter)]:
                self.bad('other-checker', 'the adapter has another checker')
        elif not is_proxy(result):
            self.bad('unprotected', 'the located adapter for proxied '
                     'arguments is not protected')
            return
        # whatever the way, it must let through what the adapter's own
        # declarations do
        if is_proxy(adapter):
            own = getChecker(adapter)
        else:
            own = getattr(adapter, '__Security_checker__', None)
            if own is None:
                own = Z.selectChecker(adapter)
        self.ctx.count('proxied')
        for name in NAMES:
            want = own is not None and outcome(
                own.check, adapter, name)[0] == 'ok'
            have = outcome(getChecker(result).check, getObject(result),
                           name)[0] == 'ok'
            if want != have:
                self.bad('permissions', '%r is %s' % (
                    name, 'forbidden' if want else 'allowed'))


def parent_of(adapter):
    """The parent, without any proxy."""
    if is_proxy(adapter):
        adapter = getObject(adapter)
    return getattr(adapter, '__parent__', None)


def one(ctx, rng):
    zope.component.testing.setUp()
    try:
        w = World(ctx, rng)
        for i in range(rng.choice([1, 2, 5, 20])):
            w.one_call()
        ctx.sample(w.log)
    finally:
        zope.component.testing.tearDown()


def run(ctx):
    for i, rng in ctx.cases('adapters', 6000, 150000):
        with ctx.case():
            one(ctx, rng)
