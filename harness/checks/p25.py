"""P25: cleaning up takes back whatever was declared.

The protections are recorded at the start.  Random histories declare, undefine
and change what can be changed; then zope.testing.cleanup.cleanUp() must bring
back what was recorded, seen by all the ways that there are to see it, and
leave other threads alone."""
import collections
import datetime
import decimal
import fractions
import queue
import threading
import types
import weakref

import zope.interface
from zope.testing import cleanup

from common import *  # noqa
from zope.security import management as M
from zope.security import metaconfigure as MC
from zope.security import protectclass as PC
from zope.security import simplepolicies as SP


class I(zope.interface.Interface):
    a = zope.interface.Attribute('a')


class Plain:
    a = 1


class Declared:
    a = 1
    __Security_checker__ = Z.NamesChecker(['a'])


class MyInt(int):
    pass


class MyList(list):
    pass


def gen():
    yield 1


def values():
    """Of many types, those with default declarations and others."""
    plain = Plain()
    return [
        1, 1.5, 2j, 'a', b'a', None, True, object(), datetime.date(2020, 1, 1),
        datetime.datetime(2020, 1, 1), datetime.time(1), datetime.timedelta(1),
        [1], (1,), {1: 2}, {1}, frozenset([1]), {1: 2}.keys(), {1: 2}.items(),
        {1: 2}.values(), iter([]), iter(()), iter({}), iter(set()), gen(),
        decimal.Decimal(1), len, gen, [].append, ().__repr__, weakref.ref(plain),
        plain, Declared(), MyInt(1), MyList(), Plain, MyInt, type, I, I['a'],
        types, types.ModuleType('m'), collections.OrderedDict(a=1),
        iter(collections.OrderedDict(a=1)), collections.deque(),
        fractions.Fraction(1), Exception('a'), bytearray(), range(3),
        zope.interface.implementedBy(Plain), zope.interface.providedBy(plain),
        Plain().__init__, Z.CheckerPublic, ProxyFactory(plain)]


VALUES = values()
MODULES = [types.ModuleType('m%d' % i) for i in range(3)] + [types]
TYPES = sorted({type(removeSecurityProxy(v)) for v in VALUES},
               key=lambda t: (t.__module__, t.__qualname__)) + [
                   Declared, Plain, Exception]


def seen(v):
    """What the checker of a value is."""
    s = outcome(Z.selectChecker, v)
    f = outcome(ProxyFactory, v)
    if f[0] == 'ok':
        f = (f[0], 'bare' if f[1] is v else getChecker(f[1]))
    return (s[0], id(s[1]) if s[0] == 'ok' else type(s[1]),
            f[0], id(f[1]) if f[0] == 'ok' and f[1] != 'bare' else f[1])


def state():
    """Everything that is declared, by identity."""
    found = [seen(v) for v in VALUES]
    found += [id(Z.getCheckerForInstancesOf(t)) for t in TYPES]
    found += [id(Z.moduleChecker(m)) for m in MODULES]
    return found


DEFAULTS = sorted((t for t in Z._default_checkers
                   if isinstance(t, type) and t not in Z.BasicTypes),
                  key=lambda t: (t.__module__, t.__qualname__))


KEEP = []       # checkers whose ids are in BEFORE
for _v in VALUES:
    for _f in (Z.selectChecker, ProxyFactory):
        KEEP.append(outcome(_f, _v))


def policy(*participations):
    return Odd()


class Odd:
    participations = ()

    def checkPermission(self, permission, obj):
        return False


def history(ctx, rng, made):
    """Change a lot; return how often."""
    steps = rng.choice([0, 1, 3, 10, 40, 100])
    basic = Z.BasicTypes
    if rng.random() < .3:
        # types with declarations of their own become basic ones
        for t in rng.sample(DEFAULTS, rng.randrange(1, 4)):
            basic[t] = rng.choice([Z.NoProxy, Z.Checker({'a': 'p'})])
            ctx.count('basic_defaults')
    done = []
    for i in range(steps):
        k = rng.randrange(14)
        t = rng.choice(TYPES + made)
        checker = rng.choice([
            Z.Checker({'a': 'p'}, {'a': 'p'}), Z.NamesChecker(['a']),
            Z.NoProxy, lambda v: None, odd_checker(rng, {}),
            lambda v: Z.Checker({})])
        if k < 3:
            outcome(Z.defineChecker, t, checker)
        elif k < 5:
            outcome(Z.undefineChecker, t)
        elif k == 5:
            # (a class of this history, for the tables of the defaults are
            # changed in place)
            t = rng.choice(made)
            outcome(rng.choice([PC.protectName, PC.protectSetAttribute]),
                    t, 'a', 'p')
        elif k == 6:
            outcome(PC.protectLikeUnto, rng.choice(made), t)
        elif k == 7:
            outcome(MC.protectModule, rng.choice(MODULES), 'a', 'p')
        elif k == 8:
            outcome(M.setSecurityPolicy, rng.choice([
                policy, SP.PermissiveSecurityPolicy, None]))
        elif k == 9:
            outcome(M.newInteraction)
        elif k == 10:
            outcome(rng.choice([M.endInteraction, M.restoreInteraction]))
        elif k == 11:
            # the basic types stay what they are at the time
            t = rng.choice(made)
            outcome(basic.__setitem__, t, Z.NoProxy)
            ctx.count('basic_added')
        elif k == 12:
            t = rng.choice(made)
            if outcome(basic.__delitem__, t)[0] == 'ok':
                ctx.count('basic_removed')
        else:
            outcome(rng.choice([MC.protectModule]), rng.choice(MODULES), 'a',
                    'zope.Public')
        done.append((k, t.__name__))
    ctx.count('steps', steps)
    return done


class Other(threading.Thread):
    """A thread with an interaction of its own."""

    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.start()

    def run(self):
        while True:
            f = self.todo.get()
            if f is None:
                return
            self.done.put(outcome(f))

    def do(self, f):
        self.todo.put(f)
        return self.done.get(timeout=60)


def one(ctx, rng, before, other):
    made = []
    for i in range(rng.randrange(1, 6)):
        bases = rng.choice([(), (Plain,), (dict,), (int,)])
        made.append(type('T%d' % i, bases, {'a': 1}))
    mine = None
    if rng.random() < .5:
        def begin():
            M.endInteraction()
            i = M.thread_local.interaction = Odd()
            return i
        mine = other.do(begin)[1]
    steps = history(ctx, rng, made)
    changed = state() != before
    ctx.count('changed' if changed else 'unchanged')
    if M.queryInteraction() is not None:
        ctx.count('during_interaction')
    basic = {t: v for t, v in Z.BasicTypes.items() if t in made}
    times = rng.choice([1, 1, 2])
    for i in range(times):
        how, e = outcome(cleanup.cleanUp)
        if how != 'ok':
            return ctx.fail('raises', 'cleaning up raised %r' % (e,))
    ctx.count('cleanups')
    ctx.seen((tuple(steps), changed, len(made), len(basic), times), changed)
    for t in DEFAULTS:
        if t in Z.BasicTypes:
            # a basic type comes before the default declarations
            if Z.getCheckerForInstancesOf(t) is not Z.BasicTypes[t]:
                ctx.fail('basic-default', 'the basic type %r has %r after '
                         'cleaning up' % (t, Z.getCheckerForInstancesOf(t)))
            del Z.BasicTypes[t]
            outcome(cleanup.cleanUp)
    after = state()
    if after != before:
        n = [i for i, (a, b) in enumerate(zip(after, before)) if a != b]
        what = (VALUES + TYPES + MODULES)[n[0]]
        return ctx.fail('declarations', 'the checker of %s is another one '
                        'after cleaning up (and of %d more)' % (
                            safe_repr(what), len(n) - 1))
    for t in made:
        want = basic.get(t)
        got = Z.getCheckerForInstancesOf(t)
        if got is not want:
            ctx.fail('leftover', 'a class has %r afterwards, should have %r'
                     % (got, want))
        x = t()
        p = ProxyFactory(x)
        if want is Z.NoProxy:
            if p is not x:
                ctx.fail('basic', 'a basic type is proxied afterwards')
            del Z.BasicTypes[t]
        elif p is x or getChecker(p).get_permissions:
            ctx.fail('default', 'a class without declarations is not '
                     'protected by the default checker')
        else:
            how, e = outcome(getattr, p, 'a')
            if how == 'ok' or not isinstance(e, ForbiddenAttribute):
                ctx.fail('default', 'its attribute can be read')
        # and all starts anew
        c = Z.NamesChecker(['a'])
        how, e = outcome(Z.defineChecker, t, c)
        if how != 'ok':
            ctx.fail('again', 'cannot be declared again: %r' % (e,))
        elif Z.selectChecker(x) is not c or ProxyFactory(x).a != 1:
            ctx.fail('again', 'declared again, to no effect')
        Z.undefineChecker(t)
        ctx.count('classes')
    if M.getSecurityPolicy() is not SP.ParanoidSecurityPolicy:
        ctx.fail('policy', 'the policy is %r' % (M.getSecurityPolicy(),))
    if M.queryInteraction() is not None:
        ctx.fail('interaction', 'there is still an interaction')
    M.newInteraction()
    if type(M.getInteraction()) is not SP.ParanoidSecurityPolicy:
        ctx.fail('policy', 'interactions are by %r' % (M.getInteraction(),))
    M.endInteraction()
    if mine is not None:
        got = other.do(M.queryInteraction)
        if got != ('ok', mine):
            ctx.fail('other', 'another thread has %r, had %r' % (got, mine))
        ctx.count('other_threads')


def safe_repr(x):
    try:
        return 'a ' + type(x).__name__ + ' ' + repr(x)[:60]
    except Exception:
        return 'a ' + type(x).__name__


def run(ctx):
    cleanup.cleanUp()
    before = state()
    other = Other()
    try:
        for i, rng in ctx.cases('histories', 1500, 30000):
            with ctx.case():
                one(ctx, rng, before, other)
    finally:
        other.todo.put(None)
