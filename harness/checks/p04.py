"""P04: the checker of a value follows the declarations in force."""
import types

from common import *  # noqa


class Boom(Exception):
    pass


def make_world(rng):
    """Classes of many kinds, unrelated and related."""
    class Meta(type):
        pass

    class A:
        pass

    class B(A):
        pass

    class C(B):
        pass

    class M1(metaclass=Meta):
        pass

    class M2(M1):
        pass

    class L(list):
        pass

    class I(int):        # noqa
        pass

    class S(str):
        pass

    class D(dict):
        pass

    class T(tuple):
        pass

    class Slots:
        __slots__ = ('x',)

    class Liar:
        @property
        def __class__(self):
            return A

    class Falsy:
        def __bool__(self):
            return False

        def __len__(self):
            return 0

    class Eq:
        def __eq__(self, other):
            return True
        __hash__ = None

    mods = [types.ModuleType('mod%d' % i) for i in range(3)]
    classes = [A, B, C, Meta, M1, M2, L, I, S, D, T, Slots, Liar, Falsy, Eq]
    return classes, mods


class Model:
    """What is declared: the model of the registry."""

    def __init__(self):
        self.reg = {}


DEFAULT = object()


def expected(world, value):
    """('bare',) / ('checker', checker) / ('default',) / ('raise', exc)

    With the calls of factories which are expected.
    """
    calls = []
    if is_proxy(value):
        return ('proxy',), calls
    t = type(value)
    sc = world['declared'].get(id(value))
    if sc is None:
        for c in t.__mro__:
            if c in world['class_declared']:
                sc = world['class_declared'][c]
                break
    if sc is not None:
        if sc[0] == 'raise':
            return ('raise', sc[1]), calls
        if sc[0] == 'value':
            return ('checker', sc[1]), calls
        # ('none',): raises AttributeError, counts as not declared
    return registered(world, value, calls), calls


def registered(world, value, calls):
    t = type(value)
    reg = world['reg'].get(t)
    if reg is None:
        if t in world['builtin']:
            return ('builtin', world['builtin'][t])
        return ('default',)
    return resolve(reg, value, calls)


def resolve(reg, value, calls):
    kind = reg[0]
    if kind == 'checker':
        return ('checker', reg[1])
    if kind == 'noproxy':
        return ('bare',)
    # factory
    calls.append((reg[1], value))
    then = reg[2]
    if then[0] == 'raise':
        return ('raise', then[1])
    if then[0] in ('none', 'noproxy'):
        return ('bare',)
    if then[0] == 'same':
        return resolve(('checker', then[1]), value, calls)
    return resolve(then, value, calls)


def make_registration(rng, world, depth=0):
    r = rng.random()
    if r < .4:
        k = rng.randrange(4)
        if k == 0:
            c = Z.Checker({'a': CheckerPublic}, {})
        elif k == 1:
            c = Z.NamesChecker(['b'])
        elif k == 2:
            c = Z.CombinedChecker(Z.Checker({}, {}), Z.Checker({}, {}))
        else:
            c = odd_checker(rng, {}, {})
        return ('checker', c)
    if r < .55:
        return ('noproxy', Z.NoProxy)
    # a factory
    tok = object()
    k = rng.random()
    if k < .15:
        then = ('raise', rng.choice([Boom('factory'), AttributeError('f'),
                                     TypeError('f'), KeyError('f')]))
    elif k < .3:
        then = ('none', None)
    elif k < .42:
        then = ('noproxy', Z.NoProxy)
    elif k < .7 or depth > 3:
        then = ('checker', odd_checker(rng, {'f': CheckerPublic}, {}))
    else:
        then = make_registration(rng, world, depth + 1)

    def factory(value, tok=tok, then=then):
        world['calls'].append((tok, value))
        if then[0] == 'raise':
            raise then[1]
        if then[0] == 'factory':
            return then[3]
        return then[1]
    if rng.random() < .3:
        class Callable:
            __call__ = staticmethod(factory)
        factory = odd_class(rng, Callable)()
    return ('factory', tok, then, factory)


def reg_value(reg):
    return reg[3] if reg[0] == 'factory' else reg[1]


def values_for(rng, world):
    """A value to proxy, perhaps with its own declaration."""
    cls = rng.choice(world['classes'])
    r = rng.random()
    if r < .12:
        return rng.choice(world['mods'])
    if r < .22:
        return cls                      # the class itself
    if r < .4:
        return rng.choice([1, 'x', None, 2.5, b'', True, [1], {}, (), set(),
                           frozenset(), object(), range(3), 1j,
                           lambda: 1, len, iter([]), Ellipsis,
                           slice(1), bytearray(), memoryview(b'x'),
                           property(), NotImplemented])
    if r < .48:
        v = Proxy(rng.choice([object(), [1], world['classes'][0]()]),
                  Z.Checker({}, {}))
        return v
    if issubclass(cls, type):
        v = cls('Dyn', (), {})
    else:
        v = cls()
    world['keep'].append(v)
    if rng.random() < .25 and hasattr(v, '__dict__') \
            and not isinstance(v, type):
        c = odd_checker(rng, {'own': CheckerPublic}, {})
        v.__dict__['__Security_checker__'] = c
        world['declared'][id(v)] = ('value', c)
        # data descriptors of the class take precedence
        for k in type(v).__mro__:
            if k in world['class_declared']:
                if world['class_declared'][k][2:] == ('property',):
                    del world['declared'][id(v)]
                break
    return v


def declare_class(rng, world):
    cls = rng.choice(world['classes'][:3] + [world['classes'][6]])
    if rng.random() < .5 and cls in world['class_declared']:
        del cls.__Security_checker__
        del world['class_declared'][cls]
        return
    r = rng.random()
    if r < .4:
        c = odd_checker(rng, {'cls': CheckerPublic}, {})
        cls.__Security_checker__ = c
        world['class_declared'][cls] = ('value', c, 'plain')
        return
    if r < .6:
        c = odd_checker(rng, {'prop': CheckerPublic}, {})
        how = ('value', c, 'property')
    elif r < .8:
        how = ('none', AttributeError('no checker'), 'property')
    else:
        how = ('raise', rng.choice([Boom('b'), ValueError('v'), KeyError('k'),
                                    TypeError('t'), RuntimeError('r')]),
               'property')

    def get(self, how=how):
        if how[0] == 'value':
            return how[1]
        raise how[1]
    cls.__Security_checker__ = property(get)
    world['class_declared'][cls] = how


ROUTES = ['factory', 'checker', 'subclass', 'attr', 'item', 'call', 'select',
          'combined']


class Holder:
    pass


def route_proxy(rng, route, value):
    if route == 'factory':
        return Z.ProxyFactory(value)
    if route == 'checker':
        return Z.Checker({}, {}).proxy(value)
    if route == 'subclass':
        return type('Sub', (Z.Checker,), {})({}, {}).proxy(value)
    if route == 'combined':
        return Z.CombinedChecker(Z.Checker({}, {}),
                                 Z.Checker({}, {})).proxy(value)
    if route == 'attr':
        h = Holder()
        h.v = value
        return Proxy(h, Z.NamesChecker(['v'])).v
    if route == 'item':
        return Proxy([value], Z.NamesChecker(['__getitem__']))[0]
    if route == 'call':
        return Proxy(lambda: value, Z.NamesChecker(['__call__']))()
    raise KeyError(route)


BUILTIN = {}


def builtin_table():
    if not BUILTIN:
        for t in (int, str, type(None), float, bytes, bool, complex, object):
            BUILTIN[t] = 'bare'
        for t in (list, dict, tuple, set, frozenset, type, types.FunctionType,
                  types.BuiltinFunctionType, type(iter([])),
                  types.ModuleType):
            BUILTIN[t] = 'names'
    return BUILTIN


def one(ctx, rng):
    classes, mods = make_world(rng)
    world = {'classes': classes, 'mods': mods,
             'reg': {}, 'declared': {}, 'class_declared': {}, 'calls': [],
             'keep': [], 'builtin': builtin_table()}
    targets = classes + mods
    try:
        for step in range(rng.randrange(8, 40)):
            r = rng.random()
            if r < .25:
                step_define(ctx, rng, world, rng.choice(targets))
            elif r < .33 and world['reg']:
                t = rng.choice(list(world['reg']))
                Z.undefineChecker(t)
                del world['reg'][t]
                ctx.count('undefined')
            elif r < .36:
                t = rng.choice(targets)
                if t not in world['reg']:
                    how, e = outcome(Z.undefineChecker, t)
                    if how != 'raise' or type(e) is not KeyError:
                        ctx.fail('undefine-unknown', '%s %r' % (how, e))
            elif r < .40:
                bad = rng.choice([1, 'x', None, object(), lambda: 1,
                                  classes[0](), [int], Z.Checker({}, {})])
                how, e = outcome(Z.defineChecker, bad, Z.Checker({}, {}))
                if how != 'raise' or type(e) is not TypeError:
                    ctx.fail('define-nontype', 'defining a checker for %r: '
                             '%s %r' % (bad, how, e))
            elif r < .45:
                declare_class(rng, world)
            else:
                observe(ctx, rng, world)
            lookup(ctx, rng, world, rng.choice(targets))
    finally:
        for t in world['reg']:
            Z.undefineChecker(t)


def step_define(ctx, rng, world, t):
    reg = make_registration(rng, world)
    value = reg_value(reg)
    how, e = outcome(Z.defineChecker, t, value)
    if t in world['reg']:
        ctx.count('duplicates')
        if how != 'raise' or type(e).__name__ != 'DuplicationError':
            ctx.fail('duplicate', 'a second definition for %r: %s %r'
                     % (t, how, e))
    elif how != 'ok':
        ctx.fail('define', 'defining %r: %r' % (t, e))
    else:
        world['reg'][t] = reg
        ctx.count('defined')


def lookup(ctx, rng, world, t):
    want = world['reg'].get(t)
    want = None if want is None else reg_value(want)
    got = Z.getCheckerForInstancesOf(t)
    if got is not want:
        ctx.fail('lookup', 'getCheckerForInstancesOf(%r): %r' % (t, got))
    if isinstance(t, types.ModuleType):
        got = Z.moduleChecker(t)
        if got is not want:
            ctx.fail('lookup', 'moduleChecker(%r): %r' % (t, got))


def observe(ctx, rng, world):
    value = values_for(rng, world)
    route = rng.choice(ROUTES)
    del world['calls'][:]
    if isinstance(value, types.ModuleType):
        reg = world['reg'].get(value)
        calls = []
        if reg is None:
            want = ('names', {'__name__': CheckerPublic})
        else:
            want = resolve(reg, value, calls)
    elif route == 'select':
        calls = []
        want = ('bare',) if is_proxy(value) else registered(
            world, value, calls)
    else:
        want, calls = expected(world, value)
    if isinstance(value, type) and type(value) is type \
            and want[0] != 'checker' and route != 'select':
        # the class attribute counts for the class as a value, too
        for k in value.__mro__:
            if k in world['class_declared']:
                how = world['class_declared'][k]
                if how[2] == 'plain':
                    want = ('checker', how[1])
                else:
                    return      # a property object: not a checker
                calls = []
                break
    elif isinstance(value, type) and any(
            k in world['class_declared'] for k in value.__mro__):
        return
    if route == 'select':
        how, got = outcome(Z.selectChecker, value)
    else:
        how, got = outcome(route_proxy, rng, route, value)
    got_calls = list(world['calls'])
    desc = 'route %s, a %s, expected %s' % (route, type(value).__name__,
                                            want[0])
    ctx.count('selections')
    ctx.seen((route, type(value).__name__, want[0], len(calls), how,
              id(value) in world['declared'], len(world['reg'])))

    def bad(key, msg):
        ctx.fail('%s-%s' % (key, want[0]), '%s: %s' % (desc, msg))
    if len(got_calls) != len(calls) or any(
            a[0] is not b[0] or a[1] is not b[1]
            for a, b in zip(got_calls, calls)):
        bad('factory-calls', 'factories called %d times, expected %d; or '
            'with another value' % (len(got_calls), len(calls)))
    if want[0] == 'raise':
        if how == 'raise' and route == 'attr' and ctx.pure and \
                type(got) is type(want[1]) is AttributeError:
            return
        if how != 'raise' or got is not want[1]:
            bad('error-lost', 'expected %r, got %s %r' % (want[1], how, got))
        return
    if how != 'ok':
        return bad('raised', 'raised %r' % (got,))
    if route == 'select':
        checker = got
        if want[0] == 'bare' or want[:2] == ('builtin', 'bare'):
            if got is not None:
                bad('select', 'gave %r' % (got,))
            return
        if got is None:
            return bad('select', 'gave None')
    else:
        if want[0] == 'proxy':
            if got is not value:
                bad('reproxied', 'not the same proxy')
            return
        if want[0] == 'bare' or want[:2] == ('builtin', 'bare'):
            if got is not value:
                bad('proxied', 'not handed out bare')
            return
        if not is_proxy(got):
            return bad('unproxied', 'handed out bare')
        if getObject(got) is not value:
            return bad('object', 'a proxy of another object')
        checker = getChecker(got)
    if want[0] == 'checker':
        if checker is not want[1]:
            bad('checker', 'got another checker %r' % (
                getattr(checker, 'get_permissions', checker),))
        ctx.count('declared_checkers')
    elif want[0] == 'names':
        if dict(checker.get_permissions) != want[1]:
            bad('checker', 'got %r' % (checker.get_permissions,))
    elif want[0] == 'default':
        ctx.count('default_checkers')
        if checker.get_permissions or checker.set_permissions:
            bad('checker', 'got %r %r' % (checker.get_permissions,
                                          checker.set_permissions))
        for name in ('foo', '__len__', '__call__', '__iter_', '__getitem__'):
            h, e = outcome(checker.check, value, name)
            if h == 'ok':
                bad('default', 'permits %s' % name)
            h, e = outcome(checker.check_setattr, value, name)
            if h == 'ok':
                bad('default', 'permits setting %s' % name)
    elif want[0] == 'builtin':
        if not checker.get_permissions:
            bad('checker', 'permits nothing')


def run(ctx):
    for i, rng in ctx.cases('histories', 4000, 120000):
        with ctx.case():
            one(ctx, rng)
