"""P13: nothing is leaked, and cycles through proxies are collected.

Two monitors: the reference counts of everything that takes part in an
operation (and the number of allocated blocks) must be the same after it as
before; and every object of a random graph must have been finalized after the
last outside reference to it is gone and the collector has run.
"""
import gc
import itertools
import operator
import sys
import threading
import weakref

from common import *  # noqa
from zope.security import adapter as ZA
from zope.security import decorator as ZD
from zope.security import management as M
from zope.security import protectclass as ZP
from zope.security.interfaces import IInteraction  # noqa: F401
import zope.interface
import zope.location.location
import p11

getrefcount = sys.getrefcount
blocks = sys.getallocatedblocks


class Boom(Exception):
    pass


# -- objects that do as planned --------------------------------------------------

class Actor:
    """Its methods do as the plan says; they keep nothing."""
    __slots__ = ('plan', 'attr', 'data', '__weakref__')

    def __init__(self, plan, data):
        object.__setattr__(self, 'plan', plan)
        object.__setattr__(self, 'attr', data)
        object.__setattr__(self, 'data', data)

    def __setattr__(self, name, value):
        act(self, None)

    def __delattr__(self, name):
        act(self, None)


def act(self, default):
    what = self.plan
    if what == 'raise':
        raise Boom
    if what == 'decline':
        return NotImplemented
    if what == 'self':
        return self
    if what == 'data':
        return self.data
    if what == 'str':
        return StrSub('s')
    if callable(default):
        return default()
    return default


METHODS = {
    '__len__': 3, '__contains__': True, '__bool__': True, '__hash__': 7,
    '__int__': 500000, '__float__': 2.5, '__index__': 400000,
    '__complex__': 1j, '__str__': lambda: ''.join(['s', 'x']),
    '__repr__': lambda: ''.join(['r', 'y']), '__setitem__': None,
    '__delitem__': None, '__iter__': lambda: iter([1, 2]),
    '__next__': lambda: [1], '__length_hint__': 2,
}
for _n in list(UNARY):
    METHODS['__%s__' % _n] = lambda: ['fresh']
for _n in list(COMPARE):
    METHODS['__%s__' % _n] = lambda: ['fresh']
for _n in BINARY:
    for _k in ('', 'r', 'i'):
        METHODS['__%s%s__' % (_k, _n)] = lambda: ('fresh', [1])
METHODS['__getitem__'] = METHODS['__call__'] = lambda: Fresh()
METHODS['method'] = METHODS['__getattr__'] = lambda: Fresh()


class StrSub(str):
    pass


class Fresh:
    pass


class Declared:
    __Security_checker__ = Z.Checker({})


class Factoried:
    pass


def method(name, default):
    if name in ('__call__', 'method'):
        def m(self, *args, **kw):
            return act(self, default)
    elif name == '__getattr__':
        def m(self, n):
            if n in ('missing', '__Security_checker__', '__iter__',
                     '__providedBy__', '__provides__', '__fspath__',
                     '__length_hint__') or n.startswith('__'):
                raise AttributeError(n)
            return act(self, default)
    elif name == '__hash__':
        def m(self):
            # (CPython itself leaks what is not an int.)
            if self.plan == 'raise':
                raise Boom
            return default
    else:
        def m(self, *args):
            return act(self, default)
    m.__name__ = name
    return m


def actor_class(without=()):
    return type('ActorSub', (Actor,), dict(
        {n: method(n, d) for n, d in METHODS.items() if n not in without},
        __slots__=()))


FULL = NOITER = NONE = None
NAMES = sorted(set(METHODS) - {'__bool__', '__hash__'}) + [
    'attr', 'method', 'missing', 'data', '__class__', '__3pow__', 'plan']


def _set(p, a):
    p.attr = a


def _del(p):
    del p.attr


def _imake(op):
    def f(p, a):
        p = op(p, a)
        return p
    return f


def operations():
    """name, function of (proxy, argument, checker, object)"""
    ops = []

    def add(name, f):
        ops.append((name, f))
    for n, f in BINARY.items():
        add(n, lambda p, a, c, o, f=f: f(p, a))
        add('r' + n, lambda p, a, c, o, f=f: f(a, p))
        add(n + '-two', lambda p, a, c, o, f=f: f(p, p))
    for n, f in INPLACE.items():
        add('i' + n, lambda p, a, c, o, f=f: f(p, a))
        add('ri' + n, lambda p, a, c, o, f=f: f(a, p))
    for n, f in COMPARE.items():
        add(n, lambda p, a, c, o, f=f: f(p, a))
        add('r' + n, lambda p, a, c, o, f=f: f(a, p))
    for n, f in UNARY.items():
        add(n, lambda p, a, c, o, f=f: f(p))
    for n, f in [('len', len), ('iter', iter), ('next', next),
                 ('hash', hash), ('bool', bool), ('int', int),
                 ('float', float), ('str', str), ('repr', repr),
                 ('index', operator.index),
                 ('list', lambda p: list(itertools.islice(p, 5))),
                 ('hint', operator.length_hint), ('format', format),
                 ('complex', complex), ('dir', dir), ('callable', callable),
                 ('getObject', getObject),
                 ('getChecker', lambda p: getChecker(p)),
                 ('remove', removeSecurityProxy)]:
        add(n, lambda p, a, c, o, f=f: f(p))
    add('call', lambda p, a, c, o: p(a))
    add('call0', lambda p, a, c, o: p())
    add('callkw', lambda p, a, c, o: p(a, x=a, **{'y': o}))
    add('callmany', lambda p, a, c, o: p(*[a] * 30))
    add('attr', lambda p, a, c, o: p.attr)
    add('missing', lambda p, a, c, o: p.missing)
    add('method', lambda p, a, c, o: p.method)
    add('method()', lambda p, a, c, o: p.method(a))
    add('getattr', lambda p, a, c, o: getattr(p, ''.join(['at', 'tr'])))
    add('getattr-new', lambda p, a, c, o: getattr(p, ''.join(['zz', 'y%d' % 5])))
    add('getattr-dunder', lambda p, a, c, o: getattr(
        p, ''.join(['__z', 'y%d__' % 5])))
    add('getattr-wide', lambda p, a, c, o: getattr(
        p, ''.join(['__z\u20ac', 'y%d__' % 5])))
    add('getattr-surrogate', lambda p, a, c, o: getattr(
        p, ''.join(['__z\udc80', 'y%d__' % 5])))
    add('getattr-bad', lambda p, a, c, o: getattr(p, a))
    add('hasattr', lambda p, a, c, o: hasattr(p, 'attr'))
    add('class', lambda p, a, c, o: p.__class__)
    add('setattr', lambda p, a, c, o: setattr(p, 'attr', a))
    add('setattr-new', lambda p, a, c, o: setattr(
        p, ''.join(['zz', 'y%d' % 5]), a))
    add('delattr', lambda p, a, c, o: delattr(p, 'attr'))
    add('getitem', lambda p, a, c, o: p[a])
    add('getslice', lambda p, a, c, o: p[500:1000])
    add('setitem', lambda p, a, c, o: operator.setitem(p, a, a))
    add('delitem', lambda p, a, c, o: operator.delitem(p, a))
    add('contains', lambda p, a, c, o: a in p)
    add('pow3', lambda p, a, c, o: pow(p, a, 3))
    add('pow3b', lambda p, a, c, o: pow(3, p, a))
    add('pow3c', lambda p, a, c, o: pow(3, a, p))
    add('key', lambda p, a, c, o: {p: a}[p])
    add('isinstance', lambda p, a, c, o: isinstance(p, Actor))
    add('isinstance2', lambda p, a, c, o: PX.isinstance(p, Actor))
    add('subclass', lambda p, a, c, o: issubclass(p, Actor))
    add('unpack', lambda p, a, c, o: [*itertools.islice(iter(p), 4)])
    try:
        import _testcapi
    except ImportError:
        pass
    else:
        add('seqget', lambda p, a, c, o: _testcapi.sequence_getitem(
            p, 70000))
        add('seqset', lambda p, a, c, o: _testcapi.sequence_setitem(
            p, 70000, 5))
        add('seqdel', lambda p, a, c, o: _testcapi.sequence_delitem(
            p, 70000))
    # type level, and wrong
    for n in ('__getattribute__', '__setattr__', '__call__', '__add__',
              '__getitem__', '__new__', '__init__'):
        f = getattr(Proxy, n)
        for k in range(4):
            add('Proxy.%s/%d' % (n, k), lambda p, a, c, o, f=f, k=k: f(
                *[p, 'attr', a][:k]))
            add('Proxy.%s/w%d' % (n, k), lambda p, a, c, o, f=f, k=k: f(
                *[o, a, c][:k]))
    add('Proxy', lambda p, a, c, o: Proxy(o, c))
    add('Proxy-none', lambda p, a, c, o: Proxy(o, None))
    add('Proxy-kw', lambda p, a, c, o: Proxy(checker=c, object=a))
    add('Proxy-bad', lambda p, a, c, o: Proxy(o, c, a))
    add('Proxy-sub', lambda p, a, c, o: SubProxy(o, c).attr)
    add('Proxy-proxy', lambda p, a, c, o: Proxy(p, c)[a])
    # checkers
    for n in ('check', 'check_getattr', 'check_setattr'):
        add(n, lambda p, a, c, o, n=n: getattr(c, n)(o, 'attr'))
        add(n + '-new', lambda p, a, c, o, n=n: getattr(c, n)(
            o, ''.join(['__n', 'e%d' % 7])))
        add(n + '-odd', lambda p, a, c, o, n=n: getattr(c, n)(o, (1, 2, 3.5)))
        add(n + '-bad', lambda p, a, c, o, n=n: getattr(c, n)(o))
        add(n + '-iter', lambda p, a, c, o, n=n: getattr(c, n)(
            a, '__iter__'))
    for n in ('permission_id', 'setattr_permission_id'):
        add(n, lambda p, a, c, o, n=n: getattr(c, n)('attr'))
        add(n + '-not', lambda p, a, c, o, n=n: getattr(c, n)('nope'))
    add('proxy', lambda p, a, c, o: c.proxy(o))
    add('proxy-arg', lambda p, a, c, o: c.proxy(a))
    add('proxy-proxy', lambda p, a, c, o: c.proxy(p))
    add('proxy-declared', lambda p, a, c, o: c.proxy(Declared()))
    add('proxy-factory', lambda p, a, c, o: c.proxy(Factoried()))
    add('proxy-exc', lambda p, a, c, o: c.proxy(ValueError(a)))
    add('proxy-builtin', lambda p, a, c, o: c.proxy([a]).copy)
    add('proxy-none', lambda p, a, c, o: c.proxy(NONE))
    add('tables', lambda p, a, c, o: (c.get_permissions, c.set_permissions))
    add('init', lambda p, a, c, o: Z.Checker({'a': a}, {'b': o}))
    add('init2', lambda p, a, c, o: reinit(Z.Checker({'a': a}), a))
    add('init3', lambda p, a, c, o: reinit(Z.Checker({'a': a}, {}), o))
    add('init-bad', lambda p, a, c, o: Z.Checker(a, o))
    add('init-bad2', lambda p, a, c, o: Z.Checker({'a': a}, a))
    add('init-again', lambda p, a, c, o: again(Z.Checker({'a': a})))
    add('uninit', lambda p, a, c, o: Z.Checker.__new__(
        Z.Checker).get_permissions)
    add('uninit2', lambda p, a, c, o: Z.Checker.__new__(
        Z.Checker).check_setattr(o, 'attr'))
    add('sub', lambda p, a, c, o: SubChecker({'a': a}))
    add('combined', lambda p, a, c, o: Z.CombinedChecker(c, c).check(
        o, 'attr') if isinstance(c, Z.Checker) else 0)
    add('combined-set', lambda p, a, c, o: Z.CombinedChecker(
        c, c).check_setattr(o, 'attr') if isinstance(c, Z.Checker) else 0)
    add('names', lambda p, a, c, o: Z.NamesChecker(['a', 'b'], a, c=o))
    add('names-dup', lambda p, a, c, o: Z.NamesChecker(['a'], a, a=o))
    add('multi', lambda p, a, c, o: Z.MultiChecker([('ab', a), (IA, o)]))
    add('multi-dup', lambda p, a, c, o: Z.MultiChecker(
        [('ab', a), ('a', o)]))
    add('interface', lambda p, a, c, o: Z.InterfaceChecker(IA, a, m=a))
    add('select', lambda p, a, c, o: Z.selectChecker(o))
    add('select2', lambda p, a, c, o: Z.selectChecker(Factoried()))
    add('select3', lambda p, a, c, o: Z.selectChecker(Z))
    add('select4', lambda p, a, c, o: Z.selectChecker(Deep()))
    add('select5', lambda p, a, c, o: Z.selectChecker(Bad()))
    add('select6', lambda p, a, c, o: Z.selectChecker(Liar()))
    add('select7', lambda p, a, c, o: Z.selectChecker(Unproxied()))
    add('proxy-not', lambda p, a, c, o: c.proxy(Unproxied()))
    add('factory', lambda p, a, c, o: ProxyFactory(o))
    add('factory2', lambda p, a, c, o: ProxyFactory(o, c))
    add('factory3', lambda p, a, c, o: ProxyFactory(p, c))
    add('factory4', lambda p, a, c, o: ProxyFactory(p, Z.Checker({})))
    add('canAccess', lambda p, a, c, o: Z.canAccess(p, 'attr'))
    add('canWrite', lambda p, a, c, o: Z.canWrite(p, 'attr'))
    add('checkers', lambda p, a, c, o: Z.getCheckerForInstancesOf(type(o)))
    add('define', lambda p, a, c, o: (
        Z.defineChecker(Other, Z.Checker({'a': a})),
        outcome(Z.defineChecker, Other, c), Z.undefineChecker(Other)))
    add('define-bad', lambda p, a, c, o: Z.defineChecker(o, c))
    add('protect', lambda p, a, c, o: protect(a))
    # management
    add('permission', lambda p, a, c, o: M.checkPermission('perm', o))
    add('permission2', lambda p, a, c, o: M.checkPermission(
        a, o, M.queryInteraction()))
    add('restore', lambda p, a, c, o: (
        M.endInteraction(), M.restoreInteraction()))
    # adapters and decorators
    add('adapter', lambda p, a, c, o: ZA.TrustedAdapterFactory(
        Adapter)(p, a))
    add('adapter2', lambda p, a, c, o: ZA.LocatingTrustedAdapterFactory(
        Adapter)(o, p))
    add('adapter3', lambda p, a, c, o: ZA.LocatingUntrustedAdapterFactory(
        Adapter)(o))
    add('decorator', lambda p, a, c, o: ZD.DecoratorBase(
        p).__Security_checker__)
    add('decorator2', lambda p, a, c, o: ProxyFactory(ZD.DecoratorBase(
        o)).attr)
    add('location', lambda p, a, c, o: ProxyFactory(
        zope.location.location.LocationProxy(o, a, 'n')).__parent__)
    return ops


class Adapter:
    def __init__(self, *context):
        self.context = context


class IA(zope.interface.Interface):
    def m():
        pass
    x = zope.interface.Attribute('x')


class SubProxy(Proxy):
    pass


class SubChecker(Z.Checker):
    pass


class Other:
    pass


class Deep:
    pass


class Unproxied:
    pass


class Bad:
    pass


class Liar:
    @property
    def __class__(self):
        raise Boom


def reinit(c, a):
    c.__init__({'z': a}, {'y': a})
    outcome(c.__init__, {'z': a}, 5)
    outcome(c.__init__)
    return c


class Redo:
    def __init__(self, c):
        self.c = c

    def __del__(self):
        c = self.c
        self.c = None
        c.__init__({'again': [1]}, {'q': [2]})


def again(c):
    c.__init__({'a': Redo(c)}, {'b': Redo(c)})
    c.__init__({}, {})
    return c


def protect(a):
    ZP.protectName(Protected, 'a', 'zope.Public')
    ZP.protectSetAttribute(Protected, 'a', 'zope.Public')
    ZP.protectLikeUnto(Protected2, Protected)
    Z.undefineChecker(Protected)
    Z.undefineChecker(Protected2)


class Protected:
    pass


class Protected2:
    pass


# -- objects whose class is another, of a strange kind -------------------------------

class Klass:
    """Its __name__ and __module__ are computed, fail, or are missing."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    def __getattribute__(self, name):
        if name in ('__name__', '__module__'):
            parts = object.__getattribute__(self, 'parts')
            return give(parts[name == '__module__'])
        return object.__getattribute__(self, name)


def give(what):
    if what is Boom or what is AttributeError:
        raise what('no')
    if what == 'new':
        return ''.join(['ne', 'w'])
    if what == 'new-list':
        return [what]
    return what


class Guise:
    __slots__ = ('parts', 'klass')

    def __init__(self, parts, klass):
        self.parts = parts
        self.klass = klass

    @property
    def __class__(self):
        if self.klass is None:
            return Klass(self.parts)
        return give(self.klass)


def guise(rng):
    parts = tuple(rng.choice([
        'new', 'new', 'new-list', ''.join(['he', 'ld']), Boom,
        AttributeError, StrSub('sub'), 5.25, None]) for i in range(2))
    return Guise(parts, rng.choice([
        None, Klass(parts), Klass(parts), Klass(parts), Boom, AttributeError]))


def repr_refused():
    return Z.Checker({'__repr__': None, '__str__': None})


# -- interactions ----------------------------------------------------------------------

class Fixed:
    """Answers and keeps nothing."""
    __slots__ = ('answer', 'participations')

    def __init__(self, answer):
        self.answer = answer
        self.participations = ()

    def checkPermission(self, permission, object):
        answer = self.answer
        if answer == 'raise':
            raise Boom
        if answer == 'odd':
            return Odd()
        if answer == 'list':
            return [1]
        return answer


class Odd:
    def __bool__(self):
        raise Boom


def make_checker(rng, kind, perm, perm2):
    if kind == 'public':
        c = Z.Checker(dict.fromkeys(NAMES, CheckerPublic),
                      dict.fromkeys(NAMES, CheckerPublic))
    elif kind == 'permission':
        c = Z.Checker(dict.fromkeys(NAMES, perm),
                      dict.fromkeys(NAMES, perm2))
    elif kind == 'sub':
        c = SubChecker(dict.fromkeys(NAMES, perm),
                       dict.fromkeys(NAMES, perm2))
    elif kind == 'none':
        c = Z.Checker(dict.fromkeys(NAMES), dict.fromkeys(NAMES))
    elif kind == 'empty':
        c = Z.Checker({}, {})
    elif kind == 'uninit':
        c = Z.Checker.__new__(Z.Checker)
        if not hasattr(c, 'get_permissions'):
            c = Z.Checker({}, {})
    elif kind == 'combined':
        c = Z.CombinedChecker(
            Z.Checker({}, {}), Z.Checker(dict.fromkeys(NAMES, perm),
                                         dict.fromkeys(NAMES, perm2)))
    elif kind == 'python':
        c = PyChecker()
    else:
        c = FastPyChecker()
    return c


class PyChecker:
    __slots__ = ()

    def check(self, o, n):
        return [n]
    check_getattr = check_setattr = check

    def proxy(self, value):
        return [value]


class FastPyChecker(PyChecker):
    __slots__ = ()

    def __setitem__(self, o, n):
        pass

    def __getitem__(self, value):
        return [value]


def counts(ctx, rng):
    """No operation changes a reference count."""
    perm, perm2 = ''.join(['pe', 'rm']), ''.join(['pe', 'rm2'])
    kind = rng.choice(['public', 'public', 'permission', 'permission', 'sub',
                       'none', 'empty', 'uninit', 'combined', 'python',
                       'fast'])
    answer = rng.choice([True, True, True, False, False, 'raise', 'odd',
                         'list', None])
    inter = Fixed(answer)
    c = make_checker(rng, kind, perm, perm2)
    data = [1.5]
    plan = rng.choice(['', '', '', 'raise', 'decline', 'self', 'data', 'str'])
    cls = rng.choice([FULL, FULL, FULL, NOITER, Actor])
    o = rng.choice([
        lambda: cls(plan, data), lambda: cls(plan, data),
        lambda: cls(plan, data), lambda: (1.5, data), lambda: 500,
        lambda: {'a': data}, lambda: frozenset([1.5]), lambda: ''.join(
            ['te', 'xt']), lambda: [data, 2.5, 'x'], lambda: 3.25,
        lambda: Fresh(), lambda: Adapter(data), lambda: range(700, 900)])()
    arg = rng.choice([lambda: 3.75, lambda: Fresh(), lambda: [2.5],
                      lambda: 987, lambda: cls('', [1]),
                      lambda: cls('decline', [1]), lambda: 1,
                      lambda: ''.join(['a', 'rg']), lambda: (1.5, 2)])()
    if rng.random() < .5:
        set_interaction(inter)
    else:
        M.endInteraction()
        M.endInteraction()
        if rng.random() < .7:
            set_interaction(inter)
    try:
        p = Proxy(o, c)
        watched = [o, arg, c, data, perm, perm2, inter, cls, type(o), p,
                   NoProxy, CheckerPublic, type(o).__module__]
        for name, f in (rng.sample(OPS, 14)):
            measure(ctx, name, f, p, arg, c, o, kind, answer, plan, watched)
        o = guise(rng)
        c = rng.choice([c, repr_refused()])
        p = Proxy(o, c)
        watched = [o, arg, c, data, perm, perm2, inter, o.klass, o.parts, p,
                   NoProxy, CheckerPublic, Guise.__module__,
                   o.parts[0], o.parts[1]]
        for name in ('str', 'repr', rng.choice(list(BY_NAME))):
            f = BY_NAME[name]
            measure(ctx, name, f, p, arg, c, o, kind, answer, plan, watched)
            ctx.count('odd_class_operations')
    finally:
        clear_interaction()


def loop(f, p, arg, c, o, n):
    """Call n times; say how it ended."""
    r = None
    for i in RANGE[n]:
        try:
            r = f(p, arg, c, o)
        except Exception:
            r = None
    return None


RANGE = {n: [None] * n for n in (3, 20, 60, 200)}


def mutates(name, o, arg):
    """Does the operation keep the argument on purpose, or grow?"""
    if issubclass(type(o), (list, dict)):
        return True
    if isinstance(arg, list) and name.startswith('ri'):
        return True
    if name in ('setattr', 'setattr-new', 'delattr', 'Proxy.__setattr__/3') \
            and issubclass(type(o), (Fresh, Adapter)):
        return True
    if name.startswith('adapter') or name.startswith('location'):
        return issubclass(type(o), (Fresh, Adapter))
    return False


def measure(ctx, name, f, p, arg, c, o, kind, answer, plan, watched):
    if mutates(name, o, arg):
        return
    how, e = outcome(f, p, arg, c, o)
    what = type(e).__name__ if how == 'raise' else 'ok'
    e = None
    loop(f, p, arg, c, o, 3)
    tables = []
    if type(c) in (Z.Checker, SubChecker):
        tables = [c.get_permissions, c.set_permissions]
    watched = watched + tables
    ctx.count('operations')
    ctx.count('outcome_' + ('ok' if how == 'ok' else
                            what if what in ('ForbiddenAttribute',
                                             'Unauthorized') else 'other'))
    ctx.seen((name, kind, answer if what != 'ok' else 0, plan,
              type(o).__name__, type(arg).__name__, what))
    for n in (20, 20, 60, 200):
        if n > 20:
            # perhaps it was something else: see if it keeps on growing
            gc.collect()
        before = [getrefcount(x) for x in watched]
        b0 = blocks()
        loop(f, p, arg, c, o, n)
        if n > 20:
            gc.collect()
        b1 = blocks()
        after = [getrefcount(x) for x in watched]
        diff = [(j, b - a) for j, (a, b) in enumerate(zip(before, after))
                if abs(b - a) >= n // 2]
        if not diff and b1 - b0 < n * .9:
            return
        ctx.count('looked_closer')
    labels = ['object', 'argument', 'checker', 'attribute', 'permission',
              'permission', 'interaction', 'class', 'class', 'proxy',
              'NoProxy', 'CheckerPublic', 'module', 'read table',
              'write table', 'more', 'more']
    if diff:
        ctx.fail('refcount-' + name, '%s of a %s (%s, %s, plan %r, outcome '
                 '%s): references after 200 times: %r' % (
                     name, type(o).__name__, kind, answer, plan, what,
                     [(labels[j], d) for j, d in diff]))
    else:
        ctx.fail('blocks-' + name, '%s of a %s with a %s (%s, %s, plan %r, '
                 'outcome %s): %d blocks after 200 times' % (
                     name, type(o).__name__, type(arg).__name__, kind,
                     answer, plan, what, b1 - b0))


# -- dropping everything ----------------------------------------------------------

class Perm(str):
    """A permission whose end is seen."""
    __slots__ = ('token', '__weakref__')


def released(ctx, rng):
    """After some operations all that took part is dropped: it must go."""
    ledger = set()
    perm, perm2 = Perm('perm'), Perm('perm2')
    perm.token = Token(ledger, 'permission')
    perm2.token = Token(ledger, 'write permission')
    kind = rng.choice(['public', 'permission', 'permission', 'sub', 'none',
                       'empty', 'combined', 'python', 'fast'])
    answer = rng.choice([True, True, False, 'raise', 'odd', 'list'])
    c = make_checker(rng, kind, perm, perm2)
    if type(c) is Z.Checker:
        c.get_permissions['token'] = Token(ledger, 'read table')
        c.set_permissions['token'] = Token(ledger, 'write table')
    plan = rng.choice(['', '', '', 'raise', 'decline', 'self', 'data'])
    cls = rng.choice([FULL, FULL, NOITER])
    o = cls(plan, Token(ledger, 'object'))
    arg = rng.choice([lambda: Fresh(), lambda: cls('', [1]),
                      lambda: cls('decline', [1])])()
    at = Token(ledger, 'argument')
    if isinstance(arg, Fresh):
        arg.token = at
    else:
        object.__setattr__(arg, 'attr', at)
    inter = Holder(Token(ledger, 'interaction'))
    inter.answer = answer
    if rng.random() < .8:
        set_interaction(inter)
    p = Proxy(o, c)
    expected = {'object', 'argument', 'interaction', 'permission',
                'write permission'}
    if type(c) is Z.Checker:
        expected |= {'read table', 'write table'}
    names = []
    at = None
    for name, f in rng.sample(OPS, rng.randrange(1, 5)):
        names.append(name)
        try:
            f(p, arg, c, o)
        except Exception:
            pass
    f = None
    clear_interaction()
    M.endInteraction()
    o = arg = inter = p = c = perm = perm2 = None
    if ledger != expected:
        gc.collect()
    ctx.count('released')
    ctx.seen(('released', tuple(names), kind, answer, plan))
    if ledger != expected:
        ctx.fail('kept', 'after %s (%s, %s, plan %r) these are still kept: %r'
                 % (names, kind, answer, plan, sorted(expected - ledger)))


# -- cycles -------------------------------------------------------------------------------

class Token:
    """Its end is recorded."""

    def __init__(self, ledger, key):
        self.ledger = ledger
        self.key = key

    def __del__(self):
        self.ledger.add(self.key)


class CNode:
    def __init__(self, token):
        self.token = token
        self.refs = []

    def __call__(self, *args):
        return self

    def __add__(self, other):
        return self.refs


class SlotNode:
    __slots__ = ('token', 'refs', '__weakref__')

    def __init__(self, token):
        self.token = token
        self.refs = []


class SlotSubProxy(Proxy):
    __slots__ = ('__weakref__', 'extra')


class WeakSub(Proxy):
    __slots__ = ('__weakref__',)


class DictChecker(Z.Checker):
    """Has attributes of its own."""


class PyNodeChecker:
    def __init__(self):
        self.refs = []

    def check(self, o, n):
        pass
    check_getattr = check_setattr = check

    def proxy(self, v):
        return Proxy(v, self)


def cycles(ctx, rng):
    """A random graph; then everything outside goes."""
    ledger = set()
    n = 0
    things = []
    kinds = []
    weak = []
    for i in range(rng.randrange(3, 14)):
        def token():
            nonlocal n
            n += 1
            return Token(ledger, n)
        pick = (lambda: rng.choice(things) if things else token())
        k = rng.randrange(13)
        if k < 2:
            x = CNode(token())
            weak.append(weakref.ref(x))
        elif k == 2:
            x = SlotNode(token())
        elif k == 3:
            x = {'t': token(), 'x': pick()}
        elif k == 4:
            x = [token(), pick()]
        elif k == 5:
            x = Z.Checker({'t': token(), 'a': pick()}, {'b': pick()})
        elif k == 6:
            x = Z.Checker({}, {'t': token()})
        elif k == 7:
            x = DictChecker({'t': token()})
            if hasattr(x, '__dict__'):
                x.attr = pick()
        elif k == 8:
            x = PyNodeChecker()
            x.refs += [token(), pick()]
        elif k == 9:
            cs = [c for c in things if isinstance(c, Z.Checker)
                  and not is_proxy(c)]
            x = Z.CombinedChecker(rng.choice(cs), rng.choice(cs)) if cs \
                else [token()]
            if hasattr(x, '__dict__'):
                x.attr = token()
        else:
            cs = [c for c in things if hasattr(type(c), 'check')]
            c = rng.choice(cs) if cs and rng.random() < .8 else Z.Checker(
                {'t': token()}, {})
            t = rng.choice([Proxy, Proxy, Proxy, SlotSubProxy, WeakSub,
                            DictSub])
            x = t(pick(), c)
            if t in (SlotSubProxy, WeakSub, DictSub):
                weak.append(weakref.ref(x))
            if t is DictSub and hasattr(t, '__dict__') and not ctx.pure:
                t.put(x, pick())
        things.append(x)
        kinds.append(type(x).__name__)
    # and now the loops
    links = 0
    for x in things:
        if is_proxy(x):
            # what it wraps is made to refer to it
            raw = getObject(x)
            if isinstance(raw, (CNode, SlotNode)):
                raw.refs.append(x)
                links += 1
            ch = getChecker(x)
            if isinstance(ch, Z.Checker) and not is_proxy(ch) \
                    and rng.random() < .6:
                ch.get_permissions['loop%d' % links] = x
                links += 1
            if rng.random() < .3 and isinstance(ch, Z.Checker):
                ch.set_permissions['loop%d' % links] = rng.choice(things)
            continue
        for j in range(rng.randrange(3)):
            y = rng.choice(things)
            if isinstance(x, (CNode, SlotNode, PyNodeChecker)):
                x.refs.append(y)
            elif isinstance(x, dict):
                x['l%d' % j] = y
            elif isinstance(x, list):
                x.append(y)
            elif isinstance(x, Z.Checker):
                rng.choice([x.get_permissions, x.set_permissions])[
                    'l%d' % j] = y
            links += 1
    # use some of them
    set_interaction(Fixed(rng.choice([True, False])))
    for x in rng.sample(things, min(4, len(things))):
        if is_proxy(x):
            for f in (lambda: x.refs, lambda: x(1), lambda: x + 1,
                      lambda: repr(x), lambda: iter(x), lambda: x.refs[0]):
                try:
                    f()
                except Exception:
                    pass
    clear_interaction()
    M.endInteraction()          # forgets the previous one, too
    ctx.count('objects', len(things))
    ctx.count('links', links)
    ctx.count('graphs')
    ctx.count('tokens', n)
    ctx.seen((tuple(sorted(kinds)), links))
    # a part goes before the rest
    if rng.random() < .3:
        del things[rng.randrange(len(things)):]
        gc.collect()
    x = y = raw = ch = c = t = cs = f = None
    pick = token = None
    del things
    for i in range(5):
        gc.collect()
        if len(ledger) == n:
            break
    if len(ledger) != n:
        ctx.fail('cycle', '%d of %d objects of a graph were not freed: %r'
                 % (n - len(ledger), n, kinds))
    alive = [r for r in weak if r() is not None]
    if alive:
        ctx.fail('weakref', '%d weak references are still alive: %r' % (
            len(alive), kinds))


class DictSub(Proxy):
    """Has a dictionary of its own, which no name reaches."""

    def put(self, value):
        object.__getattribute__(self, '__dict__')['extra'] = value


def loops(ctx, rng):
    """Minimal loops of each shape, many times: nothing may be left."""
    ledger = set()
    keys = [0]

    def token():
        keys[0] += 1
        return Token(ledger, keys[0])

    def object_loop():
        o = CNode(token())
        p = Proxy(o, Z.Checker({}, {}))
        o.me = p

    def checker_loop():
        d = {'t': token()}
        c = Z.Checker(d, {})
        d['p'] = Proxy(1, c)

    def write_loop():
        d = {'t': token()}
        c = Z.Checker({}, d)
        d['p'] = Proxy(1, c)

    def table_loop():
        d = {'t': token()}
        d['c'] = Z.Checker(d, d)

    def through_proxy():
        o = CNode(token())
        c = Z.Checker({}, {})
        p = Proxy(Proxy(o, c), c)
        o.me = [p]

    def subclass_loop():
        o = CNode(token())
        o.me = SlotSubProxy(o, Z.Checker({}, {}))

    def weak_loop():
        o = CNode(token())
        p = WeakSub(o, Z.Checker({}, {}))
        o.me = p
        o.ref = weakref.ref(p)

    def python_checker():
        c = PyNodeChecker()
        c.refs.append(token())
        c.refs.append(Proxy(c, c))

    def combined():
        d = {'t': token()}
        c = Z.CombinedChecker(Z.Checker(d), Z.Checker({}))
        d['c'] = c
        d['p'] = Proxy(1, c)

    def sub_checker():
        c = DictChecker({})
        if hasattr(c, '__dict__'):
            c.me = [Proxy(c, c), token()]
        else:
            c.get_permissions['me'] = [Proxy(c, c), token()]

    def result_loop():
        o = CNode(token())
        c = PyNodeChecker()
        p = Proxy(o, c)
        o.refs.append(p())
        o.refs.append(p + 1)
        o.refs.append(p.refs)
        o.refs.append(iter(p.refs))

    def method_loop():
        o = CNode(token())
        o.refs.append(Proxy(o.__call__, Z.Checker({})))

    def exception_loop():
        o = CNode(token())
        p = Proxy(o, Z.Checker({}))
        try:
            p.attr
        except ForbiddenAttribute as e:
            o.refs.append(e)

    def dropped():
        o = CNode(token())
        p = Proxy(o, Z.Checker({}))
        repr(p), str(p), hash(p), bool(p), p == 1
        for f in (len, iter, int):
            outcome(f, p)

    def thread():
        o = CNode(token())
        t = threading.Thread(target=in_thread, args=(o,))
        t.start()
        t.join()

    def in_thread(o):
        i = Fixed(True)
        set_interaction(Holder(o))
        p = Proxy(o, Z.Checker({'refs': 'p'}))
        p.refs
        if rng.random() < .5:
            M.endInteraction()

    def definitions():
        class K:
            t = token()
        Z.defineChecker(K, Z.Checker({'a': CheckerPublic, 'k': K}))
        x = ProxyFactory(K())
        outcome(lambda: x.a)
        Z.undefineChecker(K)

    def decorated():
        o = CNode(token())
        d = ZD.DecoratorBase(o)
        o.me = ProxyFactory(d)
        o.c = d.__Security_checker__
        l = zope.location.location.LocationProxy(o, o, 'x')
        o.l = ProxyFactory(l)

    def adapted():
        o = CNode(token())
        p = Proxy(o, Z.Checker({}))
        o.a = ZA.TrustedAdapterFactory(Adapter)(p)
        o.b = ZA.LocatingTrustedAdapterFactory(Adapter)(p, o)

    def interactions():
        o = CNode(token())
        for i in range(3):
            set_interaction(Holder(o))
            M.endInteraction()
        M.restoreInteraction()
        M.endInteraction()
        M.endInteraction()

    shapes = [object_loop, checker_loop, write_loop, table_loop,
              through_proxy, subclass_loop, weak_loop, python_checker,
              combined, sub_checker, result_loop, method_loop,
              exception_loop, dropped, thread, definitions, decorated,
              adapted, interactions]
    for shape in shapes:
        m = 4
        keys[0] = 0
        ledger.clear()
        for i in range(m):
            shape()
        x = None
        clear_interaction()
        M.endInteraction()
        for i in range(4):
            gc.collect()
            if len(ledger) == keys[0]:
                break
        ctx.count('loops', m)
        ctx.seen(('loop', shape.__name__))
        if len(ledger) != keys[0]:
            ctx.fail('loop-' + shape.__name__, '%d of %d left' % (
                keys[0] - len(ledger), keys[0]))
        if gc.garbage:
            ctx.fail('garbage', repr([type(g) for g in gc.garbage]))
            del gc.garbage[:]


class Holder(Fixed):
    __slots__ = ('held',)

    def __init__(self, held):
        Fixed.__init__(self, True)
        self.held = held


def promptly(ctx, rng):
    """Without cycles things are freed at once, when the last user goes."""
    if not gc.isenabled():
        gc.enable()
    gc.disable()
    try:
        for t in (Proxy, SlotSubProxy, WeakSub):
            ledger = set()
            o = CNode(Token(ledger, 'o'))
            d = {'t': Token(ledger, 'd')}
            c = Z.Checker(d, {'t': Token(ledger, 'w')})
            p = t(o, c)
            del o, d, c
            if ledger:
                ctx.fail('early', 'freed too early: %r' % ledger)
            if rng.random() < .5:
                q = Proxy(p, Z.Checker({}))
                del p
                p = q
                del q
            set_interaction(Fixed(True))
            for f in (lambda: p.token, lambda: p(1), lambda: p + 1, lambda:
                      repr(p), lambda: setattr(p, 'x', 1)):
                try:
                    f()
                except Exception:
                    pass
            clear_interaction()
            M.endInteraction()
            f = None
            if ledger:
                ctx.fail('early', 'freed too early: %r' % ledger)
            del p
            if ledger != {'o', 'd', 'w'}:
                ctx.fail('late', 'only %r freed when the last proxy goes'
                         % sorted(ledger))
            ctx.count('prompt')
            ctx.seen(('prompt', t.__name__))
    finally:
        gc.enable()


def run(ctx):
    global FULL, NOITER, NONE, OPS, BY_NAME
    FULL = actor_class()
    NOITER = actor_class(['__iter__', '__getitem__', '__next__',
                          '__getattr__'])
    OPS = operations()
    BY_NAME = dict(OPS)

    class NoneDeclared:
        __Security_checker__ = None
    NONE = NoneDeclared()
    for f in (FULL, NOITER):
        Z.defineChecker(f, Z.Checker({'attr': CheckerPublic}, {}))
    Z.defineChecker(Factoried, lambda o: Z.Checker({'a': o}))
    Z.defineChecker(Deep, lambda o: lambda o: lambda o: None)

    Z.defineChecker(Unproxied, lambda o: NoProxy)

    def bad(o):
        raise Boom
    Z.defineChecker(Bad, bad)
    gc.collect()
    gc.freeze()
    for i, rng in ctx.cases('loops', 12, 300):
        with ctx.case():
            loops(ctx, rng)
    for i, rng in ctx.cases('promptly', 200, 2000):
        with ctx.case():
            promptly(ctx, rng)
    for i, rng in ctx.cases('counts', 20000, 600000):
        with ctx.case():
            counts(ctx, rng)
    for i, rng in ctx.cases('released', 20000, 400000):
        with ctx.case():
            released(ctx, rng)
    for i, rng in ctx.cases('cycles', 8000, 200000):
        with ctx.case():
            cycles(ctx, rng)
