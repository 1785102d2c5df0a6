"""P02: nothing obtained through a proxy is unprotected."""
import collections
import copy
import decimal
import functools
import itertools
import operator
import pickle
import types

from common import *  # noqa

import zope.proxy
from zope.location.location import LocationProxy
from zope.security.decorator import DecoratorBase

try:
    from BTrees.OOBTree import OOBTree
except ImportError:     # pragma: no cover
    OOBTree = None


METHODS = ['child', 'children', 'table', 'gen', 'echo', 'same', 'pick',
           'bound', 'store', 'stored', 'lazy', 'prop', 'klass', 'value',
           'pairs', 'fail', 'apply']
SPECIAL = ['__getitem__', '__iter__', '__next__', '__call__', '__len__',
           '__contains__', '__str__', '__reversed__', '__int__', '__index__',
           '__float__', '__enter__', '__exit__', '__copy__', '__deepcopy__',
           '__reduce__', '__reduce_ex__', '__getstate__', '__dict__',
           '__module__', '__doc__', '__dir__', '__getattribute__',
           '__init__', '__new__', '__subclasshook__', '__weakref__',
           '__length_hint__', '__missing__', '__format__', '__sizeof__']
OPS = (['__%s__' % n for n in BINARY] + ['__r%s__' % n for n in BINARY]
       + ['__i%s__' % n for n in INPLACE] + ['__%s__' % n for n in UNARY])


class World:
    def __init__(self, rng):
        self.rng = rng
        self.keep = []          # everything stays alive: ids are stable
        self.classes = []
        self.declared = {}      # class -> checker declared by the class
        self.leaves = []
        self.before = {}        # the checkers of classes before a change
        self.inplace = None     # what the last in-place operation returned

    def anything(self):
        """A raw object of the graph."""
        rng = self.rng
        if self.leaves and rng.random() < .8:
            return rng.choice(self.leaves)
        return rng.choice([1, 'text', None, 2.5, True, b'bytes', 1j])


def make_class(world, n):
    rng = world.rng
    any_ = world.anything

    def child(self, *a):
        return any_()

    def children(self, *a):
        return [any_() for i in range(rng.randrange(4))]

    def table(self, *a):
        return {'k%d' % i: any_() for i in range(rng.randrange(4))}

    def pairs(self, *a):
        return tuple((i, any_()) for i in range(rng.randrange(4)))

    def gen(self, *a):
        for i in range(rng.randrange(5)):
            yield any_()

    def echo(self, *a, **kw):
        return a, kw

    def same(self, *a):
        return self

    def pick(self, *a):
        return a[0] if a else any_()

    def bound(self, *a):
        return any_().__init__

    def store(self, x=None, *a):
        self.__dict__['box'] = x

    def stored(self, *a):
        return self.__dict__.get('box')

    def lazy(self, *a):
        return (x for x in [any_(), [any_()], (any_(), {'a': any_()})])

    def fail(self, *a):
        raise ValueError('no')

    def apply(self, f=None, *a):
        return f(*a)

    def iterate(self):
        return iter([any_() for i in range(rng.randrange(5))])

    def iterate_self(self):
        self.__dict__['left'] = 3
        return self

    def next_(self):
        self.__dict__['left'] = self.__dict__.get('left', 3) - 1
        if self.__dict__['left'] < 0:
            raise StopIteration
        return any_()

    def binary(self, other, *a):
        r = rng.random()
        if r < .15:
            return NotImplemented
        if r < .35:
            return self
        if r < .5:
            return other
        return any_()

    def inplace(self, other):
        x = binary(self, other)
        world.inplace = x
        return x

    def unary(self):
        return self if rng.random() < .3 else any_()

    ns = dict(child=child, children=children, table=table, gen=gen,
              echo=echo, same=same, pick=pick, bound=bound, store=store,
              stored=stored, lazy=lazy, pairs=pairs, fail=fail, apply=apply)
    ns['prop'] = property(lambda self: any_())
    ns['klass'] = None
    ns['value'] = 0
    ns['__getitem__'] = lambda self, i: \
        any_() if type(i) is not int or i < 3 else [][1]
    if rng.random() < .6:
        ns['__iter__'] = rng.choice([iterate, iterate_self, gen])
    ns['__next__'] = next_
    ns['__call__'] = rng.choice([child, echo, children, same])
    ns['__len__'] = lambda self: 2
    ns['__contains__'] = lambda self, x: True
    ns['__reversed__'] = iterate
    ns['__enter__'] = child
    ns['__exit__'] = lambda self, *a: None
    ns['__copy__'] = child
    ns['__deepcopy__'] = child
    ns['__length_hint__'] = rng.choice([lambda self: 2, child, children])
    ns['__missing__'] = child
    for name in OPS:
        if rng.random() < .6:
            ns[name] = (
                unary if name[2:-2] in UNARY else
                inplace if name[3:-2] in INPLACE and name[2] == 'i' else
                binary)
    cls = type('K%d' % n, (object,), ns)
    cls.klass = cls
    r = rng.random()
    granted = {m: CheckerPublic for m in METHODS + SPECIAL + OPS
               if rng.random() < .75}
    for name in granted:
        if rng.random() < .2:
            granted[name] = rng.choice(['pa', 'pb'])
    writes = {m: CheckerPublic for m in ('box', 'value', 'x')
              if rng.random() < .5}
    if r < .6:
        Z.defineChecker(cls, Z.Checker(granted, writes))
    elif r < .75:
        cls.__Security_checker__ = Z.Checker(granted, writes)
        world.declared[cls] = cls.__Security_checker__
    elif r < .85:
        Z.defineChecker(cls, Z.CombinedChecker(
            Z.Checker({n: p for n, p in granted.items()
                       if rng.random() < .5}, {}),
            Z.Checker(granted, writes)))
    elif r < .9:
        # harmless: what it hands out is its own responsibility
        cls = type('Bare%d' % n, (), {})
        Z.defineChecker(cls, Z.NoProxy)
    # else: the default checker
    world.classes.append(cls)
    return cls


def make_world(rng):
    world = World(rng)
    for n in range(rng.randrange(2, 5)):
        make_class(world, n)
    for i in range(rng.randrange(4, 9)):
        cls = rng.choice(world.classes)
        obj = cls()
        if not cls.__name__.startswith('Bare'):
            obj.value = world.anything()
        world.leaves.append(obj)
    for i in range(rng.randrange(4, 10)):
        any_ = world.anything
        k = rng.randrange(18)
        items = [any_() for j in range(rng.randrange(5))]
        if k == 0:
            v = list(items)
        elif k == 1:
            v = tuple(items)
        elif k == 2:
            v = {'k%d' % j: x for j, x in enumerate(items)}
        elif k in (3, 4):
            v = (set if k == 3 else frozenset)(
                x for x in items if type(x).__hash__ is not None
                and not isinstance(x, (tuple, frozenset))
                and not issubclass(type(x), zope.proxy.ProxyBase))
        elif k == 5:
            v = collections.OrderedDict(
                ('k%d' % j, x) for j, x in enumerate(items))
        elif k == 6:
            v = (x for x in [any_() for j in range(30)])
        elif k == 7:
            v = iter([any_() for j in range(30)])
        elif k == 8:
            v = {j: x for j, x in enumerate(items)}.items()
        elif k == 9:
            v = {j: x for j, x in enumerate(items)}.values()
        elif k == 10:
            v = itertools.chain([any_() for j in range(3)], items)
        elif k == 11:
            v = functools.partial(any_)
        elif k == 12:
            v = getattr(rng.choice(world.leaves), 'child', 1)
        elif k == 13:
            v = itertools.groupby([any_() for j in range(6)], key=id)
        elif k == 14 and OOBTree is not None:
            v = OOBTree({'k%d' % j: x for j, x in enumerate(items)})
            v = v.items() if rng.random() < .5 else v.values()
        elif k in (15, 16):
            # proxies of other kinds protect nothing
            v = rng.choice(world.leaves)
            if rng.random() < .2:
                v = ProxyFactory(v)
            v = rng.choice([zope.proxy.ProxyBase, LocationProxy,
                            DecoratorBase, zope.proxy.ProxyBase])(v)
        else:
            v = (lambda *a: any_())
        world.leaves.append(v)
    world.keep.extend(world.leaves)
    return world


class MyOwn:
    """A class of the attacker's."""


def choice_for(world, value):
    """What the declarations choose: (kind, checker)"""
    t = type(value)
    if issubclass(t, zope.proxy.ProxyBase):
        # (P19 says which checker decorators get)
        return 'any', None
    for k in t.__mro__:
        if k in world.declared:
            return 'checker', world.declared[k]
    if isinstance(value, type):
        for k in value.__mro__:
            if k in world.declared:
                return 'checker', world.declared[k]
    reg = Z.getCheckerForInstancesOf(t)
    if reg is None:
        return 'default', None
    if reg is Z.NoProxy:
        return 'bare', None
    if isinstance(value, types.ModuleType):
        return 'any', None
    return 'checker', reg


def judge(ctx, world, how, x, detail=None):
    """x was obtained through a proxy."""
    ctx.count('obtained')
    if not is_proxy(x):
        kind, c = choice_for(world, x)
        ctx.count('obtained_bare')
        if kind == 'bare':
            return
        if kind == 'default' and isinstance(x, BaseException) \
                and not ctx.pure:
            return
        ctx.fail('leak-%s' % how, '%s gave %s %r without a proxy' % (
            how, type(x).__name__, type(x)), detail)
        return
    raw = getObject(x)
    if is_proxy(raw):
        ctx.fail('nested-%s' % how, '%s gave a proxy of a proxy' % how)
        return
    kind, want = choice_for(world, raw)
    c = getChecker(x)
    if type(raw) in world.before and c is world.before[type(raw)]:
        # made before the declarations changed, and kept by some container
        ctx.count('obtained_proxied')
        return
    ctx.count('obtained_proxied')
    if kind == 'bare':
        ctx.fail('overprotected-%s' % how, '%s gave a proxy of a %s, which '
                 'needs none' % (how, type(raw).__name__))
    elif kind == 'checker':
        if c is not want:
            ctx.fail('checker-%s' % how, '%s gave a %s with a checker other '
                     'than the declared one' % (how, type(raw).__name__))
    elif kind == 'default':
        if c.get_permissions or c.set_permissions:
            ctx.fail('checker-%s' % how, '%s gave a %s with permissions '
                     'although none are declared' % (
                         how, type(raw).__name__))


def broken_next(p):
    """next() of a zope.proxy proxy of something that is no iterator crashes
    the interpreter, whether there is a security proxy or not."""
    for i in range(50):
        if not issubclass(type(p), zope.proxy.ProxyBase):
            break
        p = zope.proxy.getProxiedObject(p)
        if not hasattr(type(p), '__next__'):
            return True
    return False


def weight(x, memo):
    """About how long its repr() would be, which the watching checkers make:
    what holds twice what holds twice … must not go on for ever."""
    x = getObject(x)
    if id(x) in memo:
        return memo[id(x)]
    memo[id(x)] = 1
    t = type(x)
    parts = ()
    if issubclass(t, zope.proxy.ProxyBase):
        parts = [zope.proxy.getProxiedObject(x)]
    elif issubclass(t, dict):
        parts = list(x.values())
    elif issubclass(t, (list, tuple, set, frozenset, collections.deque,
                        type({}.values()), type({}.items()))):
        parts = list(x)
    elif t is functools.partial:
        parts = [x.func, *x.args, *x.keywords.values()]
    elif t is types.MethodType:
        parts = [x.__self__]
    elif t is slice:
        parts = [x.start, x.stop, x.step]
    memo[id(x)] = 1 + sum(weight(i, memo) for i in parts)
    return memo[id(x)]


GROWING = (list, dict, set, collections.deque, zope.proxy.ProxyBase)
BOUND = {type([].append), type([].__iadd__), types.MethodType}


class Walker:

    def __init__(self, ctx, rng, world):
        self.ctx, self.rng, self.world = ctx, rng, world
        self.pool = []
        self.held = []          # everything obtained stays alive
        self.depth = {}
        self.weights = {}
        self.seenargs = []
        self.own = [MyOwn(), [1, 2], {'a': 1}, 'k0', 'k1', 0, 1, 2, -1,
                    slice(0, 2), None, 3.5, self.callback]

    def callback(self, *args):
        self.seenargs.extend(args)
        return self.rng.choice([0, 1, True, None, 'k'])

    def name(self, p):
        rng = self.rng
        try:
            table = list(getChecker(p).get_permissions)
        except Exception:
            table = []
        r = rng.random()
        if table and r < .8:
            return rng.choice(table)
        if r < .9:
            return rng.choice(['__class__', '__name__', '__parent__',
                               '__providedBy__', '__repr__', '__conform__',
                               '__hash__', '__eq__', '__bool__', '__lt__'])
        return rng.choice(METHODS + SPECIAL)

    def arg(self):
        if self.rng.random() < .5:
            return self.rng.choice(self.pool)
        return self.rng.choice(self.own)

    def args(self, p, n=None):
        if n is None:
            n = self.rng.choice([0, 0, 1, 1, 2])
        args = [self.arg() for i in range(n)]
        # A list that is to take everything an iterator over it gives, or it
        # itself in a proxy, grows for ever.
        if any(issubclass(type(x), GROWING)
               or type(x) in BOUND and issubclass(type(x.__self__), GROWING)
               for x in map(getObject, [p] + args)):
            args = [x if not is_proxy(x) or type(getObject(x))
                    in self.world.classes else 3 for x in args]
        return args

    # Each step returns what the attacker has obtained.

    def s_attr(self, p):
        return [getattr(p, self.name(p))]

    def s_attr_default(self, p):
        x = getattr(p, self.name(p), None)
        return [x]

    def s_method(self, p):
        self.last = self.name(p)
        m = getattr(p, self.last)
        return [m, m(*self.args(p))]

    def s_call(self, p):
        return [p(*self.args(p))]

    def s_item(self, p):
        return [p[self.rng.choice(
            [0, 1, -1, 'k0', 'k1', 'k2', 2, slice(0, 2), slice(None),
             slice(0, 5, 2), None, (1, 2), Ellipsis])]]

    def s_list(self, p):
        return list(itertools.islice(p, 8))

    def s_for(self, p):
        got = []
        for x in p:
            got.append(x)
            if len(got) > 5:
                break
        return got

    def s_unpack(self, p):
        first, *rest = itertools.islice(p, 8)
        return [first] + rest

    def s_iter(self, p):
        it = iter(p)
        return [it, next(it)]

    def s_next(self, p):
        if broken_next(p):
            return []
        return [next(p)]

    def s_binary(self, p):
        op = self.rng.choice(list(BINARY))
        a, b = p, self.arg()
        if self.rng.random() < .5 and (is_proxy(b) or not isinstance(
                b, MyOwn)):
            a, b = b, a
        r = BINARY[op](a, b)
        return [r]

    def s_inplace(self, p):
        op = self.rng.choice(list(INPLACE))
        raw = getObject(p)
        if issubclass(type(raw), zope.proxy.ProxyBase):
            # (it would change what it wraps, maybe to itself)
            return []
        self.world.inplace = None
        r = INPLACE[op](p, *self.args(p, 1))
        if self.world.inplace is raw:
            self.ctx.count('inplace_self')
            if r is not p:
                self.ctx.fail('inplace-other-proxy', 'an in-place %s that '
                              'returns the object gave another proxy' % op)
            return []           # keeps its checker, whatever that is
        return [r]

    def s_unary(self, p):
        return [UNARY[self.rng.choice(list(UNARY))](p)]

    def s_pow(self, p):
        return [pow(p, self.arg(), self.arg())]

    def s_compare(self, p):
        return [COMPARE[self.rng.choice(list(COMPARE))](p, self.arg())]

    def s_contains(self, p):
        return [self.rng.choice([0, 'k0', 1, None]) in p]

    def s_text(self, p):
        return [self.rng.choice([
            str, repr, '{}'.format, '%s'.__mod__, ascii,
            lambda x: f'{x}'])(p)]

    def s_number(self, p):
        return [self.rng.choice([int, float, complex, operator.index, len,
                                 bool, round, hash, bytes])(p)]

    def s_builtin(self, p):
        self.last = 'builtin'
        rng, cb = self.rng, self.callback
        p4 = itertools.islice(p, 6)
        k = rng.choice([
            lambda: sorted(p4, key=cb),
            lambda: [max(p4, key=cb)],
            lambda: [min(p4, key=cb)],
            lambda: list(map(cb, p4)),
            lambda: list(filter(cb, p4)),
            lambda: [functools.reduce(cb, p4)],
            lambda: [x for pair in zip(p4, p4) for x in pair],
            lambda: [x for pair in enumerate(p4) for x in pair],
            lambda: list(tuple(p4)),
            lambda: list(reversed(p))[:6],
            lambda: list(dict.fromkeys(p4)),
            lambda: [x for k in itertools.groupby(p4, key=cb)
                     for x in k[1]],
            lambda: list(itertools.chain.from_iterable([p4])),
            lambda: [sum(p4, 0)],
            lambda: [any(p4), all(p4)],
            lambda: [cb(*p4)],
            lambda: list(dict(p).values()),
            lambda: list({**p}.values()),
            lambda: list(collections.OrderedDict(p).items())[0:0],
            lambda: list((lambda **kw: kw)(**p).values()),
            lambda: [operator.itemgetter(0)(p)],
            lambda: [operator.attrgetter(self.name(p))(p)],
            lambda: [operator.methodcaller(self.name(p))(p)],
            lambda: [operator.getitem(p, 'k0')],
            lambda: [operator.length_hint(p)],
            lambda: [x for x in [type(p).__length_hint__(p)]
                     if x is not NotImplemented],
            lambda: list(collections.deque(p4)),
            lambda: [functools.partial(p)()],
            lambda: list(itertools.starmap(cb, zip(p4))),
            lambda: list(itertools.islice(iter(p, 12345), 3)),
            lambda: list(bytes(p)),
            lambda: ['%(k0)s' % p],
            lambda: [] if broken_next(p) else [next(p, None)],
            lambda: [copy.copy(p)],
            lambda: [copy.deepcopy(p)],
            lambda: [pickle.loads(pickle.dumps(p))],
            lambda: [decimal.Decimal(p)],
        ])
        return k()

    def s_with(self, p):
        with p as x:
            return [x]

    def s_match(self, p):
        match p:
            case [a, *b]:
                return [a] + list(b)
            case {'k0': v, **kw}:
                return [v] + list(kw.values())
            case MyOwn(value=v):
                return [v]
            case object(value=v, child=c):
                return [v, c]
        return []

    def s_set(self, p):
        setattr(p, self.rng.choice(['box', 'value', 'x']), self.arg())
        return []

    def s_callback(self, p):
        # call a method of trusted code with a callback and proxies
        return [p.apply(self.callback, self.rng.choice(self.pool))]

    STEPS = ['attr'] * 4 + ['method'] * 6 + ['call'] * 3 + ['item'] * 4 + [
        'list', 'for', 'unpack', 'iter', 'next', 'next', 'binary', 'binary',
        'inplace', 'inplace', 'unary', 'pow', 'compare', 'contains', 'text',
        'number', 'builtin', 'builtin', 'builtin', 'with', 'match', 'set',
        'attr_default', 'callback']

    def step(self):
        rng, ctx = self.rng, self.ctx
        p = rng.choice(self.pool[-6:]) if rng.random() < .6 \
            else rng.choice(self.pool)
        how = rng.choice(self.STEPS)
        tname = type(getObject(p)).__name__
        del self.seenargs[:]
        self.last = None
        ctx.count('steps')
        try:
            got = getattr(self, 's_' + how)(p)
        except (Exception, RecursionError):
            got = []
            ctx.count('steps_refused')
            done = False
        else:
            done = True
        d = self.depth.get(id(p), 0) + 1
        for x in got:
            if id(x) in self.depth and is_proxy(x):
                ctx.count('obtained')
                continue        # a proxy that we already had
            judge(ctx, self.world, how, x, (tname, self.last))
        for x in self.seenargs:
            # what the callback is given: own things of the attacker, too
            if any(x is o for o in self.own) or (
                    id(x) in self.depth and is_proxy(x)):
                continue
            judge(ctx, self.world, how + '-callback', x, (tname, self.last))
            ctx.count('callback_args')
        for x in list(got) + list(self.seenargs):
            if is_proxy(x) and id(x) not in self.depth:
                self.held.append(x)
                if len(self.pool) < 300 \
                        and weight(x, self.weights) < 20000:
                    self.pool.append(x)
                if self.depth.setdefault(id(x), d) > ctx.counts.get(
                        'longest_derivation', 0):
                    ctx.counts['longest_derivation'] = self.depth[id(x)]
                ctx.seen((how, tname, type(getObject(x)).__name__))
            else:
                ctx.seen((how, tname, type(x).__name__, done))
        if not got:
            ctx.seen((how, tname, done), done)


NATIVE = sorted({n for t in (list, tuple, dict, set, frozenset, str, int,
                             collections.OrderedDict, type(iter([])),
                             type(x for x in ()))
                 for n in dir(t)} - {'__class__'})


def wild_checker(rng):
    k = rng.random()
    d = {n: CheckerPublic for n in METHODS + SPECIAL + OPS + NATIVE
         if rng.random() < k + .4}
    c = Z.Checker(d, {'box': CheckerPublic, 'x': CheckerPublic})
    if rng.random() < .2:
        c = Z.CombinedChecker(Z.Checker({}, {}), c)
    return c


def one(ctx, rng):
    world = make_world(rng)
    granted = {q for q in ('pa', 'pb') if rng.random() < .6}
    set_interaction(Interaction(lambda p, o: p in granted))
    try:
        w = Walker(ctx, rng, world)
        for root in rng.sample(world.leaves, min(5, len(world.leaves))):
            if rng.random() < .3 and not is_proxy(root):
                # A checker that nobody declared: what comes of it has the
                # declared ones all the same.
                p = Proxy(root, wild_checker(rng))
                ctx.count('wild_roots')
            else:
                p = Z.ProxyFactory(root)
                judge(ctx, world, 'root', p)
            if is_proxy(p):
                w.pool.append(p)
                w.depth[id(p)] = 0
        if not w.pool:
            return
        for i in range(rng.choice([30, 60, 120])):
            w.step()
            if i == 40 and rng.random() < .3:
                # declarations change during the walk
                cls = rng.choice(world.classes)
                old = Z.getCheckerForInstancesOf(cls)
                if old is not None:
                    if old is not Z.NoProxy:
                        world.before[cls] = old
                        Z.undefineChecker(cls)
                elif cls not in world.declared:
                    world.before[cls] = getChecker(
                        Z.ProxyFactory(cls()))
                    Z.defineChecker(cls, Z.NamesChecker(METHODS))
    finally:
        clear_interaction()
        for cls in world.classes:
            if Z.getCheckerForInstancesOf(cls) is not None:
                Z.undefineChecker(cls)


def run(ctx):
    if ctx.watch:
        import io
        Z.WatchingChecker._file = io.StringIO()
    for i, rng in ctx.cases('walks', 6000, 60000, budget=25):
        with ctx.case():
            one(ctx, rng)
        if ctx.watch:
            Z.WatchingChecker._file.seek(0)
            Z.WatchingChecker._file.truncate()
