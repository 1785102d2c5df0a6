"""P27: what is declared for built-in values suffices to read them.

Random values of the built-in types are read by random chains of the reading
operations of their types, through a default proxy and without it, in lock
step.  There is no interaction, so that nothing may ask for one."""
import abc
import collections
import decimal
import io
import itertools
import operator
import types
import weakref

import zope.interface
from zope.interface import Interface
from zope.interface import implementedBy
from zope.interface import implementer
from zope.interface import providedBy
from zope.interface.declarations import Declaration

from common import *  # noqa
from zope.security import management as M

try:
    import BTrees
except ImportError:     # pragma: no cover
    BTrees = None


class IBase(Interface):
    """Base"""

    base = zope.interface.Attribute('base')


class IThing(IBase):
    """A thing.

    It does things."""

    a = zope.interface.Attribute('an attribute')

    def method(x, y=1, *args, **kw):
        """does"""


IThing.setTaggedValue('tag', 5)


class IUnrelated(Interface):
    pass


@implementer(IThing)
class Thing:
    """A class."""

    def __init__(self, n=0):
        self.n = n

    def method(self, x=1, y=2):
        return (self.n, x, y)

    def self(self):
        return self

    def __repr__(self):
        return 'Thing %d' % self.n


class Sequence:
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def function(*args, **kw):
    """doc"""
    return [args, kw]


THINGS = [Thing(i) for i in range(4)]
MODULE = types.ModuleType('vp27', 'doc')


class WithABC(abc.ABC):
    pass


def leaf(rng):
    return rng.choice([0, 1, 2, 3, 'a', 'b', '', None, 1.5, b'x', True,
                       decimal.Decimal('2.5'), 10 ** 20, Thing, THINGS[0],
                       THINGS[1]])


def hashable(rng):
    return rng.choice([0, 1, 2, 3, 'a', 'b', '', None, b'x', (1, 2), 7.5])


def items(rng, depth, n=None):
    return [value(rng, depth - 1) for i in range(
        rng.randrange(5) if n is None else n)]


def mapping(rng, depth):
    return {hashable(rng): value(rng, depth - 1)
            for i in range(rng.randrange(5))}


def dec(rng):
    return decimal.Decimal(rng.choice(
        ['0', '1', '-2.5', '3.25', '1E+3', '7', '-0.125', '12']))


def tree(rng, depth):
    name = rng.choice(['IO', 'OO', 'OI', 'II'])
    cls = getattr(rng.choice([BTrees.family32, BTrees.family64]), name).BTree
    t = cls()
    for i in range(rng.randrange(6)):
        k = rng.randrange(50) if name[0] == 'I' else rng.choice('abcdefg')
        t[k] = rng.randrange(9) if name[1] == 'I' else leaf(rng)
    return t


def spec(rng):
    return rng.choice([
        lambda: IThing, lambda: IBase, lambda: IUnrelated,
        lambda: IThing['a'], lambda: IThing['method'],
        lambda: Declaration(IThing, IUnrelated), lambda: Declaration(),
        lambda: implementedBy(Thing), lambda: providedBy(THINGS[0])])()


def iterator(rng, depth):
    """(name, a function that makes it; twice the same)"""
    it = itertools
    xs = items(rng, depth)
    hs = [hashable(rng) for i in range(rng.randrange(5))]
    ns = [rng.randrange(5) for i in range(rng.randrange(5))]
    m = mapping(rng, depth)
    k = rng.randrange(4)
    big = rng.randrange(5)

    def generator():
        yield from xs
    choices = {
        'list': lambda: iter(xs), 'tuple': lambda: iter(tuple(xs)),
        'dict': lambda: iter(m), 'dict keys': lambda: iter(m.keys()),
        'dict values': lambda: iter(m.values()),
        'dict items': lambda: iter(m.items()),
        'set': lambda: iter(set(ns)), 'frozenset': lambda: iter(
            frozenset(ns)),
        'sequence': lambda: iter(Sequence(xs)), 'generator': generator,
        'odict': lambda: iter(collections.OrderedDict(m)),
        'odict items': lambda: iter(collections.OrderedDict(m).items()),
        'odict values': lambda: iter(collections.OrderedDict(m).values()),
        'count': lambda: it.count(k), 'cycle': lambda: it.cycle(xs[:k]),
        'dropwhile': lambda: it.dropwhile(lambda v: v is not xs[0], xs),
        'islice': lambda: it.islice(xs, k),
        'permutations': lambda: it.permutations(hs, 2),
        'product': lambda: it.product(xs, hs),
        'repeat': lambda: it.repeat(xs, k),
        'starmap': lambda: it.starmap(lambda *a: a, [(x, 1) for x in xs]),
        'takewhile': lambda: it.takewhile(lambda v: v is not None, xs),
        'tee': lambda: it.tee(xs)[0],
        'zip_longest': lambda: it.zip_longest(xs, hs),
        'accumulate': lambda: it.accumulate(ns),
        'compress': lambda: it.compress(xs, ns),
        'combinations': lambda: it.combinations(xs, 2),
        'combinations_with_replacement':
            lambda: it.combinations_with_replacement(hs, 2),
        'groupby': lambda: it.groupby(sorted(ns)),
        'grouper': lambda: next(it.groupby([big] * 3))[1],
    }
    name = rng.choice(sorted(choices))
    return name, choices[name]


def value(rng, depth):
    """A value that may be shared, as reading does not change it."""
    if depth <= 0 or rng.random() < .3:
        return leaf(rng)
    return build(rng, depth)[1]()


def build(rng, depth):
    """(kind, a function that makes the value; twice the same)"""
    k = rng.randrange(13)
    if k == 0:
        v = items(rng, depth)
        return 'list', lambda: v
    if k == 1:
        v = tuple(items(rng, depth))
        return 'tuple', lambda: v
    if k == 2:
        v = mapping(rng, depth)
        return 'dict', lambda: v
    if k == 3:
        v = mapping(rng, depth)
        v = rng.choice([v.keys, v.values, v.items])
        return 'view', v
    if k in (4, 5):
        v = rng.choice([set, frozenset])(
            hashable(rng) for i in range(rng.randrange(6)))
        return 'set', lambda: v
    if k == 6:
        v = dec(rng)
        return 'decimal', lambda: v
    if k == 7:
        v = rng.choice([function, len, THINGS[1].method, THINGS[0].self,
                        [1].count, (1, 2).__len__, max, 'abc'.upper,
                        io.BytesIO(b'x').getvalue, function.__repr__])
        return 'callable', lambda: v
    if k == 8:
        v = rng.choice([Thing, type, Sequence, int, WithABC, dict,
                        type('T', (Thing,), {})])
        return 'class', lambda: v
    if k == 9:
        if rng.random() < .5:
            return 'module', lambda: MODULE
        v = weakref.ref(rng.choice(THINGS))
        return 'weakref', lambda: v
    if k == 10:
        v = spec(rng)
        return 'interface', lambda: v
    if k == 11 and BTrees is not None:
        t = tree(rng, depth)
        f = rng.choice([t.keys, t.values, t.items])
        return 'btree', f
    if k == 12 and rng.random() < .3:
        d = collections.OrderedDict(mapping(rng, depth))
        return 'odict', rng.choice([d.keys, d.values, d.items])
    return ('iterator',) + iterator(rng, depth)[1:]


# -- what can be read ---------------------------------------------------------

class Op:
    def __init__(self, name, f):
        self.name, self.f = name, f


def method(name, *args):
    return Op('%s%r' % (name, args), lambda o: getattr(o, name)(*args))


def operation(op, *args):
    return Op('%s%r' % (op.__name__, args), lambda o: op(o, *args))


def reflected(op, arg):
    return Op('r%s(%r)' % (op.__name__, arg), lambda o: op(arg, o))


def attribute(name):
    return Op('.' + name, lambda o: getattr(o, name))


ALL = Op('iterate', lambda o: list(itertools.islice(iter(o), 12)))
LOOP = Op('loop', lambda o: [x for x, n in zip(o, range(12))])
FIRST = Op('first', lambda o: next(iter(o)))
STAR = Op('unpack', lambda o: (lambda *a: a)(*itertools.islice(o, 12)))
LEN = operation(len)
STR = operation(str)
ALWAYS = [operation(repr), operation(bool), operation(hash),
          attribute('__class__'),
          Op('eq', lambda o: o == o), Op('ne', lambda o: o != o)]


def operations(rng, kind, bare):
    """What the type of the value has for reading it."""
    index = rng.choice([0, 1, -1, 2, 9, slice(1, 3), slice(None, None, -1)])
    x = hashable(rng)
    if kind in ('list', 'tuple'):
        other = rng.choice([[], [1, 2], (3,), ()])
        ops = [operation(operator.getitem, index), LEN, ALL, LOOP, FIRST, STR,
               operation(operator.contains, x),
               operation(operator.add, other)]
        if type(other) is type(bare):
            ops.append(reflected(operator.add, other))
        if kind == 'list':
            ops += [method('index', x), method('count', x)]
        return ops
    if kind == 'dict':
        key = rng.choice([x, *bare])
        return [operation(operator.getitem, key), LEN, ALL, LOOP, FIRST, STR,
                method('get', key), method('get', key, 5), method('copy'),
                method('keys'), method('values'), method('items'),
                operation(operator.contains, key),
                Op('copy as dict', lambda o: [(k, o[k]) for k in o])]
    s = rng.choice([set(), {1, 2}, {'a', 0}, {(1, 2), 3}])
    f = rng.choice([set, frozenset])(s)
    algebra = [operator.and_, operator.or_, operator.sub, operator.xor]
    if kind == 'view':
        ops = [LEN, ALL, LOOP, FIRST, STR, operation(operator.contains, x)]
        if not isinstance(bare, type({}.values())):
            for op in algebra:
                ops += [operation(op, f), reflected(op, f)]
            ops.append(method('isdisjoint', f))
        return ops
    if kind == 'set':
        ops = [LEN, ALL, LOOP, STR, operation(operator.contains, x),
               method('copy')]
        ops += [method(n, f) for n in (
            'difference', 'intersection', 'issubset', 'issuperset',
            'symmetric_difference', 'union')]
        ops += [method(n, list(s)) for n in (
            'difference', 'intersection', 'union', 'issubset')]
        for op in algebra:
            ops += [operation(op, f), reflected(op, f)]
        for op in (operator.eq, operator.ne, operator.lt, operator.le,
                   operator.gt, operator.ge):
            ops += [operation(op, f)]
        return ops
    if kind == 'decimal':
        d = rng.choice([dec(rng), rng.randrange(-3, 9)])
        ops = [STR, operation(operator.neg), operation(operator.pos),
               operation(abs), operation(float), operation(int),
               operation(bool), operation(hash),
               operation(operator.eq, d), operation(operator.ne, d)]
        for op in (operator.add, operator.sub, operator.mul,
                   operator.truediv, divmod, operator.mod,
                   operator.floordiv, operator.pow):
            ops += [operation(op, d), reflected(op, d)]
        d = dec(rng)
        ops += [method(n) for n in ('adjusted', 'as_tuple', 'normalize',
                                    'sqrt', 'to_eng_string', 'to_integral')]
        ops += [method(n, d) for n in ('compare', 'max', 'min', 'quantize',
                                       'remainder_near', 'same_quantum')]
        return ops
    if kind == 'callable':
        ops = [attribute('__name__'), STR]
        if bare is function:
            ops += [Op('call', lambda o: o(1, x=x)), operation(
                lambda o: o(), ), Op('star', lambda o: o(*[x], **{'k': x}))]
        elif bare in (len, max):
            ops.append(Op('call', lambda o: o([3, 1, 2])))
        elif getattr(bare, '__name__', '') == 'count':
            ops.append(Op('call', lambda o: o(x)))
        else:
            ops.append(Op('call', lambda o: o()))
        return ops
    if kind == 'class':
        return [attribute('__name__'), attribute('__module__'),
                attribute('__bases__'), attribute('__mro__'), STR]
    if kind == 'module':
        return [attribute('__name__')]
    if kind == 'weakref':
        return [Op('call', lambda o: o())]
    if kind in ('btree', 'odict'):
        return [LEN, ALL, LOOP, FIRST, STAR]
    if kind == 'interface':
        return interfaces(rng, bare)
    return [ALL, LOOP, STAR, FIRST, Op('iter', iter)] + (
        [Op('next', next)] if hasattr(type(bare), '__next__') else []) + (
        [LEN] if hasattr(type(bare), '__len__') else [])


def interfaces(rng, bare):
    other = rng.choice([IThing, IBase, IUnrelated, Interface])
    ops = []
    if isinstance(bare, (type(IThing), Declaration)):
        ops += [method('isOrExtends', other), method('extends', other),
                method('extends', other, False),
                method('providedBy', THINGS[0]),
                method('implementedBy', Thing),
                method('get', rng.choice(['a', 'base', 'none'])),
                attribute('__bases__'), attribute('__sro__'),
                attribute('__iro__'), Op('weakref', lambda o: o.weakref()())]
    if isinstance(bare, type(IThing)):
        ops += [method('names'), method('names', True), ALL, LOOP,
                method('namesAndDescriptions'),
                method('namesAndDescriptions', True),
                operation(operator.getitem, rng.choice(['a', 'none'])),
                method('direct', rng.choice(['a', 'base'])),
                operation(operator.contains, rng.choice(['a', 'base', 'no'])),
                attribute('__module__'), attribute('__name__'), STR,
                method('getTaggedValue', 'tag'),
                method('queryTaggedValue', rng.choice(['tag', 'no'])),
                method('getTaggedValueTags'),
                method('validateInvariants', THINGS[0])]
    elif isinstance(bare, Declaration):
        ops += [ALL, LOOP, method('flattened'),
                operation(operator.contains, other),
                operation(operator.add, other),
                operation(operator.sub, other), operation(bool)]
    elif isinstance(bare, zope.interface.interface.Method):
        ops += [method('getSignatureInfo'), method('getSignatureString'),
                attribute('__name__'), method('getTaggedValueTags')]
    return ops


KINDS = [(list, 'list'), (tuple, 'tuple'), (dict, 'dict'),
         (set, 'set'), (frozenset, 'set'), (decimal.Decimal, 'decimal')]
VIEWS = type({}.keys()), type({}.values()), type({}.items())


def kind_of(bare):
    for t, kind in KINDS:
        if type(bare) is t:
            return kind
    if type(bare) in VIEWS:
        return 'view'
    if isinstance(bare, (types.FunctionType, types.MethodType)):
        return None     # which arguments?
    if type(bare) is type:
        return 'class'
    if type(bare) in ITERATORS:
        return 'iterator'
    return None


ITERATORS = {type(iter(x)) for x in ([], (), {}, set(), {}.values(),
                                     {}.items(), Sequence([]))}
BARE = (int, float, str, bytes, bool, type(None), complex)


class Different(Exception):
    pass


def compare(got, want, depth=0):
    """The same, apart from proxies?"""
    got = removeSecurityProxy(got)
    if got is want:
        return
    if type(got) is not type(want):
        raise Different('a %s, should be a %s' % (
            type(got).__name__, type(want).__name__))
    if depth > 6:
        return
    if isinstance(want, (list, tuple)):
        if len(got) != len(want):
            raise Different('%d items, should be %d' % (len(got), len(want)))
        for a, b in zip(got, want):
            compare(a, b, depth + 1)
        return
    if isinstance(want, dict) or type(want) is type({}.items()):
        return compare(list(dict(got).items()), list(dict(want).items()),
                       depth + 1)
    if type(want) is type({}.values()) or type(want) in ITERATORS:
        # not consumed: the next step of the chain may read them
        return
    if type(want) in (type({}.keys()), set, frozenset, decimal.Decimal) \
            or isinstance(want, BARE):
        if got != want and got == got:
            raise Different('%r, should be %r' % (got, want))
        return
    if callable(want) and hasattr(want, '__self__'):
        if got != want and not isinstance(want.__self__, Thing):
            raise Different('%r, should be %r' % (got, want))


def read(op, o):
    try:
        return 'ok', op.f(o)
    except Exception as e:
        return 'raise', e


def one(ctx, rng):
    kind, make = build(rng, rng.choice([1, 2, 3]))
    bare = make()
    proxy = ProxyFactory(make())
    chain = []
    for step in range(rng.choice([1, 2, 4])):
        if kind is None:
            return
        t = type(bare).__name__
        op = rng.choice(operations(rng, kind, bare) + ALWAYS[:1 + step % 6])
        chain.append('%s of %s' % (op.name, t))
        got, want = read(op, proxy), read(op, bare)
        ctx.count('read')
        ctx.count('read_' + kind)
        ctx.seen((t, op.name.partition('(')[0], want[0],
                  type(want[1]).__name__))
        key = '%s-%s' % (t, op.name.partition('(')[0])
        if got[0] != want[0]:
            return ctx.fail(key, '%s: %s %r, without the proxy %s %r' % (
                ', then '.join(chain), *got, *want))
        if got[0] == 'raise':
            ctx.count('raised')
            if type(got[1]) is not type(want[1]):
                ctx.fail(key, '%s: raised %r, without the proxy %r' % (
                    ', then '.join(chain), got[1], want[1]))
            return
        if op.name in ('repr()', 'str()', 'hash()') and \
                removeSecurityProxy(proxy) is not bare:
            return      # with the addresses of two objects
        try:
            compare(got[1], want[1])
        except Different as e:
            return ctx.fail(key, '%s: %s' % (', then '.join(chain), e))
        proxy, bare = got[1], want[1]
        if isinstance(proxy, (list, tuple)) and proxy:
            # items of what the loop collected
            i = rng.randrange(len(proxy))
            if len(bare) != len(proxy):
                return
            proxy, bare = proxy[i], bare[i]
        if not is_proxy(proxy):
            return
        kind = kind_of(bare)
        if kind == 'iterator' and removeSecurityProxy(proxy) is bare:
            return      # there is only one to be read
        ctx.count('deeper')


def run(ctx):
    M.endInteraction()
    for i, rng in ctx.cases('readings', 20000, 400000):
        with ctx.case():
            one(ctx, rng)
