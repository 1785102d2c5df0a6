"""P05: proxies keep the identity of object and checker."""
import decimal
import types

from common import *  # noqa
from zope.proxy import ProxyBase

pisinstance = PX.isinstance


class A:
    pass


class B(A):
    pass


class Liar:
    @property
    def __class__(self):
        return A


class Falsy:
    def __bool__(self):
        return False


class NoBool:
    def __bool__(self):
        raise ValueError('no truth')


class NoHash:
    __hash__ = None

    def __eq__(self, other):
        return self is other


class BadHash:
    def __hash__(self):
        raise KeyError('no hash')


class EqAll:
    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Num:
    def __init__(self, n):
        self.n = n

    def _o(self, other):
        return other.n if type(other) is Num else other

    def __eq__(self, other):
        return self.n == self._o(other)

    def __ne__(self, other):
        return self.n != self._o(other)

    def __lt__(self, other):
        return self.n < self._o(other)

    def __le__(self, other):
        return self.n <= self._o(other)

    def __gt__(self, other):
        return self.n > self._o(other)

    def __ge__(self, other):
        return self.n >= self._o(other)

    def __hash__(self):
        return hash(self.n)


class Declared:
    pass


class Meta(type):
    def __instancecheck__(cls, inst):
        return type(inst) is B


class Abstract(metaclass=Meta):
    pass


class Sec:
    """Objects that look as if they were proxies."""
    __Security_checker__ = Z.NamesChecker(['x'])
    _wrapped = 1
    _checker = 2


class SubProxy(Proxy):
    """Proxies may be subclassed."""


class SlotProxy(SubProxy):
    __slots__ = ()


class LikeProxy(ProxyBase):
    pass


MAKERS = [A, B, Liar, Falsy, NoBool, NoHash, BadHash, EqAll,
          lambda: Num(3), lambda: Num(-1), Declared, Sec,
          lambda: LikeProxy(A()), lambda: 5, lambda: 0, lambda: 'text',
          lambda: '', lambda: None, lambda: True, lambda: 2.5,
          lambda: [], lambda: [1, 2], dict, lambda: {1: 2}, tuple,
          lambda: (1, 2), set, lambda: A, lambda: type, lambda: len,
          lambda: types.ModuleType('m'), lambda: decimal.Decimal('1.5'),
          lambda: (i for i in ()), object, lambda: NotImplemented,
          lambda: Z.Checker({}, {}), lambda: Z.NoProxy, lambda: Proxy,
          lambda: PX, lambda: float('nan'), lambda: 10**30,
          lambda: frozenset([1])]
CLASSES = [A, B, Liar, Falsy, Num, int, bool, str, list, dict, tuple, set,
           object, type, float, Declared, Sec, Abstract, types.ModuleType,
           (A, int), (), ((str, (B,)), list), types.FunctionType,
           NoHash, EqAll, ProxyBase, LikeProxy, type(None)]


class FalsyChecker(Z.Checker):
    def __bool__(self):
        return False


class EqChecker(Z.Checker):
    def __eq__(self, other):
        return True
    __hash__ = None


class Duck:
    """A checker that is none of ours."""
    def __init__(self, result=None):
        self.result = result

    def check(self, object, name):
        pass
    check_getattr = check_setattr = check

    def proxy(self, value):
        return value


def random_checker(rng):
    k = rng.randrange(7)
    if k == 0:
        return Z.Checker({}, {})
    if k == 1:
        return Z.NamesChecker(['a', '__call__'])
    if k == 2:
        return FalsyChecker({}, {})
    if k == 3:
        return EqChecker({}, {})
    if k == 4:
        return Duck()
    if k == 5:
        return Z.CombinedChecker(Z.Checker({}), Z.Checker({}))
    return rng.choice([0, '', (), [], False, 'checker', 1.5, len, Duck])


def same_outcome(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'raise':
        return type(a[1]) is type(b[1])
    x, y = a[1], b[1]
    return x is y or (type(x) is type(y) and (x == y or x != x))


def ask(f, *args):
    """Like outcome, with unproxied results."""
    how, v = outcome(f, *args)
    if how == 'ok' and is_proxy(v):
        v = getObject(v)
    return how, v


def one(ctx, rng):
    live = []       # (proxy, object, checker): what must stay true
    for step in range(rng.randrange(4, 30)):
        r = rng.random()
        if r < .35 or not live:
            obj = rng.choice(MAKERS)()
            checker = random_checker(rng)
            k = rng.random()
            if k < .4:
                p = Proxy(obj, checker)
                route = 'Proxy'
            elif k < .55:
                p = rng.choice([SubProxy, SlotProxy])(obj, checker)
                route = 'SubProxy'
                ctx.count('subclassed')
            else:
                p = Z.ProxyFactory(obj, checker)
                route = 'ProxyFactory'
            if not is_proxy(p):
                ctx.fail('not-proxied', '%s(%r, %r) gave %r' % (
                    route, type(obj), checker, type(p)))
                continue
            live.append((p, obj, checker))
            ctx.seen(('make', route, type(obj).__name__,
                      type(checker).__name__))
            ctx.count('made')
        elif r < .6:
            reproxy(ctx, rng, *rng.choice(live))
        elif r < .7:
            # a proxy of a proxy, made on purpose
            p, obj, checker = rng.choice(live)
            c2 = random_checker(rng)
            pp = Proxy(p, c2)
            live.append((pp, p, c2))
            ctx.count('nested')
            ctx.seen(('nest', type(obj).__name__, type(c2).__name__))
        elif r < .75 and len(live) > 1:
            live.pop(rng.randrange(len(live)))
        elif r < .9:
            transparent(ctx, rng, *rng.choice(live),
                        other=rng.choice(live))
        else:
            none(ctx, rng)
        for p, obj, checker in live:
            ctx.count('identities')
            if getObject(p) is not obj:
                ctx.fail('object', 'the proxy of a %s gave another object'
                         % type(obj).__name__)
            if getChecker(p) is not checker:
                ctx.fail('checker', 'a proxy of a %s gave another checker'
                         % type(obj).__name__)
            if removeSecurityProxy(p) is not obj:
                ctx.fail('remove', 'removeSecurityProxy: another object')


def reproxy(ctx, rng, p, obj, checker):
    k = rng.randrange(6)
    tag = 'ProxyFactory of a proxy of %s with %s' % (
        type(obj).__name__, type(checker).__name__)
    ctx.count('reproxied')
    ctx.seen(('reproxy', k, type(obj).__name__, type(checker).__name__))
    if k == 0:
        got = outcome(Z.ProxyFactory, p)
        if got[0] != 'ok' or got[1] is not p:
            ctx.fail('reproxy', '%s: %r' % (tag, got))
    elif k == 1:
        got = outcome(Z.ProxyFactory, p, checker)
        if got[0] != 'ok' or got[1] is not p:
            ctx.fail('reproxy-same', '%s and the same checker: %r'
                     % (tag, got))
    elif k == 2:
        other = rng.choice([Z.Checker({}, {}), EqChecker({}, {}),
                            FalsyChecker({}, {}), Duck(), [], ()])
        if other is checker:
            return
        got = outcome(Z.ProxyFactory, p, other)
        if got[0] != 'raise' or type(got[1]) is not TypeError:
            ctx.fail('reproxy-change', '%s and another checker: %r'
                     % (tag, got))
    elif k == 3:
        for c in (Z.Checker({}, {}), Z.CombinedChecker(
                Z.Checker({}), Z.Checker({}))):
            got = outcome(c.proxy, p)
            if got[0] != 'ok' or got[1] is not p:
                ctx.fail('reproxy-checker', 'Checker.proxy of a proxy: %r'
                         % (got,))
    elif k == 4:
        class H:
            pass
        h = H()
        h.v = p
        q = Proxy(h, Z.NamesChecker(['v', '__getitem__', '__call__']))
        if q.v is not p:
            ctx.fail('reproxy-attr', 'a proxied attribute got another layer')
        if Proxy([p], Z.NamesChecker(['__getitem__']))[0] is not p:
            ctx.fail('reproxy-item', 'a proxied item got another layer')
    else:
        for bare in (obj,):
            if not is_proxy(bare):
                if removeSecurityProxy(bare) is not bare \
                        or getObject(bare) is not bare:
                    ctx.fail('unproxy-bare', 'unproxying a bare %s gave '
                             'something else' % type(bare).__name__)
                how, e = outcome(getChecker, bare)
                if how == 'ok':
                    ctx.fail('checker-bare', 'getChecker of a bare %s gave %r'
                             % (type(bare).__name__, e))


def transparent(ctx, rng, p, obj, checker, other):
    """isinstance, hash, comparison and truth value are those of the object"""
    if is_proxy(obj):
        return
    k = rng.randrange(5)
    ctx.count('transparent')
    if k == 0:
        if type(checker) not in (Duck, Z.Checker) or \
                '__class__' not in ALWAYS_READABLE:
            pass
        for cls in rng.sample(CLASSES, 5):
            a = outcome(pisinstance, p, cls)
            b = outcome(isinstance, obj, cls)
            ctx.seen(('isinstance', type(obj).__name__, str(cls)))
            if not same_outcome(a, b):
                ctx.fail('isinstance', 'isinstance(proxy of %s, %s): %r, '
                         'without the proxy %r' % (type(obj), cls, a, b))
            a = outcome(pisinstance, obj, cls)
            if not same_outcome(a, b):
                ctx.fail('isinstance-bare', 'isinstance(%s, %s): %r, '
                         'builtin %r' % (type(obj), cls, a, b))
        return
    if k == 1:
        a, b = outcome(hash, p), outcome(hash, obj)
        ctx.seen(('hash', type(obj).__name__, b[0]))
        if not same_outcome(a, b):
            ctx.fail('hash', 'hash of a proxied %s: %r, bare %r'
                     % (type(obj).__name__, a, b))
        return
    if k == 2:
        for f in (bool, lambda v: not v, lambda v: 1 if v else 2):
            a, b = outcome(f, p), outcome(f, obj)
            ctx.seen(('bool', type(obj).__name__, b[0]))
            if not same_outcome(a, b):
                ctx.fail('bool', 'truth of a proxied %s: %r, bare %r'
                         % (type(obj).__name__, a, b))
        return
    if k == 3:
        other = rng.choice([other[1], rng.choice(MAKERS)(), obj, 3, 2.5, ''])
        if is_proxy(other):
            return
        if not callable(getattr(type(checker), 'proxy', None)):
            return      # no checker: cannot judge results
        for name, f in COMPARE.items():
            a, b = ask(f, p, other), outcome(f, obj, other)
            ctx.seen(('compare', name, type(obj).__name__,
                      type(other).__name__, b[0]))
            if not same_outcome(a, b):
                ctx.fail('compare', '%s of a proxied %s and %s: %r, bare %r'
                         % (name, type(obj).__name__, type(other).__name__,
                            a, b))
            a, b = ask(f, other, p), outcome(f, other, obj)
            if type(other) in (int, float, str, Num, A, B, list, tuple) and \
                    type(obj) in (int, float, str, A, B, list,
                                  decimal.Decimal):
                if type(other) is Num or type(obj) is Num:
                    continue
                if not same_outcome(a, b):
                    ctx.fail('compare-reflected', '%s of %s and a proxied %s:'
                             ' %r, bare %r' % (
                                 name, type(other).__name__,
                                 type(obj).__name__, a, b))
        return
    # as keys
    how, h = outcome(hash, obj)
    if how != 'ok' or obj != obj or type(obj) in (EqAll, decimal.Decimal):
        return
    if not callable(getattr(type(checker), 'proxy', None)):
        return
    d = {obj: 'found'}
    ctx.seen(('key', type(obj).__name__))
    got = outcome(d.get, p)
    if got != ('ok', 'found'):
        ctx.fail('key', 'a proxied %s as a key: %r' % (
            type(obj).__name__, got))
    d = {p: 'found'}
    got = outcome(d.get, obj)
    if got != ('ok', 'found'):
        ctx.fail('key', 'a bare %s for a key that is proxied: %r' % (
            type(obj).__name__, got))


def none(ctx, rng):
    """No proxy without a checker."""
    obj = rng.choice(MAKERS)()
    for args in ((obj, None), (obj,), ()):
        how, v = outcome(Proxy, *args)
        ctx.seen(('none', type(obj).__name__, len(args)))
        if how == 'ok':
            ctx.fail('no-checker', 'Proxy%r made a proxy' % (
                [type(a) for a in args],))
    if not isinstance(obj, (ProxyBase,)) and type(obj) not in (
            Liar,) and not is_proxy(obj):
        got = Z.ProxyFactory(obj, None)
        if is_proxy(got) and getChecker(got) is None:
            ctx.fail('no-checker', 'ProxyFactory made a proxy without one')


def run(ctx):
    for i, rng in ctx.cases('histories', 4000, 120000):
        with ctx.case():
            one(ctx, rng)
