"""P07: canAccess and canWrite predict the access."""
from common import *  # noqa


class Boom(Exception):
    pass


TOUCHED = []


class Obj:
    """Notices when an attribute is touched."""

    def __getattribute__(self, name):
        if name not in ('__Security_checker__', '__class__', '__dict__',
                        '__iter__', '__getitem__'):
            TOUCHED.append(name)
        return object.__getattribute__(self, name)

    def __setattr__(self, name, value):
        TOUCHED.append(name)

    def __delattr__(self, name):
        TOUCHED.append(name)


class IterObj(Obj):
    def __iter__(self):
        TOUCHED.append('__iter__ called')
        return iter(())


class SeqObj(Obj):
    def __getitem__(self, i):
        TOUCHED.append('__getitem__ called')
        raise IndexError


class SubForbidden(ForbiddenAttribute):
    pass


class SubUnauthorized(Unauthorized):
    pass


class Custom:
    """A checker that does as planned."""

    def __init__(self, plan, seen):
        self.plan = plan
        self.seen = seen

    def _do(self, kind, obj, name):
        self.seen.append((kind, obj, name))
        what = self.plan.get((kind, name))
        if what is not None:
            raise what

    def check(self, obj, name):
        self._do('get', obj, name)
    check_getattr = check

    def check_setattr(self, obj, name):
        self._do('set', obj, name)

    def proxy(self, value):
        return value


def random_exc(rng, name, obj):
    return rng.choice([
        lambda: ForbiddenAttribute(name, obj),
        lambda: ForbiddenAttribute(name, obj),
        lambda: Unauthorized(obj, name, 'p'),
        lambda: Unauthorized(obj, name, 'p'),
        lambda: SubForbidden(name, obj), lambda: SubUnauthorized(name),
        lambda: Forbidden(name), lambda: Boom(name),
        lambda: AttributeError(name), lambda: ValueError(name),
        lambda: KeyError(name), lambda: TypeError(name)])()


def classify(how, e):
    if how == 'ok':
        return 'ok'
    if isinstance(e, Unauthorized):
        return 'unauthorized'
    if isinstance(e, ForbiddenAttribute):
        return 'forbidden'
    return 'error'


def one(ctx, rng):
    cls = type('Thing', (rng.choice([Obj, Obj, IterObj, SeqObj]),), {})
    obj = cls()
    names = [random_name(rng) for _ in range(4)] + ['__iter__', '__len__',
                                                    '__class__', '__name__']
    seen = []
    boom = Boom('interaction')
    grants = {}

    def decide(permission, object):
        seen.append(('ask', object, permission))
        g = grants.get(permission, True)
        if g is None:
            raise boom
        return g
    set_interaction(Interaction(decide))
    for i in range(4):
        grants['p%d' % i] = rng.choice([True, True, False, False, None])
    kind = rng.choice(['tables', 'tables', 'tables', 'combined', 'custom'])

    def table():
        return {n: rng.choice([CheckerPublic, 'p0', 'p1', 'p2', 'p3', None])
                for n in names if rng.random() < .7}
    plan = {}
    if kind == 'tables':
        checker = Z.Checker(table(), table())
    elif kind == 'combined':
        checker = Z.CombinedChecker(Z.Checker(table(), table()),
                                    Z.Checker(table(), table()))
    else:
        for k in ('get', 'set'):
            for n in names:
                if rng.random() < .6:
                    plan[k, n] = random_exc(rng, n, obj)
        checker = Custom(plan, seen)
    how = rng.choice(['defined', 'declared', 'proxied', 'proxied', 'factory'])
    decoy = Z.Checker({n: CheckerPublic for n in names if rng.random() < .5},
                      {})
    defined = False
    if how == 'defined' and kind != 'custom':
        Z.defineChecker(cls, checker)
        defined = True
        target = obj
    elif how == 'factory':
        Z.defineChecker(cls, lambda o, c=checker: Z.Checker({}, {})
                        if o is not obj else c) \
            if kind != 'custom' else None
        if kind == 'custom':
            cls.__Security_checker__ = checker
        else:
            defined = True
        target = obj
    elif how == 'proxied':
        if rng.random() < .5:
            # the checker of the proxy counts, not the declared one
            cls.__Security_checker__ = decoy
        target = Proxy(obj, checker)
    else:
        cls.__Security_checker__ = checker
        target = obj
    try:
        proxied = Z.ProxyFactory(target)
        for name in names + [random_name(rng)]:
            for t in (target, proxied):
                compare(ctx, rng, t, obj, checker, name, seen, kind, how)
    finally:
        if defined:
            Z.undefineChecker(cls)
        clear_interaction()


def compare(ctx, rng, target, obj, checker, name, seen, kind, how):
    # what the check of an actual access does
    del seen[:]
    read = outcome(checker.check_getattr, obj, name)
    read_asked = list(seen)
    del seen[:]
    write = outcome(checker.check_setattr, obj, name)
    write_asked = list(seen)
    r, w = classify(*read), classify(*write)
    desc = '%r on a %s %s (%s, %s): reading %s, writing %s' % (
        name[:40], 'proxied' if is_proxy(target) else 'bare', how, kind,
        type(obj).__mro__[1].__name__, r, w)

    def bad(key, msg):
        ctx.fail(key, '%s: %s' % (desc, msg))

    def same(a, b):
        return type(a) is type(b) and a.args == b.args

    # canAccess
    del seen[:]
    del TOUCHED[:]
    got = outcome(Z.canAccess, target, name)
    asked = list(seen)
    ctx.count('can_access')
    ctx.seen(('access', r, kind, how, is_proxy(target), name[:30], got[0]))
    if len(asked) != len(read_asked) or any(
            a[1] is not b[1] or a[2] is not b[2]
            for a, b in zip(asked, read_asked)):
        bad('access-asked', 'canAccess asked otherwise')
    if r == 'ok':
        if got != ('ok', True):
            bad('access', 'canAccess: %r' % (got,))
    elif r == 'unauthorized':
        if got != ('ok', False):
            bad('access', 'canAccess: %r' % (got,))
    elif got[0] != 'raise' or not same(got[1], read[1]):
        bad('access', 'canAccess: %r, reading raises %r' % (got, read))
    # canWrite
    del seen[:]
    got = outcome(Z.canWrite, target, name)
    asked = list(seen)
    ctx.count('can_write')
    ctx.seen(('write', r, w, kind, how, is_proxy(target), name[:30], got[0]))
    exp = write_asked + (read_asked if w == 'forbidden' else [])
    if len(asked) != len(exp) or any(
            a[1] is not b[1] or a[2] is not b[2] for a, b in zip(asked, exp)):
        bad('write-asked', 'canWrite asked otherwise')
    if w == 'ok':
        if got != ('ok', True):
            bad('write', 'canWrite: %r' % (got,))
    elif w == 'unauthorized':
        if got != ('ok', False):
            bad('write', 'canWrite: %r' % (got,))
    elif w == 'forbidden':
        ctx.count('write_forbidden_' + r)
        if r in ('ok', 'unauthorized'):
            if got != ('ok', False):
                bad('write-readonly', 'canWrite: %r' % (got,))
        elif got[0] != 'raise' or not same(got[1], read[1]):
            bad('write-both', 'canWrite: %r' % (got,))
    elif got[0] != 'raise' or not same(got[1], write[1]):
        bad('write-error', 'canWrite: %r, writing raises %r' % (got, write))
    if TOUCHED:
        bad('touched', 'the object was touched: %r' % TOUCHED)
        del TOUCHED[:]
    # the real thing
    if rng.random() < .3:
        p = Z.ProxyFactory(target)
        actual = outcome(setattr, p, name, 1) if name not in (
            '_wrapped', '_checker') or not _pure(ctx) else write
        if (actual[0] == 'ok') != (w == 'ok') or w != 'ok' and type(
                actual[1]) is not type(write[1]):
            bad('actual', 'setting it: %r' % (actual,))
        del TOUCHED[:]


def _pure(ctx):
    return ctx.pure


def run(ctx):
    for i, rng in ctx.cases('random', 3000, 100000):
        with ctx.case():
            one(ctx, rng)
