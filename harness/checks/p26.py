"""P26: the public permission is one object, and nothing else is it.

Structures with CheckerPublic in them are copied and pickled by all means, and
what comes out must have the very same object in the same places; impostors of
all kinds in its place must not make anything public."""
import copy
import copyreg
import io
import pickle
import types

from common import *  # noqa
import zope.proxy
from zope.security import management as M
from zope.security import protectclass as PC
from zope.security import simplepolicies as SP
from zope.security.interfaces import PUBLIC_PERMISSION_NAME


class Holder:
    """Something with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __eq__(self, other):
        return type(other) is Holder and self.__dict__ == other.__dict__
    __hash__ = None


class Slotted:
    __slots__ = ('a', 'b')

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __getstate__(self):
        return self.a, self.b

    def __setstate__(self, state):
        self.a, self.b = state


def structure(rng, depth=0, sets=True):
    """(something with the public permission in it, a path to each)"""
    r = rng.randrange(9) if depth < 4 else 0
    if r == 0 or r == 1 and depth:
        return CheckerPublic
    n = rng.randrange(1, 4)
    parts = [structure(rng, depth + 1, sets) if rng.random() < .7 else
             rng.choice([1, 'zope.Public', 'p', None, 'CheckerPublic'])
             for i in range(n)]
    if r == 1 or r == 2 or r == 8 and not sets:
        return parts
    if r == 3:
        return tuple(parts)
    if r == 4:
        return {'n%d' % i: p for i, p in enumerate(parts)}
    if r == 5:
        return Holder(**{'n%d' % i: p for i, p in enumerate(parts)})
    if r == 6:
        return Slotted(parts[0], parts[-1])
    if r == 7:
        return {CheckerPublic: parts, 'x': 1}
    s = {CheckerPublic, 'p'}
    return [s, frozenset(s)] + parts


def same(a, b, path=''):
    """Where two structures differ; the public permission by identity."""
    if a is CheckerPublic or b is CheckerPublic:
        return None if a is b else (path, b)
    if type(a) is not type(b):
        return path, b
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return path, b
        pairs = list(zip(range(len(a)), a, b))
    elif isinstance(a, dict):
        ka = {k: k for k in b}
        for k in a:
            if k not in ka or k is CheckerPublic and ka[k] is not k:
                return '%s key' % path, ka.get(k)
        if len(a) != len(b):
            return path, b
        pairs = [(k, v, b[k]) for k, v in a.items()]
    elif isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return path, b
        if sum(x is CheckerPublic for x in a) != \
                sum(x is CheckerPublic for x in b):
            return path + ' member', b
        return None
    elif isinstance(a, Holder):
        return same(a.__dict__, b.__dict__, path + '.')
    elif isinstance(a, Slotted):
        pairs = [(n, getattr(a, n), getattr(b, n)) for n in 'ab']
    else:
        return None if a == b else (path, b)
    for k, x, y in pairs:
        d = same(x, y, '%s[%s]' % (path, '*' if is_proxy(k) else k))
        if d is not None:
            return d
    return None


def py_dumps(protocol):
    def f(x):
        out = io.BytesIO()
        pickle._Pickler(out, protocol).dump(x)
        return pickle.loads(out.getvalue())
    return f


def c_py(protocol):
    return lambda x: pickle._loads(pickle.dumps(x, protocol))


def twice(protocol):
    """One pickler for several objects."""
    def f(x):
        out = io.BytesIO()
        p = pickle.Pickler(out, protocol)
        p.dump(CheckerPublic)
        p.dump(x)
        p.dump(CheckerPublic)
        out.seek(0)
        u = pickle.Unpickler(out)
        first, got, last = u.load(), u.load(), u.load()
        if first is not CheckerPublic or last is not CheckerPublic:
            return first, last
        return got
    return f


WAYS = {'copy': copy.copy, 'deepcopy': copy.deepcopy,
        'deepcopy twice': lambda x: copy.deepcopy([x, x])[1]}
for _n in range(pickle.HIGHEST_PROTOCOL + 1):
    WAYS['pickle%d' % _n] = lambda x, n=_n: pickle.loads(pickle.dumps(x, n))
    WAYS['_pickle%d' % _n] = py_dumps(_n)
    WAYS['pickle to _pickle%d' % _n] = c_py(_n)
    WAYS['picklers%d' % _n] = twice(_n)


def copies(ctx, rng):
    x = structure(rng)
    table = rng.random() < .3
    if table:
        # What checkers are made of.
        c = Z.Checker({'a': CheckerPublic, 'b': 'p', 'c': x},
                      {'a': CheckerPublic})
        x = [c.get_permissions, c.set_permissions]
    for name, f in WAYS.items():
        how, got = outcome(f, x)
        ctx.count('copies')
        ctx.seen((name, repr(type(removeSecurityProxy(x))), digest(x)))
        if how != 'ok':
            ctx.fail('copy-raises', '%s of %s raised %r' % (
                name, show(x), got))
            continue
        d = same(x, got)
        if d is not None:
            ctx.fail('copied-' + ''.join(c for c in name if c.isalpha()),
                     '%s of %s gave %s at %r' % (
                         name, show(x), show(d[1]), d[0]))
            continue
        if table:
            # It still is public there.
            c = Z.Checker(*got)
            how, e = outcome(c.check, object(), 'a')
            if how != 'ok' or outcome(c.check_setattr, 1, 'a')[0] != 'ok':
                ctx.fail('not-public', 'after %s: %r' % (name, e))
            ctx.count('tables')
    # What comes by way of proxies.
    p = ProxyFactory(x)
    todo = [(x, p)]
    while todo:
        a, b = todo.pop()
        if a is CheckerPublic:
            ctx.count('proxied')
            if b is not a:
                ctx.fail('proxied', 'comes as %s' % show(b))
            if ProxyFactory(a) is not a or Z.Checker({}).proxy(a) is not a:
                ctx.fail('proxied', 'is proxied again')
        elif isinstance(a, (list, tuple)):
            todo += zip(a, b)
        elif isinstance(a, dict):
            todo += [(a[k], b[k]) for k in a]
            for k in b:
                if is_proxy(k) and k is not CheckerPublic:
                    ctx.fail('proxied', 'comes as a key %s' % show(k))


def show(x, depth=3):
    if x is CheckerPublic:
        return 'Public'
    if is_proxy(x):
        return 'another proxy of %s' % show(getObject(x))
    if isinstance(x, (list, tuple)) and depth:
        return '%s(%s)' % (type(x).__name__, ', '.join(
            show(y, depth - 1) for y in x))
    if isinstance(x, dict) and depth:
        return '{%s}' % ', '.join('%s: %s' % (
            show(k, 1), show(v, depth - 1)) for k, v in x.items())
    if type(x) in (int, str, type(None)):
        return repr(x)
    return type(x).__name__


def digest(x):
    return show(x, 6)


class Same(str):
    """Equal to everything, or nearly."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False
    __hash__ = str.__hash__


class Alike:
    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash(CheckerPublic)

    def __repr__(self):
        return repr(CheckerPublic)
    __name__ = 'CheckerPublic'


class Unequal(Alike):
    def __bool__(self):
        return False


BARE = getObject(CheckerPublic)


def impostor(rng):
    """Not the public permission."""
    k = rng.randrange(16)
    if k < 4:
        # Strings with a meaning elsewhere.
        return rng.choice([
            'zope.Public', 'CheckerPublic', 'Public', 'public', '', 'None',
            'zope.security.checker.CheckerPublic', 'Zope.Public',
            'zope.Public ', repr(BARE), str(CheckerPublic)])
    if k == 4:
        return BARE
    if k == 5:
        return Z.Global('CheckerPublic', 'zope.security.checker')
    if k == 6:
        return Proxy(BARE, getChecker(CheckerPublic))
    if k == 7:
        return Proxy(CheckerPublic, getChecker(CheckerPublic))
    if k == 8:
        return Alike()
    if k == 9:
        return Unequal()
    if k == 10:
        return zope.proxy.ProxyBase(CheckerPublic)
    if k == 11:
        return Same('zope.Public')
    if k == 12:
        return rng.choice([0, False, True, 1, (), [], {}, 0.0, b''])
    if k == 13:
        return (CheckerPublic,)
    if k == 14:
        return Proxy(Z.Global('CheckerPublic', 'zope.security.checker'),
                     Z.Checker({}))
    return object()


class Asked:
    participations = ()

    def __init__(self, answer):
        self.answer = answer
        self.seen = []

    def checkPermission(self, permission, obj):
        self.seen.append((permission, obj))
        return self.answer


class Target:
    a = 1
    n = None


class Participation:
    principal = 'someone'
    interaction = None


def impostors(ctx, rng):
    p = impostor(rng)
    if p is CheckerPublic:
        return
    answer = rng.random() < .5
    i = Asked(answer)
    M.thread_local.interaction = i
    try:
        o = Target()
        d = {'a': p}
        make = rng.choice(['dict', 'names', 'combined', 'multi', 'odd'])
        if make == 'dict':
            c = Z.Checker(d, d)
        elif make == 'names':
            c = Z.NamesChecker(['a'], p)
            c = Z.Checker(c.get_permissions, c.get_permissions)
        elif make == 'combined':
            c = Z.CombinedChecker(Z.Checker({}, {}), Z.Checker(d, d))
        elif make == 'multi':
            c = Z.MultiChecker([(['a'], p)])
            c = Z.Checker(c.get_permissions, c.get_permissions)
        else:
            c = odd_checker(rng, d, d)
        proxy = Proxy(o, c)
        way = rng.choice([
            ('check', lambda: c.check(o, 'a')),
            ('getattr', lambda: c.check_getattr(o, 'a')),
            ('setattr', lambda: c.check_setattr(o, 'a')),
            ('read', lambda: proxy.a), ('write', lambda: setattr(proxy, 'a', 2)),
            ('can', lambda: Z.canAccess(proxy, 'a')),
            ('may', lambda: Z.canWrite(proxy, 'a')),
            ('manage', lambda: M.checkPermission(p, o)),
            ('manage2', lambda: M.checkPermission(p, o, i)),
        ])
        how, got = outcome(way[1])
        what = '%s for %s in a %s checker' % (way[0], show(p), make)
        ctx.count('impostors')
        ctx.seen((way[0], make, show(p), answer, type(p).__name__))
        if len(i.seen) != 1 or i.seen[0][0] is not p or i.seen[0][1] is not o:
            ctx.fail('not-asked', '%s: the interaction was asked %d times' % (
                what, len(i.seen)))
        allowed = how == 'ok' and got is not False
        if allowed != answer:
            ctx.fail('decision', '%s: %s %r, the interaction says %r' % (
                what, how, got, answer))
        if how == 'raise' and not (isinstance(got, Unauthorized)
                                   and got.args[2] is p):
            ctx.fail('exception', '%s: %r' % (what, got))
        # The policies know it, too.
        paranoid = SP.ParanoidSecurityPolicy(Participation())
        if paranoid.checkPermission(p, o):
            ctx.fail('policy', 'the policy takes %s for public' % show(p))
        if not paranoid.checkPermission(CheckerPublic, o):
            ctx.fail('policy', 'the policy denies the public permission')
        # Only the one id is translated by declarations.
        if isinstance(p, str) and not isinstance(p, Same):
            k = type('K', (), {})
            for f, t in ((PC.protectName, 'get_permissions'),
                         (PC.protectSetAttribute, 'set_permissions')):
                f(k, 'a', p)
                got = getattr(Z.getCheckerForInstancesOf(k), t)['a']
                want = CheckerPublic if p == PUBLIC_PERMISSION_NAME else p
                if got is not want:
                    ctx.fail('translated', '%r became %s' % (p, show(got)))
            Z.undefineChecker(k)
            ctx.count('translated')
    finally:
        del M.thread_local.interaction


def markers(ctx, rng):
    """Other globals are pickled by name, too."""
    name = 'Marker%d' % rng.randrange(1000)
    module = types.ModuleType('vz_markers')
    g = Z.Global(name, 'vz_markers')
    value = rng.choice([g, Proxy(g, getChecker(CheckerPublic))])
    setattr(module, name, value)
    import sys
    sys.modules['vz_markers'] = module
    try:
        for w, f in WAYS.items():
            how, got = outcome(f, [value, CheckerPublic])
            ctx.count('markers')
            if how != 'ok' or got[0] is not value or \
                    got[1] is not CheckerPublic:
                ctx.fail('marker', '%s of a marker: %s %s' % (
                    w, how, show(got)))
    finally:
        del sys.modules['vz_markers']


def run(ctx):
    ctx.transcripts = {}
    for i, rng in ctx.cases('copies', 1200, 24000):
        with ctx.case():
            copies(ctx, rng)
    for i, rng in ctx.cases('impostors', 12000, 240000):
        with ctx.case():
            impostors(ctx, rng)
    for i, rng in ctx.cases('markers', 200, 2000):
        with ctx.case():
            markers(ctx, rng)
    # Each implementation reads what the other one writes.
    for i, rng in ctx.cases('written', 200, 200, same=True):
        with ctx.case():
            # (the order of sets is that of addresses)
            x = structure(rng, sets=False)
            for n in range(pickle.HIGHEST_PROTOCOL + 1):
                how, got = outcome(pickle.dumps, x, n)
                ctx.transcripts['written/%d/%d' % (i, n)] = [
                    how, got.hex() if how == 'ok' else repr(got)]
